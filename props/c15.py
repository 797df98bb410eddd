"""C15: histories of assignments to Ellipsoid objects."""

import numpy as np

from harness import ellipsoid_ref as ref
from harness.core import Property, close, fail, hm, raises, require, same, st
from harness.gens import fl, pick

PROP = Property(
    "C15", "An Ellipsoid always reflects its last valid assignment",
    rule="a case is a history of assignments (valid and invalid, of every attribute), reads and "
    "field evaluations on two ellipsoids alive at the same time; non-trivial when it has at least "
    "two effective assignments",
    technique="stateful model-based testing: a dictionary of current values is the model; fields "
    "of a new object built from it, a rotation matrix computed independently and the equation of "
    "the surface are the oracles",
)
AXES = ("a", "b", "c")
ANGLES = ("yaw", "pitch", "roll")
NUMBERS = {"float": float, "int": int, "f32": np.float32, "f64": np.float64, "i64": np.int64}


@st.composite
def number_st(draw, low, high):
    kind = draw(pick("float", "float", "int", "f64", "f32", "i64"))
    value = draw(fl(low, high))
    if kind in ("int", "i64"):
        value = max(1, round(value)) if low > 0 else round(value)
    return [kind, value]


MATRIX = st.lists(st.lists(fl(-0.5, 2), min_size=3, max_size=3), min_size=3, max_size=3)
VECTOR = st.lists(fl(-5, 5), min_size=3, max_size=3)


@st.composite
def op_st(draw):
    which = draw(pick(0, 0, 1))
    name = draw(pick("a", "b", "c", "yaw", "pitch", "roll", "center", "density",
                     "susceptibility", "susceptibility", "remanent_mag", "remanent_mag", "field",
                     "read", "surface"))
    op = {"on": which, "name": name, "valid": True}
    if name in ("field", "read", "surface"):
        return op
    op["valid"] = draw(pick(True, True, True, False)) or name in (*ANGLES, "center")
    if name in AXES:
        op["value"] = draw(number_st(0.1, 20)) if op["valid"] else draw(
            pick(["float", 0.0], ["float", -1.0], ["int", 0], ["int", -3], ["f64", -1e-9],
                 ["float", -1e300]))
    elif name in ANGLES:
        op["value"] = draw(number_st(-400, 400))
    elif name == "center":
        op["value"] = draw(VECTOR)
        op["as"] = draw(pick("tuple", "list", "array"))
    elif name == "density":
        op["value"] = draw(st.one_of(st.none(), number_st(-3000, 3000))) if op["valid"] else \
            draw(pick(["str", "2.0"], ["list", [1.0]], ["array", [1.0, 2.0]], ["complex", 1]))
    elif name == "susceptibility":
        op["value"] = draw(st.one_of(
            st.none(), number_st(0, 3), st.tuples(st.just("array"), MATRIX).map(list))) \
            if op["valid"] else draw(pick(
                ["array", [1.0, 2.0, 3.0]], ["array", [[1.0, 2.0], [3.0, 4.0]]], ["array", 1.0],
                ["array", [[[0.1]]]], ["array", [[0.0] * 3] * 2], ["array", [[0.0] * 4] * 3],
                ["str", "0.1"], ["complex", 1], ["dict", 0], ["array", []]))
    else:
        op["value"] = draw(st.one_of(st.none(), st.tuples(pick("array", "list", "tuple"), VECTOR)
                                     .map(list))) if op["valid"] else draw(pick(
            ["array", [1.0, 2.0]], ["list", [1.0, 2.0]], ["tuple", [1.0] * 4], ["array", 1.0],
            ["array", [[1.0, 2.0, 3.0]]], ["list", [[1.0], [2.0], [3.0]]], ["float", 1.0],
            ["int", 3], ["dict", 0], ["list", []]))
    return op


def build(value, kind=None):
    """The Python object of a described value."""
    if value is None:
        return None
    kind, v = (kind, value) if kind else value
    if kind in NUMBERS:
        return NUMBERS[kind](v)
    return {"array": np.array, "list": list, "tuple": tuple, "str": str,
            "complex": lambda x: 1j * x, "dict": lambda x: {"x": x}}[kind](v)


def matches(actual, expected, what):
    if expected is None:
        require(actual is None, f"{what} reads {actual!r} after it was set to None")
    elif np.ndim(expected):
        close(actual, expected, what, rtol=0)
    else:
        require(np.ndim(actual) == 0 and actual == expected,
                f"{what} reads {actual!r} after it was set to {expected!r}")


def check_attributes(body, model, what):
    for name, value in model.items():
        matches(getattr(body, name), value, f"{what}: {name}")
    close(body.rotation_matrix,
          ref.rotation(*(float(model[k]) for k in ANGLES)), f"{what}: rotation_matrix",
          rtol=0, atol=1e-12)
    text, rep = str(body), repr(body)
    for k in AXES:
        require(f"{k}: " in text and f"{float(model[k])} m" in text, f"{what}: str() is {text!r}")
        require(f"{k}={float(model[k])}" in rep, f"{what}: repr() is {rep!r}")
    for k in ANGLES:
        require(f"{k}={float(model[k])}" in rep, f"{what}: repr() is {rep!r}")
    for k in ("density", "susceptibility", "remanent_mag"):
        require((k in text) == (model[k] is not None) == (k in rep),
                f"{what}: {k} = {model[k]} and str() is {text!r}, repr() is {rep!r}")


OBS = (np.array([30.0, 0.1, -8.0, 3.0]), np.array([-20.0, 0.2, 9.0, 0.0]),
       np.array([5.0, -0.1, 3.0, 2.5]))
FIELD = (20000.0, 10000.0, -35000.0)


def fields(body, model):
    out = []
    if model["density"] is not None:
        out += list(hm.ellipsoid_gravity(OBS, body))
    if model["susceptibility"] is not None or model["remanent_mag"] is not None:
        out += list(hm.ellipsoid_magnetic(OBS, body, FIELD))
    return out


def surface(body, model, what):
    """Points satisfy the equation of the ellipsoid and reach its tips."""
    pts = np.array(body.get_surface(lon_size=9, lat_size=5))
    require(pts.shape == (3, 5, 9), f"{what}: get_surface of shape {pts.shape}")
    rot = ref.rotation(*(float(model[k]) for k in ANGLES))
    axes = np.array([float(model[k]) for k in AXES])
    center = np.array(model["center"], float)
    local = rot.T @ (pts.reshape(3, -1) - center[:, None])
    level = np.sum((local / axes[:, None]) ** 2, axis=0)
    close(level, np.ones(45), f"{what}: equation of the surface", rtol=0,
          atol=1e-12 * (1 + np.abs(center).max() / axes.min()))
    reach = np.abs(local).max(axis=1)
    close(reach, axes, f"{what}: extent of the surface", rtol=0, atol=1e-11 * (axes.max() + 5))


def create(model):
    return hm.Ellipsoid(**model)


@st.composite
def history_st(draw):
    ops = draw(st.lists(op_st(), min_size=1, max_size=25))
    start = []
    for _ in range(2):
        start.append({
            **{k: draw(number_st(0.1, 20)) for k in AXES},
            **{k: draw(number_st(-400, 400)) for k in ANGLES if draw(st.booleans())},
            "center": draw(VECTOR), "density": draw(pick(None, ["float", 2670.0]))})
    return {"ops": ops, "start": start}


@PROP.clause("histories", history_st(), quick=1800, thorough=60000, jit=False, shards=2,
             rule="at least two effective assignments")
def histories(case, ctx):
    bodies, states = [], []
    for s in case["start"]:
        model = {k: build(v) if k not in ("center",) else tuple(v) for k, v in s.items()}
        bodies.append(create(model))
        for k in ANGLES:
            model.setdefault(k, 0.0)
        for k in ("susceptibility", "remanent_mag"):
            model.setdefault(k, None)
        states.append(model)
    effective = 0
    for k, op in enumerate(case["ops"]):
        body, model, name = bodies[op["on"]], states[op["on"]], op["name"]
        what = f"operation {k} ({name})"
        if name == "field":
            got, want = fields(body, model), fields(create(model), model)
            for x, y in zip(got, want):
                same(x, y, f"{what}: field differs from the one of a new ellipsoid")
            ctx.event("field")
        elif name == "surface":
            surface(body, model, what)
        elif name != "read":
            value = build(op["value"], op.get("as"))
            if op["valid"]:
                setattr(body, name, value)
                model[name] = np.array(value) if isinstance(value, (list, np.ndarray)) else value
                if name == "remanent_mag" and value is not None:
                    model[name] = np.array(value)
                effective += 1
            else:
                ctx.event(f"invalid {name}")
                try:
                    setattr(body, name, value)
                except (ValueError, TypeError):
                    pass
                else:
                    fail(f"{what}: accepted {value!r}, reads back {getattr(body, name)!r}")
                # the constructor rejects it too
                raises((ValueError, TypeError), lambda: create({**model, name: value}),
                       f"{what}: constructor with {value!r}")
        for j in range(2):
            check_attributes(bodies[j], states[j], f"{what}, ellipsoid {j}")
    ctx.trivial(effective < 2)
    for body, model in zip(bodies, states):
        for x, y in zip(fields(body, model), fields(create(model), model)):
            same(x, y, "final field differs from the one of a new ellipsoid")


@PROP.clause("rotation matrix", st.lists(
    st.one_of(pick(0.0, 90.0, -90.0, 180.0, 270.0, 360.0, 30.0), fl(-1000, 1000)),
    min_size=3, max_size=3), quick=600, thorough=20000, jit=False)
def rotation(case, ctx):
    yaw, pitch, roll = case
    m = hm.Ellipsoid(1, 2, 3, yaw=yaw, pitch=pitch, roll=roll).rotation_matrix
    close(m @ m.T, np.eye(3), "rotation matrix is orthogonal", rtol=0, atol=1e-13)
    close(np.linalg.det(m), 1.0, "rotation matrix is proper", rtol=1e-13)
    close(m, ref.rotation(yaw, pitch, roll), "rotation matrix", rtol=0, atol=1e-12)
    # pitch lifts the first axis; yaw takes it from easting towards northing
    close(m[:, 0], [np.cos(np.radians(yaw)) * np.cos(np.radians(pitch)),
                    np.sin(np.radians(yaw)) * np.cos(np.radians(pitch)),
                    np.sin(np.radians(pitch))], "direction of the first axis", rtol=0, atol=1e-12)
    ctx.trivial(yaw % 90 == 0 and pitch % 90 == 0 and roll % 90 == 0)


@st.composite
def mesh_st(draw):
    return {"model": {**{k: draw(number_st(0.5, 20)) for k in AXES},
                      **{k: draw(number_st(-400, 400)) for k in ANGLES},
                      "center": draw(VECTOR)}}


@PROP.clause("meshes", mesh_st(), quick=40, thorough=1000, jit=False)
def meshes(case, ctx):
    """to_pyvista and get_surface represent the current solid."""
    model = {k: build(v) if k != "center" else tuple(v) for k, v in case["model"].items()}
    body = create(model)
    surface(body, model, "mesh")
    points = np.array(body.to_pyvista().points, float)
    rot = ref.rotation(*(float(model[k]) for k in ANGLES))
    axes = np.array([float(model[k]) for k in AXES])
    local = rot.T @ (points.T - np.array(model["center"])[:, None])
    level = np.sum((local / axes[:, None]) ** 2, axis=0)
    close(level, np.ones(level.size), "equation of the surface of to_pyvista", rtol=0,
          atol=2e-5 * (1 + 5 / axes.min()))
    ratio = np.abs(local).max(axis=1) / axes
    require((ratio > 0.99).all(), f"to_pyvista reaches only {ratio} of the semiaxes")
