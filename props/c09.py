"""C09: execution (parallel, progress bar, compiled) and packaging of the inputs."""

import contextlib
import io

import numpy as np

from harness import interp, models
from harness.core import Property, close, fail, hm, require, st, xr
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C09", "Results do not depend on how the computation is executed or inputs are packaged",
    rule="a case is a model, points, a way of executing and a way of packaging every input; "
    "non-trivial when the model has a body and the way differs from plain float64 arrays computed "
    "in serial",
    technique="differential testing between executions (serial, parallel, with progress bar, "
    "interpreted) and packagings of the same model",
)
@st.composite
def model_st(draw, kinds, points=st.integers(1, 6), many=None):
    kind = draw(st.sampled_from(kinds))
    scale = draw(pick(1.0, 100.0, 1e4))
    k = models.NPROPS.get(kind, 1)
    comp = st.one_of(pick(0.0, 1.0, -1.0), fl(-20, 20))
    bodies = [models.draw_body(draw, kind, scale, wide=False)
              for _ in range(draw(many or st.integers(1, 3)))]
    obs = [models.draw_obs(draw, kind, scale) for _ in range(draw(points))]
    props = [[draw(comp) for _ in range(k)] for _ in bodies]
    if kind == "ellipsoid_mag":
        bodies = [b[:9] + [0.5] for b in bodies]
    return {"kind": kind, "scale": scale, "bodies": bodies, "props": props, "obs": obs,
            "field": draw(st.sampled_from(models.FIELDS[kind]))}


# ------------------------------------------------------------- execution
@st.composite
def execution_st(draw, kinds):
    case = draw(model_st(kinds))
    case["parallel"] = draw(st.booleans())
    case["progress"] = draw(pick(False, False, True))
    case["interpreted"] = draw(st.booleans())
    case["dtype"] = draw(pick("float64", "float64", "float32"))
    case["as"] = draw(pick("class", "name", "dtype"))
    case["unchecked"] = draw(pick(False, False, True))
    return case


def execution(case, ctx):
    kind, field, scale = case["kind"], case["field"], case["scale"]
    obs = np.array(case["obs"]).T
    bodies, props = case["bodies"], case["props"]
    if models.too_close(kind, obs, bodies, scale):
        ctx.trivial()
        return
    kwargs = {"parallel": case["parallel"]}
    # the number of compiled variants is what costs: progress bars and float32 for some only
    if case["progress"] and kind not in ("point", "point_sph") and \
            field in ("g_z", "b", "b_u", "g_ez"):
        kwargs["progressbar"] = True
    if case["dtype"] == "float32" and field in ("g_z", "b", "b_n", "potential"):
        kwargs["dtype"] = {"class": np.float32, "name": "float32", "dtype": np.dtype("float32")}[case.get("as", "class")]
    if case.get("unchecked") and kind in ("dipole", "prism", "prism_mag", "tesseroid"):
        kwargs["disable_checks"] = True
    run_interp = case["interpreted"] and (kind != "tesseroid" or obs.size <= 6)
    ctx.event(f"{kind} parallel={case['parallel']}")
    for key in ("progressbar", "dtype"):
        if key in kwargs:
            ctx.event(key)
    ctx.trivial(not any(any(p) for p in props))
    coords = tuple(obs)
    base = models.evaluate(kind, field, coords, bodies, props, parallel=False)
    require(base.dtype == np.float64 and base.shape[1:] == obs.shape[1:],
            f"{kind} {field}: dtype {base.dtype} shape {base.shape}")
    unit = np.zeros(base.shape)
    for b, p in zip(bodies, props):
        unit = unit + abs(models.evaluate(kind, field, coords, [b], [p], parallel=False))
    size = unit.max(axis=0) + models.magnitude(kind, field, obs, bodies, props)
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        got = models.evaluate(kind, field, coords, bodies, props, **kwargs)
    tol = 1e-14 if "dtype" not in kwargs else 1e-5
    require(got.dtype == np.dtype(kwargs.get("dtype", "float64")),
            f"{kind} {field} {kwargs}: dtype {got.dtype}")
    close(got, base, f"{kind} {field} {kwargs} against serial", rtol=tol,
          atol=np.nan_to_num(tol * size) + 1e-37, equal_nan=True)
    if run_interp:
        ctx.event("interpreted")
        ok, value = interp.evaluate(kind, field, coords, bodies, props, parallel=case["parallel"])
        if not ok:
            fail(f"{kind} {field}: interpreted call raised {value}")
        close(value, base, f"{kind} {field} interpreted against compiled", rtol=1e-12,
              atol=np.nan_to_num(1e-13 * size) + 1e-300, equal_nan=True)


# ------------------------------------------------------------- packaging
LAYOUTS = ["plain", "list", "2d", "2d F", "strided", "reversed", "3d", "readonly", "DataArray",
           "Series", "scalar", "0d", "transposed", "nested list", "tuple"]


def package(values, layout, dtype="float64"):
    """The 1d array of values, packaged; returns (object, shape)."""
    values = np.array(values).astype(dtype)
    n = values.size
    rows = 2 if n % 2 == 0 else 1
    if layout == "list":
        return values.tolist(), (n,)
    if layout == "tuple":
        return tuple(values.tolist()), (n,)
    if layout == "nested list":
        return values.reshape(rows, -1).tolist(), (rows, n // rows)
    if layout == "2d":
        return values.reshape(rows, -1), (rows, n // rows)
    if layout == "2d F":
        return np.asfortranarray(values.reshape(rows, -1)), (rows, n // rows)
    if layout == "transposed":
        return np.ascontiguousarray(values.reshape(rows, -1).T).T, (rows, n // rows)
    if layout == "3d":
        return values.reshape(1, rows, -1), (1, rows, n // rows)
    if layout == "strided":
        big = np.full(3 * n, 77).astype(dtype)
        big[1::3] = values
        return big[1::3], (n,)
    if layout == "reversed":
        return values[::-1].copy()[::-1], (n,)
    if layout == "readonly":
        values.flags.writeable = False
        return values, (n,)
    if layout == "DataArray":
        return xr.DataArray(values.reshape(rows, -1), dims=("y", "x")), (rows, n // rows)
    if layout == "Series":
        import pandas as pd  # noqa: PLC0415

        return pd.Series(values, index=np.arange(n)[::-1] + 5), (n,)
    if layout == "scalar":
        return values.ravel()[0].item(), ()
    if layout == "0d":
        return np.array(values.ravel()[0]), ()
    return values, (n,)


def table(rows, layout, dtype="float64"):
    """2d array of bodies, packaged."""
    rows = np.array(rows).astype(dtype)
    if layout in ("list", "nested list"):
        return rows.tolist()
    if layout == "tuple":
        return tuple(tuple(r) for r in rows.tolist())
    if layout in ("2d F", "transposed"):
        return np.asfortranarray(rows)
    if layout == "strided":
        big = np.full((2 * rows.shape[0], 3 * rows.shape[1]), 77).astype(dtype)
        big[::2, 1::3] = rows
        return big[::2, 1::3]
    if layout == "reversed":
        return rows[::-1, ::-1].copy()[::-1, ::-1]
    if layout == "readonly":
        rows.flags.writeable = False
        return rows
    if layout in ("scalar", "0d") and len(rows) == 1:
        return rows[0]
    if layout == "DataArray":
        return xr.DataArray(rows, dims=("body", "side")).values
    return rows


@st.composite
def packaging_st(draw, kinds):
    case = draw(model_st(kinds, points=pick(6, 4, 8, 5, 1), many=pick(4, 2, 1, 6, 3)))
    case["field"] = draw(pick(*{"point": ["g_z", "potential"], "point_sph": ["g_z"],
                                "dipole": ["b", "b_u"], "prism": ["g_z", "g_en"],
                                "prism_mag": ["b", "b_e"], "tesseroid": ["g_z"],
                                "ellipsoid": ["g"], "ellipsoid_mag": ["b"]}[case["kind"]]))
    case["coords"] = draw(st.sampled_from(LAYOUTS + ["broadcast", "mixed"]))
    case["mix"] = [draw(pick("plain", "list", "strided", "tuple", "Series", "readonly"))
                   for _ in range(3)]
    case["cut"] = draw(pick(1, 1, 2))
    case["axes"] = draw(st.permutations(range(3)))
    case["body"] = draw(st.sampled_from(LAYOUTS))
    case["prop"] = draw(st.sampled_from(LAYOUTS))
    which = draw(pick(None, None, None, "coords", "body", "prop", "one"))
    case["cast"] = [which, draw(pick("int64", "int32"))]
    if case["kind"] == "tesseroid":  # slow to compile
        case["cast"][1] = "int64"
    return case


def snapshot(obj):
    if isinstance(obj, (list, tuple)):
        return [snapshot(o) for o in obj]
    return np.array(obj)


def unchanged(before, obj):
    if isinstance(obj, (list, tuple)):
        return len(before) == len(obj) and all(unchanged(b, o) for b, o in zip(before, obj))
    now = np.array(obj)
    return now.dtype == before.dtype and np.array_equal(now, before, equal_nan=True)


def packaging(case, ctx):
    kind, field, scale = case["kind"], case["field"], case["scale"]
    which, dtype = case["cast"]
    if kind.startswith("ellipsoid") and which in ("body", "prop"):
        which = "coords"
    obs = np.array(case["obs"])
    bodies, props = np.array(case["bodies"], dtype=float), np.array(case["props"])
    unit = 1000.0 if kind in ("point_sph", "tesseroid") else 1.0

    def exact(a):  # representable in any of the dtypes
        a = np.round(a)
        big = np.abs(a) > 1e6
        return np.where(big, np.round(a / 2 ** 12) * 2 ** 12, a)

    if which in ("coords", "one"):
        obs = exact(obs)
        if unit > 1:
            obs[:, 2] = np.maximum(obs[:, 2], 6.4e6 // 2 ** 12 * 2 ** 12)
            obs[:, 1] = np.clip(obs[:, 1], -90, 90)
    if which == "body":
        bodies = exact(bodies)
        if kind in ("prism", "prism_mag", "tesseroid"):
            for a in range(3):
                flat = bodies[:, 2 * a] >= bodies[:, 2 * a + 1]
                step = 4096 if unit > 1 and a == 2 else 1
                low = bodies[:, 2 * a] < -80  # keeps tesseroids inside their limits
                bodies[flat & low, 2 * a + 1] = bodies[flat & low, 2 * a] + step
                bodies[flat & ~low, 2 * a] = bodies[flat & ~low, 2 * a + 1] - step
    if which == "prop":
        props = exact(props)
    # the points that the packaging describes
    if case["coords"] in ("scalar", "0d"):
        obs = obs[:1]
    elif case["coords"] == "broadcast":
        # a different set of values for every axis, all the combinations
        n = len(obs)
        cut = min(case["cut"], n)
        sizes = [cut if a == case["axes"][0] else n if a == case["axes"][1] else 1
                 for a in range(3)]
        values = [obs[:s, a] for a, s in enumerate(sizes)]
        order = case["axes"]
        shapes = []
        for a in range(3):
            if a == order[0]:
                shapes.append((cut, 1))
            elif a == order[1]:
                shapes.append((n,))
            else:
                shapes.append(())
        outer = np.broadcast_arrays(*[v.reshape(s) for v, s in zip(values, shapes)])
        obs = np.stack([o.ravel() for o in outer], axis=1)
        shape = outer[0].shape
    if models.too_close(kind, obs.T, bodies, scale):
        ctx.trivial()
        return
    ctx.event(kind)
    ctx.event(f"coords {case['coords']}")
    ctx.event(f"dtype {dtype} of {which}" if which else "float64")
    ctx.trivial(not props.any())
    want = models.evaluate(kind, field, tuple(obs.T), bodies.tolist(), props.tolist())
    ctypes = [dtype if which == "coords" else "float64"] * 3
    if which == "one":
        ctypes[case["axes"][0]] = dtype
    if case["coords"] == "broadcast":
        coords = tuple(v.astype(t).reshape(s)
                       for v, s, t in zip(values, shapes, ctypes))
    elif case["coords"] == "mixed":
        coords = tuple(package(c, m, t)[0] for c, m, t in zip(obs.T, case["mix"], ctypes))
        shape = (len(obs),)
    else:
        packed = [package(c, case["coords"], t) for c, t in zip(obs.T, ctypes)]
        coords, shape = tuple(p[0] for p in packed), packed[0][1]
    btype = dtype if which == "body" else "float64"
    ptype = dtype if which == "prop" else "float64"
    one = len(bodies) == 1
    blay = case["body"] if one or case["body"] not in ("scalar", "0d") else "plain"
    play = case["prop"] if one or case["prop"] not in ("scalar", "0d") else "plain"
    if kind in ("dipole", "prism_mag") or (kind in ("point", "point_sph")):
        if play in ("list", "tuple", "nested list", "scalar", "Series", "DataArray"):
            # documented as arrays
            play = "plain"
    if kind in ("point", "point_sph", "dipole"):
        body_arg = tuple(package(c, blay, btype)[0] for c in bodies.T)
    elif not kind.startswith("ellipsoid"):
        body_arg = table(bodies, blay, btype)
    else:
        body_arg = [
            hm.Ellipsoid(*b[:6], center=tuple(b[6:9]),
                         **({"density": p[0]} if kind == "ellipsoid" else
                            {"susceptibility": b[9], "remanent_mag": list(p)}))
            for b, p in zip(bodies.tolist(), props.tolist())]
        if one and case["body"] == "scalar":
            body_arg = body_arg[0]
        elif case["body"] == "tuple":
            body_arg = tuple(body_arg)
    columns = tuple(package(c, play, ptype)[0] for c in props.T)
    if kind not in ("dipole", "prism_mag"):
        columns = columns[0]
    describe = f"{kind} {field} coords={case['coords']} bodies={blay} props={play} cast={which} {dtype}"
    arguments = [coords, columns] + ([body_arg] if not kind.startswith("ellipsoid") else [])
    before = snapshot(arguments)
    if kind in ("point", "point_sph"):
        out = hm.point_gravity(
            coords, body_arg, columns, field,
            coordinate_system="cartesian" if kind == "point" else "spherical")
    elif kind == "dipole":
        out = hm.dipole_magnetic(coords, body_arg, columns, field)
    elif kind == "prism":
        out = hm.prism_gravity(coords, body_arg, columns, field)
    elif kind == "prism_mag":
        out = hm.prism_magnetic(coords, body_arg, columns, field)
    elif kind == "tesseroid":
        out = hm.tesseroid_gravity(coords, body_arg, columns, field)
    elif kind == "ellipsoid":
        out = hm.ellipsoid_gravity(coords, body_arg)
    else:
        out = hm.ellipsoid_magnetic(coords, body_arg, (0.0, 0.0, 0.0))
    require(unchanged(before, arguments), f"{describe}: the inputs were modified")
    components = out if isinstance(out, tuple) else (out,)
    for c in components:
        require(np.shape(c) == tuple(shape),
                f"{describe}: shape {np.shape(c)} instead of {tuple(shape)}")
        require(np.asarray(c).dtype == np.float64, f"{describe}: dtype {np.asarray(c).dtype}")
    got = np.stack([np.asarray(c).ravel() for c in components])
    scalesum = sum(abs(models.evaluate(kind, field, tuple(obs.T), [b], [p])).max(axis=0)
                   for b, p in zip(bodies.tolist(), props.tolist()))
    size = scalesum + models.magnitude(kind, field, obs.T, bodies.tolist(), props.tolist())
    close(got, want, describe, rtol=1e-12, atol=np.nan_to_num(1e-13 * size) + 1e-300,
          equal_nan=True)


for name, kinds, quick in [
    ("packaging: tesseroids", ["tesseroid"], 110),
    ("packaging: points", ["point", "point_sph"], 250),
    ("packaging: dipoles", ["dipole"], 200),
    ("packaging: prism gravity", ["prism"], 250),
    ("packaging: prism magnetics", ["prism_mag"], 200),
    ("packaging: ellipsoids", ["ellipsoid", "ellipsoid_mag"], 300),
]:
    PROP.clause(name, packaging_st(kinds), quick=quick, thorough=quick * 30,
                jit=not kinds[0].startswith("ellipsoid"), rule=", ".join(kinds))(packaging)


for name, kinds, quick in [
    ("execution: tesseroids", ["tesseroid"], 150),
    ("execution: points and dipoles", ["point", "point_sph", "dipole"], 250),
    ("execution: prism gravity", ["prism"], 250),
    ("execution: prism magnetics", ["prism_mag"], 200),
]:
    PROP.clause(name, execution_st(kinds), quick=quick, thorough=quick * 30,
                rule=", ".join(kinds))(execution)


# ---------------------------------------------------- many points and bodies
@st.composite
def bulk_st(draw, kinds):
    return {"kind": draw(st.sampled_from(kinds)), "seed": draw(SEED),
            "points": draw(pick(601, 200, 17)), "bodies": draw(pick(40, 20, 1)),
            "field": draw(st.integers(0, 20)), "repeat": draw(st.integers(1, 3))}


def bulk_model(kind, gen, n_points, n_bodies):
    if kind in ("tesseroid", "point_sph"):
        obs = [gen.uniform(-30, 30, n_points), gen.uniform(-30, 30, n_points),
               models.R + gen.uniform(1e4, 1e6, n_points)]
    else:
        obs = [gen.uniform(-10, 10, n_points) for _ in range(3)]
    if kind == "point_sph":
        bodies = np.stack([gen.uniform(-30, 30, n_bodies), gen.uniform(-30, 30, n_bodies),
                           models.R - gen.uniform(1e4, 1e6, n_bodies)], axis=1)
    elif kind in ("point", "dipole"):
        bodies = gen.uniform(-8, 8, (n_bodies, 3)) - [0, 0, 20]
    else:
        bodies = np.zeros((n_bodies, 6))
        bodies[:, ::2] = gen.uniform(-8, 8, (n_bodies, 3))
        bodies[:, 1::2] = bodies[:, ::2] + gen.uniform(0.5, 4, (n_bodies, 3))
        if kind == "tesseroid":
            bodies[:, 5] = models.R
            bodies[:, 4] = models.R - gen.uniform(1e3, 5e4, n_bodies)
    return np.array(obs), bodies, gen.uniform(-5, 5, (n_bodies, models.NPROPS.get(kind, 1)))


def bulk(case, ctx):
    kind = case["kind"]
    fields = models.FIELDS[kind][:4] if kind == "tesseroid" else \
        [f for f in models.FIELDS[kind] if f in ("g_z", "b", "b_u", "g_en")]
    field = fields[case["field"] % len(fields)]
    n_bodies = min(case["bodies"], 5) if kind == "tesseroid" else case["bodies"]
    obs, bodies, props = bulk_model(kind, rng(case["seed"]), case["points"], n_bodies)
    ctx.event(f"{kind} {case['points']} points, {n_bodies} bodies")
    bodies, props = bodies.tolist(), props.tolist()
    base = models.evaluate(kind, field, tuple(obs), bodies, props, parallel=False)
    for k in range(case["repeat"]):
        kwargs = {"parallel": True}
        if kind not in ("point", "point_sph") and k == 0:
            kwargs["progressbar"] = case["seed"] % 2 == 0
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            got = models.evaluate(kind, field, tuple(obs), bodies, props, **kwargs)
        close(got, base, f"{kind} {field} with {case['points']} points and {n_bodies} bodies, "
              "parallel against serial", rtol=1e-9, atol=1e-11 * np.abs(base).max(),
              equal_nan=True)
    one = case["seed"] % case["points"]
    got = models.evaluate(kind, field, tuple(obs[:, one]), bodies, props, parallel=False)
    close(got, base[:, one], f"{kind} {field} at point {one} alone against all the points",
          rtol=1e-9, atol=1e-11 * np.abs(base).max(), equal_nan=True)


BULK = ["point", "point_sph", "dipole", "prism", "prism_mag", "tesseroid"]
PROP.clause("many points", bulk_st(BULK), quick=40, thorough=2000,
            examples=[{"kind": k, "seed": f, "points": 601, "bodies": 40, "field": f, "repeat": 3}
                      for k in BULK for f in (0, 1)],
            rule="17 to 601 points and 1 to 40 bodies, in parallel up to three times")(bulk)
