"""C13: gravity of ellipsoids against the exact field."""

import numpy as np

from harness import ellipsoid_ref as ref
from harness.core import Property, close, fail, hm, require, st
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C13", "Ellipsoid gravity equals the exact field for every shape and orientation",
    rule="a case is an ellipsoid (semiaxes in any order, equal, nearly equal, flat or elongated; "
    "any rotation and center) and points at the center, inside, near the surface, on the axes and "
    "outside up to a thousand radii; non-trivial when the density is not zero",
    technique="reference model (Carlson's symmetric elliptic integrals, confocal coordinate by "
    "Newton's method) and metamorphic relations between descriptions of the same body",
)


@st.composite
def body_st(draw):
    base = draw(pick(1.0, 2.0, 3.5))
    near = [base * (1 + d) for d in (1e-3, 1e-4, 1.2e-5, 0.8e-5, 1e-6, 1e-9, -1e-4, -0.9e-5)]
    options = st.one_of(pick(base, 1.0, 5.0, 0.3), st.sampled_from(near), st.floats(0.05, 20))
    axes = [base] + [draw(options), draw(options)]
    if draw(pick(False, False, False, True)):
        axes[1] = base * draw(pick(50.0, 0.02, 1000.0))
    axes = draw(st.permutations(axes))
    scale = draw(pick(1.0, 100.0, 1e4))
    angles = [draw(st.one_of(pick(0.0, 90.0, 45.0, -180.0, 30.0), fl(-400, 400))) for _ in range(3)]
    center = [draw(pick(0.0, 10.0, -3.5)) * scale for _ in range(3)]
    if draw(st.booleans()):
        center = [0.0] * 3
    return {"axes": [a * scale for a in axes], "angles": angles, "center": center}


@st.composite
def points_st(draw):
    every = draw(pick(None, None, None, "inside", "outside"))
    return {"seed": draw(SEED), "zero": draw(pick(None, None, 0, 1, 2, 3)),
            "where": [every or draw(pick("outside", "inside", "far", "surface", "close", "center"))
                      for _ in range(draw(st.integers(1, 4)))]}


def locate(body, points, gap=1e-12):
    """Points in the global axes, from a description relative to the body."""
    gen = rng(points["seed"])
    axes = np.array(body["axes"])
    rot = ref.rotation(*body["angles"])
    out = []
    for where in points["where"]:
        u = gen.normal(size=3)
        if points["zero"] is not None and points["zero"] < 3:
            u[points["zero"]] = 0.0
        elif points["zero"] == 3:  # on an axis
            k = gen.integers(3)
            u = np.where(np.arange(3) == k, u, 0.0)
        u /= np.sqrt(np.sum(u ** 2))
        surface = axes * u
        if where == "inside":
            local = surface * gen.uniform(0, 0.999)
        elif where == "surface":
            local = surface * (1 + 10.0 ** gen.uniform(-9, -3) * gen.choice([-1, 1]))
        elif where == "close":
            local = surface * gen.uniform(1.001, 1.5)
        elif where == "outside":
            local = surface + u * axes.max() * gen.uniform(0.05, 10)
        elif where == "far":
            local = u * axes.max() * 10 ** gen.uniform(1, 3)
        else:
            local = np.zeros(3)
        out.append(np.array(body["center"]) + rot @ local)
    return np.array(out).T


def make(body, **kwargs):
    return hm.Ellipsoid(*body["axes"], *body["angles"], center=tuple(body["center"]), **kwargs)


def shape_of(axes):
    s = sorted(axes, reverse=True)
    equal = [abs(s[0] - s[1]) < 1.3e-5 * s[0], abs(s[1] - s[2]) < 1.3e-5 * s[1]]
    name = {(True, True): "sphere", (True, False): "oblate", (False, True): "prolate",
            (False, False): "triaxial"}[tuple(equal)]
    if s[0] == s[1] == s[2] or (name != "sphere" and (s[0] == s[1] or s[1] == s[2])):
        return name
    return "almost " + name if any(equal) else name


def slack(points, body):
    """Relative error of the local coordinates: subtraction of the center, rotation."""
    axes, center = np.array(body["axes"]), np.array(body["center"])
    local = points - center[:, None]
    r = np.sqrt(np.sum(local ** 2, axis=0))
    moved = 3e-15 * (np.abs(center).max() + np.abs(points).max(axis=0) + axes.max())
    return r, moved


@st.composite
def case_st(draw):
    return {"body": draw(body_st()), "points": draw(points_st()),
            "density": draw(pick(2670.0, -500.0, 1.0, 0.0)), "shape": draw(st.booleans())}


@PROP.clause("exact field", case_st(), quick=2500, thorough=100000, jit=False, shards=2)
def exact(case, ctx):
    body = case["body"]
    axes = np.array(body["axes"])
    obs = locate(body, case["points"])
    ctx.event(shape_of(axes))
    for w in case["points"]["where"]:
        ctx.event(w)
    ctx.trivial(case["density"] == 0)
    got = np.array(hm.ellipsoid_gravity(tuple(obs), make(body, density=case["density"])))
    require(got.shape == obs.shape, f"shape {got.shape}")
    rot = ref.rotation(*body["angles"])
    r, moved = slack(obs, body)
    for k in range(obs.shape[1]):
        g = ref.gravity(axes, rot, body["center"], case["density"], obs[:, k]) * 1e5
        want = np.array([g[0], g[1], -g[2]])
        lam = ref.confocal(rot.T @ (obs[:, k] - body["center"]), axes)
        tol = ref.conditioning(axes, lam) + moved[k] / axes.min()
        # size of the field: that of the gradient inside, times distances
        norm = np.sqrt(np.sum(want ** 2))
        inner = 1e5 * 2 * np.pi * ref.G * abs(case["density"]) * np.prod(axes) * \
            ref.integrals(axes, lam).max() * moved[k]
        close(got[:, k], want, f"{shape_of(axes)} {body['axes']} ({case['points']['where'][k]}, "
              f"tolerance {tol:.1e})", rtol=0, atol=tol * norm + 10 * inner + 1e-300)


@st.composite
def same_st(draw):
    return {"body": draw(body_st()), "points": draw(points_st()),
            "how": draw(pick("swap a b", "swap a c", "swap b c", "turn", "half turns"))}


@PROP.clause("descriptions of the same body", same_st(), quick=600, thorough=20000, jit=False)
def descriptions(case, ctx):
    """The same solid described with other axes and angles has the same field."""
    body = case["body"]
    a, b, c = body["axes"]
    yaw, pitch, roll = body["angles"]
    how = case["how"]
    rot = ref.rotation(yaw, pitch, roll)
    if how == "turn":
        other, angles = (a, b, c), (yaw + 360, pitch - 720, roll + 360)
    elif how == "half turns":
        other, angles = (a, b, c), (yaw, pitch, roll + 180)
    else:
        # a quarter turn about the axis that stays
        k = {"swap a b": 2, "swap a c": 1, "swap b c": 0}[how]
        quarter = {2: (90, 0, 0), 1: (0, 90, 0), 0: (0, 0, 90)}[k]
        new = rot @ ref.rotation(*quarter)
        other = {"swap a b": (b, a, c), "swap a c": (c, b, a), "swap b c": (a, c, b)}[how]
        pitch = np.degrees(np.arcsin(np.clip(new[2, 0], -1, 1)))
        if abs(new[2, 0]) > 0.999999:
            ctx.trivial()  # gimbal lock
            return
        angles = (np.degrees(np.arctan2(new[1, 0], new[0, 0])), pitch,
                  np.degrees(np.arctan2(new[2, 1], new[2, 2])))
    ctx.event(how)
    obs = locate(body, case["points"])
    one = np.array(hm.ellipsoid_gravity(tuple(obs), make(body, density=1000.0)))
    two = np.array(hm.ellipsoid_gravity(tuple(obs), make(
        {"axes": other, "angles": angles, "center": body["center"]}, density=1000.0)))
    axes = np.array(body["axes"])
    _, moved = slack(obs, body)
    for k in range(obs.shape[1]):
        lam = ref.confocal(rot.T @ (obs[:, k] - body["center"]), axes)
        tol = 2 * ref.conditioning(axes, lam) + 100 * moved[k] / axes.min() + 1e-9
        inner = 1e5 * 2 * np.pi * ref.G * 1000 * np.prod(axes) * ref.integrals(axes, lam).max()
        close(two[:, k], one[:, k], f"{how} of {body['axes']}", rtol=0,
              atol=tol * np.sqrt(np.sum(one[:, k] ** 2)) + 1e3 * inner * moved[k] + 1e-300)


@st.composite
def continuity_st(draw):
    return {"body": draw(body_st()), "seed": draw(SEED), "delta": draw(pick(1e-6, 1e-8))}


@PROP.clause("continuity across the surface", continuity_st(), quick=500, thorough=20000, jit=False)
def continuity(case, ctx):
    body = case["body"]
    gen = rng(case["seed"])
    axes = np.array(body["axes"])
    if axes.max() / axes.min() > 60:
        ctx.trivial()
        return
    u = gen.normal(size=3)
    u /= np.sqrt(np.sum(u ** 2))
    rot = ref.rotation(*body["angles"])
    d = case["delta"]
    pts = np.array([np.array(body["center"]) + rot @ (axes * u * f) for f in (1 - d, 1 + d)]).T
    if np.abs(body["center"]).max() > 0:
        d = max(d, 1e-9 * np.abs(body["center"]).max() / axes.min())
    g = np.array(hm.ellipsoid_gravity(tuple(pts), make(body, density=1000.0)))
    norm = np.sqrt(np.sum(g ** 2, axis=0)).max()
    jump = np.abs(g[:, 0] - g[:, 1]).max()
    ratio = (axes.max() / axes.min()) ** 2
    if jump > norm * (200 * d * ratio + 2 * ref.conditioning(axes, 0.0)):
        fail(f"gravity of {body['axes']} jumps {jump / norm:.2e} (relative) across the surface")
