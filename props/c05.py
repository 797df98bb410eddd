"""C05: superposition, scaling, ordering and null bodies, for every forward model."""

import numpy as np

from harness import models
from harness.core import Property, close, st
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C05", "Every forward model obeys superposition, and null bodies contribute nothing",
    rule="a case is a model (0 to 4 bodies with properties), 0 to 3 null bodies (on observation "
    "points too), an order of bodies and of points, and a scaling factor; non-trivial when the "
    "model has a body with a non-zero property or a null body",
    technique="metamorphic relations: every evaluation must equal the linear combination of the "
    "unit contributions of the bodies",
)


def case_st(kinds):
    @st.composite
    def build(draw):
        kind = draw(st.sampled_from(kinds))
        scale = draw(pick(1.0, 100.0, 1e4))
        k = models.NPROPS.get(kind, 1)
        comp = st.one_of(pick(0.0, 1.0, -1.0), fl(-20, 20))
        bodies = [models.draw_body(draw, kind, scale) for _ in range(draw(st.integers(0, 4)))]
        obs = [models.draw_obs(draw, kind, scale) for _ in range(draw(st.integers(1, 4)))]
        nulls = [models.draw_null(draw, kind, scale, obs)
                 for _ in range(draw(st.integers(0 if bodies else 1, 3)))]
        total = len(bodies) + len(nulls)
        return {
            "kind": kind, "field": draw(st.sampled_from(models.FIELDS[kind])), "scale": scale,
            "bodies": bodies, "props": [[draw(comp) for _ in range(k)] for _ in bodies],
            "obs": obs, "nulls": [list(n) for n in nulls],
            "order": draw(st.permutations(range(total))),
            "keep": draw(st.lists(st.booleans(), min_size=len(bodies), max_size=len(bodies))),
            "obs_order": draw(st.permutations(range(len(obs)))),
            "factor": draw(st.one_of(pick(-1.0, 1e-12, 1e12, 2.0), fl(-10, 10))),
            "parallel": draw(st.booleans()),
            "inducing": [draw(pick(0.0, 20000.0, -35000.0)) for _ in range(3)],
        }

    return build()


def check(case, ctx):
    kind, field, scale = case["kind"], case["field"], case["scale"]
    obs = np.array(case["obs"]).T
    bodies, props = case["bodies"], case["props"]
    k = models.NPROPS.get(kind, 1)
    if models.too_close(kind, obs, bodies + [n[0] for n in case["nulls"]], scale):
        ctx.trivial()
        return
    ctx.event(kind)
    ctx.event(f"{len(case['nulls'])} null")
    ctx.trivial(not case["nulls"] and not any(any(p) for p in props))
    kw = {} if kind.startswith("ellipsoid") else {"parallel": case["parallel"]}
    inducing = case["inducing"]

    def run(b, p, coords=tuple(obs), ind=(0.0, 0.0, 0.0)):
        if kind == "ellipsoid_mag":
            return models.evaluate(kind, field, coords, b, p, inducing=ind)
        return models.evaluate(kind, field, coords, b, p, **kw)

    # unit contributions: atoms[i] is a list of (coefficient, field)
    atoms = []
    for body, prop in zip(bodies, props):
        mine = []
        for c in range(k):
            unit = [1.0 if d == c else 0.0 for d in range(k)]
            if prop[c] != 0:
                mine.append((prop[c], run([body], [unit])))
        if kind == "ellipsoid_mag":
            for c in range(3):
                if inducing[c] != 0 and body[9]:
                    unit = [1.0 if d == c else 0.0 for d in range(3)]
                    mine.append((inducing[c], run([body], [[0.0] * 3], ind=unit)))
        atoms.append(mine)
    ncomp = 3 if field in ("b", "g") else 1
    rounding = 1e-15 * np.nan_to_num(models.magnitude(kind, field, obs, bodies, props))

    def combine(indices, factor=1.0):
        value, size = np.zeros((ncomp, obs.shape[1])), np.zeros((ncomp, obs.shape[1]))
        for i in indices:
            for coef, atom in atoms[i]:
                if factor * coef == 0:  # null bodies contribute nothing, even where others are singular
                    continue
                value = value + factor * coef * atom
                size = size + np.abs(factor * coef * atom).max(axis=0)
        return value, size

    def expect(got, want, what, order=slice(None), factor=1.0):
        value, size = want
        tol = 1e-12 * size[:, order] + abs(factor) * rounding[order]
        if kind == "ellipsoid_mag":
            tol = tol * 100  # the solution of a linear system per evaluation
        close(got, value[:, order], what, atol=np.nan_to_num(tol) + 1e-300, equal_nan=True)

    n = len(bodies)
    everything = combine(range(n))
    allb = bodies + [x[0] for x in case["nulls"]]
    allp = props + [x[1] for x in case["nulls"]]
    order = case["order"]
    got = run([allb[i] for i in order], [allp[i] for i in order], ind=inducing)
    expect(got, everything, f"{kind} {field}: reordered bodies with null bodies")
    if n:
        got = run(bodies, props, ind=inducing)
        expect(got, everything, f"{kind} {field}: sum of the bodies")
        oo = case["obs_order"]
        got = run(bodies, props, coords=tuple(obs[:, oo]), ind=inducing)
        expect(got, everything, f"{kind} {field}: reordered points", order=oo)
        one = oo[0]
        got = run(bodies, props, coords=tuple(float(v) for v in obs[:, one]), ind=inducing)
        expect(got.reshape(ncomp, 1), everything, f"{kind} {field}: single point", order=[one])
        f = case["factor"]
        got = run(bodies, [[f * v for v in p] for p in props], ind=[f * v for v in inducing])
        expect(got, combine(range(n), f), f"{kind} {field}: properties scaled by {f}", factor=f)
    subset = [i for i in range(n) if case["keep"][i]]
    if subset:
        got = run([bodies[i] for i in subset], [props[i] for i in subset], ind=inducing)
        expect(got, combine(subset), f"{kind} {field}: subset of the bodies")


for name, kinds, quick in [
    ("points and dipoles", ["point", "point_sph", "dipole"], 300),
    ("prisms", ["prism", "prism_mag"], 400),
    ("ellipsoids", ["ellipsoid", "ellipsoid_mag"], 300),
    ("tesseroids", ["tesseroid"], 250),
]:
    PROP.clause(name, case_st(kinds), quick=quick, thorough=quick * 30, shards=2,
                rule=", ".join(kinds))(check)


# ------------------------------------------------------------ large models ---
LARGE = {"point": ["g_z", "g_en"], "point_sph": ["g_z"], "dipole": ["b", "b_u"], "prism": ["g_z", "g_ez"],
         "prism_mag": ["b", "b_e"], "tesseroid": ["g_z"], "ellipsoid": ["g"], "ellipsoid_mag": ["b"]}
BUDGET = {"point": 3e6, "point_sph": 3e6, "dipole": 3e6, "prism": 6e5, "prism_mag": 6e5, "tesseroid": 3e4,
          "ellipsoid": 3e4, "ellipsoid_mag": 3e4}  # evaluations
MOST = {"tesseroid": 300, "ellipsoid": 40, "ellipsoid_mag": 12}  # bodies


@st.composite
def large_st(draw):
    kind = draw(st.sampled_from(sorted(LARGE)))
    bodies = min(draw(pick(1, 3, 17, 64, 130, 300, 1031)), MOST.get(kind, 10**9))
    points = draw(pick(1, 2, 33, 128, 257, 1000, 4099, 20011))
    return {"kind": kind, "field": draw(st.sampled_from(LARGE[kind])), "bodies": bodies,
            "points": int(max(1, min(points, BUDGET[kind] // bodies))), "seed": draw(SEED),
            "parallel": draw(st.booleans()), "cut": draw(fl(0, 1))}


def many(case):
    """Bodies below or around the origin and points above them."""
    r, n, m, kind = rng(case["seed"]), case["bodies"], case["points"], case["kind"]
    at = np.array([r.uniform(-50, 50, m), r.uniform(-50, 50, m), r.uniform(1, 20, m)])
    centre = np.transpose([r.uniform(-50, 50, n), r.uniform(-50, 50, n), r.uniform(-30, -6, n)])
    if kind in ("point", "dipole"):
        bodies = centre
    elif kind in ("prism", "prism_mag"):
        half = r.uniform(0.5, 5, (n, 3))
        bodies = np.stack([centre - half, centre + half], axis=-1).reshape(n, 6)
    elif kind in ("ellipsoid", "ellipsoid_mag"):
        bodies = np.hstack([r.uniform(1, 5, (n, 3)), r.uniform(-90, 90, (n, 3)), centre])
    else:
        at[2] = models.R + r.uniform(3e5, 5e5, m)
        w, s = centre[:, 0], centre[:, 1]
        if kind == "point_sph":
            bodies = np.transpose([w, s, models.R - r.uniform(0, 1e5, n)])
        else:
            bodies = np.transpose([w, w + r.uniform(0.5, 3, n), s, s + r.uniform(0.5, 3, n),
                                   models.R - r.uniform(1e4, 5e4, n), np.full(n, models.R)])
    k = models.NPROPS.get(kind, 1)
    if kind == "ellipsoid_mag":
        bodies = np.hstack([bodies, r.uniform(0, 1, (n, 1))])
    return at, bodies.tolist(), (r.uniform(0.2, 5, (n, k)) * r.choice([-1, 1], (n, k))).tolist()


@PROP.clause("large models", large_st(), quick=60, thorough=2000, shards=2,
             rule="up to thousands of points and bodies: any of the points alone, two parts of the bodies")
def large(case, ctx):
    kind, field = case["kind"], case["field"]
    at, bodies, props = many(case)
    n, m = case["bodies"], case["points"]
    ctx.event(kind)
    ctx.event(f"10^{int(np.log10(n * m))} evaluations")
    ctx.trivial(n * m < 100)
    kw = {} if kind.startswith("ellipsoid") else {"parallel": case["parallel"]}
    if kind == "ellipsoid_mag":
        kw["inducing"] = (2e4, -1e4, 3e4)
    got = models.evaluate(kind, field, tuple(at), bodies, props, **kw)
    cut = int(case["cut"] * n)
    size = np.abs(got).max() + 1e-300
    parts = np.zeros(got.shape)
    for some in (slice(0, cut), slice(cut, n)):
        if bodies[some]:
            part = models.evaluate(kind, field, tuple(at), bodies[some], props[some], **kw)
            parts += part
            size = size + np.abs(part).max()
    close(got, parts, f"{kind} {field} of {n} bodies at {m} points, as two parts", rtol=0, atol=1e-11 * size)
    r = rng(case["seed"] + 1)
    which = np.unique(np.append(r.integers(0, m, 6), [0, m - 1]))
    alone = models.evaluate(kind, field, tuple(at[:, which]), bodies, props, **kw)
    close(got[:, which], alone, f"{kind} {field} of {n} bodies at some of {m} points", rtol=0, atol=1e-12 * size)
    # each body at one point
    one = tuple(at[:, which[0]])
    some = np.arange(n) if n < 20 else np.unique(r.integers(0, n, 12))
    keep = np.setdiff1d(np.arange(n), some)
    total = sum(models.evaluate(kind, field, one, [bodies[i]], [props[i]], **kw) for i in some)
    if keep.size:
        total = total + models.evaluate(kind, field, one, [bodies[i] for i in keep], [props[i] for i in keep], **kw)
    close(got[:, which[0]], total, f"{kind} {field}: {len(some)} bodies one by one and the rest", rtol=0, atol=1e-11 * size)
