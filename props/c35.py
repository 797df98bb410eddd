"""C35: warnings are issued exactly when a part of the model or result can't be used."""

import warnings

import numpy as np

from harness import homogeneous, layers
from harness.core import Property, close, hm, require, same, st
from harness.gens import SEED, fl, pick, rng, shape_of

PROP = Property(
    "C35", "Warnings are issued exactly when part of a model or result is unusable",
    rule="a case is a model or data set in which some parts may lack properties, be missing or "
    "be singular; non-trivial when something must be warned about",
    technique="two-sided conditions on recorded warnings and differential results without the "
    "offending parts",
)


def record(fn):
    """Result and user-facing warnings of a call."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            out = fn()
    kinds = [w.category for w in caught]
    return out, [k for k in kinds if issubclass(k, UserWarning)], kinds


# ------------------------------------------------------------- ellipsoids ---
@st.composite
def bodies_st(draw):
    n = draw(st.integers(1, 4))
    return {"seed": draw(SEED), "lacks": [draw(st.booleans()) for _ in range(n)],
            "other": draw(st.booleans()), "zeros": draw(st.booleans()),
            "magnetic": draw(st.booleans()), "alone": draw(st.booleans()),
            "shape": shape_of(draw, draw(st.integers(1, 4)))}


@PROP.clause("ellipsoids without properties", bodies_st(), quick=400, thorough=10000, jit=False)
def ellipsoids(case, ctx):
    r = rng(case["seed"])
    bodies, magnetic = [], case["magnetic"]
    for k, lacks in enumerate(case["lacks"]):
        body = hm.Ellipsoid(*r.uniform(1, 5, 3), center=tuple(r.uniform(-9, 9, 3)), yaw=r.uniform(0, 90))
        if not lacks or (case["other"] and not magnetic):
            which = r.integers(1, 4)
            if magnetic or case["other"]:
                if which & 1:
                    body.susceptibility = 0.0 if case["zeros"] else r.uniform(0, 1)
                if which & 2:
                    body.remanent_mag = np.zeros(3) if case["zeros"] else r.normal(size=3)
        if (not magnetic and not lacks) or (magnetic and case["other"]):
            body.density = 0.0 if case["zeros"] and k % 2 else r.normal() * 1000
        bodies.append(body)
    ctx.trivial(not any(case["lacks"]))
    shape = tuple(case["shape"])
    at = tuple(r.uniform(-20, 20, shape) for _ in range(3))
    field = tuple(r.normal(size=3) * 3e4)

    def run(model):
        if magnetic:
            return hm.ellipsoid_magnetic(at, model, field)
        return hm.ellipsoid_gravity(at, model)

    model = bodies[0] if len(bodies) == 1 and case["alone"] else bodies
    got, _, kinds = record(lambda: run(model))
    warned = [k for k in kinds if issubclass(k, hm.errors.NoPhysicalPropertyWarning)]
    require(len(warned) == sum(case["lacks"]),
            f"{len(warned)} warnings for {sum(case['lacks'])} ellipsoids without the property")
    rest = [b for b, lacks in zip(bodies, case["lacks"]) if not lacks]
    expected = run(rest) if rest else [np.zeros(shape)] * 3
    for g, e in zip(got, expected):
        close(g, e, "field of the ellipsoids that have the property", rtol=1e-12,
              atol=1e-12 * np.abs(e).max(initial=0))


# ----------------------------------------------------------------- layers ---
@st.composite
def layer_st(draw):
    spherical = draw(st.booleans())
    grid = draw(layers.grid_st(spherical))
    return {"grid": grid, "spherical": spherical, "seed": draw(SEED),
            "holes": draw(pick("none", "density", "surface", "both", "same", "one")),
            "name": draw(pick("density", "rho")), "threshold": draw(pick(None, None, 3.0))}


@PROP.clause("layers with missing values", layer_st(), quick=300, thorough=8000, jit=False)
def missing(case, ctx):
    r = rng(case["seed"])
    x, y = layers.axes(case["grid"])
    shape = (len(y), len(x))
    base = 6371e3 if case["spherical"] else 0.0
    surface = base + r.uniform(-10, 10, shape)
    density = r.uniform(500, 3000, shape) * r.choice([-1, 1], shape)
    hole = r.random(shape) < 0.4
    hole[r.integers(shape[0]), r.integers(shape[1])] = True
    where = {"none": (False, False), "density": (True, False), "surface": (False, True),
             "both": (True, True), "same": (True, True), "one": (True, False)}[case["holes"]]
    if case["holes"] == "one":
        hole[:] = False
        hole[-1, -1] = True
    if where[0]:
        density[hole] = np.nan
    if where[1]:
        surface[hole if case["holes"] == "same" else r.random(shape) < 0.4] = np.nan
    make = hm.tesseroid_layer if case["spherical"] else hm.prism_layer
    layer = make((x, y), surface, base - 20.0, properties={case["name"]: density})
    accessor = layer.tesseroid_layer if case["spherical"] else layer.prism_layer
    kwargs = {"density_name": case["name"], "thickness_threshold": case["threshold"]}
    if case["spherical"]:
        at = (float(x[0]), float(y[0]), 6.39e6)
    else:
        at = (float(x[0]) + 0.3, float(y[0]), 40.0)
    got, users, _ = record(lambda: accessor.gravity(at, "g_z", parallel=False, **kwargs))
    lost = np.isnan(density)
    must = bool((lost & np.isfinite(surface)).any())
    ctx.trivial(not must)
    ctx.event(case["holes"])
    require(not must or users, "no warning about the missing densities")
    require(lost.any() or not users, f"warnings without missing densities: {users}")
    # nothing else changes
    full = make((x, y), surface, base - 20.0, properties={"density": np.where(lost, 0, density)})
    accessor = full.tesseroid_layer if case["spherical"] else full.prism_layer
    expected, users, _ = record(lambda: accessor.gravity(
        at, "g_z", parallel=False, thickness_threshold=case["threshold"]))
    require(not users, f"warnings without missing densities: {users}")
    close(got, expected, "gravity of the other cells", rtol=1e-11)


# ------------------------------------------------------- singular points ---
@st.composite
def singular_st(draw):
    return {"seed": draw(SEED), "n": draw(st.integers(1, 3)), "points": draw(st.integers(1, 5)),
            "how": draw(pick("any", "vertex", "edge", "face", "inside", "outside")),
            "field": draw(pick("g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz", "potential", "g_e", "g_z")),
            "null": draw(pick("", "", "density", "volume")), "checks": draw(pick(True, True, True, False)),
            "scale": draw(pick(1.0, 0.5, 1e3))}


ACROSS = {"g_ee": (1, 2), "g_nn": (0, 2), "g_zz": (0, 1), "g_en": (2,), "g_ez": (1,), "g_nz": (0,)}


def edges(point, prism):
    """Directions of the edges of a prism at a point: one, or three at a vertex."""
    on = [point[k] in (prism[2 * k], prism[2 * k + 1]) for k in range(3)]
    within = [prism[2 * k] <= point[k] <= prism[2 * k + 1] for k in range(3)]
    if not all(within) or sum(on) < 2:
        return ()
    return (0, 1, 2) if all(on) else (on.index(False),)


@PROP.clause("singular points of prisms", singular_st(), quick=400, thorough=10000, jit=True)
def singular(case, ctx):
    r = rng(case["seed"])
    prisms = np.empty((case["n"], 6))
    for p in prisms:
        for k in range(3):
            p[2 * k : 2 * k + 2] = np.sort(r.choice(np.arange(-3, 4), 2, replace=False))
    density = r.uniform(1, 9, case["n"])
    if case["null"] == "density":
        density[0] = 0.0
    elif case["null"] == "volume":
        k = r.integers(3)
        prisms[0, 2 * k] = prisms[0, 2 * k + 1]
    points = np.empty((case["points"], 3))
    for j in range(len(points)):
        p = prisms[r.integers(case["n"])]
        how = r.choice(["vertex", "edge", "face", "inside", "outside"]) if case["how"] == "any" else case["how"]
        loose = {"vertex": 0, "edge": 1, "face": 2}.get(how, 3)
        free = r.permutation(3)[:loose]
        for k in range(3):
            low, high = p[2 * k], p[2 * k + 1]
            if k not in free:
                points[j, k] = r.choice([low, high])
            elif how == "outside":
                points[j, k] = high + r.choice([-10, 10]) + 0.5
            else:
                points[j, k] = low + r.choice([0.25, 0.5, 0.125]) * max(high - low, 1)
    prisms, points = prisms * case["scale"], points * case["scale"]
    field = case["field"]
    hot = [[bool(set(edges(q, p)) & set(ACROSS.get(field, ()))) for p in prisms] for q in points]
    hot = np.array(hot)
    null = (density == 0) | (prisms[:, ::2] == prisms[:, 1::2]).any(axis=1)
    got, users, _ = record(lambda: hm.prism_gravity(
        tuple(points.T), prisms, density, field, parallel=False, disable_checks=not case["checks"]))
    expected = hot[:, ~null].any(axis=1)
    ctx.trivial(not expected.any())
    same(np.isnan(got), expected, f"points where {field} is NaN")
    if case["checks"]:
        require(not expected.any() or users, f"no warning about the NaNs of {field}")
    require(hot.any() or not users, f"{field}: warnings without singular points")


# ---------------------------------------------------------------- sources ---
@st.composite
def gb_st(draw):
    return {"seed": draw(SEED), "n": draw(pick(5, 60, 4999, 5000, 5001, 5100)), "window": draw(pick("default", 30.0, 1e4)),
            "two": draw(st.booleans())}


@PROP.clause("single default windows", gb_st(), quick=40, thorough=1000, jit=False,
             examples=[{"seed": 1, "n": n, "window": "default", "two": False} for n in (5000, 5001)],
             rule="a default window that covers everything (up to 5000 data)")
def single(case, ctx):
    r, n = rng(case["seed"]), case["n"]
    size = np.sqrt(n) * 10
    at = tuple(r.uniform(0, size, n) for _ in range(2)) + (np.zeros(n),)
    window = case["window"]
    if window != "default":
        window = min(window, 0.9 * min(np.ptp(at[0]), np.ptp(at[1])))
    gridder = hm.EquivalentSourcesGB(depth=10.0, window_size=window, random_state=0)
    _, users, _ = record(lambda: gridder.estimate_required_memory(at))
    must = window == "default" and n <= 5000
    ctx.trivial(not must)
    require(bool(users) == must, f"{len(users)} warnings with {n} data and window_size={window!r}")


@st.composite
def grid_st(draw):
    return {"seed": draw(SEED), "kind": draw(pick("cartesian", "gb", "spherical")),
            "names": draw(st.lists(pick("adjust", "pixel_register", "extra", "region", "spacing", "shape", "upward"),
                                   max_size=2, unique=True)), "none": draw(st.booleans())}


@PROP.clause("ignored arguments of grid", grid_st(), quick=120, thorough=2000, jit=False,
             rule="arguments that are ignored are warned about, deprecated ones rejected")
def ignored(case, ctx):
    r = rng(case["seed"])
    n = 8
    if case["kind"] == "spherical":
        at = (r.uniform(0, 9, n), r.uniform(0, 9, n), np.full(n, 6.4e6))
        gridder = hm.EquivalentSourcesSph(relative_depth=1e5)
        target = (*np.meshgrid(np.arange(3.0), np.arange(2.0)), np.full((2, 3), 6.41e6))
    else:
        at = (r.uniform(0, 9, n), r.uniform(0, 9, n), np.zeros(n))
        kwargs = {"window_size": 2.0, "random_state": 0} if case["kind"] == "gb" else {}
        gridder = (hm.EquivalentSourcesGB if kwargs else hm.EquivalentSources)(depth=5.0, **kwargs)
        target = (*np.meshgrid(np.arange(3.0), np.arange(2.0)), np.full((2, 3), 2.0))
    gridder.fit(at, r.normal(size=n))
    values = {"region": (0, 1, 0, 1), "spacing": 1.0, "shape": (2, 3), "upward": 2.0, "adjust": "spacing",
              "pixel_register": True, "extra": 5}
    given = {k: None if case["none"] else values[k] for k in case["names"]}
    ctx.trivial(not given)
    plain, _, kinds = record(lambda: gridder.grid(target))
    require(not [k for k in kinds if issubclass(k, (FutureWarning, UserWarning))], f"warnings without cause: {kinds}")
    if set(given) & {"region", "spacing", "shape", "upward"}:
        try:
            record(lambda: gridder.grid(target, **given))
        except ValueError:
            return
        require(False, f"deprecated arguments {sorted(given)} were accepted")
    got, _, kinds = record(lambda: gridder.grid(target, **given))
    warned = [k for k in kinds if issubclass(k, FutureWarning)]
    require(bool(warned) == bool(given), f"{len(warned)} warnings about ignored arguments {sorted(given)}")
    require(got.identical(plain), "ignored arguments change the grid")


# ------------------------------------------------------------------ euler ---
@st.composite
def euler_st(draw):
    case = draw(homogeneous.source_st())
    case["noise"] = draw(pick(0.0, 1e-3, 0.05))
    case["tol"] = draw(pick(0.1, 1e-3, 0.5, 1e-6))
    case["candidates"] = draw(pick(None, [1, 2, 3], [2]))
    return case


@PROP.clause("inversions that do not converge", euler_st(), quick=150, thorough=4000, jit=False,
             rule="EulerInversion warns once for each candidate stopped by the number of iterations")
def unconverged(case, ctx):
    coordinates, data = homogeneous.observe(case)[:2]
    r = rng(case["seed"] + 9)
    data = tuple(d + case["noise"] * np.abs(d).max() * r.normal(size=np.shape(d)) for d in data)
    candidates = case["candidates"] or case["index"]

    def run(most, tol, index=candidates):
        out, users, _ = record(lambda: hm.EulerInversion(
            structural_index=index, max_iterations=most, tol=tol).fit(coordinates, data))
        return np.append(out.location_, out.base_level_), len(users)

    each = candidates if isinstance(candidates, list) else [candidates]
    _, count = run(2, 0.0)  # nothing converges
    require(count == len(each), f"{count} warnings of {len(each)} inversions that can't converge")
    _, count = run(1, 1e300)  # everything does
    require(count == 0, f"{count} warnings of inversions that converge at once")
    # the number of iterations that is needed: no more warnings and the same solution from there on
    found = {}
    for k in range(1, 9):
        found[k] = run(k, case["tol"], each[0])
    counts = [found[k][1] for k in sorted(found)]
    require(counts == sorted(counts, reverse=True), f"warnings by number of iterations: {counts}")
    ctx.trivial(counts[0] == 0)
    good = [k for k in found if found[k][1] == 0]
    ctx.event(f"{len(good)} of 8 converged")
    for k in good[1:]:
        close(found[k][0], found[good[0]][0], "solutions that converged", rtol=1e-9,
              atol=1e-9 * np.abs(found[k][0]).max())
