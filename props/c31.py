"""C31: equivalent sources in spherical coordinates."""

import numpy as np

from harness import eqs
from harness.core import Property, close, fail, hm, raises, require, same, st
from harness.eqs import silent
from harness.gens import SEED, fl, pick, rng, shape_of

PROP = Property(
    "C31", "Spherical equivalent sources predict the field of the sources they fitted",
    rule="a case is a survey on a sphere (region, number type, longitude convention), data, weights "
    "and parameters of the estimator; non-trivial when it has at least three data",
    technique="sum of coefficients over distances in geocentric Cartesian coordinates, independent "
    "least squares, data made by known sources, and metamorphic relations",
)


@st.composite
def case_st(draw, least=1, most=20):
    n = draw(st.integers(least, most))
    case = {"seed": draw(SEED), "n": n, "shape": shape_of(draw, n),
            "center": [draw(pick(0.0, -70.0, 180.0, 300.0, 359.0)), draw(pick(0.0, -30.0, 60.0, 80.0))],
            "width": draw(pick(0.5, 5.0, 5.0, 60.0)), "radius": draw(pick(6371e3, 6371e3, 1.0, 1737e3)),
            "numbers": draw(pick("float64", "float64", "float64", "int64")),
            "convention": draw(pick("as is", "positive", "signed")),
            "depth": draw(pick(0.5, 0.8, 0.8, 1.5, -0.7, "default")),
            "points": draw(pick(None, None, None, "same", "fewer", "more")),
            "damping": draw(pick(None, None, 1e-6, 1e-3, 0.1, 10.0)),
            "parallel": draw(st.booleans()),
            "weights": draw(pick(None, None, "random"))}
    if case["radius"] == 1.0 and case["depth"] == "default":
        case["depth"] = 0.8
    return case


def spacing(case):
    """Distance between data, in units of the radius."""
    return np.radians(case["width"]) * case["radius"] / max(np.ceil(np.sqrt(case["n"])), 1)


def sphere(case, n, seed, up=0.0):
    r = rng(case["seed"] + seed)
    side = int(np.ceil(np.sqrt(n)))
    k = r.permutation(side * side)[:n]
    u, v = ((c + r.uniform(-0.35, 0.35, n)) / side - 0.5 for c in (k % side, k // side))
    lat = case["center"][1] + v * case["width"] * (1 if case["center"][1] < 70 else 0.3)
    lon = case["center"][0] + u * case["width"] / np.cos(np.radians(case["center"][1]))
    radius = case["radius"] + spacing(case) * (up + 0.1 * r.uniform(-1, 1, n))
    return lon, lat, radius


def positions(case, n=None, seed=0, up=0.0):
    lon, lat, radius = sphere(case, n or case["n"], seed, up)
    if case["convention"] == "positive":
        lon = lon % 360
    elif case["convention"] == "signed":
        lon = (lon + 180) % 360 - 180
    out = lon, lat, radius
    if case["numbers"] != "float64" and case["width"] >= 5 and case["radius"] > 1:
        out = tuple(c.astype(case["numbers"]) for c in out)
    if n is None:
        out = tuple(c.reshape(case["shape"]) for c in out)
    return out


def kwargs(case):
    out = {"damping": case["damping"], "parallel": case["parallel"]}
    if case["depth"] != "default":
        out["relative_depth"] = case["depth"] * spacing(case)
    if case["points"] is not None:
        n = {"same": case["n"], "fewer": max(case["n"] // 2, 1), "more": case["n"] + 3}[case["points"]]
        lon, lat, radius = sphere(case, n, 21)
        out["points"] = [lon, lat, radius - 0.7 * spacing(case)]
    return out


def data_of(case, seed=1):
    r = rng(case["seed"] + seed)
    return r.uniform(-1, 1, case["shape"]) * r.choice([1e-3, 1.0, 50.0])


def weights_of(case):
    return None if case["weights"] is None else rng(case["seed"] + 30).uniform(0.05, 3, case["shape"])


def fit(case, coordinates, data, weights, **changes):
    e = hm.EquivalentSourcesSph(**{**kwargs(case), **changes})
    require(silent(lambda: e.fit(coordinates, data, weights)) is e, "fit must return the estimator")
    return e


@st.composite
def predict_st(draw):
    least, most = draw(pick(*[(1, 20)] * 19, (100, 150)))
    case = draw(case_st(least=least, most=most))
    case["targets"] = shape_of(draw, draw(pick(*[1, 2, 3, 6, 12] * 5, 1500)))
    case["given"] = draw(pick("arrays", "extra", "scalar radius", "columns", "data", "integers",
                              "integer longitude", "turned"))
    if case["given"] not in ("arrays", "data"):
        case["numbers"] = "float64"
    return case


BASE = {"n": 4, "shape": [4], "center": [300.0, -30.0], "width": 5.0, "radius": 6371e3, "numbers": "float64",
        "convention": "as is", "depth": 0.8, "points": None, "damping": None, "parallel": False,
        "weights": None}


@PROP.clause("predictions are sums over the sources", predict_st(), quick=1200, thorough=40000,
             examples=[{**BASE, "seed": 3, "targets": [3, 2], "given": k} for k in
                       ("scalar radius", "columns", "integers", "integer longitude")])
def predict(case, ctx):
    ctx.trivial(case["n"] < 3)
    ctx.event(case["given"])
    r = rng(case["seed"] + 40)
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    e = fit(case, eqs.shuffled_layout(coordinates, r), data, weights)
    shape = tuple(case["targets"])
    at = tuple(c.reshape(shape) for c in positions({**case, "numbers": "float64"},
                                                   int(np.prod(shape)), 41, 0.5))
    given = case["given"]
    if given == "data":
        at, shape = coordinates, tuple(case["shape"])
    elif given == "integers" and case["radius"] > 1:
        at = tuple(np.round(c).astype(k) for c, k in zip(at, ("int64", "int32", "int64")))
    elif given == "integer longitude":
        at = (np.round(at[0]).astype("int32"), *at[1:])
    elif given == "turned":
        at = (at[0] + 360 * r.integers(-2, 3, shape), *at[1:])
    elif given == "extra":
        at = (*at, np.full(shape, 7.0))
    elif given == "scalar radius":
        at = (at[0], at[1], np.array(at[2].max()))
    elif given == "columns" and len(shape) == 2:
        at = (at[0][:1], at[1][:, :1], at[2])
    out = silent(lambda: e.predict(eqs.shuffled_layout(at, r)))
    if np.shape(out) != shape:
        fail(f"shape {np.shape(out)} of the prediction instead of {shape}")
    g = eqs.green_spherical(at, e.points_)
    size = (np.abs(e.coefs_) * g).sum(axis=1)
    away = case["radius"] * g.max()
    close(np.asarray(out, float), (g @ e.coefs_).reshape(shape), "prediction", rtol=0,
          atol=((1e-14 * away**2 + 1e-11) * size).reshape(shape))


@PROP.clause("positions of the sources", case_st(), quick=800, thorough=20000)
def sources(case, ctx):
    ctx.trivial(case["n"] < 3)
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    args = kwargs(case)
    e = fit(case, coordinates, data, weights)
    flat = [np.ravel(np.asarray(c, float)) for c in coordinates]
    close(e.region_, [flat[0].min(), flat[0].max(), flat[1].min(), flat[1].max()], "region")
    if args.get("points") is not None:
        expected = args["points"]
    else:
        expected = [*flat[:2], flat[2] - args.get("relative_depth", 500)]
    require(np.shape(e.coefs_) == np.shape(e.points_[0]), "one coefficient per source")
    for name, a, b in zip(("longitude", "latitude", "radius"), e.points_, expected):
        close(np.asarray(a, float), b, f"{name} of the sources", rtol=1e-13)


@PROP.clause("regularized least squares", case_st(least=2), quick=800, thorough=25000)
def least_squares(case, ctx):
    ctx.trivial(case["n"] < 3)
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    e = fit(case, coordinates, data, weights)
    j = eqs.green_spherical(coordinates, e.points_)
    damping = case["damping"]
    cond = eqs.condition(j, weights)
    ctx.event("damped" if damping else "not damped")
    # rounding of the distances along the sphere
    noise = 1e-15 * (case["radius"] * j.max()) ** 2 + 1e-15
    if damping is None and (j.shape[1] > j.shape[0] or cond > 3e5) or damping and damping < 1e-13 * cond \
            or noise * cond > 1e-6:
        ctx.event("ill conditioned")
        ctx.trivial(True)
        return
    expected = eqs.solve(j, data, weights, damping)
    here = eqs.objective(j, data, weights, damping, np.asarray(e.coefs_))
    best = eqs.objective(j, data, weights, damping, expected)
    size = (data**2).sum() * (1.0 if weights is None else np.max(weights))
    if here > best * (1 + 1e-6) + (1e-12 + 10 * (noise * cond) ** 2) * size:
        fail(f"misfit {here} instead of {best} (damping {damping})")


@PROP.clause("data made by sources", case_st(least=2), quick=800, thorough=25000)
def reproduce(case, ctx):
    ctx.trivial(case["n"] < 3)
    coordinates, weights = positions(case), weights_of(case)
    r = rng(case["seed"] + 50)
    case = {**case, "damping": None}
    points = [np.asarray(p, float) for p in fit(case, coordinates, np.zeros(case["shape"]), weights).points_]
    j = eqs.green_spherical(coordinates, points)
    cond = eqs.condition(j, weights)
    noise = 1e-15 * (case["radius"] * j.max()) ** 2 + 1e-15
    if j.shape[1] > j.shape[0] or cond > 3e5 or noise * cond > 1e-6:
        ctx.event("ill conditioned")
        ctx.trivial(True)
        return
    coefs = r.uniform(-1, 1, j.shape[1]) * case["radius"]
    data = (j @ coefs).reshape(case["shape"])
    keep = [c.copy() for c in (*coordinates, data)]
    e = fit(case, coordinates, data, weights)
    for a, b in zip(keep, (*coordinates, data)):
        require(np.array_equal(a, b), "the arguments were changed")
    tol = 1e-9 + 100 * noise * cond
    size = np.abs(coefs).max()
    close(e.coefs_, coefs, "coefficients of the sources", rtol=0, atol=10 * tol * size)
    close(silent(lambda: e.predict(coordinates)), data, "fitted data", rtol=0, atol=tol * size * j.sum(axis=1).max())
    at = positions({**case, "numbers": "float64"}, 5, 51, 0.5)
    g = eqs.green_spherical(at, points)
    close(silent(lambda: e.predict(at)), g @ coefs, "field of the sources elsewhere", rtol=0,
          atol=10 * tol * size * g.sum(axis=1))


@PROP.clause("symmetries", case_st(least=3), quick=400, thorough=15000)
def symmetries(case, ctx):
    """Linear in the data; same for other orders, longitude conventions and rotations."""
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    r = rng(case["seed"] + 60)
    at = positions({**case, "numbers": "float64"}, 5, 61, 0.5)
    e = fit(case, coordinates, data, weights)
    j = eqs.green_spherical(coordinates, e.points_)
    cond = eqs.condition(j, weights)
    noise = 1e-15 * (case["radius"] * j.max()) ** 2 + 1e-15
    if case["damping"] is None and (cond > 3e4 or j.shape[1] > j.shape[0]) or \
            case["damping"] and case["damping"] < 1e-5 and cond > 1e4 or noise * cond > 1e-8:
        ctx.trivial(True)
        return
    first = silent(lambda: e.predict(at))
    size = (eqs.green_spherical(at, e.points_) * np.abs(e.coefs_)).sum(axis=1)
    tol = (1e-8 + 100 * noise * cond) * (size + np.abs(first).max())
    other = r.uniform(-1, 1, case["shape"])
    second = silent(lambda: fit(case, coordinates, other, weights).predict(at))
    a, b = r.uniform(-3, 3, 2)
    both = silent(lambda: fit(case, coordinates, a * data + b * other, weights).predict(at))
    slack = 5 * tol + (1e-7 + 100 * noise * cond) * np.abs(second).max() * 5
    close(both, a * first + b * second, "prediction of a combination of data", rtol=1e-7, atol=slack)
    k = r.permutation(case["n"])
    mixed = silent(lambda: fit(case, tuple(c.ravel()[k] for c in coordinates), data.ravel()[k],
                               None if weights is None else weights.ravel()[k]).predict(at))
    close(mixed, first, "prediction after mixing the data", rtol=0, atol=tol)
    turned = (coordinates[0] + np.asarray(360, coordinates[0].dtype) * r.integers(-1, 2, case["shape"]).astype(coordinates[0].dtype),
              *coordinates[1:])
    out = silent(lambda: fit(case, turned, data, weights).predict(at))
    close(out, first, "prediction with longitudes a turn away", rtol=0, atol=tol)
    if case["points"] is None:
        turn = int(r.integers(-180, 180))
        out = fit(case, (coordinates[0] + turn, *coordinates[1:]), data, weights)
        out = silent(lambda: out.predict((at[0] + turn, *at[1:])))
        close(out, first, "prediction after a rotation", rtol=0, atol=tol)
    serial = silent(lambda: fit(case, coordinates, data, weights, parallel=not case["parallel"]).predict(at))
    close(serial, first, "parallel against serial", rtol=0, atol=tol)


@st.composite
def outputs_st(draw):
    case = draw(case_st(least=3, most=10))
    case["grid"] = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    case["by"] = draw(pick("1d", "2d", "2d"))
    case["dims"] = draw(pick(None, ("lat", "lon")))
    case["name"] = draw(pick(None, "gravity"))
    case["whole"] = draw(pick(False, False, True))
    return case


@PROP.clause("grids", outputs_st(), quick=300, thorough=6000, shards=1)
def grids(case, ctx):
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    e = fit(case, coordinates, data, weights)
    r = rng(case["seed"] + 70)
    rows, columns = case["grid"]
    lon = case["center"][0] + np.sort(r.uniform(-0.5, 0.5, columns)) * max(case["width"], 5.0)
    lat = case["center"][1] + np.sort(r.uniform(-0.15, 0.15, rows)) * case["width"]
    if case["whole"]:
        lon = np.round(lon).astype("int64") + np.arange(columns)
    radius = case["radius"] + r.uniform(0.5, 1, (rows, columns)) * spacing(case)
    xx, yy = np.meshgrid(lon, lat)
    options = {}
    if case["dims"]:
        options["dims"] = tuple(case["dims"])
    if case["name"]:
        options["data_names"] = [case["name"]]
    out = silent(lambda: e.grid((lon, lat, radius) if case["by"] == "1d" else (xx, yy, radius), **options))
    dims = tuple(case["dims"] or ("spherical_latitude", "longitude"))
    name = case["name"] or "scalars"
    require(set(out.data_vars) == {name} and out[name].dims == dims, f"{name} along {dims}")
    same(np.asarray(out[dims[1]].values, float), lon.astype(float), "longitude of the grid")
    same(out[dims[0]].values, lat, "latitude of the grid")
    same(out["radius"].values, radius, "radius of the grid")
    g = eqs.green_spherical((xx, yy, radius), e.points_)
    size = (np.abs(e.coefs_) * g).sum(axis=1)
    away = case["radius"] * g.max()
    close(out[name].values, (g @ e.coefs_).reshape(rows, columns), "field of the grid", rtol=0,
          atol=((1e-14 * away**2 + 1e-11) * size).reshape(rows, columns))
    for bad in ({"region": (0, 1, 0, 1)}, {"shape": (2, 2)}, {"spacing": 1}, {"upward": 0}):
        raises(ValueError, lambda bad=bad: e.grid((xx, yy, radius), **bad), f"grid with {bad}")
    from sklearn.exceptions import NotFittedError
    raises(NotFittedError, lambda: hm.EquivalentSourcesSph().predict(coordinates), "predicting before fitting")
    raises(NotImplementedError, lambda: e.profile((0, 1), (2, 3), 4), "profiles")
