"""C30: equivalent sources in Cartesian coordinates."""

import numpy as np

from harness import eqs
from harness.core import Property, close, fail, hm, raises, require, same, st, xr
from harness.eqs import silent
from harness.gens import SEED, fl, pick, rng, shape_of

PROP = Property(
    "C30", "Equivalent sources predict the field of the sources they fitted",
    rule="a case is a survey (scatter, relief, origin, order), data, weights and parameters of the "
    "estimator; non-trivial when it has at least three data",
    technique="sum of coefficients over distances with numpy, independent least squares, positions "
    "of the sources by brute force, data made by known sources, and metamorphic relations",
)


@st.composite
def parameters_st(draw, case, dtype=False):
    """Parameters of the estimator, described."""
    p = {"depth": draw(pick("default", 0.4, 0.7, 0.7, 1.0, -0.6)),
         "points": draw(pick(None, None, None, "same", "fewer", "more")),
         "block": draw(pick(None, None, None, "one", "two", "big")),
         "damping": draw(pick(None, None, 1e-6, 1e-3, 0.1, 10.0)),
         "parallel": draw(st.booleans())}
    if case["n"] < 2:
        p["depth"] = draw(pick(0.4, 1.0, 2.0)) if p["depth"] == "default" else p["depth"]
    if dtype:
        p["dtype"] = draw(pick("float64", "float64", "float32"))
    return p


@st.composite
def case_st(draw, least=1, most=24, dtype=False):
    case = draw(eqs.survey_st(most=most, least=least))
    case["parameters"] = draw(parameters_st(case, dtype))
    case["weights"] = draw(pick(None, None, "equal", "random"))
    return case


def spacing(case):
    return 2 * case["size"] / max(np.ceil(np.sqrt(case["n"])), 1)


def kwargs(case):
    """Arguments of the constructor."""
    p = case["parameters"]
    out = {"damping": p["damping"], "parallel": p["parallel"]}
    out["depth"] = p["depth"] if p["depth"] == "default" else p["depth"] * spacing(case)
    if p["points"] is not None:
        r = rng(case["seed"] + 20)
        n = {"same": case["n"], "fewer": max(case["n"] // 2, 1), "more": case["n"] + 3}[p["points"]]
        source = eqs.positions({**case, "n": n, "shape": [n]}, 21)
        points = [*source[:2], source[2] - 0.7 * spacing(case)]
        out["points"] = tuple(points) if r.random() < 0.5 else points
    if p["block"] is not None:
        s = spacing(case)
        out["block_size"] = {"one": 1.3 * s, "two": (1.1 * s, 2.3 * s), "big": 1.9 * case["size"]}[p["block"]]
        if case["n"] < 3 or case["scatter"] == "line":
            out["block_size"] = None
    if "dtype" in p:
        out["dtype"] = p["dtype"]
    return out


def weights_of(case):
    if case["weights"] is None:
        return None
    if case["weights"] == "equal":
        return np.full(case["shape"], 0.3)
    return rng(case["seed"] + 30).uniform(0.05, 3, case["shape"])


def fit(case, coordinates, data, weights, **changes):
    e = hm.EquivalentSources(**{**kwargs(case), **changes})
    require(silent(lambda: e.fit(coordinates, data, weights)) is e, "fit must return the estimator")
    return e


def targets(case, r, n):
    """Points above and around the survey."""
    size = case["size"]
    e, u, up = (np.ravel(c) for c in eqs.positions(case))
    out = (e.mean() + r.uniform(-2, 2, n) * size, u.mean() + r.uniform(-2, 2, n) * size * case["aspect"],
           up.max() + r.uniform(0, 1, n) * size)
    return out


@st.composite
def predict_st(draw):
    least, most = draw(pick(*[(1, 24)] * 19, (100, 150)))
    case = draw(case_st(least=least, most=most, dtype=True))
    n = draw(pick(*[1, 2, 3, 6, 12] * 5, 1500))
    case["targets"] = shape_of(draw, n)
    case["given"] = draw(pick("arrays", "extra", "scalar height", "columns", "integers", "data",
                              "float32", "arrays"))
    return case


@PROP.clause("predictions are sums over the sources", predict_st(), quick=700, thorough=30000,
             examples=[{"seed": 3, "n": 4, "shape": [2, 2], "scatter": "random", "where": "near",
                        "size": 100.0, "aspect": 1.0, "relief": 0.1, "level": 0.0,
                        "parameters": {"depth": 0.7, "points": None, "block": None, "damping": None,
                                       "parallel": False, "dtype": "float64"},
                        "weights": None, "targets": [3, 2], "given": k}
                       for k in ("scalar height", "columns", "integers")])
def predict(case, ctx):
    if case["parameters"]["dtype"] == "float32" and case["where"] == "far":
        case = {**case, "where": "near"}
    ctx.trivial(case["n"] < 3)
    ctx.event(case["given"])
    ctx.event(case["parameters"]["dtype"])
    r = rng(case["seed"] + 40)
    coordinates, data, weights = eqs.positions(case), eqs.values(case), weights_of(case)
    e = fit(case, eqs.shuffled_layout(coordinates, r), data, weights)
    shape = tuple(case["targets"])
    at = tuple(c.reshape(shape) for c in targets(case, r, int(np.prod(shape))))
    if case["given"] == "data":
        at = coordinates
        shape = tuple(case["shape"])
    elif case["given"] == "integers":
        at = tuple(np.round(c * (1 if case["size"] > 50 else 100)).astype(k)
                   for c, k in zip(at, ("int64", "float64", "int32")))
    elif case["given"] == "float32":
        at = tuple(c.astype("float32") for c in at)
    elif case["given"] == "extra":
        at = (*at, np.full(shape, 7.0), np.zeros(shape))
    elif case["given"] == "scalar height":
        at = (at[0], at[1], np.array(at[2].max()))
    elif case["given"] == "columns" and len(shape) == 2:
        at = (at[0][:1], at[1][:, :1], at[2])
    given = eqs.shuffled_layout(at, r)
    points, coefs = [np.array(p, float) for p in e.points_], np.array(e.coefs_, float)
    out = silent(lambda: e.predict(given))
    if np.shape(out) != shape:
        fail(f"shape {np.shape(out)} of the prediction instead of {shape}")
    require(np.asarray(out).dtype == np.dtype(case["parameters"]["dtype"]), "type of the prediction")
    full = np.broadcast_arrays(*at[:3])
    g = eqs.green(full, points)
    size = (np.abs(coefs) * g).sum(axis=1).reshape(shape)
    tol = 1e-12
    if case["parameters"]["dtype"] == "float32":
        # rounding of the coordinates of the points and the sources, with distances
        away = 1 / g.max()
        tol = 2e-6 + 3e-7 * max(np.abs(c).max() for c in (*full, *points)) / away
    close(out, (g @ coefs).reshape(shape), "prediction", rtol=0, atol=tol * size)
    same(np.asarray(e.coefs_, float), coefs, "coefficients after predicting")


@PROP.clause("positions of the sources", case_st(dtype=True), quick=500, thorough=15000)
def sources(case, ctx):
    if case["parameters"]["dtype"] == "float32" and case["where"] == "far":
        case = {**case, "where": "near"}
    coordinates, data, weights = eqs.positions(case), eqs.values(case), weights_of(case)
    ctx.trivial(case["n"] < 3)
    args = kwargs(case)
    e = fit(case, coordinates, data, weights)
    tol = 1e-12 if args["dtype"] == "float64" else 1e-6
    size = max(np.abs(c).max() for c in coordinates) + case["size"]
    flat = [np.ravel(c) for c in coordinates]
    close(e.region_, [flat[0].min(), flat[0].max(), flat[1].min(), flat[1].max()], "region",
          rtol=0, atol=tol * size)
    require(len(e.points_) == 3, "three coordinates of the sources")
    require(np.shape(e.coefs_) == np.shape(e.points_[0]), "one coefficient per source")
    if args.get("points") is not None:
        ctx.event("points")
        for a, b in zip(e.points_, args["points"]):
            close(a, b, "given source positions", rtol=0, atol=tol * size)
        require(e.depth_ is None, f"depth {e.depth_} for given sources")
        return
    if args.get("block_size") is not None:
        ctx.event("blocks")
        expected = medians(flat, args["block_size"])
        if expected is None:
            return
    else:
        ctx.event("below the data")
        expected = flat
    depth = args["depth"]
    if depth == "default":
        if len(expected[0]) < 2:
            return
        ctx.event("default depth")
        depth = 4.5 * eqs.neighbours(expected)
    close(e.depth_, depth, "depth", rtol=1e-5 if tol > 1e-9 else 1e-9)
    expected = [expected[0], expected[1], expected[2] - depth]
    if args.get("block_size") is not None:  # blocks in any order
        orders = [np.lexsort((np.round(np.asarray(p[1], float) / case["size"], 4),
                              np.round(np.asarray(p[0], float) / case["size"], 4))) for p in (e.points_, expected)]
        require(orders[0].size == orders[1].size, f"{orders[0].size} sources for {orders[1].size} blocks")
    else:
        orders = [slice(None)] * 2
    for name, a, b in zip(("easting", "northing", "upward"), e.points_, expected):
        close(np.asarray(a, float)[orders[0]], b[orders[1]], f"{name} of the sources", rtol=0, atol=10 * tol * size)


def medians(flat, size):
    """Median position in each block, or None if a point is at the edge between blocks."""
    dy, dx = np.broadcast_to(size, 2)
    index = []
    for v, d in ((flat[0], dx), (flat[1], dy)):
        width = v.max() - v.min()
        ratio = width / d
        if abs(ratio % 1 - 0.5) < 1e-6:
            return None
        n = max(int(round(ratio)), 1)
        k = (v - v.min()) / (width / n)
        inner = np.abs(k - np.round(k))
        if ((inner < 1e-6) & (np.round(k) > 0) & (np.round(k) < n)).any():
            return None
        index.append(np.clip(np.floor(k), 0, n - 1).astype(int))
    out = []
    for key in sorted(set(zip(*index))):
        inside = (index[0] == key[0]) & (index[1] == key[1])
        out.append([np.median(v[inside]) for v in flat])
    return [np.array(v) for v in zip(*out)]


@PROP.clause("regularized least squares", case_st(least=2), quick=500, thorough=20000)
def least_squares(case, ctx):
    coordinates, data, weights = eqs.positions(case), eqs.values(case), weights_of(case)
    ctx.trivial(case["n"] < 3)
    e = fit(case, coordinates, data, weights)
    j = eqs.green(coordinates, e.points_)
    damping = case["parameters"]["damping"]
    cond = eqs.condition(j, weights)
    over = j.shape[1] > j.shape[0]
    ctx.event("damped" if damping else "not damped")
    if damping is None and (over or cond > 3e5) or damping is not None and damping < 1e-13 * cond:
        ctx.event("ill conditioned")
        if damping is None and over and cond < 3e5:
            close(j @ e.coefs_, data.ravel(), "data from more sources", rtol=0,
                  atol=1e-6 * np.abs(data).max())
        return
    expected = eqs.solve(j, data, weights, damping)
    here = eqs.objective(j, data, weights, damping, np.asarray(e.coefs_))
    best = eqs.objective(j, data, weights, damping, expected)
    size = (data**2).sum() * (1.0 if weights is None else np.max(weights))
    if here > best * (1 + 1e-7) + 1e-12 * size:
        fail(f"misfit {here} instead of {best} (damping {damping})")
    if damping is not None and damping >= 1e-3 or damping is None and cond < 1e4:
        close(e.coefs_, expected, "coefficients", rtol=1e-6, atol=1e-6 * np.abs(expected).max())


@PROP.clause("data made by sources", case_st(least=2), quick=400, thorough=15000)
def reproduce(case, ctx):
    """Noise-free data of known sources: the same data, coefficients and field elsewhere."""
    coordinates, weights = eqs.positions(case), weights_of(case)
    ctx.trivial(case["n"] < 3)
    r = rng(case["seed"] + 50)
    case = {**case, "parameters": {**case["parameters"], "damping": None}}
    points = fit(case, coordinates, np.zeros(case["shape"]), weights).points_
    j = eqs.green(coordinates, points)
    if j.shape[1] > j.shape[0] or eqs.condition(j, weights) > 3e5:
        ctx.event("ill conditioned")
        ctx.trivial(True)
        return
    coefs = r.uniform(-1, 1, j.shape[1]) * case["size"]
    data = (j @ coefs).reshape(case["shape"])
    keep = [c.copy() for c in (*coordinates, data)]
    e = fit(case, coordinates, data, weights)
    for a, b in zip(keep, (*coordinates, data)):
        require(np.array_equal(a, b), "the arguments were changed")
    tol = 1e-13 * eqs.condition(j) + 1e-9
    size = np.abs(coefs).max()
    close(e.coefs_, coefs, "coefficients of the sources", rtol=0, atol=100 * tol * size)
    close(silent(lambda: e.predict(coordinates)), data, "fitted data", rtol=0,
          atol=tol * (np.abs(j) @ np.abs(coefs)).max())
    at = targets(case, r, 6)
    g = eqs.green(at, points)
    close(silent(lambda: e.predict(at)), g @ coefs, "field of the sources elsewhere", rtol=0,
          atol=100 * tol * (g.sum(axis=1) * size))
    # as many sources as data, any data
    if j.shape[0] == j.shape[1]:
        ctx.event("as many sources as data")
        data = eqs.values(case)
        e = fit(case, coordinates, data, weights)
        close(silent(lambda: e.predict(coordinates)), data, "data with as many sources", rtol=0,
              atol=10 * tol * eqs.condition(j) ** 0.5 * np.abs(data).max())


@PROP.clause("symmetries", case_st(least=3), quick=250, thorough=10000)
def symmetries(case, ctx):
    """Linear in the data; same for other orders, shapes, origins and scaled weights."""
    coordinates, data, weights = eqs.positions(case), eqs.values(case), weights_of(case)
    r = rng(case["seed"] + 60)
    at = targets(case, r, 5)
    e = fit(case, coordinates, data, weights)
    j = eqs.green(coordinates, e.points_)
    damping = case["parameters"]["damping"]
    cond = eqs.condition(j, weights)
    if damping is None and (cond > 1e5 or j.shape[1] > j.shape[0]) or damping and damping < 1e-5 and cond > 1e4:
        ctx.event("ill conditioned")
        ctx.trivial(True)
        return
    first = silent(lambda: e.predict(at))
    size = (eqs.green(at, e.points_) * np.abs(e.coefs_)).sum(axis=1)
    tol = 1e-8 * (size + np.abs(first).max())
    other = r.uniform(-1, 1, case["shape"])
    second = silent(lambda: fit(case, coordinates, other, weights).predict(at))
    a, b = r.uniform(-3, 3, 2)
    both = silent(lambda: fit(case, coordinates, a * data + b * other, weights).predict(at))
    close(both, a * first + b * second, "prediction of a combination of data", rtol=1e-7, atol=5 * tol + 1e-7)
    k = r.permutation(case["n"])
    mixed = silent(lambda: fit(case, tuple(c.ravel()[k] for c in coordinates), data.ravel()[k],
                               None if weights is None else weights.ravel()[k]).predict(at))
    close(mixed, first, "prediction after mixing the data", rtol=0, atol=tol)
    if weights is not None and damping is None:
        scaled = silent(lambda: fit(case, coordinates, data, 17.0 * weights).predict(at))
        close(scaled, first, "prediction with scaled weights", rtol=0, atol=tol)
    if weights is None:
        ones = silent(lambda: fit(case, coordinates, data, np.ones(case["shape"])).predict(at))
        close(ones, first, "prediction with unit weights", rtol=0, atol=tol)
    serial = silent(lambda: fit(case, coordinates, data, weights, parallel=not case["parameters"]["parallel"]).predict(at))
    close(serial, first, "parallel against serial", rtol=0, atol=tol)
    if "points" not in kwargs(case):
        shift = r.integers(-64, 64, 3) * case["size"]
        moved = fit(case, tuple(c + s for c, s in zip(coordinates, shift)), data, weights)
        moved = silent(lambda: moved.predict(tuple(c + s for c, s in zip(at, shift))))
        if kwargs(case).get("block_size") is None:  # a point could change block by rounding
            close(moved, first, "prediction in a moved frame", rtol=0, atol=100 * tol)


@st.composite
def outputs_st(draw):
    case = draw(case_st(least=3, most=10))
    case["grid"] = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    case["by"] = draw(pick("1d", "2d", "2d"))
    case["dims"] = draw(pick(None, ("lat", "lon"), ("y", "x")))
    case["name"] = draw(pick(None, "gravity"))
    case["projection"] = draw(st.booleans())
    case["size_"] = draw(st.integers(2, 6))
    return case


@PROP.clause("grids and profiles", outputs_st(), quick=200, thorough=5000)
def outputs(case, ctx):
    coordinates, data, weights = eqs.positions(case), eqs.values(case), weights_of(case)
    e = fit(case, coordinates, data, weights)
    r = rng(case["seed"] + 70)
    rows, columns = case["grid"]
    size = case["size"]
    x = np.sort(coordinates[0].mean() + r.uniform(-1, 1, columns) * size)
    y = np.sort(coordinates[1].mean() + r.uniform(-1, 1, rows) * size)
    up = coordinates[2].max() + r.uniform(0, 1, (rows, columns)) * size
    xx, yy = np.meshgrid(x, y)

    def projection(e_, n_, inverse=False):
        return (e_ / 2 + 1, n_ * 4 - 3) if not inverse else ((e_ - 1) * 2, (n_ + 3) / 4)

    options = {}
    if case["dims"]:
        options["dims"] = tuple(case["dims"])
    if case["name"]:
        options["data_names"] = [case["name"]]
    if case["projection"]:
        options["projection"] = projection
    given = (x, y, up) if case["by"] == "1d" else (xx, yy, up)
    out = silent(lambda: e.grid(given, **options))
    dims = tuple(case["dims"] or ("northing", "easting"))
    name = case["name"] or "scalars"
    require(set(out.data_vars) == {name}, f"variables {set(out.data_vars)}")
    require(out[name].dims == dims, f"dimensions {out[name].dims}")
    same(out[dims[1]].values, x, "easting of the grid")
    same(out[dims[0]].values, y, "northing of the grid")
    same(out["upward"].values, up, "upward of the grid")
    at = projection(xx, yy) if case["projection"] else (xx, yy)
    expected = silent(lambda: e.predict((*at, up)))
    close(out[name].values, expected, "grid against predict", rtol=1e-12, atol=1e-12 * np.abs(expected).max())
    # profile
    p1, p2 = (x[0], y[0]), (x[-1] + size, y[-1] + 0.5 * size)
    height = float(up.max())
    table = silent(lambda: e.profile(p1, p2, height, case["size_"], **options))
    require(len(table) == case["size_"], "number of points of the profile")
    require(list(table.columns) == [*dims, "distance", "upward", name], f"columns {list(table.columns)}")
    q1, q2 = (projection(*map(np.array, p)) if case["projection"] else p for p in (p1, p2))
    t = np.linspace(0, 1, case["size_"])
    px, py = (a + t * (b - a) for a, b in zip(q1, q2))
    close(table["distance"], t * np.hypot(q2[0] - q1[0], q2[1] - q1[1]), "distance of the profile", rtol=1e-9, atol=1e-9 * size)
    expected = silent(lambda: e.predict((px, py, np.full(px.shape, height))))
    close(table[name], expected, "profile against predict", rtol=1e-7, atol=1e-7 * np.abs(expected).max())
    close(table["upward"], np.full(px.shape, height), "upward of the profile")
    back = projection(px, py, inverse=True) if case["projection"] else (px, py)
    close(table[dims[1]], back[0], "easting of the profile", rtol=1e-9, atol=1e-9 * size)
    close(table[dims[0]], back[1], "northing of the profile", rtol=1e-9, atol=1e-9 * size)
    # what isn't supported is refused
    for bad in ({"region": (0, 1, 0, 1)}, {"shape": (2, 2)}, {"spacing": 1}, {"upward": 0}):
        raises(ValueError, lambda bad=bad: e.grid(given, **bad), f"grid with {bad}")
    raises(ValueError, lambda: hm.EquivalentSources(depth=0), "zero depth")
    raises(ValueError, lambda: hm.EquivalentSources(depth="deep"), "text as depth")
    from sklearn.exceptions import NotFittedError
    raises(NotFittedError, lambda: hm.EquivalentSources().predict(coordinates), "predicting before fitting")
