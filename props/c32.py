"""C32: gradient-boosted equivalent sources."""

import numpy as np

from harness import eqs
from harness.core import Property, close, fail, hm, raises, require, same, st
from harness.eqs import silent
from harness.gens import SEED, fl, pick, rng, shape_of

PROP = Property(
    "C32", "Gradient-boosted equivalent sources fit every datum with reproducible windows",
    rule="a case is a survey, window size, depth, blocks, damping, weights and random state; "
    "non-trivial when more than one window is used (one for the clause on single windows)",
    technique="recording of the Jacobians asked by the fit, replay of the boosting with independent "
    "least squares, coverage of the data by the windows, and comparison with EquivalentSources",
)


@st.composite
def survey_st(draw, least=4, most=60):
    n = draw(st.integers(least, most))
    return {"seed": draw(SEED), "n": n, "shape": shape_of(draw, n),
            "scatter": draw(pick("random", "random", "grid", "lattice")),
            "where": draw(pick("origin", "near", "near", "far")),
            "size": draw(pick(1.0, 100.0, 3e4)), "aspect": draw(pick(1.0, 1.0, 0.3, 4.0)),
            "relief": draw(pick(0.0, 0.1, 0.5)), "level": draw(pick(0.0, 2.0)),
            "depth": draw(pick("default", 0.4, 0.7, 0.7, 1.0)),
            "damping": draw(pick(1e-3, 0.1, 0.1, 10.0)),
            "weights": draw(pick(None, None, "random")),
            "state": draw(st.integers(0, 5)), "random": draw(pick("int", "int", "RandomState", "None")), "parallel": draw(st.booleans()),
            # fraction of the shortest side of the region
            "window": draw(st.one_of(fl(0.2, 1.0), pick(0.25, 0.5, 1.0, 0.65, 0.72, 0.8, 0.84, 0.88, 0.99, 0.9998, 0.999, 1 / 3))),
            "integers": draw(pick(False, False, False, True))}


def positions(case, n=None, seed=0):
    sub = {k: case[k] for k in ("seed", "n", "shape", "scatter", "where", "size", "aspect", "relief", "level")}
    if case["scatter"] == "lattice":
        # regular grid with sides exactly on the boundaries of the windows
        r = rng(case["seed"] + seed)
        side = int(np.ceil(np.sqrt(case["n"])))
        k = np.arange(case["n"]) if n is None else r.permutation(side * side)[:n]
        o = {"origin": (0, 0), "near": (3, -2), "far": (200, -150)}[case["where"]]
        step = case["size"] * (0.1 if case["size"] < 10 else 1 / 8)
        z = case["level"] + case["relief"] * r.uniform(-1, 1, case["n"])
        out = (k % side * step + o[0] * case["size"], k // side * step * case["aspect"] + o[1] * case["size"],
               z * case["size"] / np.sqrt(case["n"]))
        return tuple(c.reshape(case["shape"]) for c in out)
    out = eqs.positions(sub, seed)
    if case["integers"] and case["size"] > 10:
        out = tuple(np.round(c).astype("int64") for c in out)
    return out


def sides(coordinates):
    return [float(np.max(c)) - float(np.min(c)) for c in coordinates[:2]]


def spacing(case, coordinates):
    return max(sides(coordinates)) / max(np.ceil(np.sqrt(case["n"])), 1)


def kwargs(case, coordinates):
    out = {"damping": case["damping"], "parallel": case["parallel"], "random_state": case["state"]}
    out["depth"] = case["depth"] if case["depth"] == "default" else case["depth"] * spacing(case, coordinates)
    window = case.get("window", "default")
    out["window_size"] = window if window == "default" else window * min(sides(coordinates))
    return out


def data_of(case, seed=1):
    return eqs.values({"seed": case["seed"], "n": case["n"], "shape": case["shape"]}, seed)


def weights_of(case):
    return None if case["weights"] is None else rng(case["seed"] + 30).uniform(0.05, 3, case["shape"])


def recorder():
    """An EquivalentSourcesGB that records the Jacobians it builds."""
    class Recorder(hm.EquivalentSourcesGB):
        @property
        def seen(self):
            return self.__dict__.setdefault("recorded", [])

        def jacobian(self, coordinates, points, *args, **kwargs):
            out = super().jacobian(coordinates, points, *args, **kwargs)
            self.seen.append(
                (tuple(np.array(c) for c in coordinates), tuple(np.array(p) for p in points), np.array(out)))
            return out
    return Recorder


def fitted(case, coordinates, data, weights, cls=None, **changes):
    e = (cls or recorder())(**{**kwargs(case, coordinates), **changes})
    require(silent(lambda: e.fit(coordinates, data, weights)) is e, "fit must return the estimator")
    return e


def indices(chunk, whole):
    """Positions in the whole set of the points in a chunk."""
    whole = np.stack([np.ravel(np.asarray(c, float)) for c in whole[:3]], axis=1)
    chunk = np.stack([np.ravel(np.asarray(c, float)) for c in chunk[:3]], axis=1)
    order = {tuple(p): i for i, p in enumerate(whole)}
    out = [order.get(tuple(p), -1) for p in chunk]
    require(-1 not in out, "a window has a point that is not in the survey")
    require(len(set(out)) == len(out), "a window has a point twice")
    return np.array(out, dtype=int)


def usable(coordinates):
    whole = np.stack([np.ravel(np.asarray(c, float)) for c in coordinates[:2]], axis=1)
    return len(np.unique(whole, axis=0)) == len(whole) and min(sides(coordinates)) > 0


BASE = {"seed": 3, "n": 25, "shape": [25], "scatter": "lattice", "where": "origin", "size": 100.0, "aspect": 1.0,
        "relief": 0.0, "level": 0.0, "depth": 1.0, "damping": 0.1, "weights": None, "state": 1, "parallel": False,
        "window": 0.5, "integers": False}


@PROP.clause("windows and boosting", survey_st(), quick=1000, thorough=30000,
             examples=[{**BASE, "size": 1.0, "window": w, "where": o} for w in (0.5, 0.25, 1.0, 0.72, 0.8, 0.83, 0.86, 0.9)
                       for o in ("origin", "near")]
             + [{**BASE, "scatter": "random", "window": 1 - w, "where": "far"} for w in (3e-6, 1e-4, 5e-4, 2e-3, 0.01)])
def boosting(case, ctx):
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    if not usable(coordinates):
        ctx.trivial(True)
        return
    keep = [np.array(c) for c in (*coordinates, data)]
    random = case.get("random", "int")
    changes = {"random_state": {"int": case["state"], "None": None,
                                "RandomState": np.random.RandomState(case["state"])}[random]}
    np.random.seed(case["state"])  # noqa: NPY002  (the one used by None)
    e = fitted(case, coordinates, data, weights, **changes)
    for a, b in zip(keep, (*coordinates, data)):
        require(np.array_equal(a, b), "the arguments were changed")
    n = case["n"]
    ctx.trivial(len(e.seen) < 2)
    if not e.seen and len(e.rmse_per_iteration_) > 1:  # the windows can't be observed
        ctx.event("not observed")
        return
    ctx.event(f"{min(len(e.seen), 20) // 4 * 4}+ windows")
    window = kwargs(case, coordinates)["window_size"]
    close(float(e.window_size_), window, "window size", rtol=1e-15)
    # every source below a datum
    flat = [np.ravel(np.asarray(c, float)) for c in coordinates]
    for a, b, name in zip(e.points_[:2], flat, ("easting", "northing")):
        same(np.asarray(a), b, f"{name} of the sources")
    depth = 4.5 * eqs.neighbours(coordinates) if case["depth"] == "default" else kwargs(case, coordinates)["depth"]
    close(e.points_[2], flat[2] - depth, "height of the sources", rtol=1e-12, atol=1e-12 * depth)
    visits, shots = np.zeros(n, int), np.zeros(n, int)
    coefs, residue = np.zeros(n), np.ravel(data).astype(float).copy()
    full = eqs.green(coordinates, e.points_)
    rms = [np.sqrt(np.mean(residue**2))]
    biggest = np.abs(residue).max()
    for at, points, jacobian in e.seen:
        i, j = indices(at, coordinates), indices(points, e.points_)
        visits[i] += 1
        shots[j] += 1
        require(np.array_equal(np.sort(i), np.sort(j)), "a window with data but not the sources below them")
        for k in range(2):
            extent = float(np.ptp(flat[k][i]))
            if extent > window * (1 + 1e-4):
                fail(f"a window of {extent} m along axis {k} instead of {window} m")
        close(jacobian, full[np.ix_(i, j)], "Jacobian of a window", rtol=1e-9)
        w = None if weights is None else np.ravel(weights)[i]
        # replay of the boosting
        chunk = eqs.solve(full[np.ix_(i, j)], residue[i], w, case["damping"])
        coefs[j] += chunk
        residue -= full[:, j] @ chunk
        rms.append(np.sqrt(np.mean(residue**2)))
        biggest = max(biggest, np.abs(residue).max())
    if (visits == 0).any() or (shots == 0).any():
        fail(f"{(visits == 0).sum()} data and {(shots == 0).sum()} sources in no window")
    require(len(e.rmse_per_iteration_) == len(e.seen) + 1, "one error for each window and the initial one")
    size = np.abs(coefs).max()
    tol = 1e-6
    if biggest > 1e4 * np.abs(data).max():
        ctx.event("divergent")
        ctx.trivial(True)
        return
    close(np.asarray(e.rmse_per_iteration_), rms, "error after each window", rtol=tol, atol=tol * biggest)
    close(e.coefs_, coefs, "coefficients", rtol=tol, atol=tol * size)
    out = silent(lambda: e.predict(coordinates))
    close(np.ravel(out), full @ np.asarray(e.coefs_), "prediction", rtol=1e-9,
          atol=1e-10 * (full * np.abs(e.coefs_)).sum(axis=1))
    close(np.sqrt(np.mean((data - out) ** 2)), e.rmse_per_iteration_[-1], "last error", rtol=1e-6,
          atol=1e-9 * biggest)


@PROP.clause("reproducible", survey_st(), quick=120, thorough=4000)
def reproducible(case, ctx):
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    if not usable(coordinates):
        ctx.trivial(True)
        return
    first = fitted(case, coordinates, data, weights)
    ctx.trivial(len(first.seen) < 2)
    np.random.seed(case["seed"] % 2**31)
    second = fitted(case, coordinates, data, weights)
    same(np.asarray(second.coefs_), np.asarray(first.coefs_), "coefficients of the second fit")
    same(second.rmse_per_iteration_, first.rmse_per_iteration_, "errors of the second fit")
    again = silent(lambda: first.fit(coordinates, data, weights))
    same(np.asarray(again.coefs_), np.asarray(second.coefs_), "coefficients after fitting again")
    # visits are a matter of the random state only
    other = fitted(case, coordinates, data, weights, random_state=case["state"] + 1)
    a, b = (sorted((len(s[0][0]), float(s[0][0].min()), float(s[0][0].max()), float(s[0][1].min()),
                    float(s[0][1].max())) for s in e.seen[-len(other.seen):]) for e in (second, other))
    require(a == b, "other windows with other random state")
    # scaling the data scales the solution
    factor = 2.0 ** int(rng(case["seed"]).integers(-8, 9))
    scaled = fitted(case, coordinates, factor * data, weights)
    close(scaled.coefs_, factor * np.asarray(second.coefs_), "coefficients of scaled data", rtol=1e-7,
          atol=1e-7 * factor * np.abs(second.coefs_).max())


@st.composite
def single_st(draw):
    case = draw(survey_st())
    case["window"] = draw(pick("default", "default", 1.0))
    case["square"] = True
    if case["window"] == 1.0:
        case["scatter"], case["aspect"] = "square", 1.0
    case["damping"] = draw(pick(None, 1e-6, 1e-3, 0.1))
    case["block"] = draw(pick(None, None, "one", "two"))
    case["points"] = draw(pick(None, None, "same", "more"))
    case["dtype"] = draw(pick("float64", "float64", "float32"))
    if case["dtype"] == "float32":
        case["damping"] = draw(pick(1e-1, 1.0))
        case["where"] = draw(pick("origin", "near"))
    case["name"] = draw(pick("numpy", "string"))
    return case


@PROP.clause("single windows", single_st(), quick=500, thorough=15000)
def single(case, ctx):
    """The same as EquivalentSources."""
    r = rng(case["seed"] + 40)
    if case["scatter"] == "square":
        coordinates = positions({**case, "scatter": "random", "integers": False})
        flat = [np.array(np.ravel(c)) for c in coordinates]
        for c in flat[:2]:  # exactly square
            c[:] = (c - c.min()) / (c.max() - c.min())
        o = {"origin": (0, 0), "near": (3, -2), "far": (20, -15)}[case["where"]]
        coordinates = tuple((c * 2 + v) * case["size"] for c, v in zip(flat, o)) + (flat[2],)
        coordinates = tuple(c.reshape(case["shape"]) for c in coordinates)
    else:
        coordinates = positions(case)
    if not usable(coordinates):
        ctx.trivial(True)
        return
    data, weights = data_of(case), weights_of(case)
    args = kwargs(case, coordinates)
    if case["window"] == 1.0:
        args["window_size"] = max(sides(coordinates))
    changes = {"dtype": np.dtype(case["dtype"]) if case["name"] == "numpy" else case["dtype"]}
    s = spacing(case, coordinates)
    if case["block"] == "one" and 1.3 * s < min(sides(coordinates)):
        changes["block_size"] = 1.3 * s
    elif case["block"] == "two":
        changes["block_size"] = (0.4 * sides(coordinates)[1], 0.3 * sides(coordinates)[0])
    if case["points"]:
        n = case["n"] + (3 if case["points"] == "more" else 0)
        k = r.integers(0, case["n"], n)
        changes["points"] = tuple(np.ravel(c)[k] + r.uniform(-0.1, 0.1, n) * s * (case["window"] != 1.0)
                                  - (0 if i < 2 else 0.7 * s) for i, c in enumerate(coordinates))
    gb = fitted(case, coordinates, data, weights, **{**args, **changes})
    reference = hm.EquivalentSources(**{k: v for k, v in {**args, **changes}.items()
                                        if k not in ("window_size", "random_state")})
    silent(lambda: reference.fit(coordinates, data, weights))
    ctx.trivial(case["n"] < 3)
    require(len(gb.seen) <= 1, f"{len(gb.seen)} windows instead of one")
    if case["window"] == "default":
        require(gb.window_size_ is None, "no window size for a single window")
    require(gb.depth_ == reference.depth_, "depth")
    require(tuple(gb.region_) == tuple(reference.region_), "region")
    for a, b, name in zip(gb.points_, reference.points_, ("easting", "northing", "upward")):
        same(np.asarray(a), np.asarray(b), f"{name} of the sources")
    require(np.asarray(gb.coefs_).dtype == np.dtype(case["dtype"]), "type of the coefficients")
    j = eqs.green(coordinates, gb.points_)
    if case["damping"] is None and (j.shape[1] > j.shape[0] or eqs.condition(j, weights) > 3e5):
        ctx.event("ill conditioned")
        return
    tol = 2e-2 if case["dtype"] == "float32" else 1e-6
    size = np.abs(reference.coefs_).max()
    if case["points"] != "more" or case["damping"]:
        close(np.asarray(gb.coefs_), np.asarray(reference.coefs_), "coefficients", rtol=0, atol=tol * size)
    one, two = silent(lambda: gb.predict(coordinates)), silent(lambda: reference.predict(coordinates))
    require(np.shape(one) == tuple(case["shape"]), "shape of the prediction")
    close(np.asarray(one, float), np.asarray(two, float), "prediction", rtol=0,
          atol=tol * size * j.sum(axis=1).max())


@st.composite
def big_st(draw):
    return {"seed": draw(SEED), "n": draw(pick(5000, 5001, 5400, 6500)), "aspect": draw(pick(1.0, 0.5, 6.0, 12.0)),
            "where": draw(pick(0.0, 3e5)), "size": draw(pick(10.0, 1e4)), "blocks": draw(pick(0.08, 0.13))}


@PROP.clause("default windows", big_st(), quick=6, thorough=60, shards=2,
             examples=[{"seed": 5, "n": 5300, "aspect": a, "where": 0.0, "size": 1e4, "blocks": 0.1}
                       for a in (1.0, 12.0)])
def default_windows(case, ctx):
    """About 5000 data in each window for large surveys, a single window otherwise."""
    r = rng(case["seed"])
    n = case["n"]
    u, v = r.uniform(0, 1, (2, n))
    coordinates = (case["where"] + u * case["size"] * case["aspect"], case["where"] + v * case["size"],
                   r.uniform(0, 0.01, n) * case["size"])
    # few sources, by averaging in blocks: only the windows matter
    e = recorder()(depth=0.3 * case["size"], damping=1.0, random_state=1,
                   block_size=case["blocks"] * case["size"] * max(1, case["aspect"]) ** 0.5)
    data = r.uniform(-1, 1, n)
    silent(lambda: e.fit(coordinates, data))
    windows = len(e.rmse_per_iteration_) - 1
    covered = np.zeros(n, bool)
    for at, _, _ in e.seen:
        covered[indices(at, coordinates)] = True
    if e.seen:
        require(len(e.seen) == windows, "one error for each window and the initial one")
        require(covered.all(), f"{(~covered).sum()} data in no window")
    if n <= 5000:
        require(windows == 1 and e.window_size_ is None, "a single window up to 5000 data")
        return
    density = n / np.prod(sides(coordinates))
    expected = min(np.sqrt(5000 / density), *sides(coordinates))
    close(float(e.window_size_), expected, "default window size", rtol=0.02)
    for at, _, _ in e.seen:
        for k in range(2):
            require(np.ptp(at[k]) <= e.window_size_ * (1 + 1e-4), "a window larger than the default size")
    if case["aspect"] >= 6:
        require(windows > 1, "a single window for an elongated region")
    out = silent(lambda: e.predict(coordinates))
    close(np.sqrt(np.mean((data - out) ** 2)), e.rmse_per_iteration_[-1], "last error", rtol=1e-6)


@st.composite
def apart_st(draw):
    case = draw(survey_st(least=9))
    case["sources"] = draw(st.integers(4, 40))
    case["reach"] = draw(pick(1.0, 1.5, 3.0))
    return case


@PROP.clause("sources given by the user", apart_st(), quick=400, thorough=10000)
def given(case, ctx):
    """Consistent errors and predictions, with windows over data and sources."""
    coordinates, data, weights = positions(case), data_of(case), weights_of(case)
    if not usable(coordinates):
        ctx.trivial(True)
        return
    r = rng(case["seed"] + 50)
    m = case["sources"]
    s = spacing(case, coordinates)
    points = [np.mean(c) + case["reach"] * (r.uniform(0, 1, m) - 0.5) * np.ptp(c) for c in coordinates[:2]]
    points.append(np.min(coordinates[2]) - s * r.uniform(0.7, 2, m))
    e = fitted(case, coordinates, data, weights, points=tuple(points))
    require(e.depth_ is None, "no depth for given sources")
    ctx.trivial(len(getattr(e, "seen", [])) < 2)
    for a, b in zip(e.points_, points):
        same(np.asarray(a), b, "sources")
    used = np.zeros(m, bool)
    covered = np.zeros(case["n"], bool)
    for at, p, _ in getattr(e, "seen", []):
        used[indices(p, points)] = True
        covered[indices(at, coordinates)] = True
    require((np.asarray(e.coefs_)[~used] == 0).all(), "coefficients of sources in no window")
    window = kwargs(case, coordinates)["window_size"]
    # Every point is at an eighth of a window or more from the side of some window
    near = np.maximum(np.abs(points[0][:, None] - np.ravel(coordinates[0])),
                      np.abs(points[1][:, None] - np.ravel(coordinates[1]))) < 0.11 * window
    require(covered[near.any(axis=0)].all(), "a datum in no window but with a source close to it")
    require(used[near.any(axis=1)].all(), "a source in no window but with a datum close to it")
    out = silent(lambda: e.predict(coordinates))
    full = eqs.green(coordinates, points)
    size = (full * np.abs(e.coefs_)).sum(axis=1)
    close(np.ravel(out), full @ np.asarray(e.coefs_), "prediction", rtol=0, atol=1e-10 * size)
    close(np.sqrt(np.mean((data - out) ** 2)), e.rmse_per_iteration_[-1], "last error", rtol=1e-6,
          atol=1e-8 * size.max())
