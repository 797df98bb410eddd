"""C29: Euler inversion."""

import warnings

import numpy as np
import scipy.optimize

from harness import homogeneous as h
from harness.core import Property, close, fail, hm, raises, require, st
from harness.gens import SEED, fl, layout, pick, rng

PROP = Property(
    "C29", "Euler inversion recovers the source and selects the right structural index",
    rule="a case is a homogeneous field, with or without noise, and candidate structural indices; "
    "non-trivial when the deconvolution that starts the inversion is well conditioned (10^8)",
    technique="the position, base level and index used to generate the field, independent "
    "minimization of the documented weighted total least-squares problem, and metamorphic relations",
)

EPS = 2.3e-16


def fit(coordinates, data, weights=None, **kwargs):
    e = hm.EulerInversion(**kwargs)
    return refit(e, coordinates, data, weights)


def refit(e, coordinates, data, weights=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = e.fit(coordinates, data, **({} if weights is None else {"weights": weights}))
    require(out is e, "fit must return the estimator")
    return e


def tolerance(coordinates, data, index):
    cond = h.amplification(coordinates, data, index)
    _, _, scales = h.system(coordinates, data, index)
    terms = sum(np.abs(np.ravel(c) * np.ravel(d)) for c, d in zip(coordinates, data[1:]))
    terms = terms + index * np.abs(np.ravel(data[0]))
    return cond, 500 * EPS * cond * float(np.sqrt((terms**2).sum())) / scales.astype(float)


@st.composite
def exact_st(draw):
    case = draw(h.source_st(most=60))
    case["candidates"] = draw(pick("one", "default", "all", "all", "array", "pair", "repeated", "many"))
    case["weights"] = draw(pick("default", "default", "tuple", "list", "array"))
    case["balance"] = draw(pick(0.1, 0.1, 1.0, 1e-3))
    return case


def candidates(case, r):
    index = case["index"]
    kind = case["candidates"]
    if kind == "default" and index not in (1, 2, 3):
        kind = "pair"
    if kind == "one":
        return index
    if kind == "default":
        return None
    if kind == "pair":
        other = float(r.choice([k for k in (1, 2, 3, 0.5, 2.5) if k != index]))
        return [index, other] if r.random() < 0.5 else (other, index)
    if kind == "many":
        return r.permutation(sorted({1, 2, 3, 4, 5, 6, index})).tolist()
    order = r.permutation(sorted({1, 2, 3, index})).tolist()
    if kind == "repeated":
        return tuple([*order, index])
    return np.array(order) if kind == "array" else order


@PROP.clause("recovery and selection", exact_st(), quick=700, thorough=30000, jit=False, shards=3,
             examples=[{"seed": 5, "n": 16, "shape": [4, 4], "index": 2, "kind": "dipole",
                        "where": "near", "scatter": "grid", "scale": 1.0, "size": 100.0,
                        "base": 1.0, "depth": 0.5, "candidates": "array", "weights": "array",
                        "balance": 0.1}])
def recovery(case, ctx):
    coordinates, data, source, base = h.observe(case)
    index = case["index"]
    cond, tol = tolerance(coordinates, data, index)
    if cond > 1e8:
        ctx.trivial(True)
        return
    ctx.event(case["candidates"])
    ctx.event(f"{case['kind']} {index}")
    r = rng(case["seed"] + 2)
    coordinates = tuple(layout(c, r) for c in coordinates)
    data = tuple(layout(c, r) for c in data)
    keep = [c.copy() for c in (*coordinates, *data)]
    given = candidates(case, r)
    weights = None
    if case["weights"] != "default":
        weights = [1.0, *r.uniform(0.02, 1, 3)]
        weights = {"tuple": tuple, "list": list, "array": np.array}[case["weights"]](weights)
    kwargs = {} if given is None else {"structural_index": given}
    e = fit(coordinates, data, weights, euler_misfit_balance=case["balance"], **kwargs)
    for a, b in zip(keep, (*coordinates, *data)):
        require(np.array_equal(a, b), "the arguments were changed")
    if e.structural_index_ != index:
        fail(f"structural index {e.structural_index_} instead of {index} among {given}")
    require(np.shape(e.location_) == (3,), "shape of the location")
    require(np.ndim(e.base_level_) == 0, "base level must be a number")
    require(np.shape(e.covariance_) == (4, 4), "shape of the covariance")
    close(e.location_, source, "location of the source", rtol=0, atol=tol[:3])
    close(e.base_level_, base, "base level", rtol=0, atol=tol[3])
    # the covariance of perfect data vanishes, compared with that of slightly inexact data
    deviation = np.sqrt(np.abs(np.diag(e.covariance_)))
    noisy = tuple(d + 1e-3 * np.abs(d).max() * r.uniform(-1, 1, d.shape) for d in data)
    other = np.sqrt(np.abs(np.diag(fit(coordinates, noisy, weights, structural_index=index).covariance_)))
    require((deviation <= 1e-6 * other + tol).all(), f"standard deviations {deviation} for perfect data")


@st.composite
def noisy_st(draw):
    case = draw(h.source_st(most=40))
    case["noise"] = draw(pick(1e-4, 1e-3, 1e-2))
    case["weights"] = draw(st.one_of(st.none(), st.lists(pick(1.0, 0.5, 0.1, 0.025), min_size=4, max_size=4)))
    case["by"] = draw(pick(2.0, -1.0, 1e-3, 3e5))
    case["shift"] = [draw(fl(-50, 50)) for _ in range(3)]
    return case


def noisy(case):
    coordinates, data, *_ = h.observe(case)
    r = rng(case["seed"] + 3)
    return coordinates, tuple(
        d + case["noise"] * np.abs(d).max() * r.uniform(-1, 1, d.shape) for d in data)


def residuals(p, coordinates, data, index, weights):
    """Smallest weighted change of each datum and gradients that makes Euler's equation hold.

    The sum of their squares is the least of sum w r² over the data that obey the equation.
    """
    e, n, u = (np.ravel(c) for c in coordinates)
    f, fe, fn, fu = (np.ravel(c) for c in data)
    de, dn, du = e - p[0], n - p[1], u - p[2]
    w = (1, 0.1, 0.1, 0.025) if weights is None else weights
    q = index**2 / w[0] + de**2 / w[1] + dn**2 / w[2] + du**2 / w[3]
    return (de * fe + dn * fn + du * fu + index * (f - p[3])) / np.sqrt(q)


def data_misfit(p, coordinates, data, index, weights):
    """Norm of the weighted changes of the data that make Euler's equation hold."""
    w = (1, 0.1, 0.1, 0.025) if weights is None else weights
    b = [np.full(np.size(data[0]), float(index)), *(np.ravel(c) - v for c, v in zip(coordinates, p))]
    q = sum(k**2 / v for k, v in zip(b, w))
    t = residuals(p, coordinates, data, index, weights) / np.sqrt(q)
    return np.sqrt(sum(np.sum((k * t) ** 2) for k in b))


@PROP.clause("total least squares of inexact data", noisy_st(), quick=400, thorough=15000, jit=False,
             shards=2)
def least_squares(case, ctx):
    """Converged inversions are at a minimum of the documented problem."""
    coordinates, data = noisy(case)
    index, weights = case["index"], case["weights"]
    cond, tol = tolerance(coordinates, data, index)
    if cond > 1e6:
        ctx.trivial(True)
        return
    with warnings.catch_warnings(record=True) as record:
        warnings.simplefilter("always")
        e = hm.EulerInversion(structural_index=index, tol=1e-11, max_iterations=300)
        e.fit(coordinates, data, **({} if weights is None else {"weights": weights}))
    if record:  # it takes too long to converge
        ctx.trivial(True)
        return
    p = np.array([*e.location_, e.base_level_])
    scale = np.array([case["size"]] * 3 + [case["scale"]])

    def function(x):
        return residuals(x * scale, coordinates, data, index, weights) / case["scale"]

    start = p / scale
    best = scipy.optimize.least_squares(function, start, xtol=1e-14, ftol=1e-14, gtol=1e-14,
                                        x_scale="jac", max_nfev=100)
    here = (function(start) ** 2).sum()
    moved = np.abs(best.x - start)
    deviation = np.sqrt(np.diag(np.linalg.pinv(best.jac.T @ best.jac)) * here / (len(start) + 1))
    ctx.event("converged")
    if here > 2 * best.cost * (1 + 1e-5) + 1e-24:
        fail(f"misfit {here} of the solution {p}, larger than {2 * best.cost} of {best.x * scale}")
    require((moved <= 0.02 * deviation + tol / scale).all(),
            f"solution {p} instead of {best.x * scale} (deviation {deviation * scale})")
    # the misfit used to choose among structural indices: of all data, with their weights
    misfit = getattr(e, "data_misfit_", None)
    if misfit is not None:
        expected = data_misfit(p, coordinates, data, index, weights)
        close(misfit, expected, "misfit of the data", rtol=1e-3,
              atol=1e-6 * case["noise"] * case["scale"] + (tol / scale).max() * case["scale"])


@PROP.clause("symmetries", noisy_st(), quick=250, thorough=10000, jit=False)
def symmetries(case, ctx):
    coordinates, data = noisy(case)
    index, weights = case["index"], case["weights"]
    cond, tol = tolerance(coordinates, data, index)
    if cond > 1e6:
        ctx.trivial(True)
        return
    c = case["by"]
    kwargs = {"structural_index": index, "tol": 1e-6, "max_iterations": 60}
    first = fit(coordinates, data, weights, **kwargs)
    p = np.array([*first.location_, first.base_level_])
    slack = 1e-3 * np.sqrt(np.abs(np.diag(first.covariance_))) + 20 * tol + 1e-9 * np.abs(
        np.array([case["size"]] * 3 + [case["scale"]]))
    e = fit(coordinates, tuple(c * d for d in data), weights, **kwargs)
    close(e.location_, p[:3], "location for a scaled field", rtol=0, atol=slack[:3])
    close(e.base_level_ / c, p[3], "base level for a scaled field", rtol=0, atol=slack[3])
    shift = np.array(case["shift"]) * case["size"]
    moved = tuple(x + s for x, s in zip(coordinates, shift))
    extra = 20 * tolerance(moved, data, index)[1]
    e = fit(moved, data, weights, **kwargs)
    close(e.location_ - shift, p[:3], "location for shifted coordinates", rtol=0, atol=(slack + extra)[:3])
    close(e.base_level_, p[3], "base level for shifted coordinates", rtol=0, atol=(slack + extra)[3])
    k = rng(case["seed"] + 4).permutation(case["n"])
    e = fit(tuple(x.ravel()[k] for x in coordinates), tuple(d.ravel()[k] for d in data), weights, **kwargs)
    close(e.location_, p[:3], "location for another order", rtol=0, atol=slack[:3])
    close(e.base_level_, p[3], "base level for another order", rtol=0, atol=slack[3])


@st.composite
def history_st(draw):
    case = draw(h.source_st(most=25))
    case["steps"] = [[draw(SEED), draw(pick("one", "all", "all")), draw(pick(1, 2, 3))]
                     for _ in range(draw(st.integers(2, 4)))]
    case["options"] = {} if draw(st.booleans()) else {
        "max_iterations": draw(pick(1, 2, 3, 5, 50)), "tol": draw(pick(0.5, 0.1, 1e-3, 1e-8)),
        "euler_misfit_balance": draw(pick(1e-3, 0.1, 1.0, 100.0))}
    case["weights"] = draw(st.one_of(st.none(), st.lists(pick(1.0, 0.5, 0.1, 0.025), min_size=4, max_size=4)))
    return case


def equal(a, b, name, case, what):
    a, b = np.asarray(getattr(a, name), float), np.asarray(getattr(b, name), float)
    size = {"location_": case["size"], "base_level_": case["scale"],
            "covariance_": np.abs(b).max(), "structural_index_": 0}[name]
    require(np.allclose(a, b, rtol=1e-9, atol=1e-10 * size, equal_nan=True), f"{name} {what}")


@PROP.clause("fitting again and selecting", history_st(), quick=120, thorough=4000, jit=False, shards=2)
def again(case, ctx):
    """The same estimator through several data sets and indices, against new ones."""
    options, weights = case["options"], case["weights"]
    used = hm.EulerInversion(structural_index=case["index"], **options)
    for seed, mode, index in case["steps"]:
        coordinates, data, *_ = h.observe({**case, "index": index, "seed": seed})
        if h.amplification(coordinates, data, index) > 1e7:
            continue
        r = rng(seed)
        # slightly inexact data, so that rounding doesn't pick among equals
        data = tuple(d + 1e-3 * np.abs(d).max() * r.uniform(-1, 1, d.shape) for d in data)
        given = index if mode == "one" else [int(k) for k in r.permutation([1, 2, 3])]
        used.structural_index = given
        refit(used, coordinates, data, weights)
        new = fit(coordinates, data, weights, structural_index=given, **options)
        names = ["location_", "base_level_", "covariance_", "structural_index_"]
        for name in names:
            equal(used, new, name, case, "depends on an earlier fit")
        if mode != "one":
            alone = {k: fit(coordinates, data, weights, structural_index=k, **options) for k in given}
            for name in names:
                equal(used, alone[used.structural_index_], name, case,
                      "differs from that of the selected index alone")
            misfit = {k: getattr(v, "data_misfit_", None) for k, v in alone.items()}
            if None not in misfit.values():
                require(misfit[used.structural_index_] == min(misfit.values()),
                        f"index {used.structural_index_} selected among misfits {misfit}")
            ctx.event(f"selected {used.structural_index_} of {index}")
    for zero in (0, 0.0, np.int64(0)):
        raises(ValueError, lambda zero=zero: hm.EulerInversion(structural_index=zero), "structural index 0")
