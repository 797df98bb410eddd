"""C28: Euler deconvolution."""

import numpy as np

from harness import homogeneous as h
from harness.core import Property, close, hm, raises, require, st
from harness.gens import fl, layout, pick, rng

PROP = Property(
    "C28", "Euler deconvolution recovers every homogeneous source and obeys its symmetries",
    rule="a case is a homogeneous field (degree, angular dependence, position, base level) and "
    "scattered observations; non-trivial when the system is well conditioned (10^8)",
    technique="the position and base level used to generate the field, solution of the normal "
    "equations in extended precision, and metamorphic relations (scale, shift, base level, order)",
)

EPS = 2.3e-16


def fit(index, coordinates, data):
    e = hm.EulerDeconvolution(index)
    require(e.fit(coordinates, data) is e, "fit must return the estimator")
    return e


def tolerance(coordinates, data, index):
    """Allowed errors of the location and the base level."""
    cond = h.amplification(coordinates, data, index)
    a, b, scales = h.system(coordinates, data, index)
    # the terms of the right-hand side cancel
    terms = sum(np.abs(np.ravel(c) * np.ravel(d)) for c, d in zip(coordinates, data[1:]))
    terms = terms + index * np.abs(np.ravel(data[0]))
    size = float(np.sqrt((terms**2).sum()))
    return cond, 50 * EPS * cond * size / scales.astype(float)


@PROP.clause("recovery", h.source_st(most=60, least=5), quick=2500, thorough=100000, jit=False, shards=2)
def recovery(case, ctx):
    coordinates, data, source, base = h.observe(case)
    index = case["index"]
    cond, tol = tolerance(coordinates, data, index)
    if cond > 1e8:
        ctx.trivial(True)
        return
    ctx.event(f"{case['kind']} {index}")
    ctx.event(case["scatter"])
    r = rng(case["seed"])
    given = [index, float(index), np.int64(index), np.float64(index)][int(r.integers(4))]
    if given != index:  # not an integer
        given = index
    coordinates = tuple(layout(c, r) for c in coordinates)
    data = tuple(layout(c, r) for c in data)
    keep = [c.copy() for c in (*coordinates, *data)]
    e = fit(given, coordinates, data)
    for a, b in zip(keep, (*coordinates, *data)):
        require(np.array_equal(a, b), "the arguments were changed")
    require(np.shape(e.location_) == (3,), "shape of the location")
    require(np.ndim(e.base_level_) == 0, "base level must be a number")
    require(np.shape(e.covariance_) == (4, 4), "shape of the covariance")
    close(e.location_, source, "location of the source", rtol=0, atol=tol[:3])
    close(e.base_level_, base, "base level", rtol=0, atol=tol[3])
    # perfect data
    deviation = np.sqrt(np.abs(np.diag(e.covariance_)))
    close(deviation, np.zeros(4), "standard deviations for perfect data", atol=tol * 10)


@st.composite
def noisy_st(draw):
    case = draw(h.source_st(most=60, least=6))
    case["noise"] = draw(pick(1e-3, 0.02, 0.2))
    case["by"] = draw(pick(2.0, -1.0, 1e-3, 3e5))
    case["shift"] = [draw(fl(-50, 50)) for _ in range(3)]
    case["constant"] = draw(fl(-10, 10))
    return case


def noisy(case):
    coordinates, data, source, base = h.observe(case)
    r = rng(case["seed"] + 3)
    data = tuple(d + case["noise"] * np.abs(d).max() * r.uniform(-1, 1, d.shape) for d in data)
    return coordinates, data


@PROP.clause("least squares of inexact data", noisy_st(), quick=1500, thorough=50000, jit=False)
def least_squares(case, ctx):
    coordinates, data = noisy(case)
    index = case["index"]
    cond, tol = tolerance(coordinates, data, index)
    if cond > 1e8:
        ctx.trivial(True)
        return
    a, b, scales = h.system(coordinates, data, index)
    expected, cov = solve(a, b, scales)
    e = fit(index, coordinates, data)
    close([*e.location_, e.base_level_], expected, "least-squares solution", rtol=0, atol=tol)
    close(e.covariance_, e.covariance_.T, "symmetry of the covariance", rtol=0,
          atol=1e-14 * cond * np.abs(cov) + 1e-300)
    size = np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
    close(e.covariance_, cov, "covariance", rtol=0, atol=(1e-12 * cond + 1e-9) * size)


def solve(a, b, scales):
    """Solution and covariance in extended precision (Gauss-Jordan of the scaled equations)."""
    s = a / scales
    m = np.concatenate([s.T @ s, np.eye(4, dtype=np.longdouble)], axis=1)
    for k in range(4):
        p = k + int(np.argmax(np.abs(m[k:, k])))
        m[[k, p]] = m[[p, k]]
        m[k] /= m[k, k]
        for j in range(4):
            if j != k:
                m[j] -= m[j, k] * m[k]
    inverse = m[:, 4:]
    x = inverse @ (s.T @ b)
    x += inverse @ (s.T @ (b - s @ x))
    chi = ((b - s @ x) ** 2).sum() / (b.size - 4)
    return (x / scales).astype(float), (chi * inverse / np.outer(scales, scales)).astype(float)


@PROP.clause("symmetries", noisy_st(), quick=1000, thorough=40000, jit=False)
def symmetries(case, ctx):
    coordinates, data = noisy(case)
    index = case["index"]
    cond, tol = tolerance(coordinates, data, index)
    if cond > 1e8:
        ctx.trivial(True)
        return
    first = fit(index, coordinates, data)
    c = case["by"]
    e = fit(index, coordinates, tuple(c * d for d in data))
    close(e.location_, first.location_, "location for a scaled field", rtol=0, atol=2 * tol[:3])
    close(e.base_level_, c * first.base_level_, "base level for a scaled field", rtol=0,
          atol=2 * abs(c) * tol[3])
    # coordinates moved
    shift = np.array(case["shift"]) * case["size"]
    moved = tuple(x + s for x, s in zip(coordinates, shift))
    e = fit(index, moved, data)
    both = tol + tolerance(moved, data, index)[1]
    close(e.location_, first.location_ + shift, "location for shifted coordinates", rtol=1e-14,
          atol=both[:3])
    close(e.base_level_, first.base_level_, "base level for shifted coordinates", rtol=0, atol=both[3])
    # constant added
    constant = case["constant"] * case["scale"]
    shifted = (data[0] + constant, *data[1:])
    e = fit(index, coordinates, shifted)
    both = tol + tolerance(coordinates, shifted, index)[1]
    close(e.location_, first.location_, "location for a shifted field", rtol=0, atol=both[:3])
    close(e.base_level_, first.base_level_ + constant, "base level for a shifted field", rtol=0,
          atol=both[3])
    # other order and shape
    k = rng(case["seed"] + 4).permutation(case["n"])
    e = fit(index, tuple(x.ravel()[k] for x in coordinates), tuple(d.ravel()[k] for d in data))
    close(e.location_, first.location_, "location for another order", rtol=0, atol=2 * tol[:3])
    close(e.base_level_, first.base_level_, "base level for another order", rtol=0, atol=2 * tol[3])
    # mirrored axes
    swap = rng(case["seed"] + 5).permutation(3)
    e = fit(index, tuple(coordinates[j] for j in swap), (data[0], *(data[1 + j] for j in swap)))
    close(e.location_, first.location_[swap], "location for axes in another order", rtol=0,
          atol=2 * tol[:3][swap])


@PROP.clause("fitting again", h.source_st(), quick=300, thorough=5000, jit=False)
def again(case, ctx):
    """An estimator fitted on other data first gives what a new one does."""
    index = case["index"]
    one, two = h.observe(case, 10), h.observe({**case, "shape": [case["n"]]}, 11)
    used = fit(index, *one[:2])
    used.fit(*two[:2])
    new = fit(index, *two[:2])
    for name in ("location_", "base_level_", "covariance_"):
        require(np.array_equal(getattr(used, name), getattr(new, name), equal_nan=True),
                f"{name} depends on an earlier fit")
    for zero in (0, 0.0, np.int64(0)):
        raises(ValueError, lambda zero=zero: hm.EulerDeconvolution(zero), "structural index 0")
