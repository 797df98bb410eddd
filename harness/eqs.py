"""Data sets and references for the equivalent sources."""

import warnings

import numpy as np
from hypothesis import strategies as st

from .gens import SEED, fl, layout, pick, rng, shape_of


@st.composite
def survey_st(draw, most=24, least=1):
    n = draw(st.one_of(st.integers(least, most), pick(*[k for k in (4, 9, 16, 121) if least <= k <= most])))
    return {"seed": draw(SEED), "n": n, "shape": shape_of(draw, n),
            "scatter": draw(pick("random", "random", "grid", "line")),
            "where": draw(pick("origin", "near", "far")),
            "size": draw(pick(1.0, 100.0, 3e4)), "aspect": draw(pick(1.0, 1.0, 0.3, 4.0)),
            "relief": draw(pick(0.0, 0.1, 0.5)), "level": draw(pick(0.0, 0.0, 2.0, -3.0))}


def positions(case, seed=0):
    """Easting, northing and upward of the survey; the extent is about 2 sizes."""
    r = rng(case["seed"] + seed)
    n, size = case["n"], case["size"]
    if case["scatter"] == "grid":
        side = int(np.ceil(np.sqrt(n)))
        k = r.permutation(side * side)[:n]
        x, y = (k % side) / side, (k // side) / side
    elif case["scatter"] == "line":
        x = (np.arange(n) + r.uniform(-0.2, 0.2, n)) / n
        y = 0.3 * np.sin(4 * x) + 0.05 * r.uniform(-1, 1, n)
    else:
        side = int(np.ceil(np.sqrt(n)))  # jittered, to keep the points apart
        k = r.permutation(side * side)[:n]
        x, y = ((v + r.uniform(-0.35, 0.35, n)) / side for v in (k % side, k // side))
    z = case["level"] + case["relief"] * r.uniform(-1, 1, n)
    o = {"origin": (0, 0), "near": (3, -2), "far": (200, -150)}[case["where"]]
    out = ((2 * x + o[0]) * size, (2 * y * case["aspect"] + o[1]) * size, z * size / max(np.sqrt(n), 1))
    return tuple(c.reshape(case["shape"]) for c in out)


def values(case, seed=1):
    r = rng(case["seed"] + seed)
    return r.uniform(-1, 1, case["n"]).reshape(case["shape"]) * r.choice([1e-3, 1.0, 50.0])


def shuffled_layout(arrays, r):
    return tuple(layout(a, r) for a in arrays)


def green(coordinates, points):
    """Matrix of the inverse distances."""
    d = [np.ravel(np.asarray(c, float))[:, None] - np.ravel(np.asarray(p, float))[None, :]
         for c, p in zip(coordinates, points)]
    return 1 / np.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2)


def cartesian(coordinates):
    lon, lat = (np.radians(np.asarray(c, float)) for c in coordinates[:2])
    r = np.asarray(coordinates[2], float)
    return r * np.cos(lat) * np.cos(lon), r * np.cos(lat) * np.sin(lon), r * np.sin(lat)


def green_spherical(coordinates, points):
    return green(cartesian(np.broadcast_arrays(*coordinates[:3])), cartesian(points))


def neighbours(coordinates):
    """Mean distance to the first neighbour."""
    x, y = (np.ravel(c) for c in coordinates[:2])
    d = np.hypot(x[:, None] - x[None, :], y[:, None] - y[None, :])
    np.fill_diagonal(d, np.inf)
    return d.min(axis=1).mean()


def scales(jacobian):
    """Standard deviation of the columns, by which verde scales them."""
    s = jacobian.std(axis=0)
    s[s <= 10 * 2.3e-16 * np.abs(jacobian).max(axis=0)] = 1.0
    return s


def objective(jacobian, data, weights, damping, coefs):
    r = np.ravel(data) - jacobian @ coefs
    w = 1.0 if weights is None else np.ravel(weights)
    out = (w * r**2).sum()
    if damping is not None:
        out += damping * ((scales(jacobian) * coefs) ** 2).sum()
    return out


def solve(jacobian, data, weights, damping):
    """Weighted least squares with the damping applied on the scaled columns."""
    s = scales(jacobian)
    a, b = jacobian / s, np.ravel(data).astype(float)
    if weights is not None:
        w = np.sqrt(np.ravel(weights))
        a, b = a * w[:, None], b * w
    if damping is not None:
        a = np.concatenate([a, np.sqrt(damping) * np.eye(a.shape[1])])
        b = np.concatenate([b, np.zeros(a.shape[1])])
    return np.linalg.lstsq(a, b, rcond=None)[0] / s


def condition(jacobian, weights=None):
    """Condition number of the scaled system.

    The solver (scikit-learn) neglects singular values 10^6 times smaller than the largest.
    """
    j = jacobian / scales(jacobian)
    if weights is not None:
        j = j * np.sqrt(np.ravel(weights))[:, None]
    return float(np.linalg.cond(j))


def silent(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()
