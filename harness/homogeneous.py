"""Fields that satisfy Euler's homogeneity equation exactly, and their gradients."""

import numpy as np
from hypothesis import strategies as st

from .gens import SEED, fl, pick, rng, shape_of


@st.composite
def source_st(draw, most=40, least=8, indices=(1, 2, 3, 1, 2, 3, 1.5)):
    n = draw(st.one_of(st.integers(least, most), pick(least, 16, 25, least, 16, 25, least, 16, 25, 400)))
    return {
        "seed": draw(SEED), "n": n, "shape": shape_of(draw, n), "index": draw(pick(*indices)),
        "kind": draw(pick("monopole", "dipole", "dipole", "quadrupole", "mixed")),
        "where": draw(pick("origin", "near", "near", "far")),
        "scatter": draw(pick("grid", "random", "line", "volume")),
        "scale": draw(pick(1.0, 1.0, 1e-3, 1e4)), "size": draw(pick(1.0, 100.0, 1e3, 1e4)),
        "base": draw(st.one_of(st.just(0.0), fl(-5, 5))),
        "depth": draw(fl(0.2, 1.5)),
    }


def observe(case, seed=0):
    """Coordinates, data, location of the source and base level.

    The field is r^-index times an even or odd function of the direction: homogeneous of degree
    -index around the source. Lengths are relative to ``size`` and fields to ``scale``.
    """
    r = rng(case["seed"] + seed)
    n, size, index = case["n"], case["size"], case["index"]
    center = {"origin": np.zeros(3), "near": r.uniform(-3, 3, 3),
              "far": np.array([r.uniform(-500, 500), r.uniform(-500, 500), r.uniform(-3, 3)])}[case["where"]]
    if case["scatter"] == "grid":
        side = int(np.ceil(np.sqrt(n)))
        k = r.permutation(side * side)[:n]
        x, y = (k % side) / side * 2 - 1, (k // side) / side * 2 - 1
        z = np.zeros(n)
    elif case["scatter"] == "line":  # along a path that turns
        t = np.linspace(-1, 1, n)
        x, y, z = t, 0.8 * np.sin(3 * t) + 0.2, 0.1 * np.cos(5 * t)
    else:
        x, y = r.uniform(-1, 1, (2, n))
        z = r.uniform(-0.1, 0.1, n) if case["scatter"] == "random" else r.uniform(-1, 1, n)
    source = np.array([r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5), -case["depth"]])
    if case["scatter"] == "volume":
        source[2] -= 1
    d = np.stack([x, y, z]) - source[:, None]
    # sum of homogeneous terms c . d^k / |d|^(index + k)
    rr = np.sqrt((d**2).sum(axis=0))
    field, gradient = np.zeros(n), np.zeros((3, n))
    terms = {"monopole": [0], "dipole": [1], "quadrupole": [2], "mixed": [0, 1, 2]}[case["kind"]]
    for k in terms:
        p = index + k
        if k == 0:
            c = r.uniform(0.5, 1) * r.choice([-1, 1])
            num, dnum = np.full(n, c), np.zeros((3, n))
        elif k == 1:
            c = r.uniform(-1, 1, 3) + np.array([0, 0, 1.2])
            num, dnum = c @ d, np.repeat(c[:, None], n, axis=1)
        else:
            c = r.uniform(-1, 1, (3, 3))
            c = c + c.T + np.diag([0.2, 0.4, 2.5])
            num, dnum = np.einsum("in,ij,jn->n", d, c, d), 2 * c @ d
        field += num / rr**p
        gradient += dnum / rr**p - p * num * d / rr ** (p + 2)
    amplitude = case["scale"] / max(np.abs(field).max(), 1e-3)
    base = case["base"] * case["scale"]
    coordinates = [(c + o) * size for c, o in zip((x, y, z), center)]
    data = [field * amplitude + base, *(gradient * amplitude / size)]
    shape = case["shape"]
    return (tuple(c.reshape(shape) for c in coordinates), tuple(v.reshape(shape) for v in data),
            (source + center) * size, base)


def system(coordinates, data, index):
    """Scaled least-squares system: matrix, right-hand side and column scales."""
    e, n, u = (np.ravel(c).astype(np.longdouble) for c in coordinates)
    f, fe, fn, fu = (np.ravel(c).astype(np.longdouble) for c in data)
    a = np.stack([fe, fn, fu, np.full(f.size, index)], axis=1)
    b = e * fe + n * fn + u * fu + index * f
    scales = np.sqrt((a**2).sum(axis=0))
    return a, b, scales


def amplification(coordinates, data, index):
    """Condition number of the normal equations with columns of unit length."""
    a, _, scales = system(coordinates, data, index)
    return float(np.linalg.cond((a / scales).astype(float))) ** 2
