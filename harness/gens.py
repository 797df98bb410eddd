"""Generators shared by the property modules. All draw JSON-able values."""

from . import env  # noqa: F401

import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**32 - 1)


def rng(seed):
    """Expand a drawn seed into bulk numbers (a pure function of the case)."""
    return np.random.default_rng(seed)


def fl(lo, hi):
    """Floats of an interval, with a share of round values (coincidences)."""
    ints = st.integers(int(np.ceil(lo)), int(np.floor(hi))) if hi - lo >= 1 else None
    tiny = 1e-9 * (hi - lo)  # no denormal-like distances between things
    base = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(
        lambda v: 0.0 if abs(v) < tiny and lo <= 0 <= hi else v
    )
    if ints is None:
        return base
    return st.one_of(base, ints.map(float), base)


def flist(lo, hi, n):
    return st.lists(fl(lo, hi), min_size=n, max_size=n)


def pick(*options):
    return st.sampled_from(options)


def shape_of(draw, size):
    """A shape with that number of elements."""
    options = [(size,), (1, size), (size, 1)]
    for k in range(2, size):
        if size % k == 0:
            options.append((k, size // k))
    if size == 1:
        options += [(), (1, 1, 1)]
    return list(draw(st.sampled_from(options)))


def layout(values, r):
    """The same values with another layout in memory."""
    kind = int(r.integers(4))
    if values.ndim == 0 or kind == 0:
        return values
    if kind == 1:
        return np.asfortranarray(values)
    if kind == 2:
        wide = np.zeros((*values.shape[:-1], 2 * values.shape[-1]), values.dtype)
        wide[..., ::2] = values
        return wide[..., ::2]
    return np.ascontiguousarray(values[::-1])[::-1]
