"""Layers of prisms and tesseroids: generation and explicit model of their cells."""

from . import env  # noqa: F401

import numpy as np
from hypothesis import strategies as st

from .gens import SEED, pick, rng


@st.composite
def grid_st(draw, spherical=False):
    """Coordinates of the centers, as a description (see axes)."""
    large = draw(pick(*[False] * 15, True))
    out = {"n": [draw(pick(37, 21)), draw(pick(23, 16))] if large else
           [draw(st.integers(2, 4)), draw(st.integers(2, 4))],  # x, y
           "descending": [draw(pick(False, False, True)), draw(pick(False, False, True))],
           "mesh": draw(pick(False, False, True)), "ints": draw(pick(False, False, True))}
    if spherical:
        out["step"] = [draw(pick(1.0, 0.25, 5.0, 0.3, 15.0)), draw(pick(1.0, 0.5, 2.0, 0.3, 12.0))]
        out["start"] = [draw(pick(0.0, -179.5, 340.5, 100.0, -60.0, 179.0)),
                        draw(pick(0.0, -80.0, 30.0, 50.0))]
        if large:
            out["step"] = [draw(pick(1.0, 0.25, 5.0)), draw(pick(1.0, 0.5, 2.0))]
        special = draw(pick(None, None, "turn", "south pole", "north pole"))
        if special == "turn":
            n = draw(pick(4, 6))
            out["n"][0], out["step"][0] = n, 360.0 / n
            out["start"][0] = draw(pick(-180.0, 0.0)) + 180.0 / n
        out["pole"] = special if special and special != "turn" else None
    else:
        out["step"] = [draw(pick(1.0, 0.5, 100.0, 3.0, 0.7)), draw(pick(1.0, 2.0, 250.0, 0.3))]
        out["start"] = [draw(pick(0.0, -7.0, 1e4)), draw(pick(0.0, 5.0, -2e4))]
    return out


def axes(grid):
    """x and y coordinates (1d, ascending or descending)."""
    out = []
    for a in range(2):
        n, step, start = grid["n"][a], grid["step"][a], grid["start"][a]
        if a == 1 and grid.get("pole") == "south pole":
            start = -90 + step / 2
        if a == 1 and grid.get("pole") == "north pole":
            start = 90 - step / 2 - (n - 1) * step
        if a == 1 and "pole" in grid:
            start = max(min(start, 90 - step / 2 - (n - 1) * step), -90 + step / 2)
        if a == 0 and "pole" in grid:  # longitudes: keep the layer within [-180, 360]
            start = min(start, 360 - step / 2 - (n - 1) * step)
            start = max(start, -180 + step / 2)
        values = start + step * np.arange(n)
        if grid["ints"] and np.array_equal(values, np.round(values)):
            values = values.astype("int64")
        out.append(values[::-1].copy() if grid["descending"][a] else values)
    return out


def package(grid, x, y):
    return tuple(np.meshgrid(x, y)) if grid["mesh"] else (x, y)


@st.composite
def relief_st(draw):
    """Surface and reference: description (see relief)."""
    return {"seed": draw(SEED), "reference": draw(pick("scalar", "array", "int scalar", "int array")),
            "surface": draw(pick("float", "float", "int")),
            "nan": draw(pick(0.0, 0.0, 0.2)), "nan_ref": draw(pick(0.0, 0.0, 0.2)),
            "equal": draw(pick(0.0, 0.3)), "side": draw(pick("both", "above", "below"))}


def relief(desc, shape, base=0.0, scale=10.0):
    gen = rng(desc["seed"])
    kind = desc["reference"]
    ref = base + np.round(gen.uniform(-scale / 4, scale / 4, shape), 1)
    if kind.endswith("scalar"):
        ref = np.full(shape, ref.flat[0])
    if kind.startswith("int"):
        ref = np.round(ref)
    lo = {"both": -scale, "above": 0.0, "below": -scale}[desc["side"]]
    hi = {"both": scale, "above": scale, "below": 0.0}[desc["side"]]
    surface = ref + np.round(gen.uniform(lo, hi, shape), 1)
    if desc["surface"] == "int":
        surface = np.round(surface)
    same = gen.uniform(size=shape) < desc["equal"]
    if desc["surface"] != "int" or kind.startswith("int"):
        surface[same] = ref[same]
    if kind == "array":
        ref[gen.uniform(size=shape) < desc["nan_ref"]] = np.nan
    if desc["surface"] != "int":
        surface[gen.uniform(size=shape) < desc["nan"]] = np.nan
    surface_arg = surface.astype("int64") if desc["surface"] == "int" else surface.copy()
    if kind == "scalar":
        ref_arg = float(ref.flat[0])
    elif kind == "int scalar":
        ref_arg = int(ref.flat[0])
    elif kind == "int array":
        ref_arg = ref.astype("int64")
    else:
        ref_arg = ref.copy()
    if desc["seed"] % 3 == 0:  # in column-major order
        surface_arg = np.asfortranarray(surface_arg)
        if isinstance(ref_arg, np.ndarray) and desc["seed"] % 2 == 0:
            ref_arg = np.asfortranarray(ref_arg)
    return surface, ref, surface_arg, ref_arg


def interval(surface, ref):
    """Bottom and top of every cell; NaN where any of the two is missing."""
    bottom, top = np.full(surface.shape, np.nan), np.full(surface.shape, np.nan)
    for i in np.ndindex(*surface.shape):
        pair = (surface[i], ref[i])
        if not np.isnan(pair).any():
            bottom[i], top[i] = min(pair), max(pair)
    return bottom, top


def cells(x, y, bottom, top):
    """Explicit bodies: rows of (i, j, [w, e, s, n, bottom, top])."""
    dx, dy = abs(float(x[1] - x[0])), abs(float(y[1] - y[0]))
    out = []
    for i, yy in enumerate(y):
        for j, xx in enumerate(x):
            out.append((i, j, [xx - dx / 2, xx + dx / 2, yy - dy / 2, yy + dy / 2,
                               bottom[i, j], top[i, j]]))
    return out


def relabel(layer, how):
    """The same layer with the dimensions in another order: of everything or only of one variable."""
    if how == "transposed":
        return layer.transpose()
    if how and how in layer:
        return layer.assign({how: layer[how].transpose()})
    return layer
