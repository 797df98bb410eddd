"""C21: Bouguer correction."""

import math

import numpy as np

from harness.core import Property, close, hm, require, same, st, xr
from harness.gens import fl, pick

PROP = Property(
    "C21", "Bouguer correction equals the gravity of the layer it removes",
    rule="a case is an array or grid of heights (land, water, zero, missing values) of some "
    "numeric type and two densities or the defaults; non-trivial when it has land and water",
    technique="reference formula evaluated one element at a time, and comparison with the gravity "
    "of a very wide prism for the same layer",
)
G = 6.6743e-11


@st.composite
def case_st(draw):
    shape = draw(pick([1], [4], [7], [3, 4], [1, 5], [2, 1], [2, 2, 2], [], [0]))
    n = math.prod(shape)
    return {"shape": shape, "heights": [draw(st.one_of(
        pick(0.0, -1.0, 1.0, 1000.0, -4000.0, 0.25, 8848.0), fl(-11000, 9000))) for _ in range(n)],
        "missing": draw(pick(None, None, 0)),
        "dtype": draw(pick("float64", "float64", "float32", "int64", "int16", "int32")),
        "as": draw(pick("array", "xarray", "fortran", "strided")),
        "densities": draw(pick(None, {}, {"density_crust": 2900.0}, {"density_water": 0},
                               {"density_crust": 2700, "density_water": 1025},
                               {"density_crust": 1000.0, "density_water": 3000.0}))}


@PROP.clause("layer gravity", case_st(), quick=1500, thorough=60000, jit=False)
def layer(case, ctx):
    shape, dtype = tuple(case["shape"]), np.dtype(case["dtype"])
    h = np.array(case["heights"], float).reshape(shape)
    h = np.round(h).astype(dtype) if dtype.kind == "i" else h.astype(dtype)
    if case["missing"] is not None and dtype.kind == "f" and h.size and h.ndim:
        h[(0,) * h.ndim] = np.nan
    ctx.trivial(not ((h > 0).any() and (h < 0).any()))
    ctx.event(case["dtype"])
    ctx.event(case["as"])
    arg = h.copy()
    dims = [f"dim_{k}" for k in range(h.ndim)]
    if case["as"] == "xarray":
        arg = xr.DataArray(arg, dims=dims, coords={d: np.arange(n)[::-1] * 10.0
                                                   for d, n in zip(dims, shape)}, name="topo")
    elif case["as"] == "fortran" and h.ndim:
        arg = np.asfortranarray(arg)
    elif case["as"] == "strided" and h.ndim:
        arg = np.repeat(arg, 2, axis=0)[::2]
    kwargs = case["densities"] or {}
    crust, water = kwargs.get("density_crust", 2670), kwargs.get("density_water", 1040)
    if case["densities"] and len(kwargs) == 2:
        out = hm.bouguer_correction(arg, crust, water)
    else:
        out = hm.bouguer_correction(arg, **kwargs)
    same(np.asarray(arg), h, "topography after the call")
    require(np.shape(out) == shape, f"shape {np.shape(out)}")
    if case["as"] == "xarray":
        require(isinstance(out, xr.DataArray) and out.dims == tuple(dims), f"returned {out}")
        for d in dims:
            same(out[d].values, arg[d].values, f"coordinate {d}")
    want = np.array([2e5 * math.pi * G * float(t) * (crust if not t < 0 else crust - water)
                     for t in h.ravel()]).reshape(shape)
    close(np.asarray(out), want, "Bouguer correction", rtol=1e-13, equal_nan=True)


@st.composite
def slab_st(draw):
    return {"heights": [draw(st.one_of(fl(-8000, -1), fl(1, 8000))) for _ in range(2)],
            "crust": draw(fl(2000, 3000)), "water": draw(fl(900, 1100))}


@PROP.clause("wide prisms", slab_st(), quick=40, thorough=1000)
def slab(case, ctx):
    """The correction is the attraction of the rock or of the rock missing in the water."""
    h = np.array(case["heights"])
    out = hm.bouguer_correction(h, case["crust"], case["water"])
    ctx.event("water" if (h < 0).any() else "land")
    w = 1e9
    for k, t in enumerate(h):
        density = case["crust"] if t > 0 else case["water"] - case["crust"]
        prism = [[-w, w, -w, w, min(t, 0), max(t, 0)]]
        g = hm.prism_gravity(([0.0], [0.0], [max(t, 0) + 1.0]), prism, density, "g_z")[0]
        close(out[k], g, f"slab of {t} m", rtol=2e-4)
