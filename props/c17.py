"""C17: transformations keep grids and arguments; padding; rejection of invalid grids."""

import copy

import numpy as np

from harness import grids
from harness.core import Property, close, fail, hm, raises, require, same, st, xr
from harness.gens import fl, pick
from props import c16

PROP = Property(
    "C17", "Grid transformations keep the grid and their arguments intact",
    rule="a case is a sequence of transformations (all of them, with several padding options that "
    "are reused between calls) of regular grids with extra coordinates, or an invalid grid; "
    "non-trivial when the values are not all zero",
    technique="invariants over call sequences (arguments compared before and after, each result "
    "compared with the one of a fresh process-independent call), differential testing of padding "
    "against numpy.pad and numpy's FFT",
    assumptions=["padding widths of zero given by the user are left out (xrft rejects them)"],
)
SPECTRAL = ["easting", "northing", "upward", "continuation", "lowpass", "highpass"]


@st.composite
def transform_st(draw):
    kind = draw(pick("filter", "filter", "filter", "rtp", "finite", "amplitude", "tilt"))
    if kind == "filter":
        return {"kind": kind, "filter": draw(c16.filter_st())}
    if kind == "rtp":
        return {"kind": kind, "angles": [draw(fl(20, 90)) * draw(pick(1, -1)), draw(fl(-180, 180)),
                                         draw(pick(None, 30.0, -60.0)),
                                         draw(pick(None, 10.0, 140.0))]}
    if kind == "finite":
        return {"kind": kind, "which": draw(pick("easting", "northing")),
                "order": draw(pick(1, 2, 3))}
    return {"kind": kind}


@st.composite
def pad_st(draw):
    """Padding arguments; widths relative to the size of the grid are made when used."""
    kind = draw(pick("default", "default", "off", "width", "mode", "all"))
    out = {"kind": kind}
    if kind in ("width", "all"):
        out["width"] = draw(pick([1, 1], [3, 2], [[1, 2], [3, 1]], [2, None], [None, [1, 4]]))
    if kind in ("mode", "all"):
        out["mode"] = draw(pick("edge", "reflect", "wrap", "linear_ramp", "constant", "symmetric"))
        out["value"] = draw(pick(0.0, 5.0, -2.0))
    return out


def pad_kwargs(pad, dims):
    """Keyword arguments of a transformation."""
    if pad["kind"] == "off":
        return {"pad": False}
    if pad["kind"] == "default":
        return {}
    out = {}
    if "width" in pad:
        out["pad_width"] = {d: tuple(w) if isinstance(w, list) else w
                            for d, w in zip(dims, pad["width"]) if w is not None}
    if "mode" in pad:
        out["mode"] = pad["mode"]
        if pad["mode"] == "linear_ramp":
            out["end_values"] = pad["value"]
        if pad["mode"] == "constant":
            out["constant_values"] = pad["value"]
    return {"pad_kwargs": out}


def run(t, desc, grid, **kwargs):
    if t["kind"] == "filter":
        return c16.run(t["filter"], desc, grid, **kwargs)
    if t["kind"] == "rtp":
        return hm.reduction_to_pole(grid, *t["angles"], **kwargs)
    if t["kind"] == "finite":
        fn = {"easting": hm.derivative_easting, "northing": hm.derivative_northing}[t["which"]]
        return fn(grid, order=t["order"], **kwargs)
    return {"amplitude": hm.total_gradient_amplitude, "tilt": hm.tilt_angle}[t["kind"]](
        grid, **kwargs)


def identical(a, b, what):
    require(a.identical(b) and list(a.coords) == list(b.coords)
            and all(a[c].attrs == b[c].attrs for c in b.coords), f"{what} changed")


@st.composite
def history_st(draw):
    return {"grids": [draw(grids.grid_st()) for _ in range(draw(pick(1, 2)))],
            "pads": [draw(pad_st()) for _ in range(2)],
            "calls": [[draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(transform_st())]
                      for _ in range(draw(st.integers(1, 4)))]}


@PROP.clause("histories", history_st(), quick=420, thorough=16000, jit=False, shards=3)
def histories(case, ctx):
    descs = [{**d, "dims": case["grids"][0]["dims"]} for d in case["grids"]]
    objects = [grids.make(d) for d in descs]
    for k, obj in enumerate(objects):
        if k:
            obj.coords[obj.dims[0]].attrs["units"] = "meters"
    copies = [o.copy(deep=True) for o in objects]
    kwargs = [pad_kwargs(p, objects[0].dims) for p in case["pads"]]
    originals = copy.deepcopy(kwargs)
    for k, (g, p, t) in enumerate(case["calls"]):
        g %= len(objects)
        pad = case["pads"][p]
        widths = pad.get("width", [1, 1])
        biggest = max(max(w) if isinstance(w, list) else w or 0 for w in widths)
        if pad.get("mode") in ("reflect", "wrap", "symmetric") and \
                min(descs[g]["shape"]) <= biggest:
            ctx.event("grid smaller than the padding")
            continue
        what = f"call {k} ({t['kind']}, {pad['kind']})"
        if descs[g]["extra"] & 2 and t["kind"] in ("finite", "amplitude", "tilt") \
                and t.get("which") != "easting":
            continue  # two coordinates along the same dimension: ambiguous
        ctx.event(t["kind"] + " " + pad["kind"])
        out = run(t, descs[g], objects[g], **kwargs[p])
        identical(objects[g], copies[g], f"{what}: the input grid")
        require(kwargs == originals, f"{what}: the arguments changed to {kwargs}")
        require(isinstance(out, xr.DataArray), f"{what}: returned {type(out)}")
        require(out.dims == objects[g].dims, f"{what}: dims {out.dims}")
        require(out.shape == objects[g].shape, f"{what}: shape {out.shape}")
        require(np.isrealobj(out.values), f"{what}: dtype {out.dtype}")
        for d in out.dims:
            same(out[d].values, objects[g][d].values, f"{what}: coordinate {d}")
        if t["kind"] == "filter" and t["filter"][0] == "continuation":
            require(set(out.coords) == set(out.dims), f"{what}: kept {list(out.coords)}")
        else:
            require(set(out.coords) == set(objects[g].coords), f"{what}: coords {list(out.coords)}")
            for c in out.coords:
                same(out[c].values, copies[g][c].values, f"{what}: coordinate {c}")
        # same as the call with arguments never used before
        fresh = run(t, descs[g], grids.make(descs[g]),
                    **copy.deepcopy(pad_kwargs(pad, objects[0].dims)))
        same(out.values, fresh.values, f"{what}: differs from the first call")
    ctx.trivial(not any(np.asarray(o.values).any() for o in objects))


@st.composite
def padding_st(draw):
    return {"grid": draw(grids.grid_st()), "pad": draw(pad_st()), "filter": draw(c16.filter_st())}


@PROP.clause("padding", padding_st(), quick=500, thorough=16000, jit=False, shards=2)
def padding(case, ctx):
    """Transforming with padding equals padding explicitly, transforming and cropping."""
    desc, pad, flt = case["grid"], case["pad"], case["filter"]
    widths = [(int(0.25 * n),) * 2 for n in desc["shape"]]
    if "width" in pad:
        widths = [(0, 0) if w is None else tuple(w) if isinstance(w, list) else (w, w)
                  for w in pad["width"]]
    if pad["kind"] == "off":
        widths = [(0, 0), (0, 0)]
    mode = pad.get("mode", "edge")
    if mode in ("reflect", "wrap", "symmetric") and \
            any(max(w) >= n for w, n in zip(widths, desc["shape"])):
        ctx.trivial()
        return
    if desc["values"] == "integers" and mode in ("linear_ramp", "constant"):
        desc = {**desc, "values": "normal"}  # dtype dependent rounding
    extra = {"linear_ramp": {"end_values": pad.get("value")},
             "constant": {"constant_values": pad.get("value")}}.get(mode, {})
    ctx.event(mode)
    ctx.event(flt[0])
    grid = grids.make(desc)
    got = c16.run(flt, desc, grid, **pad_kwargs(pad, grid.dims))
    reference = grids.default_pad(desc, mode, widths, **extra)
    want = grids.filtered(desc, c16.kernel(flt, desc), pad=reference)
    shape = [n + sum(w) for n, w in zip(desc["shape"], widths)]
    size = np.abs(reference[1](np.asarray(grid.values, float))).max()
    ctx.trivial(size == 0)
    close(got.values, want, f"{flt} padded {pad}", rtol=0, atol=size * c16.gain(flt, desc, shape)
          * c16.phase_error(desc) * np.sqrt(grid.size) * 20)


@st.composite
def invalid_st(draw):
    return {"grid": {**draw(grids.grid_st(low=4, extra=False)), "values": "normal"},
            "defect": draw(pick("nan", "nan", "3d", "1d", "irregular", "method", "repeated",
                                "valid")),
            "where": [draw(fl(0, 1)), draw(fl(0, 1))], "transform": draw(transform_st()),
            "pad": draw(st.booleans())}


@PROP.clause("invalid grids", invalid_st(), quick=400, thorough=10000, jit=False,
             rule="the grid is invalid")
def invalid(case, ctx):
    desc, t, defect = case["grid"], case["transform"], case["defect"]
    grid = grids.make(desc)
    i, j = (min(int(w * n), n - 1) for w, n in zip(case["where"], grid.shape))
    kwargs = {"pad": case["pad"]}
    ctx.event(defect)
    ctx.trivial(defect == "valid")
    north, east = grid.dims
    what = f"{t} of a grid with defect '{defect}'"
    if defect == "nan":
        grid[i, j] = np.nan
        if t["kind"] == "finite":
            return ctx.trivial()
    elif defect == "3d":
        grid = grid.expand_dims({"time": [0.0, 1.0]}, axis=int(case["where"][0] * 2.99))
        if t["kind"] == "finite":
            return ctx.trivial()
    elif defect == "1d":
        grid = grid[i]
        if t["kind"] == "finite":
            return ctx.trivial()
    elif defect == "irregular":
        if t["kind"] == "finite":
            return ctx.trivial()
        dim = grid.dims[int(case["where"][0] * 1.99)]
        c = np.array(grid[dim].values, float)
        k = min(int(case["where"][1] * c.size), c.size - 1)
        c[k] += 0.05 * (c[1] - c[0])
        grid = grid.assign_coords({dim: c})
    elif defect == "method":
        fn = hm.derivative_easting if case["pad"] else hm.derivative_northing
        raises(ValueError, lambda: fn(grid, method="finite_diff"), "unknown method")
        return None
    elif defect == "repeated":
        # two coordinates along a dimension: ambiguous for finite differences
        grid = grid.assign_coords(other=(north, np.arange(grid.shape[0])),
                                  another=(east, np.arange(grid.shape[1])))
        if t["kind"] in ("amplitude", "tilt", "finite"):
            raises(ValueError, lambda: run(t, desc, grid, **kwargs), what)
        else:
            out = run(t, desc, grid, **kwargs)
            same(out.values, run(t, desc, grids.make(desc), **kwargs).values, what)
        return None
    if defect == "valid":
        require(np.isfinite(run(t, desc, grid, **kwargs).values).all(), what)
        return None
    raises((ValueError, IndexError), lambda: run(t, desc, grid, **kwargs), what)
