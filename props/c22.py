"""C22: isostatic Moho depths."""

import numpy as np

from harness.core import Property, close, hm, require, same, st, xr
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C22", "Airy Moho depths balance the column masses",
    rule="a case is a basement and layers (scalars, arrays or grids of several numeric types), "
    "densities and a reference depth; non-trivial when it has at least one layer",
    technique="the mass of each column above the compensation depth, computed independently with "
    "the returned depth, against that of the reference column",
)


@st.composite
def quantity_st(draw, low, high, arrays=True):
    """A scalar or an array, described."""
    kind = draw(pick("float", "int", "array", "array", "row", "column")) if arrays else \
        draw(pick("float", "int"))
    dtype = draw(pick("float64", "int64", "int16", "float32"))
    if kind in ("float", "int"):
        v = draw(fl(low, high))
        return {"kind": kind, "value": v if kind == "float" else int(v)}
    return {"kind": kind, "dtype": dtype, "seed": draw(SEED), "low": low, "high": high}


@st.composite
def case_st(draw):
    n = draw(pick(0, 1, 1, 2, 3))
    xarray = draw(pick(False, False, True))
    large = draw(pick(*[False] * 24, True))
    case = {"shape": [60, 41] if large else [draw(st.integers(1, 4)), draw(st.integers(1, 4))], "xarray": xarray,
            "basement": draw(quantity_st(-6000, 5000)),
            "layers": [[draw(quantity_st(0, 5000)), draw(quantity_st(900, 2600))]
                       for _ in range(n)],
            "none": draw(st.booleans()), "order": draw(SEED), "given": draw(pick(0, 1, 2, 3))}
    case["crust"] = draw(quantity_st(2600, 2900, arrays=False))
    case["mantle"] = draw(quantity_st(3100, 3500, arrays=draw(pick(False, False, True))))
    case["depth"] = draw(quantity_st(0, 40000 if draw(st.booleans()) else 30000,
                                     arrays=draw(pick(False, True))))
    return case


def build(q, shape, xarray):
    if q["kind"] in ("float", "int"):
        return q["value"]
    shape = {"array": shape, "row": (1, shape[1]), "column": (shape[0], 1)}[q["kind"]]
    v = rng(q["seed"]).uniform(q["low"], min(q["high"], 32000), shape)
    v = (np.round(v) if q["dtype"].startswith("int") else v).astype(q["dtype"])
    if xarray:
        dims = [d for d, k in zip(("y", "x"), shape)]
        if q["kind"] == "row":
            return xr.DataArray(v[0], dims=("x",), coords={"x": np.arange(shape[1]) * 1.5})
        if q["kind"] == "column":
            return xr.DataArray(v[:, 0], dims=("y",), coords={"y": np.arange(shape[0]) * 2.0})
        return xr.DataArray(v, dims=dims, coords={"y": np.arange(shape[0]) * 2.0,
                                                  "x": np.arange(shape[1]) * 1.5},
                            attrs={"units": "m"})
    return v


def plain(value, shape, q):
    """As a float array of the full shape."""
    v = np.asarray(value, float)
    if isinstance(value, xr.DataArray) and q["kind"] == "column":
        v = v[:, None]
    return np.broadcast_to(v, shape)


@PROP.clause("mass balance", case_st(), quick=1500, thorough=60000, jit=False, shards=2)
def balance(case, ctx):
    shape, is_x = tuple(case["shape"]), case["xarray"]
    basement = build(case["basement"], shape, is_x)
    layers = {f"layer {k}": tuple(build(q, shape, is_x) for q in pair)
              for k, pair in enumerate(case["layers"])}
    crust, mantle, depth = (build(case[k], shape, is_x) for k in ("crust", "mantle", "depth"))
    ctx.trivial(not layers)
    ctx.event("grids" if is_x else "arrays")
    for pair in case["layers"]:
        ctx.event("layer " + pair[0].get("dtype", "scalar"))
    kwargs = {"density_crust": crust, "density_mantle": mantle, "reference_depth": depth}
    defaults = {"density_crust": 2800, "density_mantle": 3300, "reference_depth": 30000}
    # leave some parameters by default
    for name in list(kwargs)[:case["given"]]:
        del kwargs[name]
        case = {**case, {"density_crust": "crust", "density_mantle": "mantle",
                         "reference_depth": "depth"}[name]: {"kind": "int"}}
    crust, mantle, depth = (kwargs.get(k, d) for k, d in defaults.items())
    given = None if not layers and case["none"] else layers

    def freeze(v):
        return v.copy(deep=True) if isinstance(v, xr.DataArray) else np.array(v, copy=True)

    before = [freeze(v) for v in (basement, crust, mantle, depth,
                                  *(t for pair in layers.values() for t in pair))]
    keys = list(layers)
    moho = hm.isostatic_moho_airy(basement, given, **kwargs) if layers or case["none"] \
        else hm.isostatic_moho_airy(basement, layers=given, **kwargs)
    after = (basement, crust, mantle, depth, *(t for pair in layers.values() for t in pair))
    for b, a in zip(before, after):
        same(np.asarray(a), np.asarray(b), "an argument after the call")
        if isinstance(a, xr.DataArray):
            require(a.identical(b), "a grid changed")
    require(list(layers) == keys, "the dictionary of layers changed")

    names = [case["basement"], case["crust"], case["mantle"], case["depth"],
             *(q for pair in case["layers"] for q in pair)]
    full = [plain(v, shape, q) for v, q in zip(after, names)]
    h, rho_c, rho_m, ref = full[:4]
    load = np.zeros(shape)
    for k in range(len(layers)):
        load = load + full[4 + 2 * k] * full[5 + 2 * k]
    if isinstance(moho, xr.DataArray):
        have = set(moho.dims)
        arr = moho.transpose(*(d for d in ("y", "x") if d in have)).values
        if moho.dims == ("y",) or have == {"y"}:
            arr = arr[:, None]
        for d in have:
            same(moho[d].values, np.arange(shape[d == "x"]) * (1.5 if d == "x" else 2.0),
                 f"coordinate {d}")
    else:
        arr = np.asarray(moho)
        wanted = np.broadcast_shapes(*(np.shape(v) for v in after))
        require(arr.shape == wanted, f"shape {arr.shape} instead of {wanted}")
    got = np.broadcast_to(arr, shape).astype(float)
    single = any(q.get("dtype") == "float32" for q in names)
    compensation = 3e5
    mass = load + rho_c * (h + got) + rho_m * (compensation - got)
    reference = rho_c * ref + rho_m * (compensation - ref)
    close(mass, reference, "mass of the columns", rtol=0 if not single else 1e-6,
          atol=1e-12 * np.abs(reference).max() if not single else 0)
    # written out
    close(got, ref + (load + rho_c * h) / (rho_m - rho_c), "Moho depth",
          rtol=1e-12 if not single else 1e-5, atol=1e-7 if not single else 1.0)
    # order of the layers
    if len(layers) > 1:
        shuffled = {k: layers[k] for k in rng(case["order"]).permutation(keys)}
        other = hm.isostatic_moho_airy(basement, shuffled, **kwargs)
        if isinstance(other, xr.DataArray):
            other = other.transpose(*moho.dims)
        close(np.asarray(other), np.asarray(moho), "other order of the layers",
              rtol=1e-12 if not single else 1e-5, atol=1e-7 if not single else 1.0)
