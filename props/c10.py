"""C10: gravity of a prism layer against prism_gravity of the explicit cells."""

import contextlib
import io

import numpy as np

from harness import layers
from harness.core import Property, close, hm, require, st
from harness.gens import SEED, pick, rng
from harness.models import magnitude

PROP = Property(
    "C10", "A prism layer's gravity equals that of its explicit prisms",
    rule="a case is a layer (grid, relief above and below the reference, missing values, densities "
    "with zero and NaN, thickness threshold), a field and points; non-trivial when at least one "
    "cell contributes and the layer has a feature (reversed cell, missing value, null thickness, "
    "threshold, descending axis, array reference)",
    technique="differential: prism_gravity of an explicit list of cells built by the check",
)


@st.composite
def case_st(draw, fields, ints):
    out = {"grid": draw(layers.grid_st()), "relief": draw(layers.relief_st()),
           "density": {"seed": draw(SEED), "unit": draw(pick(1.0, 1.0, 1e-3, 1e-9)),
                       "nan": draw(pick(0.0, 0.3)), "zero": draw(pick(0.0, 0.3)),
                       "int": draw(st.booleans()) and ints},
           "threshold": draw(pick(None, None, 0.0, 1.0, "thickness")),
           "field": draw(st.sampled_from(fields)),
           "name": draw(pick("density", "rho")), "parallel": draw(st.booleans()),
           "progress": draw(pick(False, False, True)) and ints, "points": draw(SEED),
           "shape": draw(pick([3], [2, 2], [])), "update": draw(pick(False, False, True)),
           "order": draw(pick(None, None, None, "transposed", "density", "top"))}
    if not ints:
        out["grid"]["ints"] = False
        out["relief"]["surface"] = "float"
    elif out["grid"]["ints"] or out["relief"]["surface"] == "int" or out["density"]["int"]:
        out["parallel"] = out["progress"] = False  # fewer compiled variants
    return out


def check(case, ctx):
    x, y = layers.axes(case["grid"])
    shape = (len(y), len(x))
    surface, ref, surface_arg, ref_arg = layers.relief(case["relief"], shape)
    d, gen = case["density"], rng(case["density"]["seed"])
    density = np.round(gen.uniform(-500, 3000, shape)) * (1.0 if d["int"] else d["unit"])
    density[gen.uniform(size=shape) < d["zero"]] = 0.0
    if d["int"]:
        density = density.astype("int64")
    else:
        density[gen.uniform(size=shape) < d["nan"]] = np.nan
    if case["relief"]["seed"] % 6 == 0:
        density = np.asfortranarray(density)
    decoy = np.full(shape, 12345.0)
    properties = {"density": density, "other": decoy}
    if case["name"] != "density":
        properties = {"density": decoy, case["name"]: density}
    coords = layers.package(case["grid"], x, y)
    if case["update"]:
        layer = hm.prism_layer(coords, np.zeros(shape), 5.0, properties=properties)
        layer.prism_layer.update_top_bottom(surface_arg, ref_arg)
    else:
        layer = hm.prism_layer(coords, surface_arg, ref_arg, properties=properties)
    bottom, top = layers.interval(surface, ref)
    threshold = case["threshold"]
    thick = (top - bottom)[np.isfinite(top)]
    if threshold == "thickness":  # exactly that of a cell
        threshold = float(thick[case["points"] % thick.size]) if thick.size else 1.0
    bodies, rho = [], []
    for i, j, body in layers.cells(x, y, bottom, top):
        if np.isnan(body).any() or np.isnan(density[i, j]):
            continue
        if threshold is not None and body[5] - body[4] < threshold:
            continue
        bodies.append(body)
        rho.append(float(density[i, j]))
    # points over, beside and inside the layer, never on round coordinates
    pts = rng(case["points"])
    n = int(np.prod(case["shape"]))
    wide_x, wide_y = float(np.ptp(x)) + 2.0, float(np.ptp(y)) + 2.0
    obs = np.array([
        x.min() + wide_x * pts.uniform(-0.6, 1.6, n) + 1e-3 * np.pi,
        y.min() + wide_y * pts.uniform(-0.6, 1.6, n) + 1e-3 * np.e,
        pts.uniform(-20, 60, n) + 1e-3 * np.sqrt(2)])
    features = [(surface < ref).any(), np.isnan(bottom).any(), (bottom == top).any(),
                threshold is not None, any(case["grid"]["descending"]), d["int"],
                case["relief"]["reference"] == "array"]
    ctx.trivial(not bodies or not any(rho) or not any(features))
    for label, on in zip(["reversed", "missing", "null", "threshold", "descending"], features):
        if on:
            ctx.event(label)
    ctx.event(case["field"])
    layer = layers.relabel(layer, case["name"] if case["order"] == "density" else case["order"])
    if case["order"]:
        ctx.event("dimensions in another order")
    before = layer.copy(deep=True)
    args = tuple(o.reshape(case["shape"]) for o in obs)
    kwargs = {"progressbar": True} if case["progress"] else {}
    if case["name"] != "density":
        kwargs["density_name"] = case["name"]
    if threshold is not None:
        kwargs["thickness_threshold"] = threshold
    with contextlib.redirect_stderr(io.StringIO()):
        got = layer.prism_layer.gravity(args, case["field"], parallel=case["parallel"], **kwargs)
    require(np.shape(got) == tuple(case["shape"]), f"shape {np.shape(got)}")
    require(layer.identical(before), "the layer was modified")
    want = np.zeros(n)
    if bodies:
        want = hm.prism_gravity(tuple(obs), bodies, rho, case["field"], parallel=False)
    size = magnitude("prism", case["field"], obs, bodies, [[r] for r in rho]) if bodies else 0
    close(np.ravel(got), want, f"{case['field']} of the layer against its {len(bodies)} prisms",
          rtol=1e-9, atol=1e-12 * size + 1e-300, equal_nan=True)


for fields in (("g_z", "potential"), ("g_e", "g_n"), ("g_ee", "g_nn"), ("g_zz", "g_en"),
               ("g_ez", "g_nz")):
    PROP.clause("gravity: " + ", ".join(fields), case_st(fields, "g_z" in fields),
                quick=400 if "g_z" in fields else 250, thorough=8000)(check)


@st.composite
def null_st(draw):
    return {"grid": draw(layers.grid_st()), "seed": draw(SEED), "where": draw(st.integers(0, 3)),
            "field": draw(pick("g_zz", "g_z"))}


@PROP.clause("points on null cells", null_st(), quick=150, thorough=3000, jit=False)
def null_cells(case, ctx):
    """Cells without thickness, NaN or zero density contribute nothing, on themselves too."""
    x, y = layers.axes(case["grid"])
    shape = (len(y), len(x))
    gen = rng(case["seed"])
    surface = np.zeros(shape)
    density = np.full(shape, 1000.0)
    i, j = gen.integers(shape[0]), gen.integers(shape[1])
    kind = ["flat", "nan surface", "nan density", "zero density"][case["where"]]
    if kind == "nan surface":
        surface[i, j] = np.nan
    elif kind != "flat":
        surface[i, j] = 3.0
        density[i, j] = 0.0 if kind == "zero density" else np.nan
    ctx.event(kind)
    layer = hm.prism_layer(layers.package(case["grid"], x, y), surface, 0.0,
                           properties={"density": density})
    half = abs(float(x[1] - x[0])) / 2
    point = (float(x[j]) + half * gen.integers(-1, 2), float(y[i]), float(gen.integers(0, 2)) * 3)
    got = layer.prism_layer.gravity(point, case["field"], parallel=False)
    require(got == 0, f"null layer ({kind}) gives {case['field']} = {got} at {point}")
