"""C11: gravity of a tesseroid layer against tesseroid_gravity of the explicit cells."""

import contextlib
import io

import numpy as np

from harness import layers
from harness.core import Property, close, hm, require, st
from harness.gens import SEED, pick, rng

PROP = Property(
    "C11", "A tesseroid layer's gravity equals that of its explicit tesseroids",
    rule="a case is a layer (grid, up to the poles and to a whole turn, relief above and below the "
    "reference, missing values, densities with zero and NaN, thickness threshold), a field and "
    "points; non-trivial when at least one cell contributes and the layer has a feature (reversed "
    "cell, missing value, null thickness, threshold, descending axis, whole turn, pole, array "
    "reference)",
    technique="differential: tesseroid_gravity of an explicit list of cells built by the check",
)
R = 6371000.0


@st.composite
def case_st(draw):
    return {"grid": draw(layers.grid_st(spherical=True)), "relief": draw(layers.relief_st()),
            "density": {"seed": draw(SEED), "unit": draw(pick(1.0, 1.0, 1e-3, 1e-9)), "nan": draw(pick(0.0, 0.3)),
                        "zero": draw(pick(0.0, 0.3)), "int": draw(pick(False, False, True))},
            "threshold": draw(pick(None, None, 0.0, 100.0, "thickness")),
            "field": draw(pick("g_z", "potential")), "name": draw(pick("density", "rho")),
            "radial": draw(pick(False, False, True)), "progress": draw(pick(False, False, True)),
            "points": draw(SEED), "shape": draw(pick([3], [2, 2], [])),
            "update": draw(pick(False, False, True)),
           "order": draw(pick(None, None, None, "transposed", "density", "top")), "turns": draw(pick(0.0, 360.0, -360.0))}


@PROP.clause("gravity", case_st(), quick=500, thorough=20000, shards=4)
def gravity(case, ctx):
    x, y = layers.axes(case["grid"])
    shape = (len(y), len(x))
    surface, ref, surface_arg, ref_arg = layers.relief(case["relief"], shape, R, 3000.0)
    d, gen = case["density"], rng(case["density"]["seed"])
    density = np.round(gen.uniform(-500, 3000, shape)) * (1.0 if d["int"] else d["unit"])
    density[gen.uniform(size=shape) < d["zero"]] = 0.0
    if d["int"]:
        density = density.astype("int64")
    else:
        density[gen.uniform(size=shape) < d["nan"]] = np.nan
    if case["relief"]["seed"] % 6 == 0:
        density = np.asfortranarray(density)
    decoy = np.full(shape, 12345.0)
    properties = {"density": density, "other": decoy}
    if case["name"] != "density":
        properties = {"density": decoy, case["name"]: density}
    coords = layers.package(case["grid"], x, y)
    if case["update"]:
        layer = hm.tesseroid_layer(coords, np.full(shape, R), R - 5.0, properties=properties)
        layer.tesseroid_layer.update_top_bottom(surface_arg, ref_arg)
    else:
        layer = hm.tesseroid_layer(coords, surface_arg, ref_arg, properties=properties)
    bottom, top = layers.interval(surface, ref)
    threshold = case["threshold"]
    thick = (top - bottom)[np.isfinite(top)]
    if threshold == "thickness":  # exactly that of a cell
        threshold = float(thick[case["points"] % thick.size]) if thick.size else 1.0
    bodies, rho = [], []
    for i, j, body in layers.cells(x, y, bottom, top):
        if np.isnan(body).any() or np.isnan(density[i, j]):
            continue
        if threshold is not None and body[5] - body[4] < threshold:
            continue
        # the limits of the grid may be missed by a rounding error
        require(body[0] > -180 - 1e-9 and body[1] < 360 + 1e-9 and abs(body[2]) < 90 + 1e-9
                and abs(body[3]) < 90 + 1e-9, f"harness: cell {body}")
        if body[0] < -180 or body[1] > 360 or body[2] < -90 or body[3] > 90:
            ctx.trivial()
            return
        bodies.append(body)
        rho.append(float(density[i, j]))
    pts = rng(case["points"])
    n = int(np.prod(case["shape"]))
    obs = np.array([
        case["turns"] + x.min() + (np.ptp(x) + 2) * pts.uniform(-0.6, 1.6, n),
        np.clip(y.min() + (np.ptp(y) + 2) * pts.uniform(-0.6, 1.6, n), -89.9, 89.9),
        R + 4000.0 + 10.0 ** pts.uniform(3.0, 6.0, n)])
    grid = case["grid"]
    turn = abs(abs(float(np.ptp(x))) + abs(x[1] - x[0]) - 360) < 1e-6
    features = [(surface < ref).any(), np.isnan(bottom).any(), (bottom == top).any(),
                threshold is not None, any(grid["descending"]), turn, bool(grid["pole"]),
                case["relief"]["reference"] == "array"]
    ctx.trivial(not bodies or not any(rho) or not any(features))
    for label, on in zip(["reversed", "missing", "null", "threshold", "descending", "turn", "pole"],
                         features):
        if on:
            ctx.event(label)
    layer = layers.relabel(layer, case["name"] if case["order"] == "density" else case["order"])
    if case["order"]:
        ctx.event("dimensions in another order")
    before = layer.copy(deep=True)
    args = tuple(o.reshape(case["shape"]) for o in obs)
    kwargs = {"progressbar": True} if case["progress"] and case["field"] == "g_z" else {}
    if case["name"] != "density":
        kwargs["density_name"] = case["name"]
    if threshold is not None:
        kwargs["thickness_threshold"] = threshold
    if case["radial"]:
        kwargs["radial_adaptive_discretization"] = True
    if not bodies:
        return
    with contextlib.redirect_stderr(io.StringIO()):
        got = layer.tesseroid_layer.gravity(args, case["field"], parallel=False, **kwargs)
    require(np.shape(got) == tuple(case["shape"]), f"shape {np.shape(got)}")
    require(layer.identical(before), "the layer was modified")
    want = hm.tesseroid_gravity(tuple(obs), bodies, rho, case["field"], parallel=False,
                                radial_adaptive_discretization=case["radial"])
    size = sum(abs(hm.tesseroid_gravity(tuple(obs), [b], [r], case["field"], parallel=False))
               for b, r in zip(bodies, rho))
    # cells that round differently may be divided differently
    exact = all(float(s * 8).is_integer() for s in grid["step"]) and not grid["pole"]
    close(np.ravel(got), want,
          f"{case['field']} of the layer against its {len(bodies)} tesseroids",
          rtol=1e-9, atol=(1e-11 if exact else 1e-7) * size + 1e-300)
