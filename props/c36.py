"""C36: layers and estimators reject exactly the invalid definitions."""

import numpy as np

from harness import layers
from harness.core import Property, hm, raises, require, same, st
from harness.gens import SEED, pick, rng

PROP = Property(
    "C36", "Layers and estimators reject exactly the invalid definitions",
    rule="a case is a valid definition and one defect at a random place, or none; non-trivial "
    "with a defect",
    technique="fault injection into valid definitions: error if and only if there is a defect",
)


@st.composite
def layer_st(draw):
    spherical = draw(st.booleans())
    return {
        "grid": draw(layers.grid_st(spherical)), "spherical": spherical, "seed": draw(SEED),
        "defect": draw(pick("none", "none", "x", "y", "repeated", "surface", "reference", "property",
                            "overlap", "field", "name", "edited", "update")),
        "where": draw(SEED), "by": draw(pick(1.0, 0.1, 1e-2, -0.3, 2e-3)),
        "offset": draw(pick(0.0, 0.0, 7e6, -3e5)), "threshold": draw(pick(None, 0.5)),
    }


def make(case, x, y, surface, reference, properties):
    build = hm.tesseroid_layer if case["spherical"] else hm.prism_layer
    return build(layers.package(case["grid"], x, y), surface, reference, properties=properties)


def distort(case, values):
    """Move one coordinate by a part of the spacing."""
    values = values.astype(float)
    k = case["where"] % len(values)
    values[k] += case["by"] * (values[1] - values[0])
    return values


def misshapen(case, r, shape):
    """An array of another shape than the layer's."""
    options = [(shape[0] + 1, shape[1]), (shape[0], shape[1] + 1), (shape[0] * shape[1],),
               (shape[0] - 1, shape[1]), (shape[0], 1), (1, shape[1]), shape[::-1], (1, *shape)]
    options = [o for o in options if o != shape]
    return r.uniform(1, 2, options[case["where"] % len(options)])


@PROP.clause("layers", layer_st(), quick=500, thorough=15000, jit=False,
             rule="a layer with one defect in coordinates, surfaces, properties or options")
def check_layers(case, ctx):
    r = rng(case["seed"])
    x, y = layers.axes(case["grid"])
    if not case["spherical"]:
        x, y = x + case["offset"], y - case["offset"]
    shape = (len(y), len(x))
    base = 6371e3 if case["spherical"] else 0.0
    surface, reference = base + r.uniform(-5, 5, shape), base + r.uniform(-5, 5, shape)
    if case["seed"] % 2:
        reference = base
    properties = {"density": r.uniform(1e3, 3e3, shape), "other": r.normal(size=shape)}
    defect = case["defect"]
    ctx.event(defect)
    ctx.trivial(defect == "none")
    if defect in ("x", "y", "repeated"):
        axis = defect if defect != "repeated" else "xy"[case["seed"] % 2]
        values = x if axis == "x" else y
        if len(values) < 3:
            return  # two values are always regular
        if defect == "repeated":
            values = values.astype(float)
            k = case["where"] % (len(values) - 1)
            values[k + 1] = values[k]
        else:
            values = distort(case, values)
        x, y = (values, y) if axis == "x" else (x, values)
        raises(ValueError, lambda: make(case, x, y, surface, reference, properties), f"irregular coordinates {axis}")
        return
    bad = misshapen(case, r, shape) + base
    if defect == "surface":
        raises(ValueError, lambda: make(case, x, y, bad, reference, properties), f"surface of shape {bad.shape}")
        return
    if defect == "reference":
        raises(ValueError, lambda: make(case, x, y, surface, bad, properties), f"reference of shape {bad.shape}")
        return
    if defect == "property":
        which = ("density", "other")[case["seed"] % 2]
        properties[which] = bad
        raises(ValueError, lambda: make(case, x, y, surface, reference, properties), f"property of shape {bad.shape}")
        return
    if defect == "overlap":
        if not case["spherical"]:
            return
        x = np.linspace(-180, 180 - 360 / len(x), len(x)) * (1 + abs(case["by"]) / 100)
        raises(ValueError, lambda: make(case, x, y, surface, reference, properties), "layer of more than a turn")
        return
    layer = make(case, x, y, surface, reference, properties)
    accessor = layer.tesseroid_layer if case["spherical"] else layer.prism_layer
    same(layer.top.values, np.maximum(surface, reference), "top of an accepted layer")
    if case["spherical"]:
        at = (float(x[0]), float(y[0]), 6.4e6)
    else:
        at = (float(x[0]) + 0.1, float(y[0]), 20.0)
    kwargs = {"thickness_threshold": case["threshold"], "parallel": False}
    if defect == "update":
        before = layer.copy(deep=True)
        if case["seed"] % 2:
            raises(ValueError, lambda: accessor.update_top_bottom(bad, base), "updating with a surface of another shape")
        else:
            raises(ValueError, lambda: accessor.update_top_bottom(surface, bad), "updating with a reference of another shape")
        require(layer.identical(before), "the layer changes when an update is rejected")
    elif defect == "field":
        for wrong in ("b_e", "gz", "G_Z", "", None):
            raises(ValueError, lambda w=wrong: accessor.gravity(at, w, **kwargs), f"field {wrong!r}")
    elif defect == "name":
        raises(KeyError, lambda: accessor.gravity(at, "g_z", density_name="densities", **kwargs), "unknown property")
    elif defect == "edited":
        dims = ("longitude", "latitude") if case["spherical"] else ("easting", "northing")
        axis = case["seed"] % 2
        values = (x, y)[axis]
        if len(values) < 3:
            return
        layer = layer.assign_coords({dims[axis]: distort(case, values)})
        accessor = layer.tesseroid_layer if case["spherical"] else layer.prism_layer
        raises(ValueError, lambda: accessor.gravity(at, "g_z", **kwargs), f"irregular {dims[axis]} after editing")
    else:
        require(np.isfinite(accessor.gravity(at, "g_z", **kwargs)), "gravity of a valid layer")
        require(np.isfinite(accessor.gravity(at, "potential", **kwargs)), "potential of a valid layer")


@st.composite
def estimator_st(draw):
    return {
        "seed": draw(SEED), "kind": draw(pick("cartesian", "gb", "spherical", "deconvolution", "inversion")),
        "n": draw(st.integers(6, 14)), "shape": draw(st.booleans()),
        "defect": draw(pick("none", "none", "coordinate", "data", "weights", "order", "containers", "window")),
        "where": draw(SEED), "by": draw(pick(-1, 1, 3)), "weights": draw(st.booleans()),
    }


@PROP.clause("estimators", estimator_st(), quick=500, thorough=15000, jit=False,
             rule="data sets with one array of another size")
def estimators(case, ctx):
    r, n = rng(case["seed"]), case["n"]
    kind, defect = case["kind"], case["defect"]
    euler = kind in ("deconvolution", "inversion")
    shape = (2, n) if case["shape"] else (n,)
    if kind == "spherical":
        at = [r.uniform(0, 9, shape), r.uniform(0, 9, shape), r.uniform(6.38e6, 6.39e6, shape)]
        estimator = hm.EquivalentSourcesSph(relative_depth=5e5)
    else:
        at = [r.uniform(0, 9, shape), r.uniform(0, 9, shape), r.uniform(3, 4, shape)]
        estimator = {
            "cartesian": lambda: hm.EquivalentSources(depth=3.0),
            "gb": lambda: hm.EquivalentSourcesGB(depth=3.0, window_size=2.0, random_state=1),
            "deconvolution": lambda: hm.EulerDeconvolution(2),
            "inversion": lambda: hm.EulerInversion(structural_index=[1, 2]),
        }[kind]()
    data = [r.normal(size=shape) for _ in range(4 if euler else 1)]
    weights = r.uniform(0.5, 2, shape) if case["weights"] or defect == "weights" else None
    sized = lambda: r.normal(size=(*shape[:-1], n + case["by"]))  # noqa: E731
    ctx.trivial(defect == "none")
    ctx.event(f"{kind} {defect}")

    def fit():
        given = tuple(data) if euler else data[0]
        if euler:
            return estimator.fit(tuple(at), given)
        return estimator.fit(tuple(at), given, weights=weights)

    what = f"{kind} with another size of {defect}"
    if defect == "coordinate":
        at[case["where"] % 3] = sized()
        raises(ValueError, fit, what)
    elif defect == "data":
        data[case["where"] % len(data)] = sized()
        raises(ValueError, fit, what)
    elif defect == "order" and case["shape"] and not euler:
        data[0] = data[0].T  # same size, other shape
        raises(ValueError, fit, what)
    elif defect == "weights" and not euler:
        weights = sized()
        raises(ValueError, fit, what)
    elif defect == "window" and kind == "gb":
        estimator = hm.EquivalentSourcesGB(depth=3.0, window_size=1e3, random_state=1)
        raises(ValueError, fit, "windows larger than the survey")
    else:
        fit()
        if euler:
            require(np.isfinite(np.append(estimator.location_, estimator.base_level_)).all(), f"{kind}: not finite")
        else:
            require(np.isfinite(estimator.predict(tuple(at))).all(), f"{kind}: prediction not finite")
