"""C34: meshes exported for visualization are the model."""

import copy

import numpy as np

from harness.core import Property, close, hm, raises, require, same, st
from harness.gens import SEED, fl, layout, pick, rng

PROP = Property(
    "C34", "Exported meshes of prisms represent the model they were given",
    rule="a case is a collection of prisms in some packaging with properties; non-trivial when "
    "it has at least two prisms or one property",
    technique="explicit corner-by-corner model of the mesh",
)
# Corners of an hexahedron in the order of VTK: west or east, south or north, bottom or top
ORDER = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


@st.composite
def case_st(draw):
    n = draw(pick(*[1, 1, 2, 3, 5, 9] * 5, 200))
    return {
        "seed": draw(SEED), "n": n, "scale": draw(pick(1.0, 1e3, 1e6, 1e-2)),
        "shift": [draw(pick(0.0, 0.0, 5e5, -4.2e6)) for _ in range(3)],
        "flat": draw(pick(False, False, True)),
        "given": draw(pick("array", "list", "tuples", "ints", "float32", "single")),
        "properties": draw(st.lists(st.tuples(
            pick("density", "mag east", "χ", "0", "Volume"),
            pick("array", "list", "ints", "bools", "nan", "constant", "float32")).map(list),
            max_size=3, unique_by=lambda p: p[0])),
        "value": draw(fl(-5, 5)),
        "empty": draw(st.booleans()),
    }


def build(case):
    r = rng(case["seed"])
    n = case["n"]
    low = r.uniform(-5, 5, (n, 3))
    size = r.uniform(0.1, 4, (n, 3))
    if case["flat"]:
        size[r.random((n, 3)) < 0.3] = 0.0
    shift = np.array(case["shift"])
    low = shift + case["scale"] * low
    high = low + case["scale"] * size
    prisms = np.empty((n, 6))
    prisms[:, ::2], prisms[:, 1::2] = low, high
    given = case["given"]
    if given == "ints":
        prisms = np.round(prisms).astype("int64")
    elif given == "float32":
        prisms = prisms.astype("float32")
    elif given == "array":
        prisms = layout(prisms, r)
    boundaries = np.array(prisms, dtype=float)
    if given == "list":
        prisms = prisms.tolist()
    elif given == "tuples":
        prisms = tuple(tuple(p) for p in prisms.tolist())
    elif given == "single" and n == 1:
        prisms = prisms[0].tolist()
    props = {}
    for name, kind in case["properties"]:
        v = r.normal(size=n) * 1000
        if kind == "list":
            v = v.tolist()
        elif kind == "ints":
            v = r.integers(-50, 50, n)
        elif kind == "bools":
            v = r.random(n) < 0.5
        elif kind == "nan":
            v[r.random(n) < 0.5] = np.nan
        elif kind == "constant":
            v[:] = case["value"]
        elif kind == "float32":
            v = v.astype("float32")
        props[name] = v
    return prisms, boundaries, props


def copied(prisms, props):
    return copy.deepcopy(prisms), copy.deepcopy(props)


def untouched(before, prisms, props):
    same(np.asarray(prisms), np.asarray(before[0]), "prisms of the caller after the call")
    require(list(props) == list(before[1]), "the properties of the caller changed")
    for name, v in props.items():
        same(np.asarray(v), np.asarray(before[1][name]), f"{name} of the caller after the call")


@PROP.clause("cells", case_st(), quick=1500, thorough=60000, jit=False,
             rule="vertices, order, volume and properties of every cell")
def cells(case, ctx):
    prisms, boundaries, props = build(case)
    ctx.trivial(case["n"] == 1 and not props)
    ctx.event(case["given"])
    before = copied(prisms, props)
    properties = props if props or case["empty"] else None
    mesh = hm.visualization.prism_to_pyvista(prisms, properties)
    untouched(before, prisms, props)
    n = case["n"]
    require(mesh.n_cells == n, f"{mesh.n_cells} cells instead of {n}")
    require((np.asarray(mesh.celltypes) == 12).all(), "not every cell is an hexahedron")
    require(set(mesh.cell_data.keys()) == set(props),
            f"properties {list(mesh.cell_data.keys())} instead of {list(props)}")
    require(not mesh.point_data.keys(), "the points have data")
    for name, v in props.items():
        got = np.asarray(mesh.cell_data[name])
        v = np.asarray(v)
        same(got.astype(float), v.astype(float), f"values of {name!r}")
    for k in range(n):
        b = boundaries[k]
        corners = np.array([[b[i], b[2 + j], b[4 + m]] for i, j, m in ORDER])
        same(np.asarray(mesh.get_cell(k).points, dtype=float), corners, f"vertices of cell {k}")
        same(np.asarray(mesh.get_cell(k).bounds, dtype=float), b, f"bounds of cell {k}")


@PROP.clause("volumes", case_st(), quick=300, thorough=10000, jit=False,
             rule="signed volumes (orientation) and membership of points")
def volumes(case, ctx):
    case = {**case, "flat": False, "shift": [0.0, 0.0, 0.0], "given": "array", "properties": []}
    prisms, boundaries, _ = build(case)
    ctx.trivial(case["n"] == 1)
    mesh = hm.visualization.prism_to_pyvista(prisms)
    got = np.asarray(mesh.compute_cell_sizes().cell_data["Volume"])
    size = boundaries[:, 1::2] - boundaries[:, ::2]
    close(got, np.prod(size, axis=1), "signed volume of the cells", rtol=1e-6)
    r = rng(case["seed"] + 1)
    for k in range(case["n"]):
        inside = boundaries[k, ::2] + size[k] * r.uniform(0.05, 0.95, 3)
        found = mesh.extract_cells([k]).find_containing_cell(inside)
        require(found == 0, f"cell {k} doesn't contain {inside}")
        outside = boundaries[k, ::2] + size[k] * np.where(np.arange(3) == r.integers(3), 1.2, 0.5)
        found = mesh.extract_cells([k]).find_containing_cell(outside)
        require(found == -1, f"cell {k} contains {outside}")


@st.composite
def invalid_st(draw):
    case = draw(case_st())
    case["wrong"] = draw(pick("2d", "2d row", "2d column", "3d", "short", "long"))
    case["name"] = draw(pick("density", "other"))
    return case


@PROP.clause("invalid properties", invalid_st(), quick=300, thorough=8000, jit=False,
             rule="the property isn't one-dimensional or doesn't have one value per prism")
def invalid(case, ctx):
    prisms, _, props = build(case)
    ctx.event(case["wrong"])
    n, r = case["n"], rng(case["seed"] + 2)
    shape = {"2d": (n, 2), "2d row": (1, n), "2d column": (n, 1), "3d": (1, n, 1),
             "short": (n - 1,), "long": (n + 1,)}[case["wrong"]]
    if case["wrong"] == "short" and n == 1:
        shape = (3,)
    props[case["name"]] = r.normal(size=shape)
    before = copied(prisms, props)
    raises(ValueError, lambda: hm.visualization.prism_to_pyvista(prisms, props),
           f"property of shape {shape} for {n} prisms")
    untouched(before, prisms, props)
