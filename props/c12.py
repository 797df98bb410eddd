"""C12: histories of updates of layers against an explicit model of the cells."""

import numpy as np

from harness import layers
from harness.core import Property, close, hm, raises, require, same, st
from harness.gens import SEED, pick, rng

PROP = Property(
    "C12", "Layer geometry stays consistent through construction, updates and export",
    rule="a case is a history: construction of a layer, then updates (valid or with a wrong "
    "shape), queries of single bodies, selections of cells, transpositions and exports, in any order; "
    "non-trivial when the history has an update after which a cell changes side or has a missing "
    "value, a selection or a transposition",
    technique="stateful model-based testing of the layer accessors; exported meshes compared with "
    "the explicit list of cells",
)


def history_st(spherical):
    @st.composite
    def build(draw):
        steps = []
        for _ in range(draw(pick(3, 2, 5, 1, 0))):
            kind = draw(pick("update", "update", "bad surface", "bad reference", "get", "mutate",
                             "property", "transpose", "select", "transposed property"))
            steps.append({"op": kind, "relief": draw(layers.relief_st()), "seed": draw(SEED)})
        return {"grid": draw(layers.grid_st(spherical=spherical)), "relief": draw(layers.relief_st()),
                "properties": draw(pick([], ["density"], ["density", "susceptibility"])),
                "seed": draw(SEED), "steps": steps, "drop": draw(st.booleans()),
                "export": draw(pick(True, False, False)),
                "interleave": draw(st.booleans())}

    return build()


class Model:
    def __init__(self, case, spherical):
        self.spherical = spherical
        self.base, self.scale = (6371000.0, 3000.0) if spherical else (0.0, 10.0)
        self.x, self.y = layers.axes(case["grid"])
        self.shape = (len(self.y), len(self.x))
        self.make = hm.tesseroid_layer if spherical else hm.prism_layer
        gen = rng(case["seed"])
        self.props = {name: np.round(gen.uniform(-3000, 3000, self.shape), 1)
                      for name in case["properties"]}
        if "susceptibility" in self.props:
            self.props["susceptibility"][gen.uniform(size=self.shape) < 0.3] = np.nan
        self.surface, self.ref, s, r = self.relief(case["relief"])
        self.args = (s, r)
        self.layer = self.make(layers.package(case["grid"], self.x, self.y), s, r,
                               properties={k: v.copy() for k, v in self.props.items()} or None)
        self.changed = False

    def relief(self, desc):
        return layers.relief(desc, self.shape, self.base, self.scale)

    @property
    def accessor(self):
        return self.layer.tesseroid_layer if self.spherical else self.layer.prism_layer

    def compare(self, what):
        acc, layer = self.accessor, self.layer
        names = ("longitude", "latitude") if self.spherical else ("easting", "northing")
        same(layer[names[0]].values, self.x, f"{what}: {names[0]}")
        same(layer[names[1]].values, self.y, f"{what}: {names[1]}")
        require(tuple(acc.dims) == names[::-1], f"{what}: dims {acc.dims}")
        require(tuple(acc.shape) == self.shape, f"{what}: shape {acc.shape}")
        require(acc.size == len(self.x) * len(self.y), f"{what}: size {acc.size}")
        dx, dy = abs(float(self.x[1] - self.x[0])), abs(float(self.y[1] - self.y[0]))
        close(np.array(acc.spacing), np.array([dy, dx]), f"{what}: spacing", rtol=1e-9)
        bottom, top = layers.interval(self.surface, self.ref)
        for name, want in (("bottom", bottom), ("top", top)):
            require(sorted(layer[name].dims) == sorted(names), f"{what}: dims of {name}")
        b, t = (layer[name].transpose(*names[::-1]).values for name in ("bottom", "top"))
        # a missing surface or reference leaves a cell without a complete interval
        gone = np.isnan(bottom)
        require((np.isnan(b) | np.isnan(t))[gone].all(), f"{what}: a cell with missing values has "
                "both boundaries")
        same(np.asarray(b, float)[~gone], bottom[~gone], f"{what}: bottom")
        same(np.asarray(t, float)[~gone], top[~gone], f"{what}: top")
        require(set(layer.data_vars) == set(self.props), f"{what}: properties {set(layer.data_vars)}")
        for name, values in self.props.items():
            same(layer[name].transpose(*names[::-1]).values, values, f"{what}: {name}")
        tol = dict(rtol=1e-12, atol=1e-9 * max(dx, dy), equal_nan=True)
        everything = [c for c in layers.cells(self.x, self.y, np.asarray(b, float), np.asarray(t, float))]
        for i, j, body in everything:
            get = acc.get_tesseroid if self.spherical else acc.get_prism
            close(np.array(get((i, j)), float), np.array(body), f"{what}: cell {i}, {j}", **tol)
            neg = (i - self.shape[0], j - self.shape[1])
            close(np.array(get(neg), float), np.array(body), f"{what}: cell {neg}", **tol)
        rows = np.array([c[2] for c in everything])
        limits = [rows[:, 0].min(), rows[:, 1].max(), rows[:, 2].min(), rows[:, 3].max()]
        close(np.array(acc.boundaries, float), np.array(limits), f"{what}: boundaries", **tol)

    def step(self, step, ctx):
        op = step["op"]
        gen = rng(step["seed"])
        if op == "update":
            side = self.surface < self.ref
            self.surface, self.ref, s, r = self.relief(step["relief"])
            self.args = (s, r)
            keep = [np.array(v) for v in self.args]
            self.accessor.update_top_bottom(s, r)
            for a, k in zip(self.args, keep):
                same(np.asarray(a), k, "an argument of update_top_bottom was modified")
            self.changed |= bool((side != (self.surface < self.ref)).any()
                                 or np.isnan(self.surface).any() or np.isnan(self.ref).any())
        elif op in ("bad surface", "bad reference"):
            _, _, s, r = self.relief(step["relief"])
            bad_shape = [(self.shape[1] + 1, self.shape[0]), (self.shape[0],), (1, self.shape[1]),
                         (self.shape[0], self.shape[1], 1)][step["seed"] % 4]
            bad = np.full(bad_shape, self.base)
            raises(ValueError, lambda: self.accessor.update_top_bottom(
                *((bad, r) if op == "bad surface" else (s, bad))), f"{op} of shape {bad_shape}")
        elif op == "get":
            i, j = gen.integers(self.shape[0]), gen.integers(self.shape[1])
            get = self.accessor.get_tesseroid if self.spherical else self.accessor.get_prism
            get((i, j))
        elif op == "mutate":  # the layer owns its boundaries
            for a in self.args:
                if isinstance(a, np.ndarray):
                    a[...] = 77
        elif op == "property" and self.props:
            name = sorted(self.props)[0]
            self.props[name] = np.round(gen.uniform(0, 10, self.shape))
            self.layer[name] = (self.accessor.dims, self.props[name].copy())
        elif op == "transposed property" and self.props:
            name = sorted(self.props)[0]
            self.props[name] = np.round(gen.uniform(0, 10, self.shape))
            self.layer[name] = (tuple(self.accessor.dims)[::-1], self.props[name].T.copy())
        elif op == "transpose":
            self.layer = self.layer.transpose()
            self.changed = True
        elif op == "select":  # part of the cells, every second of them, or in reverse order
            cuts = []
            for n in self.shape:
                options = [slice(None), slice(None, None, -1)]
                if n > 2:
                    options += [slice(1, None), slice(0, n - 1), slice(None, None, 2)]
                cuts.append(options[gen.integers(len(options))])
            cuts = tuple(cuts)
            names = ("longitude", "latitude") if self.spherical else ("easting", "northing")
            self.layer = self.layer.isel({names[1]: cuts[0], names[0]: cuts[1]})
            self.y, self.x = self.y[cuts[0]], self.x[cuts[1]]
            self.shape = (len(self.y), len(self.x))
            self.surface, self.ref = self.surface[cuts], self.ref[cuts]
            self.props = {name: values[cuts] for name, values in self.props.items()}
            self.changed = True


def run(case, ctx, spherical):
    model = Model(case, spherical)
    if case["interleave"]:
        model.compare("after construction")
    for k, step in enumerate(case["steps"]):
        model.step(step, ctx)
        ctx.event(step["op"])
        if case["interleave"]:
            model.compare(f"after step {k} ({step['op']})")
    model.compare("at the end")
    ctx.trivial(not model.changed)
    return model


@PROP.clause("tesseroid layers", history_st(True), quick=500, thorough=15000, jit=False)
def tesseroid_histories(case, ctx):
    run(case, ctx, True)


@PROP.clause("prism layers", history_st(False), quick=500, thorough=15000, jit=False, shards=2)
def prism_histories(case, ctx):
    model = run(case, ctx, False)
    if not case["export"]:
        return
    b, t = (model.layer[name].transpose("northing", "easting").values for name in ("bottom", "top"))
    todo = []
    for i, j, body in layers.cells(model.x, model.y, np.asarray(b, float), np.asarray(t, float)):
        null = np.isnan(body).any() or body[4] == body[5]
        if case["drop"] and null:
            continue
        todo.append((i, j, body))
    ctx.event("export")
    if not todo:
        return
    mesh = model.accessor.to_pyvista(drop_null_prisms=case["drop"])
    require(mesh.n_cells == len(todo), f"{mesh.n_cells} cells instead of {len(todo)}")
    require((mesh.celltypes == 12).all(), "not every cell is an hexahedron")
    require(set(mesh.cell_data.keys()) == set(model.props), f"properties {mesh.cell_data.keys()}")
    volume = np.abs(mesh.compute_cell_sizes().cell_data["Volume"])
    for k, (i, j, body) in enumerate(todo):
        for name, values in model.props.items():
            same(np.array(mesh.cell_data[name][k]), values[i, j], f"{name} of cell {i}, {j}")
        if np.isnan(body).any():
            continue
        size = np.array([body[1] - body[0], body[3] - body[2], body[5] - body[4]])
        scale = np.abs(body).max()
        points = np.array(mesh.get_cell(k).points)
        close(np.array(mesh.get_cell(k).bounds), np.array(body), f"bounds of cell {i}, {j}",
              rtol=1e-6, atol=1e-6 * scale)
        # the eight vertices: all the corners, ordered as VTK hexahedra
        order = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
                 (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
        corners = np.array([[body[c[0]], body[2 + c[1]], body[4 + c[2]]] for c in order])
        close(points, corners, f"vertices of cell {i}, {j}", rtol=1e-6, atol=1e-6 * scale)
        close(volume[k], np.prod(size), f"volume of cell {i}, {j}", rtol=1e-4,
              atol=1e-4 * scale * max(size) ** 2)
