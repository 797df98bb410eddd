"""C33: histories of operations on equivalent-source estimators."""

import numpy as np

from harness import eqs
from harness.core import Property, close, fail, hm, raises, require, same, st
from harness.eqs import silent
from harness.gens import SEED, pick, rng

PROP = Property(
    "C33", "Equivalent-source estimators keep no trace of earlier calls",
    rule="a case is an estimator and a sequence of operations on it; non-trivial when it is fitted at "
    "least twice or has its memory estimated after being fitted",
    technique="model-based histories: after each operation the estimator is compared with a new one "
    "fitted once with its current parameters on the last data, bit by bit; memory estimates against the "
    "arrays built by the fit",
)

KINDS = ("EquivalentSources", "EquivalentSourcesSph", "EquivalentSourcesGB")


@st.composite
def operation_st(draw, kind):
    op = draw(pick("fit", "fit", "fit", "predict", "grid", "set", "set", "clone", "memory", "memory", "bad fit"))
    out = {"op": op}
    if op in ("fit", "memory", "predict", "bad fit"):
        out["survey"] = draw(st.integers(0, 5))
    if op == "fit":
        out["weights"] = draw(pick(False, False, True))
        out["layout"] = draw(pick(False, True))
    if op == "set":
        names = {"EquivalentSources": ("damping", "depth", "points", "block_size", "parallel", "dtype"),
                 "EquivalentSourcesSph": ("damping", "relative_depth", "points", "parallel"),
                 "EquivalentSourcesGB": ("damping", "depth", "points", "block_size", "window_size", "random_state",
                                         "dtype", "window_size")}[kind]
        out["name"] = draw(pick(*names))
        out["value"] = draw(st.integers(0, 2))
    return out


@st.composite
def case_st(draw):
    kind = draw(pick(*KINDS))
    return {"seed": draw(SEED), "kind": kind,
            "start": [draw(st.integers(0, 2)) for _ in range(4)],
            "operations": draw(st.lists(operation_st(kind), min_size=2, max_size=9))}


def survey(kind, k, seed):
    """One of a few surveys of different sizes."""
    n = (9, 12, 16, 25, 5, 30)[k]
    case = {"seed": seed + k, "n": n, "shape": [n] if k % 2 else [n // (3 if n % 3 == 0 else 1), 3 if n % 3 == 0 else 1],
            "scatter": "random", "where": ("origin", "near", "origin")[k % 3], "size": (100.0, 160.0)[k // 3],
            "aspect": 1.0, "relief": 0.2, "level": 1.0}
    x, y, z = eqs.positions(case)
    if kind == "EquivalentSourcesSph":
        return x / 1e3 + 20, y / 1e3 - 30, z + 6.371e6
    return x, y, z


VALUES = {
    "damping": (None, 1e-2, 1.0), "depth": ("default", 120.0, 900.0), "relative_depth": (500, 300.0, 2000.0),
    "points": (None, "few", "many"), "block_size": (None, 60.0, (35.0, 70.0)), "parallel": (True, False, False),
    "window_size": ("default", 70.0, 130.0), "random_state": (0, 1, 7), "dtype": ("float64", "float32", "float64"),
}


def value(name, k, kind, seed):
    v = VALUES[name][k]
    if name == "points" and v is not None:
        x, y, z = survey(kind, 4 if v == "few" else 3, seed + 9)
        return (x.ravel() + 0.001, y.ravel(), z.ravel() - 250.0)
    return v


def make(case):
    kind = case["kind"]
    a, b, c, d = case["start"]
    out = {"damping": VALUES["damping"][a]}
    if kind == "EquivalentSourcesSph":
        out["relative_depth"] = VALUES["relative_depth"][b]
    else:
        out["depth"], out["block_size"] = VALUES["depth"][b], VALUES["block_size"][c]
    if kind == "EquivalentSourcesGB":
        out["window_size"], out["random_state"] = VALUES["window_size"][d], VALUES["random_state"][a]
    return getattr(hm, kind)(**out)


FITTED = ("points_", "coefs_", "region_", "depth_", "window_size_", "rmse_per_iteration_")


def state(e):
    """Copy of all fitted attributes and parameters."""
    out = {}
    for name in sorted(vars(e)):
        v = getattr(e, name)
        if not name.endswith("_") and name not in e.get_params():
            continue
        if isinstance(v, (tuple, list)) and any(isinstance(i, np.ndarray) for i in v):
            v = tuple(np.array(i) for i in v)
        elif isinstance(v, np.ndarray):
            v = v.copy()
        out[name] = v
    return out


def equal(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(equal(i, j) for i, j in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return type(a) is type(b) and a == b or a is b


def unchanged(before, e, what):
    after = state(e)
    if set(before) != set(after):
        fail(f"{what} changed the attributes {sorted(set(before) ^ set(after))}")
    for name, v in before.items():
        if not equal(v, after[name]):
            fail(f"{what} changed {name} from {v} to {after[name]}")




def attempt(fn):
    """The outcome of a call: its result or the type of its exception."""
    try:
        return silent(fn), None
    except (ValueError, TypeError, ZeroDivisionError, np.linalg.LinAlgError) as error:
        return None, type(error)


def fresh(e):
    return type(e)(**{k: (tuple(np.array(i) for i in v) if isinstance(v, tuple) and k == "points" else v)
                      for k, v in e.get_params().items()})


BASE = {"seed": 4, "start": [1, 1, 0, 1]}


@PROP.clause("histories", case_st(), quick=700, thorough=20000, examples=[
    {**BASE, "kind": k, "operations": [{"op": "fit", "survey": 0, "weights": False, "layout": False},
                                       {"op": "memory", "survey": 3}, {"op": "predict", "survey": 1},
                                       {"op": "set", "name": "points", "value": 1}, {"op": "memory", "survey": 0},
                                       {"op": "fit", "survey": 3, "weights": True, "layout": True},
                                       {"op": "set", "name": "points", "value": 0},
                                       {"op": "fit", "survey": 4, "weights": False, "layout": True},
                                       {"op": "predict", "survey": 2}, {"op": "clone"}]} for k in KINDS])
def histories(case, ctx):
    kind, seed = case["kind"], case["seed"] % 10**6
    r = rng(seed)
    e = make(case)
    reference = None  # a new estimator fitted with the last data
    fits = estimates = 0
    for step, op in enumerate(case["operations"]):
        what = f"{op['op']} (operation {step})"
        ctx.event(op["op"])
        coordinates = survey(kind, op["survey"], seed) if "survey" in op else None
        if op["op"] == "fit":
            data = r.uniform(-1, 1, coordinates[0].shape)
            weights = r.uniform(0.1, 2, data.shape) if op["weights"] else None
            given = eqs.shuffled_layout(coordinates, r) if op["layout"] else coordinates
            keep = [np.array(c) for c in (*coordinates, data)]
            before = e.get_params()
            old = state(e)
            other = fresh(e)
            _, error = attempt(lambda: e.fit(given, data, weights))
            _, expected = attempt(lambda: other.fit(coordinates, data, weights))
            if error is not expected:
                fail(f"{what}: {error} instead of {expected}, as for a new estimator")
            for a, b in zip(keep, (*given, data)):
                require(np.array_equal(a, b), f"{what}: the arguments were changed")
            for name, v in before.items():
                require(equal(v, e.get_params()[name]), f"{what} changed the parameter {name}")
            if error is not None:
                e, reference = other, None  # no claims on estimators that couldn't be fitted
                ctx.event("fit rejected")
                continue
            fits += 1
            reference = other
        elif op["op"] == "bad fit":
            before = state(e)
            try:
                silent(lambda: e.fit(coordinates, np.ones(coordinates[0].size + 1)))
            except ValueError:
                unchanged(before, e, what)
            else:
                fail(f"{what}: data of other size were accepted")
        elif op["op"] == "set":
            v = value(op["name"], op["value"], kind, seed)
            require(e.set_params(**{op["name"]: v}) is e, "set_params must return the estimator")
            # predictions do not depend on the parameters for the fit but on these
            if reference is not None and op["name"] in ("parallel", "dtype"):
                reference.set_params(**{op["name"]: v})
        elif op["op"] == "clone":
            from sklearn.base import clone
            copy = clone(e)
            for name, v in e.get_params().items():
                require(equal(copy.get_params()[name], v), f"{what}: other parameter {name}")
            left = [n for n in FITTED if hasattr(copy, n)]
            require(not left, f"{what}: clones have the fitted attributes {left}")
            if r.random() < 0.3:
                e, reference = copy, None
        elif op["op"] == "memory":
            before = state(e)
            keep = [np.array(c) for c in coordinates]
            first, error = attempt(lambda: e.estimate_required_memory(coordinates))
            unchanged(before, e, what)
            for a, b in zip(keep, coordinates):
                require(np.array_equal(a, b), f"{what}: the arguments were changed")
            new, expected = attempt(lambda: fresh(e).estimate_required_memory(coordinates))
            require(error is expected and first == new, f"{what}: {first} ({error}) instead of {new} ({expected})")
            estimates += fits > 0
        elif op["op"] in ("predict", "grid"):
            before = state(e)
            if op["op"] == "predict":
                at = tuple(c + 0.1 for c in survey(kind, op["survey"], seed + 3))
                action = (lambda x: x.predict(at))
            else:
                x, y, z = survey(kind, 0, seed)
                at = np.linspace(x.min(), x.max(), 3), np.linspace(y.min(), y.max(), 2), np.full((2, 3), z.max() + 20)
                action = (lambda x: x.grid(at)["scalars"].values)
            out, error = None, None
            try:
                out = silent(lambda: action(e))
            except Exception as exc:
                error = exc
            unchanged(before, e, what)
            if reference is None:
                from sklearn.exceptions import NotFittedError
                if hasattr(e, "coefs_"):
                    fail(f"{what}: fitted attributes without a fit")
                require(isinstance(error, NotFittedError), f"{what} before fitting: {error!r}")
                continue
            if error is not None:
                fail(f"{what}: {error!r}")
            expected = silent(lambda: action(reference))
            require(out.dtype == expected.dtype, f"{what}: type {out.dtype} instead of {expected.dtype}")
            same(np.asarray(out), np.asarray(expected), what)
        if reference is not None:
            for name in FITTED:
                if hasattr(e, name) != hasattr(reference, name):
                    fail(f"after {what}: attribute {name} unlike a new estimator")
                if hasattr(e, name) and not equal(getattr(e, name), getattr(reference, name)):
                    fail(f"after {what}: {name} is {getattr(e, name)} instead of {getattr(reference, name)}")
    ctx.event(kind)
    ctx.trivial(fits < 2 and not estimates)


@st.composite
def memory_st(draw):
    kind = draw(pick("EquivalentSources", "EquivalentSourcesSph", "EquivalentSourcesGB", "EquivalentSourcesGB"))
    case = {"seed": draw(SEED), "kind": kind, "survey": draw(st.integers(0, 5)),
            "damping": draw(pick(0.1, 1.0)), "points": draw(pick(0, 0, 1, 2)),
            "depth": draw(st.integers(0, 2)), "block": draw(pick(0, 0, 1, 2)), "window": draw(st.integers(0, 2)),
            "state": draw(st.integers(0, 3)), "extra": draw(st.booleans()),
            "dtype": draw(pick("float64", "float64", "float32", "numpy float32", "numpy float64"))}
    return case


@PROP.clause("estimated memory", memory_st(), quick=500, thorough=15000, examples=[
    {"seed": 1, "kind": k, "survey": 3, "damping": 0.1, "points": p, "depth": 0, "block": b, "window": 1, "state": 0,
     "dtype": d, "extra": False} for k in KINDS for p in (0, 1) for b in (0, 1) for d in ("float32", "numpy float32")])
def memory(case, ctx):
    """The number of bytes of the largest Jacobian built by the fit."""
    kind, seed = case["kind"], case["seed"] % 10**6
    args = {"damping": case["damping"], "points": value("points", case["points"], kind, seed)}
    if kind == "EquivalentSourcesSph":
        args["relative_depth"] = VALUES["relative_depth"][case["depth"]]
    else:
        args["depth"], args["block_size"] = VALUES["depth"][case["depth"]], VALUES["block_size"][case["block"]]
        args["dtype"] = (np.dtype(case["dtype"][6:]) if case["dtype"].startswith("numpy") else case["dtype"])
    if kind == "EquivalentSourcesGB":
        args["window_size"], args["random_state"] = VALUES["window_size"][case["window"]], case["state"]
    cls = getattr(hm, kind)
    seen = []

    class Recorder(cls):
        def __init__(self):
            super().__init__(**args)

        def jacobian(self, *a, **k):
            out = super().jacobian(*a, **k)
            seen.append((out.nbytes, out.shape))
            return out

    coordinates = survey(kind, case["survey"], seed)
    if case["extra"]:
        coordinates = (*coordinates, np.full(coordinates[0].shape, 5.0))
    data = rng(seed).uniform(-1, 1, coordinates[0].shape)
    _, error = attempt(lambda: Recorder().fit(coordinates, data))
    estimate, wrong = attempt(lambda: cls(**args).estimate_required_memory(coordinates))
    if error is not None:
        ctx.event("fit rejected")
        ctx.trivial(True)
        require(wrong is error, f"memory estimated as {estimate} for a fit that fails with {error}")
        return
    if not seen:
        ctx.event("no windows")
        ctx.trivial(True)
        return
    ctx.event(f"{kind}, {min(len(seen), 2)} windows")
    biggest = max(s[0] for s in seen)
    if estimate != biggest:
        fail(f"{estimate} bytes ({wrong}) instead of {biggest} bytes for {[s[1] for s in seen][:5]}")


@PROP.clause("parameters", memory_st(), quick=200, thorough=3000, jit=False)
def parameters(case, ctx):
    """The constructors keep the parameters as given, and reject invalid window sizes."""
    kind, seed = case["kind"], case["seed"] % 10**6
    cls = getattr(hm, kind)
    names = {"EquivalentSources": ("damping", "points", "depth", "block_size", "parallel", "dtype"),
             "EquivalentSourcesSph": ("damping", "points", "relative_depth", "parallel"),
             "EquivalentSourcesGB": ("damping", "points", "depth", "block_size", "window_size", "parallel",
                                     "random_state", "dtype")}[kind]
    require(set(cls().get_params()) == set(names), "names of the parameters")
    r = rng(seed)
    args = {n: value(n, int(r.integers(3)), kind, seed) for n in names if r.random() < 0.7}
    e = cls(**args)
    for n, v in e.get_params().items():
        if n in args:
            require(v is args[n] or equal(v, args[n]), f"parameter {n}")
    if kind == "EquivalentSourcesGB":
        raises(ValueError, lambda: cls(window_size="default "), "window size given by another string")
        raises(ValueError, lambda: cls(window_size="large"), "window size given by another string")
    if kind != "EquivalentSourcesSph":
        raises(ValueError, lambda: silent(lambda: cls(depth="large").fit(
            survey(kind, 0, seed), np.ones_like(survey(kind, 0, seed)[0]))), "depth given by another string")
