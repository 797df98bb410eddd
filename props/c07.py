"""C07: tesseroids with a density function against cubature of the same function."""

import numpy as np

from harness import tess_ref as ref
from harness.core import Property, close, hm, st
from harness.gens import fl, pick
from props.c06 import thin

PROP = Property(
    "C07", "Tesseroids with a density function match the radially varying mass distribution",
    rule="a case is one to three tesseroids (and zero-volume ones), a density function of radius "
    "of one of several families and a point; non-trivial when the function is not constant",
    technique="reference model (cubature of the density function), metamorphic relations "
    "(constant function, scaling, sums, zero-volume bodies)",
    assumptions=["density functions with at most four extremes inside a tesseroid"],
)
R = 6371e3


def make(spec, bottom, top):
    """Python density function of radius over the interval of the model."""
    kind, p = spec["kind"], spec["p"]

    def x(r):
        return (r - bottom) / (top - bottom)

    if kind == "constant":
        return lambda r: p[0] + 0.0 * r
    if kind == "linear":
        return lambda r: p[0] + p[1] * x(r)
    if kind == "exponential":
        return lambda r: p[0] + p[1] * np.exp(-p[2] * x(r))
    if kind == "quadratic":
        return lambda r: p[0] + p[1] * (x(r) - p[2] / 12) ** 2
    if kind == "sine":
        return lambda r: p[0] + p[1] * np.sin(2 * np.pi * p[2] / 8 * x(r))
    if kind == "step":  # smooth step
        return lambda r: p[0] + p[1] * np.tanh(p[2] * (x(r) - 0.4))
    if kind == "arch":  # equal at both ends
        return lambda r: p[0] + p[1] * 4 * x(r) * (1 - x(r))
    if kind == "bell":
        return lambda r: p[0] + p[1] * np.exp(-((x(r) - 0.5) * (2 + p[2] / 2)) ** 2)
    if kind == "wave":  # up to four extremes, some of them with larger ones at the top
        cycles, grows = (1.0, 1.5, 2.0)[int(p[2]) % 3], int(10 * p[2]) % 2
        return lambda r: p[0] + p[1] * (x(r) if grows else 1.0) * np.sin(2 * np.pi * cycles * x(r))
    raise ValueError(kind)


@st.composite
def spec_st(draw, kinds=("constant", "linear", "exponential", "quadratic", "sine", "step", "arch", "bell",
                              "wave")):
    return {"kind": draw(st.sampled_from(kinds)),
            "p": [draw(pick(0.0, 2670.0, -500.0)),
                  draw(st.one_of(pick(300.0, -300.0, 1.0), fl(-1000, 1000).map(lambda v: round(v, 1)))),
                  draw(st.floats(0.1, 5.0))]}


@st.composite
def model_st(draw, nulls=False):
    top = R
    bodies = []
    mid_lat = 0.0
    for _ in range(draw(st.integers(1, 2))):
        w, s = draw(fl(-30, 30)), draw(fl(-60, 50))
        wid, hei = draw(pick(0.5, 2.0, 10.0)), draw(pick(0.5, 2.0, 10.0))
        mid_lat = s
        size = R * np.radians(min(wid * np.cos(np.radians(s + hei / 2)), hei))
        thick = draw(st.floats(0.02, 2.0)) * size
        bodies.append([w, w + wid, s, s + hei, top - min(thick, 0.5 * R), top])
    out = {"bodies": bodies,
           "point": [draw(fl(-40, 40)) + draw(pick(0.0, 360.0)),
                     mid_lat + draw(fl(-10, 10)),
                     R * draw(st.one_of(pick(1.05, 1.3), st.floats(1.02, 3.0)))],
           "field": draw(pick("potential", "g_z")), "radial": draw(st.booleans())}
    if not all(thin(b, out["point"]) for b in bodies):
        out["radial"] = True
    if nulls:
        out["nulls"] = []
        for _ in range(draw(st.integers(0, 2))):
            b = list(draw(st.sampled_from(bodies)))
            a = draw(st.integers(0, 2))
            b[2 * a + 1] = b[2 * a]
            out["nulls"].append([draw(st.integers(0, len(bodies))), b])
    return out


def span(case):
    return min(b[4] for b in case["bodies"]), max(b[5] for b in case["bodies"])


def run(case, density, bodies=None):
    return float(hm.tesseroid_gravity(
        tuple(case["point"]), bodies or case["bodies"], density, case["field"], parallel=False,
        radial_adaptive_discretization=case["radial"]))


def reference(case, f, absolute=False):
    """Field of the density function and of its absolute value."""
    k = 0 if case["field"] == "potential" else 1
    value = sum(ref.field(b, case["point"], f, ratio=1.0)[k] for b in case["bodies"])
    if not absolute:
        return value
    k = 0 if case["field"] == "potential" else 2
    return value, sum(ref.field(b, case["point"], lambda r: np.abs(f(r)), ratio=1.0)[k]
                      for b in case["bodies"])


@st.composite
def exact_st(draw):
    case = draw(model_st(nulls=True))
    case["density"] = draw(spec_st())
    return case


def with_nulls(case):
    bodies = [list(b) for b in case["bodies"]]
    for at, null in case["nulls"]:
        bodies.insert(at, null)
    return bodies


@PROP.clause("exact", exact_st(), quick=160, thorough=5000, shards=4, jit=False,
             rule="cubature of the density function; bodies of zero volume added")
def exact(case, ctx):
    f = make(case["density"], *span(case))
    want, size = reference(case, f, absolute=True)
    ctx.trivial(case["density"]["kind"] == "constant")
    ctx.event(case["density"]["kind"])
    ctx.event(f"{len(case['nulls'])} of zero volume")
    got = run(case, f, with_nulls(case))
    close(got, want, f"{case['field']} of a {case['density']['kind']} density",
          atol=tol(case, [case["density"]["kind"]]) * size + 1e-300)


def tol(case, kinds):
    """About twice the largest errors of the pinned tree in thousands of cases."""
    if "bell" in kinds:
        return 0.1
    if "wave" in kinds:  # 0.015 for a body in which the split at one of the extremes is missed
        return 0.05
    if "step" in kinds:
        return 0.035
    return 0.01 if case["field"] == "potential" else 0.012


@st.composite
def relations_st(draw):
    case = draw(model_st())
    case["density"] = draw(spec_st())
    case["other"] = draw(spec_st())
    case["factor"] = draw(pick(2.0, -1.0, 0.001, 1e4))
    case["shift"] = draw(pick(3.0, -10.0, 30.0))
    case["constant"] = draw(pick(2670.0, -350.0, 1e-3, 1.0))
    return case


@PROP.clause("relations", relations_st(), quick=100, thorough=3000, shards=4, jit=False,
             rule="constant function, scaled function, sum of functions")
def relations(case, ctx):
    lo, hi = span(case)
    f, g = make(case["density"], lo, hi), make(case["other"], lo, hi)
    ctx.trivial(case["density"]["kind"] == "constant")
    rho = case["constant"]
    flat = run(case, lambda r: rho)
    close(flat, run(case, [rho] * len(case["bodies"])), "constant function", rtol=1e-10)
    a = case["factor"]
    value = run(case, f)
    _, size = reference(case, f, absolute=True)
    _, size_g = reference(case, g, absolute=True)
    t = 2 * tol(case, [case["density"]["kind"], case["other"]["kind"]])
    close(run(case, lambda r: a * f(r)), a * value, f"function scaled by {a}",
          atol=t * abs(a) * size + 1e-300)
    if case["density"]["kind"] != "constant":
        r = np.linspace(lo, hi, 101)
        swing = f(r).max() - f(r).min()
        c = case["shift"] * swing
        rest = run(case, lambda r: f(r) - f(lo))
        _, small = reference(case, lambda r: f(r) - f(lo), absolute=True)
        # error of the method for the constant alone, in one piece
        piece = abs(flat - reference(case, lambda r: rho + 0.0 * r)) * abs(c / rho)
        close(run(case, lambda r: f(r) - f(lo) + c) - run(case, lambda r: c + 0 * r), rest,
              f"function plus a constant of {case['shift']} times its swing",
              atol=t * small + 1.5 * piece + 1e-3 * abs(c / rho * flat) + 1e-300)
    close(run(case, lambda r: f(r) + g(r)), value + run(case, g), "sum of functions",
          atol=t * (size + size_g) + 1e-300)


@st.composite
def compiled_st(draw):
    case = draw(model_st(nulls=True))
    case["function"] = draw(pick("line", "wave"))
    case["parallel"] = draw(st.booleans())
    return case


_COMPILED = {}


def compiled_function(name):
    if name not in _COMPILED:
        from numba import njit

        if name == "line":
            _COMPILED[name] = njit(lambda r: 3000.0 - 2.5e-4 * r)
        else:
            _COMPILED[name] = njit(lambda r: 2000.0 + 500.0 * np.sin(r / 2e5))
    return _COMPILED[name]


@PROP.clause("compiled", compiled_st(), quick=60, thorough=2000, shards=1,
             rule="jitted density functions, parallel or not")
def compiled(case, ctx):
    f = compiled_function(case["function"])
    want, size = reference(case, f.py_func, absolute=True)
    ctx.event(case["function"])
    got = float(hm.tesseroid_gravity(
        tuple(case["point"]), with_nulls(case), f, case["field"], parallel=case["parallel"],
        radial_adaptive_discretization=case["radial"]))
    close(got, want, f"{case['field']} of a jitted density", atol=tol(case, ["line"]) * size)
