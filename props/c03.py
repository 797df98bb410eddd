"""C03: prism magnetic field against Poisson's relation in 60 digits."""

import math

import numpy as np

from harness.core import Property, close, hm, same, st
from harness.gens import fl, pick, shape_of
from props.c02 import model

PROP = Property(
    "C03", "Magnetic field of prisms equals that of their uniform magnetization",
    rule="a case is a set of magnetized prisms and points on shared coordinate levels (planes of "
    "faces and lines of edges included), ; non-trivial when a prism is "
    "magnetized and no point lies within a face",
    technique="high-precision reference model (Poisson's relation, mpmath) and component/tuple "
    "differential",
    assumptions=["magnetic permeability as distributed with choclo (CODATA)"],
)
MU0 = 1.25663706212e-06
NAMES = [["ee", "en", "eu"], ["en", "nn", "nu"], ["eu", "nu", "uu"]]


@st.composite
def case_st(draw):
    prisms, points = draw(model())
    comp = st.one_of(pick(0.0, 0.0, 1.0, -5.0), fl(-20, 20))
    return {
        "prisms": prisms, "points": points,
        "mag": [[draw(comp) for _ in prisms] for _ in range(3)],
        "shape": shape_of(draw, len(points)), "parallel": draw(st.booleans()),
        "single": draw(pick("b_e", "b_n", "b_u")),
    }


def on_open_face(pt, prism):
    """In a face of the prism, edges excluded."""
    closed = all(prism[2 * k] <= pt[k] <= prism[2 * k + 1] for k in range(3))
    touching = sum(pt[k] in (prism[2 * k], prism[2 * k + 1]) for k in range(3))
    return closed and touching == 1


def oracle(points, prisms, mag):
    from harness import prism_ref as ref

    values, tols = np.zeros((3, len(points))), np.zeros((3, len(points)))
    for i, pt in enumerate(points):
        for j, prism in enumerate(prisms):
            m = [mag[k][j] for k in range(3)]
            if not any(m):
                continue
            tens = {n: ref.prism_integral(n, pt, prism) for row in NAMES for n in set(row)}
            if all(prism[2 * k] < pt[k] < prism[2 * k + 1] for k in range(3)) or any(
                ref.on_edge(pt, prism, k) for k in range(3)
            ):
                values[:, i] = np.nan
                continue
            reach = ref.reach(pt, prism)
            coord = max(abs(v) for v in pt + list(prism))
            for a in range(3):
                h = sum(tens[NAMES[a][b]] * m[b] for b in range(3)) / (4 * math.pi)
                values[a, i] += MU0 * 1e9 * h
                tols[a, i] += (MU0 * 1e9 * sum(map(abs, m)) * 1e-14 * (5 + coord / reach)
                               * (1 + abs(math.log(reach))))
    return values, tols


@PROP.clause("exact", case_st(), quick=700, thorough=16000, shards=4,
             rule="tuple of three components and a single component")
def exact(case, ctx):
    prisms, points = case["prisms"], case["points"]
    for prism in prisms:
        for pt in points:
            if on_open_face(pt, prism):
                ctx.trivial()  # jump of the field: not specified
                return
    ctx.trivial(not any(any(m) for m in case["mag"]))
    shape = tuple(case["shape"])
    coords = tuple(np.array(points).T[k].reshape(shape) for k in range(3))
    expected, tol = oracle(points, prisms, case["mag"])
    got = hm.prism_magnetic(coords, prisms, tuple(case["mag"]), "b", parallel=case["parallel"])
    assert len(got) == 3
    for a, name in enumerate(("b_e", "b_n", "b_u")):
        close(got[a], expected[a].reshape(shape), name, rtol=1e-11, atol=tol[a].reshape(shape),
              equal_nan=True)
    k = ("b_e", "b_n", "b_u").index(case["single"])
    alone = hm.prism_magnetic(coords, prisms, tuple(case["mag"]), case["single"],
                              parallel=case["parallel"])
    ctx.event(case["single"])
    close(alone, expected[k].reshape(shape), case["single"], rtol=1e-11,
          atol=tol[k].reshape(shape), equal_nan=True)
    ctx.event("undefined" if np.isnan(expected).any() else "defined")
    close(alone, got[k], f"{case['single']} and the same component of b", rtol=1e-12,
          atol=tol[k].reshape(shape), equal_nan=True)


@st.composite
def large_case(draw):
    return {
        "seed": draw(st.integers(0, 10**6)), "n": draw(st.integers(1, 40)),
        "m": draw(st.integers(1, 40)), "parallel": draw(st.booleans()),
    }


@PROP.clause("far", large_case(), quick=60, thorough=2000,
             rule="many small prisms seen from far: dipole sum")
def far(case, ctx):
    r = np.random.default_rng(case["seed"])
    n, m = case["n"], case["m"]
    center = r.uniform(-1000, 1000, (3, n))
    half = r.uniform(0.5, 1.5, (3, n))
    prisms = np.empty((n, 6))
    prisms[:, ::2], prisms[:, 1::2] = (center - half).T, (center + half).T
    mag = r.normal(size=(3, n)) * 10
    direction = r.normal(size=(3, m))
    pts = direction / np.sqrt((direction**2).sum(0)) * r.uniform(2000, 4000, m)
    got = hm.prism_magnetic(tuple(pts), prisms, tuple(mag), "b", parallel=case["parallel"])
    mom = mag * 8 * half.prod(axis=0)
    d = pts[:, :, None] - center[:, None, :]
    l = np.sqrt((d**2).sum(0))
    dot = (mom[:, None, :] * d).sum(0)
    b = MU0 / (4 * np.pi) * 1e9 * (3 * dot * d / l**5 - mom[:, None, :] / l**3)
    scale = (MU0 * 1e9 * np.abs(mom).sum(0)[None, :] / l**3).sum(1)
    for a in range(3):
        # quadrupole-free bodies: next term is (size/l)**2; far rounding of the closed form
        close(got[a], b[a].sum(axis=1), "b"[0] + "_enu"[0] + "enu"[a],
              atol=scale * 1e-5 + 1e-9 * n)
