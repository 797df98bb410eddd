"""C02: prism gravity against a 60-digit evaluation of the exact integral."""

import math

import numpy as np

from harness.core import Property, Violation, close, hm, st
from harness.gens import fl, pick, shape_of

PROP = Property(
    "C02", "Prism gravity equals the exact integral",
    rule="a case is a set of prisms and points whose coordinates are drawn from the same "
    "small set of levels (so that points fall on planes, faces, edges and vertices); "
    "non-trivial when at least one prism has volume and density",
    technique="high-precision closed-form reference model (mpmath) over aligned arrangements",
)
G = 6.6743e-11
FIELDS = {"potential": ("potential", 1.0, 2), "g_e": ("e", 1e5, 1), "g_n": ("n", 1e5, 1),
          "g_z": ("u", -1e5, 1), "g_ee": ("ee", 1e9, 0), "g_nn": ("nn", 1e9, 0),
          "g_zz": ("uu", 1e9, 0), "g_en": ("en", 1e9, 0), "g_ez": ("eu", -1e9, 0),
          "g_nz": ("nu", -1e9, 0)}


@st.composite
def model(draw, max_prisms=3, max_points=4, aligned=True):
    """Prisms and points on common levels."""
    scale = draw(pick(1.0, 10.0, 1e3, 2.5e4))
    off = [draw(pick(0.0, 0.0, 3.0, -200.0)) for _ in range(3)]
    levels = [sorted(draw(st.sets(fl(-4, 4).map(lambda v: round(v, 3)), min_size=3, max_size=6)))
              for _ in range(3)]
    if draw(st.booleans()):  # thin in one direction
        k = draw(st.integers(0, 2))
        levels[k] = [v * 0.05 for v in levels[k]]
    levels = [[(v + o) * scale for v in lev] for lev, o in zip(levels, off)]
    prisms = []
    for _ in range(draw(st.integers(1, max_prisms))):
        p = []
        for lev in levels:
            i = draw(st.integers(0, len(lev) - 2))
            j = draw(st.integers(i + 1, len(lev) - 1))
            p += [lev[i], lev[j]]
        prisms.append(p)
    points = []
    for _ in range(draw(st.integers(1, max_points))):
        pt = []
        for lev in levels:
            kind = draw(st.integers(0 if aligned else 2, 3))
            i = draw(st.integers(0, len(lev) - 2))
            if kind <= 1:
                pt.append(lev[i + draw(st.integers(0, 1))])
            elif kind == 2:
                pt.append(lev[i] + (lev[i + 1] - lev[i]) * draw(pick(0.5, 0.25, 0.875)))
            else:
                span = lev[-1] - lev[0]
                span *= draw(pick(1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 30.0, 300.0, 2000.0))
                pt.append(draw(pick(lev[-1], lev[0])) + span * round(draw(fl(-8, 8)), 3))
        points.append(pt)
    return prisms, points


@st.composite
def case_st(draw):
    prisms, points = draw(model())
    return {
        "prisms": prisms, "points": points,
        "density": [draw(pick(1000.0, -350.0, 2670.0, 1.0, 0.0)) for _ in prisms],
        "field": draw(pick(*FIELDS)), "shape": shape_of(draw, len(points)),
        "parallel": draw(st.booleans()),
    }


def oracle(points, prisms, density, field):
    from harness import prism_ref as ref

    name, unit, power = FIELDS[field]
    values, tols = [], []
    for pt in points:
        total, tol = 0.0, 0.0
        for prism, rho in zip(prisms, density):
            if rho == 0:
                continue
            if ref.singular(name, pt, prism):
                total = math.nan
                continue
            reach = ref.reach(pt, prism)
            total += G * rho * unit * ref.prism_integral(name, pt, prism)
            # rounding of the double-precision closed form: terms of size
            # reach**power * log(reach), plus cancellation of the coordinates
            coord = max(abs(v) for v in pt + list(prism))
            tol += (G * abs(rho) * abs(unit) * max(reach, 1e-30) ** power
                    * 2e-14 * (1 + abs(math.log(max(reach, 1e-30))))
                    * (1 + (coord / reach if power == 0 else 0)))
        values.append(total)
        tols.append(tol)
    return np.array(values), np.array(tols)


@PROP.clause("exact", case_st(), quick=1000, thorough=24000, shards=4,
             rule="all ten fields; NaN exactly at the documented singular points; faces: limit "
             "from outside")
def exact(case, ctx):
    points, prisms = case["points"], case["prisms"]
    ctx.trivial(not any(case["density"]))
    ctx.event(case["field"])
    expected, tol = oracle(points, prisms, case["density"], case["field"])
    ctx.event("singular" if np.isnan(expected).any() else "regular")
    shape = tuple(case["shape"])
    got = hm.prism_gravity(
        tuple(np.array(points).T[k].reshape(shape) for k in range(3)), prisms,
        case["density"], case["field"], parallel=case["parallel"],
    )
    close(got, expected.reshape(shape), case["field"], rtol=1e-11, atol=tol.reshape(shape),
          equal_nan=True)


@st.composite
def fd_case(draw):
    prisms, points = draw(model(max_prisms=2, max_points=1, aligned=False))
    return {"prisms": prisms, "points": points,
            "density": [draw(pick(1000.0, -350.0, 2670.0)) for _ in prisms]}


@PROP.clause("laplace", fd_case(), quick=250, thorough=6000,
             rule="the three diagonal components add up to zero outside and -4 pi G rho inside")
def laplace(case, ctx):
    from harness import prism_ref as ref

    (pt,) = case["points"]
    for prism in case["prisms"]:
        if any(pt[k // 2] == v for k, v in enumerate(prism)):
            ctx.trivial()
            return
    parts = [hm.prism_gravity([[c] for c in pt], case["prisms"], case["density"], f, parallel=False)
             for f in ("g_ee", "g_nn", "g_zz")]
    inside = 0.0
    for prism, rho in zip(case["prisms"], case["density"]):
        if all(prism[2 * k] < pt[k] < prism[2 * k + 1] for k in range(3)):
            inside += rho
            ctx.event("inside")
    expected = -4 * math.pi * G * inside * 1e9
    size = 1e9 * G * sum(abs(r) for r in case["density"])
    far = max(ref.reach(pt, p) for p in case["prisms"])
    coord = max(abs(v) for p in case["prisms"] for v in list(p) + pt)
    close(sum(parts), np.array([expected]), "trace of the tensor",
          atol=size * 1e-12 * (1 + coord / far))
