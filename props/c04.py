"""C04: dipole magnetic field against the closed form."""

import numpy as np

from harness.core import Property, close, hm, st
from harness.gens import fl, pick, shape_of

PROP = Property(
    "C04", "Dipole magnetic field equals the closed form",
    rule="a case is a set of dipoles, moments and points; non-trivial when no point is so close "
    "to a dipole that rounding dominates and a moment is not zero",
    technique="closed-form reference model, component/tuple differential",
    assumptions=["magnetic permeability as distributed with choclo (CODATA)"],
)
MU0 = 1.25663706212e-06


@st.composite
def case_st(draw):
    scale = draw(pick(1.0, 50.0, 1e4))
    n, m = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    comp = st.one_of(pick(0.0, 1.0, -1.0), fl(-10, 10))
    dipoles = [[draw(fl(-5, 5)) * scale for _ in range(n)] for _ in range(3)]
    obs = [[draw(fl(-5, 5)) * scale for _ in range(m)] for _ in range(3)]
    for i in range(m):  # next to a dipole along one of the axes
        if draw(st.integers(0, 3)) == 3:
            j, axis = draw(st.integers(0, n - 1)), draw(st.integers(0, 2))
            for k in range(3):
                obs[k][i] = dipoles[k][j]
            obs[axis][i] += draw(pick(1e-3, -1e-3, 0.3, -0.5, 10.0)) * draw(pick(1.0, scale))
    return {
        "dipoles": dipoles, "obs": obs,
        "moments": [[draw(comp) * 10.0 ** draw(st.integers(0, 10)) for _ in range(n)]
                    for _ in range(3)],
        "shape": shape_of(draw, m), "parallel": draw(st.booleans()),
        "single": draw(pick("b_e", "b_n", "b_u")), "scale": scale,
    }


@PROP.clause("closed form", case_st(), quick=900, thorough=30000, shards=2,
             rule="tuple and single components")
def closed_form(case, ctx):
    obs, dip = np.array(case["obs"]), np.array(case["dipoles"])
    mom = np.array(case["moments"])
    d = obs[:, :, None] - dip[:, None, :]
    l = np.sqrt((d**2).sum(0))
    skip = l.min(axis=1) < 1e-6 * case["scale"]
    ctx.trivial(not mom.any())
    if skip.any():
        ctx.trivial()
        return
    with np.errstate(all="ignore"):
        dot = (mom[:, None, :] * d).sum(0)
        b = (MU0 / (4 * np.pi) * 1e9 * (3 * dot * d / l**5 - mom[:, None, :] / l**3)).sum(2)
        size = (MU0 * 1e9 * np.sqrt((mom**2).sum(0))[None, :] / l**3).sum(1)
    tol = 1e-12 * size + 1e-300
    shape = tuple(case["shape"])
    coords = tuple(o.reshape(shape) for o in obs)
    got = hm.dipole_magnetic(coords, tuple(dip), tuple(mom), "b", parallel=case["parallel"])
    k = ("b_e", "b_n", "b_u").index(case["single"])
    one = hm.dipole_magnetic(coords, tuple(dip), tuple(mom), case["single"],
                             parallel=case["parallel"])
    ctx.event(case["single"])
    for name, value, a in [("b_e of b", got[0], 0), ("b_n of b", got[1], 1),
                           ("b_u of b", got[2], 2), (case["single"], one, k)]:
        assert value.shape == shape, f"{name}: shape {value.shape} instead of {shape}"
        close(value.ravel()[~skip], b[a][~skip], name, rtol=1e-11, atol=tol[~skip])
