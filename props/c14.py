"""C14: magnetic field of ellipsoids against the solution of the boundary problem."""

import numpy as np

from harness import ellipsoid_ref as ref
from harness.core import Property, close, hm, require, st
from harness.gens import fl, pick
from props.c13 import body_st, locate, make, points_st, shape_of, slack

PROP = Property(
    "C14", "Ellipsoid magnetic field solves the uniform-magnetization boundary problem",
    rule="a case is an ellipsoid (as in C13), an isotropic, tensor or absent susceptibility, a "
    "remanence or none, an inducing field and points; non-trivial when the magnetization is not "
    "zero",
    technique="reference model: demagnetization tensors from Carlson's integrals and the linear "
    "system solved in the body axes",
    assumptions=["well-conditioned demagnetization (condition number of I + chi N below 1e4)"],
)


@st.composite
def chi_st(draw):
    kind = draw(pick("scalar", "tensor", "tensor", "diagonal", None))
    if kind == "scalar":
        return draw(st.one_of(pick(0.0, 0.1, 5.0, 100.0, 150.0, 1000.0, -0.5), fl(0, 3)))
    if kind == "diagonal":
        return [[draw(fl(0, 3)) if i == j else 0.0 for j in range(3)] for i in range(3)]
    if kind == "tensor":
        by = draw(pick(1.0, 1.0, 1.0, 100.0))
        return [[draw(fl(-1, 2)) * by for j in range(3)] for i in range(3)]
    return None


@st.composite
def case_st(draw):
    return {"body": draw(body_st()), "points": draw(points_st()), "chi": draw(chi_st()),
            "remanent": draw(st.one_of(st.none(), st.lists(fl(-5, 5), min_size=3, max_size=3))),
            "inducing": draw(st.one_of(pick([0.0, 0.0, 0.0], [0.0, 0.0, -50000.0]),
                                       st.lists(fl(-60000, 60000), min_size=3, max_size=3))),
            "as": draw(pick("array", "list", "tuple"))}


@PROP.clause("boundary problem", case_st(), quick=2500, thorough=100000, jit=False, shards=3)
def boundary(case, ctx):
    body = case["body"]
    axes, chi = np.array(body["axes"]), case["chi"]
    remanent = case["remanent"]
    rot = ref.rotation(*body["angles"])
    obs = locate(body, case["points"])
    h0 = np.array(case["inducing"]) * 1e-9 / ref.MU0
    mag, cond = ref.magnetization(axes, rot, 0.0 if chi is None else chi,
                                  np.zeros(3) if remanent is None else np.array(remanent), h0)
    if cond > 1e4:
        ctx.trivial()
        return
    ctx.event(shape_of(axes))
    ctx.event("tensor" if isinstance(chi, list) else "scalar" if chi is not None else "no chi")
    ctx.event("remanence" if remanent is not None else "no remanence")
    for w in case["points"]["where"]:
        ctx.event(w)
    ctx.trivial(not mag.any())
    pack = {"array": np.array, "list": list, "tuple": tuple}[case["as"]]
    bodyobj = make(body, susceptibility=np.array(chi) if isinstance(chi, list) else chi,
                   remanent_mag=None if remanent is None else pack(remanent))
    got = np.array(hm.ellipsoid_magnetic(tuple(obs), bodyobj, pack(case["inducing"])))
    require(got.shape == obs.shape, f"shape {got.shape}")
    _, moved = slack(obs, body)
    # rotations leave about 1e-16 of the induced magnetization in other components
    size = 0 if chi is None else np.abs(chi).max()
    scale = np.abs(mag).max() * ref.MU0 * 1e9
    noise = 1e-14 * size * np.abs(h0).max() * ref.MU0 * 1e9 * cond
    e2 = [abs(p ** 2 - q ** 2) / p ** 2 for p, q in ((axes.max(), np.median(axes)),
                                                     (np.median(axes), axes.min()))]
    inner = 200 * ref.EPS * sum(e ** -1.5 for e in e2 if e > 1e-5)
    for k in range(obs.shape[1]):
        local = rot.T @ (obs[:, k] - body["center"])
        level = np.sqrt(np.sum((local / axes) ** 2))
        # the field is discontinuous at the surface
        if abs(level - 1) < 1e-10 + 10 * moved[k] / axes.min():
            continue
        want = ref.magnetic(axes, rot, body["center"], mag, obs[:, k]) * 1e9
        lam = ref.confocal(local, axes)
        q = np.square(axes) + lam
        # size of the kernel: the tensor decays with distance
        kernel = np.prod(axes) / np.sqrt(np.prod(q)) if level > 1 else 1.0
        # rounding of the coordinates next to sharp tips
        tip = moved[k] * axes.max() / np.square(axes.min())
        tol = cond * (10 * ref.conditioning(axes, lam) + ref.conditioning(axes, 0.0) + inner) + 50 * tip
        close(got[:, k], want, f"{shape_of(axes)} {body['axes']} "
              f"({case['points']['where'][k]}, tolerance {tol:.1e})",
              rtol=0, atol=(tol * scale + noise) * min(1.0, kernel * 10) + 1e-300)
