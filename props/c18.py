"""C18: reduction to the pole."""

import numpy as np

from harness import grids
from harness.core import Property, close, hm, require, st
from harness.gens import fl, pick, rng
from props.c16 import phase_error

PROP = Property(
    "C18", "Reduction to the pole matches the pole response for every direction",
    rule="a case is a regular grid and directions of the main field and of the magnetization "
    "(given or left out); non-trivial when the field is not vertical",
    technique="generation of the anomaly of every spatial frequency of a random distribution of "
    "sources for the given directions and for the pole (physical model), inverse relation, "
    "metamorphic relations",
    assumptions=["inclinations within 5 degrees of the equator are excluded: the operation is "
                 "singular there"],
)


@st.composite
def angles_st(draw):
    inc = st.one_of(pick(90.0, -90.0, 45.0, -30.0, 60.0), fl(5, 90), fl(-90, -5))
    dec = st.one_of(pick(0.0, 90.0, -45.0, 180.0), fl(-360, 360))
    return [draw(inc), draw(dec), draw(st.one_of(st.none(), inc)), draw(st.one_of(st.none(), dec))]


def versor(inc, dec):
    """Easting, northing, downward."""
    i, d = np.radians([inc, dec])
    return np.cos(i) * np.sin(d), np.cos(i) * np.cos(d), np.sin(i)


def complete(angles):
    inc, dec, minc, mdec = angles
    return inc, dec, inc if minc is None else minc, dec if mdec is None else mdec


def theta(inc, dec):
    """Directional derivative of the potential above its sources, over |k|."""
    e, n, d = versor(inc, dec)

    def out(ke, kn):
        k = np.hypot(ke, kn)
        k = np.where(k == 0, 1.0, k)
        return np.where((ke == 0) & (kn == 0), 0.0, d + 1j * (e * ke + n * kn) / k)

    return out


def amplification(angles):
    inc, _, minc, _ = complete(angles)
    return 1 / abs(np.sin(np.radians(inc)) * np.sin(np.radians(minc)))


def call(grid, angles, style, **kwargs):
    inc, dec, minc, mdec = angles
    if style == "positional" or (style == "shortest" and mdec is not None):
        return hm.reduction_to_pole(grid, inc, dec, minc, mdec, **kwargs)
    given = {k: v for k, v in (("magnetization_inclination", minc),
                               ("magnetization_declination", mdec)) if v is not None}
    return hm.reduction_to_pole(grid, inclination=inc, declination=dec, **given, **kwargs)


@st.composite
def case_st(draw):
    return {"grid": {**draw(grids.grid_st(low=3, extra=False)),
                     "values": draw(pick("normal", "smooth"))},
            "angles": draw(angles_st()), "style": draw(pick("positional", "named", "shortest"))}


def without_nyquist(desc, data):
    """Drop the highest frequencies of even sizes, which have no phase."""
    def keep(ke, kn):
        mask = np.ones(ke.shape)
        if ke.shape[1] % 2 == 0:
            mask[:, ke.shape[1] // 2] = 0
        if ke.shape[0] % 2 == 0:
            mask[ke.shape[0] // 2] = 0
        return mask
    return grids.filtered(desc, keep, data)


@PROP.clause("response of sources", case_st(), quick=400, thorough=16000, jit=False, shards=2)
def response(case, ctx):
    desc, angles = case["grid"], case["angles"]
    inc, dec, minc, mdec = complete(angles)
    # vertical field of vertical dipoles below: any zero-mean grid
    pole = grids.filtered(desc, lambda ke, kn: 1.0 * ((ke != 0) | (kn != 0)))
    pole = without_nyquist(desc, pole)
    f, m = theta(inc, dec), theta(minc, mdec)
    anomaly = grids.filtered(desc, lambda ke, kn: f(ke, kn) * m(ke, kn), pole)
    ctx.trivial(abs(inc) == 90)
    ctx.event("magnetization given" if angles[2] is not None else "by default")
    tol = np.abs(pole).max() * amplification(angles) * phase_error(desc) * 1e3 + 1e-300
    got = call(grids.make(desc, anomaly), angles, case["style"], pad=False)
    require(np.isrealobj(got.values), f"dtype {got.dtype}")
    close(got.values, pole, f"reduction to the pole with {angles}", rtol=0, atol=tol)
    # with a regional level
    got = call(grids.make(desc, anomaly + 37.0), angles, case["style"], pad=False)
    close(got.values, pole, f"reduction to the pole with {angles} and a level", rtol=0,
          atol=tol + 37 * amplification(angles) * phase_error(desc) * 100)


@PROP.clause("transfer function", case_st(), quick=220, thorough=10000, jit=False, shards=3)
def transfer(case, ctx):
    """All frequencies, padded or not, and the public kernel."""
    desc, angles = case["grid"], case["angles"]
    inc, dec, minc, mdec = complete(angles)
    f, m = theta(inc, dec), theta(minc, mdec)

    def kernel(ke, kn):
        both = f(ke, kn) * m(ke, kn)
        return np.where(both == 0, 0.0, 1 / np.where(both == 0, 1.0, both))

    ctx.trivial(abs(inc) == 90)
    grid = grids.make(desc)
    size = np.abs(grid.values).max()
    tol = size * amplification(angles) * phase_error(desc) * np.sqrt(grid.size) * 20 + 1e-300
    close(call(grid, angles, case["style"], pad=False).values, grids.filtered(desc, kernel),
          f"reduction to the pole with {angles}", rtol=0, atol=tol)
    close(call(grid, angles, case["style"]).values,
          grids.filtered(desc, kernel, pad=grids.default_pad(desc)),
          f"padded reduction to the pole with {angles}", rtol=0, atol=tol)
    from harmonica import filters
    fft_grid = filters._fft.fft(grid)
    out = filters.reduction_to_pole_kernel(fft_grid, inc, dec, minc, mdec)
    dims = grid.dims
    kn = 2 * np.pi * fft_grid.coords["freq_" + dims[0]].values[:, None]
    ke = 2 * np.pi * fft_grid.coords["freq_" + dims[1]].values[None, :]
    want = kernel(ke + 0 * kn, kn + 0 * ke)
    got = out.transpose(*fft_grid.dims).values
    close(got.real, want.real, "kernel", rtol=0, atol=1e-12 * amplification(angles) ** 2)
    close(got.imag, want.imag, "kernel", rtol=0, atol=1e-12 * amplification(angles) ** 2)


@PROP.clause("relations", case_st(), quick=220, thorough=10000, jit=False, shards=3)
def relations(case, ctx):
    desc, angles = case["grid"], case["angles"]
    inc, dec, minc, mdec = complete(angles)
    grid = grids.make(desc, without_nyquist(desc, grids.values(desc)))
    size = np.abs(grid.values).max() + 1e-300
    tol = size * amplification(angles) * phase_error(desc) * np.sqrt(grid.size) * 50
    ctx.trivial(abs(inc) == 90)
    base = call(grid, angles, case["style"], pad=False)
    # vertical directions: identity apart from the mean
    for i in (90, -90):
        out = hm.reduction_to_pole(grid, i, dec, i, mdec, pad=False)
        close(out.values, grid.values - grid.values.mean(), f"inclination {i}", rtol=0, atol=tol)
    # reversed directions, swapped roles, whole turns
    for other, sign in (((-inc, dec + 180, minc, mdec), -1), ((minc, mdec, inc, dec), 1),
                        ((inc, dec - 360, minc, mdec + 720), 1),
                        ((-inc, dec + 180, -minc, mdec + 180), 1)):
        out = hm.reduction_to_pole(grid, *other, pad=False)
        close(out.values, sign * base.values, f"{other} against {angles}", rtol=0, atol=tol)
    two = grids.make(desc, rng(desc["seed"] + 1).normal(size=desc["shape"]) * size)
    out = call(2.5 * grid - two, angles, case["style"], pad=False)
    want = 2.5 * base - call(two, angles, case["style"], pad=False)
    close(out.values, want.values, "linearity", rtol=0, atol=tol * 10)
    # the mean vanishes
    close(base.values.mean(), 0.0, "mean", rtol=0, atol=tol)
