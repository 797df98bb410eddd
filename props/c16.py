"""C16: transfer functions of the FFT transformations."""

import numpy as np

from harness import grids
from harness.core import Property, close, hm, st
from harness.gens import fl, pick, rng

PROP = Property(
    "C16", "FFT transformations apply their documented transfer function",
    rule="a case is a regular grid (any shape from 2 by 2, spacing, origin, increasing or "
    "decreasing coordinates, names of dimensions, numeric types) and the parameters of the "
    "filters; non-trivial when the values are not all zero",
    technique="differential testing against numpy's FFT with the documented transfer functions, "
    "and metamorphic relations (linearity, commutation, composition)",
    assumptions=["composition of odd derivatives is only checked for odd sizes: for even sizes "
                 "the highest frequency has no derivative"],
)


@st.composite
def filter_st(draw):
    name = draw(pick("easting", "northing", "upward", "continuation", "lowpass", "highpass"))
    if name in ("easting", "northing", "upward"):
        return [name, draw(pick(1, 1, 2, 3, 4, 0))]
    if name == "continuation":
        # in units of the largest spacing; negative is downward
        return [name, draw(st.one_of(pick(1.0, 0.0, -0.5), fl(-1, 10)))]
    return [name, draw(st.one_of(pick(2.0, 10.0), fl(0.3, 100)))]


def parameter(flt, desc):
    name, p = flt
    if name in ("easting", "northing", "upward"):
        return p
    return p * (max(desc["spacing"]) if p > 0 else min(desc["spacing"]))


def kernel(flt, desc):
    name, p = flt[0], parameter(flt, desc)
    if name == "easting":
        return lambda ke, kn: (1j * ke) ** p
    if name == "northing":
        return lambda ke, kn: (1j * kn) ** p
    if name == "upward":
        return lambda ke, kn: (-1.0) ** p * np.hypot(ke, kn) ** p
    if name == "continuation":
        return lambda ke, kn: np.exp(-np.hypot(ke, kn) * p)
    low = lambda ke, kn: np.exp(-0.5 * (ke ** 2 + kn ** 2) / (2 * np.pi / p) ** 2)
    return low if name == "lowpass" else lambda ke, kn: 1 - low(ke, kn)


def run(flt, desc, grid, **kwargs):
    name, p = flt[0], parameter(flt, desc)
    if name == "easting":
        return hm.derivative_easting(grid, order=p, method="fft", **kwargs)
    if name == "northing":
        return hm.derivative_northing(grid, order=p, method="fft", **kwargs)
    if name == "upward":
        return hm.derivative_upward(grid, order=p, **kwargs)
    if name == "continuation":
        return hm.upward_continuation(grid, p, **kwargs)
    return {"lowpass": hm.gaussian_lowpass, "highpass": hm.gaussian_highpass}[name](
        grid, p, **kwargs)


def gain(flt, desc, shape=None):
    """Largest amplification, for tolerances."""
    return max(1e-300, np.abs(kernel(flt, desc)(*grids.wavenumbers(desc, shape))).max())


def phase_error(desc):
    """Error of the phases of coordinates far from zero."""
    e = [np.abs(c).max() / d for c, d in zip(grids.axes(desc), desc["spacing"])]
    return 1e-13 + 1e-14 * max(e)


@st.composite
def case_st(draw):
    return {"grid": draw(grids.grid_st()), "filter": draw(filter_st()),
            "pad": draw(pick(False, False, True))}


@PROP.clause("transfer functions", case_st(), quick=900, thorough=30000, jit=False, shards=3)
def transfer(case, ctx):
    desc, flt = case["grid"], case["filter"]
    grid = grids.make(desc)
    data = np.asarray(grid.values, float)
    size = np.abs(data).max()
    ctx.event(flt[0])
    ctx.event("decreasing" if any(desc["decreasing"]) else "increasing")
    ctx.event("even" if any(n % 2 == 0 for n in desc["shape"]) else "odd")
    ctx.trivial(size == 0)
    pad = grids.default_pad(desc) if case["pad"] else None
    got = run(flt, desc, grid, pad=case["pad"])
    want = grids.filtered(desc, kernel(flt, desc), pad=pad)
    shape = [n + 2 * int(0.25 * n) for n in desc["shape"]] if case["pad"] else desc["shape"]
    close(got.values, want, f"{flt[0]} with {flt[1]}", rtol=0,
          atol=size * gain(flt, desc, shape) * phase_error(desc) * np.sqrt(data.size) * 10)


@st.composite
def wave_st(draw):
    desc = draw(grids.grid_st(low=5, extra=False))
    desc["integers"] = False
    return {"grid": desc, "filter": draw(filter_st()), "m": draw(st.integers(-3, 3)),
            "n": draw(st.integers(-3, 3)), "phase": draw(fl(0, 6.3))}


@PROP.clause("plane waves", wave_st(), quick=250, thorough=10000, jit=False)
def waves(case, ctx):
    """A periodic plane wave is amplified and shifted by the transfer function."""
    desc, flt = case["grid"], case["filter"]
    (nn, ne), (dn, de) = desc["shape"], desc["spacing"]
    m = int(np.clip(case["m"], -((ne - 1) // 2), (ne - 1) // 2))
    n = int(np.clip(case["n"], -((nn - 1) // 2), (nn - 1) // 2))
    ctx.event(flt[0])
    ctx.trivial(m == 0 and n == 0)
    ke, kn = 2 * np.pi * m / (ne * de), 2 * np.pi * n / (nn * dn)
    north, east = grids.axes(desc)
    kn_, ke_ = kn * north[:, None], ke * east[None, :]
    wave = np.exp(1j * (kn_ + ke_ + case["phase"]))
    got = run(flt, desc, grids.make(desc, wave.real), pad=False)
    value = kernel(flt, desc)(np.array(ke), np.array(kn))
    close(got.values, (wave * value).real, f"{flt[0]} with {flt[1]} of wave ({m}, {n})", rtol=0,
          atol=gain(flt, desc) * phase_error(desc) * 100)


@st.composite
def algebra_st(draw):
    return {"grid": draw(grids.grid_st(odd=True, extra=False)), "first": draw(filter_st()),
            "second": draw(filter_st()), "factors": [draw(pick(2.0, -1.5)), draw(fl(-3, 3))]}


@PROP.clause("algebra", algebra_st(), quick=200, thorough=8000, jit=False, shards=3)
def algebra(case, ctx):
    desc, first, second = case["grid"], case["first"], case["second"]
    desc = {**desc, "values": "normal"}
    one = grids.make(desc)
    size = np.abs(one.values).max()
    two = grids.make(desc, rng(desc["seed"] + 1).normal(size=desc["shape"]) * size)
    a, b = case["factors"]
    g1, g2 = gain(first, desc), gain(second, desc)
    tol = phase_error(desc) * np.sqrt(one.size) * 100 * size
    ctx.event(first[0])
    ctx.trivial(size == 0)

    def f(flt, grid):
        return run(flt, desc, grid, pad=False)

    close(f(first, a * one + b * two).values, (a * f(first, one) + b * f(first, two)).values,
          f"linearity of {first}", rtol=0, atol=tol * g1 * 10)
    close(f(first, f(second, one)).values, f(second, f(first, one)).values,
          f"{first} and {second} commute", rtol=0, atol=tol * g1 * g2)
    if first[0] in ("easting", "northing", "upward"):
        step = [first[0], 1]
        out = one
        for _ in range(first[1]):
            out = f(step, out)
        close(f(first, one).values, out.values, f"{first} is {first[1]} first derivatives",
              rtol=0, atol=tol * gain(step, desc) ** first[1])
    if first[0] == "continuation" and first[1] > 0:
        h = parameter(first, desc)
        twice = hm.upward_continuation(hm.upward_continuation(one, h / 3, pad=False), 2 * h / 3,
                                       pad=False)
        close(f(first, one).values, twice.values, "continuations add their heights", rtol=0,
              atol=tol)
    if first[0] in ("lowpass", "highpass"):
        total = f(["lowpass", first[1]], one) + f(["highpass", first[1]], one)
        close(total.values, one.values, "low-pass plus high-pass", rtol=0, atol=tol)
    # the grid is harmonic: second derivatives add up to zero
    total = f(["easting", 2], one) + f(["northing", 2], one) + f(["upward", 2], one)
    close(total.values, np.zeros(desc["shape"]), "Laplacian", rtol=0,
          atol=tol * gain(["upward", 2], desc) * 3)


@PROP.clause("kernels", case_st(), quick=200, thorough=6000, jit=False)
def kernels(case, ctx):
    """The public kernels evaluated on the frequencies of the transform."""
    desc, flt = case["grid"], case["filter"]
    desc = {**desc, "extra": 0}
    from harmonica import filters
    dims = grids.dims_of(desc)
    fft_grid = filters._fft.fft(grids.make(desc))
    before = fft_grid.copy(deep=True)
    name, p = flt[0], parameter(flt, desc)
    fn = {"easting": filters.derivative_easting_kernel,
          "northing": filters.derivative_northing_kernel,
          "upward": filters.derivative_upward_kernel,
          "continuation": filters.upward_continuation_kernel,
          "lowpass": filters.gaussian_lowpass_kernel,
          "highpass": filters.gaussian_highpass_kernel}[name]
    ctx.event(name)
    out = fn(fft_grid, p)
    kn = 2 * np.pi * fft_grid.coords["freq_" + dims[0]].values[:, None]
    ke = 2 * np.pi * fft_grid.coords["freq_" + dims[1]].values[None, :]
    want = np.asarray(kernel(flt, desc)(ke, kn)) * np.ones(desc["shape"])
    got = (out * (fft_grid * 0 + 1)).transpose(*fft_grid.dims).values
    scale = np.abs(want).max()
    close(got.real, want.real, f"kernel {flt}", rtol=1e-12, atol=1e-14 * scale)
    close(got.imag, want.imag, f"kernel {flt}", rtol=1e-12, atol=1e-14 * scale)
    close(fft_grid.values.real, before.values.real, "transform after the kernel", rtol=0)
