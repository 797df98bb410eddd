"""Regular grids for transformations and their filtering with numpy's FFT."""

from . import env  # noqa: F401

import numpy as np

from .core import st, xr
from .gens import SEED, fl, pick, rng

NAMES = [("northing", "easting"), ("y", "x"), ("lat", "lon"), ("easting", "northing")]


@st.composite
def grid_st(draw, low=2, high=18, odd=False, extra=True):
    """Description of a regular grid of random values."""
    sizes = st.integers(low, high)
    if odd:
        sizes = sizes.map(lambda n: n | 1)
    large = high >= 18 and not odd and draw(pick(*[False] * 24, True))
    return {
        "shape": [draw(pick(64, 41)), draw(pick(50, 35))] if large else [draw(sizes), draw(sizes)],
        "spacing": [draw(pick(1.0, 0.5, 100.0, 3.7)), draw(pick(1.0, 2.0, 250.0, 0.31))],
        "start": [draw(pick(0.0, -7.0, 1000.0, 4e5)), draw(pick(0.0, -3.5, 2000.0))],
        "decreasing": [draw(pick(False, False, True)), draw(pick(False, False, True))],
        "dims": draw(pick(0, 0, 1, 2, 3)),
        "seed": draw(SEED),
        "values": draw(pick("normal", "normal", "integers", "smooth", "offset", "ramp", "zero")),
        "scale": draw(pick(1.0, 1e4, 1e-6)),
        "extra": draw(pick(0, 0, 1, 2, 3, 4)) if extra else 0,
        "integers": draw(pick(False, False, True)),
    }


def axes(desc):
    out = []
    for n, d, start, flip in zip(desc["shape"], desc["spacing"], desc["start"],
                                 desc["decreasing"]):
        c = start * (d if abs(start) < 1e4 else 1) + d * np.arange(n)
        if desc["integers"] and d == int(d):
            c = np.floor(c[0]).astype(int) + int(d) * np.arange(n)
        out.append(c[::-1].copy() if flip else c)
    return out


def values(desc):
    gen = rng(desc["seed"])
    shape, kind = tuple(desc["shape"]), desc["values"]
    if kind == "integers":
        return gen.integers(-100, 100, shape)
    i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    v = {"normal": lambda: gen.normal(size=shape), "zero": lambda: np.zeros(shape),
         "smooth": lambda: np.exp(-((i - shape[0] / 2.2) ** 2 + (j - shape[1] / 1.7) ** 2) / 6),
         "offset": lambda: 50 + gen.normal(size=shape), "ramp": lambda: 2.0 * i - 3.0 * j + 1}[kind]()
    return v * desc["scale"]


def dims_of(desc):
    return NAMES[desc["dims"]]


def make(desc, data=None):
    dims = dims_of(desc)
    n, e = axes(desc)
    v = values(desc) if data is None else data
    grid = xr.DataArray(v, coords={dims[0]: n, dims[1]: e}, dims=dims, name="field",
                        attrs={"units": "mGal"})
    if desc["extra"] & 1:
        grid = grid.assign_coords(height=(dims, np.full(v.shape, 12.5)))
    if desc["extra"] & 4:
        grid = grid.assign_coords(epoch=2020.5)
    if desc["extra"] & 2:
        grid = grid.assign_coords(epoch=2020.5, row=(dims[0], np.arange(v.shape[0]) * 2))
    return grid


def wavenumbers(desc, shape=None):
    """Angular wavenumbers (k_e, k_n) in the order of numpy's FFT, for data in increasing order."""
    shape = shape or desc["shape"]
    kn, ke = (2 * np.pi * np.fft.fftfreq(n, d) for n, d in zip(shape, desc["spacing"]))
    return np.meshgrid(ke, kn)


def increasing(desc, array):
    for k, flip in enumerate(desc["decreasing"]):
        if flip:
            array = np.flip(array, axis=k)
    return array


def filtered(desc, kernel, data=None, pad=None):
    """
    Filter with numpy.

    kernel : function of k_e and k_n. pad: None or (widths of each axis, function of the data).
    """
    data = np.asarray(values(desc) if data is None else data, float)
    shape = data.shape
    widths = [(0, 0), (0, 0)]
    if pad is not None:
        widths, padder = pad
        data = padder(data)
    data = increasing(desc, data)
    with np.errstate(all="ignore"):
        out = np.fft.ifft2(np.fft.fft2(data) * kernel(*wavenumbers(desc, data.shape))).real
    out = increasing(desc, out)
    return out[tuple(slice(w[0], w[0] + n) for w, n in zip(widths, shape))]


def default_pad(desc, mode="edge", widths=None, **kwargs):
    widths = widths or [(int(0.25 * n),) * 2 for n in desc["shape"]]
    return widths, lambda data: np.pad(data, widths, mode=mode, **kwargs)
