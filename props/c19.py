"""C19: finite differences, total gradient amplitude and tilt angle."""

import numpy as np

from harness import grids
from harness.core import Property, close, hm, require, st
from harness.gens import fl, pick
from props.c16 import phase_error

PROP = Property(
    "C19", "Derivative-based quantities satisfy their definitions",
    rule="a case is a regular grid (as in C16) and a combination of derivatives or quantities; "
    "non-trivial when the values are not constant",
    technique="reference model (centred differences written out, numpy's FFT for the upward "
    "derivative) and metamorphic relations (linear trends, scaling, sign, shifts)",
)


def differences(desc, data, axis):
    """Centred differences, one-sided at the borders."""
    d = desc["spacing"][axis] * (-1 if desc["decreasing"][axis] else 1)
    f = np.moveaxis(np.asarray(data, float), axis, 0)
    out = np.empty_like(f)
    out[1:-1] = (f[2:] - f[:-2]) / (2 * d)
    out[0], out[-1] = (f[1] - f[0]) / d, (f[-1] - f[-2]) / d
    return np.moveaxis(out, 0, axis)


def rounding(desc, axis):
    """Relative error of spacings computed from coordinates far from zero."""
    c = np.abs(grids.axes(desc)[axis]).max()
    return 1e-13 + 1e-15 * c / desc["spacing"][axis]


@st.composite
def finite_st(draw):
    return {"grid": draw(grids.grid_st()), "order": draw(pick(1, 1, 2, 3, 0)),
            "name": draw(st.booleans()), "slope": [draw(fl(-5, 5)), draw(fl(-5, 5))]}


@PROP.clause("finite differences", finite_st(), quick=500, thorough=20000, jit=False, shards=2)
def finite(case, ctx):
    desc, order = case["grid"], case["order"]
    grid = grids.make(desc)
    if desc["extra"] & 2:
        grid = grid.drop_vars("row")
    ctx.trivial(np.ptp(grid.values) == 0)
    kwargs = {"method": "finite-diff"} if case["name"] else {}
    for axis, fn in ((1, hm.derivative_easting), (0, hm.derivative_northing)):
        want = np.asarray(grid.values, float)
        for _ in range(order):
            want = differences(desc, want, axis)
        got = fn(grid, order=order, **kwargs)
        size = np.abs(grid.values).max() * (2 / desc["spacing"][axis]) ** order
        close(got.values, want, f"order {order} along axis {axis}", rtol=0,
              atol=size * rounding(desc, axis) * 10)
        # linear trend
        north, east = grids.axes(desc)
        a, b = case["slope"]
        trend = a * (east - east[0])[None, :] + b * (north - north[0])[:, None] + 3.0
        got = fn(grids.make({**desc, "extra": 0}, trend), order=1, **kwargs)
        close(got.values, np.full(trend.shape, a if axis == 1 else b), f"trend along {axis}",
              rtol=0, atol=(np.abs(trend).max() * 2 / desc["spacing"][axis]) * rounding(desc, axis))
        # parabola: exact inside
        c = (east[None, :] - east[0] + 0 * north[:, None] if axis == 1
             else north[:, None] - north[0] + 0 * east[None, :])
        got = np.moveaxis(fn(grids.make({**desc, "extra": 0}, c ** 2)).values, axis, 0)
        want = np.moveaxis(2 * c, axis, 0)
        close(got[1:-1], want[1:-1], f"parabola along {axis}", rtol=0,
              atol=np.abs(c).max() ** 2 * 4 / desc["spacing"][axis] * rounding(desc, axis))


@st.composite
def quantity_st(draw):
    desc = draw(grids.grid_st())
    desc["extra"] &= 1
    return {"grid": desc, "pad": draw(pick("default", "off", "width")),
            "factor": draw(pick(2.0, 0.1, 1e6, 37.0))}


@PROP.clause("amplitude and tilt", quantity_st(), quick=450, thorough=16000, jit=False, shards=3)
def quantities(case, ctx):
    desc = case["grid"]
    grid = grids.make(desc)
    data = np.asarray(grid.values, float)
    size = np.abs(data).max()
    ctx.trivial(np.ptp(data) == 0)
    ctx.event(case["pad"])
    kwargs, pad = {}, grids.default_pad(desc)
    if case["pad"] == "off":
        kwargs, pad = {"pad": False}, None
    elif case["pad"] == "width":
        kwargs = {"pad_kwargs": {"pad_width": dict(zip(grid.dims, (3, 2)))}}
        pad = grids.default_pad(desc, widths=[(3, 3), (2, 2)])
    east, north = differences(desc, data, 1), differences(desc, data, 0)
    up = grids.filtered(desc, lambda ke, kn: -np.hypot(ke, kn), pad=pad)
    level = size * 8 / min(desc["spacing"])
    tol = level * (phase_error(desc) * np.sqrt(grid.size) * 10 + rounding(desc, 0)
                   + rounding(desc, 1))
    amplitude = hm.total_gradient_amplitude(grid, **kwargs)
    norm = np.sqrt(east ** 2 + north ** 2 + up ** 2)
    close(amplitude.values, norm, "total gradient amplitude", rtol=1e-12, atol=3 * tol)
    tilt = hm.tilt_angle(grid, **kwargs).values
    require(np.isfinite(tilt).all() and (np.abs(tilt) <= np.pi / 2).all(),
            f"tilt out of range: {tilt}")
    horizontal = np.hypot(east, north)
    # error of the angle: errors of its sides over the norm
    with np.errstate(all="ignore"):
        atol = np.where(norm > 1e4 * tol, 3 * tol / norm, 4.0) + 1e-12
    close(tilt, np.arctan2(up, horizontal), "tilt angle", rtol=0, atol=atol)
    # scaling and sign
    f = case["factor"]
    close(hm.tilt_angle(f * grid, **kwargs).values, tilt, "tilt of a scaled grid", rtol=0,
          atol=atol)
    close(hm.tilt_angle(-f * grid, **kwargs).values, -tilt, "tilt of the opposite grid", rtol=0,
          atol=atol)
    close(hm.total_gradient_amplitude(-f * grid, **kwargs).values, f * amplitude.values,
          "amplitude of a scaled grid", rtol=1e-12, atol=3 * tol * f)
