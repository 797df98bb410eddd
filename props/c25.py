"""C25: the IGRF field."""

import pathlib
import tempfile

import numpy as np

from harness import igrf_ref as ref
from harness.core import Property, close, fail, hm, require, st
from harness.gens import SEED, fl, pick, rng, shape_of

PROP = Property(
    "C25", "IGRF field equals the spherical-harmonic synthesis of its coefficients",
    rule="a case is a set of coefficients, a degree range, an ellipsoid and points or a grid; "
    "non-trivial when the range has at least one degree and there are at least two points",
    technique="comparison with a synthesis from the definition of the Legendre functions and "
    "Cartesian rotation to the local directions, grid against predict, additivity of degree bands",
    assumptions=["the file of coefficients is a generated one (its download is replaced)"],
)

DATE = "2020-01-01"


def ellipsoid(spec):
    import boule
    if isinstance(spec, str):
        return getattr(boule, spec)
    return boule.Ellipsoid(name="body", semimajor_axis=spec[0], flattening=spec[1],
                           geocentric_grav_const=3.98e14, angular_velocity=7e-5)


def shape(e):
    return float(e.semimajor_axis), float(e.flattening)


@st.composite
def model_st(draw):
    low = draw(pick(1, 1, 1, 2, 3, 5, 8, 13))
    return {"seed": draw(SEED), "low": low,
            "high": draw(st.integers(low, ref.MAX)) if draw(st.booleans()) else ref.MAX,
            "ellipsoid": draw(st.one_of(
                pick("WGS84", "WGS84", "GRS80", "Mars2009", "Mars2009"),
                st.tuples(fl(5e6, 7e6), pick(1e-6, 0.001, 0.05, 0.3)).map(list)))}


def model(case, low=None, high=None):
    e = ellipsoid(case["ellipsoid"])
    g, h = ref.table(case["seed"], 1)
    low, high = case["low"] if low is None else low, case["high"] if high is None else high
    m = hm.IGRF14(DATE, min_degree=low, max_degree=high, ellipsoid=e)
    with tempfile.TemporaryDirectory() as folder:
        path = pathlib.Path(folder) / "igrf.txt"
        ref.write(path, 2020, g, h, case["seed"])
        given(m, path)
    return m, e, g[0], h[0]


def given(m, path):
    """Have the model read its coefficients from a file without downloading it."""
    import pooch
    saved = pooch.retrieve
    pooch.retrieve = lambda *args, **kwargs: str(path)
    try:
        return m.coefficients
    finally:
        pooch.retrieve = saved


def points(case, n):
    r = rng(case["seed"] + 1)
    # close to the poles, but not at them
    lat = np.where(r.random(n) < 0.3, r.choice([-89.5, -45, 0, 30, 60, 89, -89.99, 89.9995], n), r.uniform(-89.8, 89.8, n))
    lon = np.where(r.random(n) < 0.3, r.choice([-180, 0, 90, 180, 270, 360], n), r.uniform(-180, 360, n))
    h = np.where(r.random(n) < 0.3, 0, r.uniform(-5e4, 1e6, n))
    if case.get("integers"):
        lat, lon, h = (np.round(c).astype("int64") for c in (lat, lon, h))
    return lon, lat, h


def compare(actual, case, e, g, h, coordinates, what):
    east, north, up, size = ref.field(*coordinates, *shape(e), g, h, case["low"], case["high"])
    s = 1 / np.maximum(np.cos(np.radians(np.asarray(coordinates[1], float))), 1e-9)
    for name, a, b in zip(("east", "north", "up"), actual, (east, north, up)):
        close(a, b, f"{name} {what}", rtol=0, atol=(1e-11 + 1e-15 * s) * size * s)


@st.composite
def predict_st(draw):
    case = draw(model_st())
    n = draw(pick(1, 2, 3, 6, 12, 1, 2, 3, 6, 12, 1, 2, 3, 6, 12, 1, 2, 3, 6, 12, 700))
    case["shape"] = shape_of(draw, n)
    case["integers"] = draw(pick(False, False, True))
    case["container"] = draw(pick("array", "array", "list", "fortran"))
    return case


@PROP.clause("field at points", predict_st(), quick=500, thorough=15000, examples=[
    {"seed": 1, "low": 1, "high": 13, "ellipsoid": "WGS84", "shape": [1], "integers": False,
     "container": "list"},
    {"seed": 2, "low": 1, "high": 13, "ellipsoid": "WGS84", "shape": [1, 1, 1], "integers": True,
     "container": "array"},
    {"seed": 3, "low": 2, "high": 2, "ellipsoid": "GRS80", "shape": [], "integers": False,
     "container": "array"},
])
def predict(case, ctx):
    m, e, g, h = model(case)
    n = int(np.prod(case["shape"]))
    ctx.trivial(n < 2)
    ctx.event(f"degrees {case['low']}-{case['high']}")
    coordinates = tuple(c.reshape(case["shape"]) for c in points(case, n))
    expected = tuple(np.array(c, float) for c in coordinates)
    if case["container"] == "list":
        coordinates = tuple(c.tolist() for c in coordinates)
    elif case["container"] == "fortran" and case["shape"]:
        coordinates = tuple(np.asfortranarray(c) for c in coordinates)
    out = m.predict(coordinates)
    require(len(out) == 3, "three components")
    for o in out:
        if np.shape(o) != tuple(case["shape"]):
            fail(f"shape {np.shape(o)} of the field instead of {tuple(case['shape'])}")
    compare(out, case, e, g, h, expected, "field")


@PROP.clause("bands of degrees add up", model_st().map(
    lambda c: {**c, "cut": c["seed"] % 12 + 1, "low": 1, "high": 13}), quick=150, thorough=5000)
def bands(case, ctx):
    coordinates = points(case, 5)
    m, e, _, _ = model(case)
    whole = m.predict(coordinates)
    low = model(case, 1, case["cut"])[0].predict(coordinates)
    high = model(case, case["cut"] + 1, 13)[0].predict(coordinates)
    size = max(np.abs(w).max() for w in whole) + 1e5
    for a, b, c in zip(whole, low, high):
        close(b + c, a, "sum of the fields of two bands", rtol=0, atol=1e-9 * size)


@st.composite
def grid_st(draw):
    case = draw(model_st())
    west, south = draw(fl(-180, 300)), draw(fl(-89.5, 70))
    case["region"] = [west, west + draw(fl(0.5, 60)), south, min(south + draw(fl(0.5, 60)), 89.5)]
    case["by"] = draw(pick("shape", "shape", "spacing", "spacings", "region", "default"))
    case["shape"] = [draw(st.integers(2, 6)), draw(st.integers(2, 6))]
    case["height"] = draw(pick("scalar", "integer", "array")) if case["by"] == "shape" else "scalar"
    return case


@PROP.clause("grids", grid_st(), quick=300, thorough=8000)
def grid(case, ctx):
    m, e, g, h = model(case)
    region, (rows, columns) = case["region"], case["shape"]
    west, east, south, north = region
    height = {"scalar": 1234.5, "integer": 5000}.get(case["height"])
    if height is None:
        height = rng(case["seed"] + 2).uniform(0, 1e5, (rows, columns))
    kwargs = {}
    if case["by"] == "shape":
        kwargs = {"shape": (rows, columns)}
    elif case["by"] != "default":
        dy, dx = (north - south) / (rows - 0.8), (east - west) / (columns - 0.8)
        if case["by"] == "spacings":
            kwargs = {"spacing": (dy, dx)}
        else:
            dy = dx = max(dy, dx)
            kwargs = {"spacing": dx}
            if case["by"] == "region":
                kwargs["adjust"] = "region"
    ctx.event(case["by"])
    out = m.grid(tuple(region), height, **kwargs)
    lon, lat = out.longitude.values, out.latitude.values
    for name in ("b_east", "b_north", "b_up"):
        require(out[name].dims == ("latitude", "longitude"), f"dimensions of {name}")
        require(out[name].shape == (lat.size, lon.size), f"shape of {name}")
        require(out[name].attrs.get("units") == "nT", f"units of {name}")
    if case["by"] == "shape":
        close(lon, np.linspace(west, east, columns), "longitudes of the grid", atol=1e-9)
        close(lat, np.linspace(south, north, rows), "latitudes of the grid", atol=1e-9)
        close(out.height.values, np.broadcast_to(height, (rows, columns)), "heights of the grid")
    else:
        if case["by"] == "region":
            # the region is adjusted, the spacing kept
            for v, low, high in ((lon, west, east), (lat, south, north)):
                close(np.diff(v), np.full(v.size - 1, dx), "spacing of the grid", rtol=1e-6)
                require(max(abs(v[0] - low), abs(v[-1] - high)) <= dx * (1 + 1e-9), "adjusted region")
        else:
            close([lon[0], lat[0]], [west, south], "south-west corner", atol=1e-9)
            close([lon[-1], lat[-1]], [east, north], "north-east corner", atol=1e-9)
        close(out.height.values, np.full(out.b_up.shape, height), "heights of the grid")
        if case["by"] == "default":
            # the documented spacing, 180 / (2 degree + 2), adjusted to the region
            ideal = 180 / (2 * case["high"] + 2)
            for v, width in ((lon, east - west), (lat, north - south)):
                count = width / ideal
                require(abs((v.size - 1) - max(count, 1)) <= 0.5 + 1e-6,
                        f"{v.size} points every {ideal} along {width} degrees")
    if np.abs(lat).max() > 89.8:  # adjusted up to a pole
        ctx.trivial(True)
        return
    lon, lat = np.meshgrid(lon, lat)
    compare([out[k].values for k in ("b_east", "b_north", "b_up")], case, e, g, h,
            (lon, lat, out.height.values), "field of the grid")
    if lat.size < 40:
        at = m.predict((lon, lat, out.height.values))
        for k, v in zip(("b_east", "b_north", "b_up"), at):
            close(out[k].values, v, f"grid of {k} against predict", rtol=1e-9,
                  atol=1e-9 * (np.abs(v).max() + 1))


