"""C23: reading of ICGEM grids."""

import io
import os
import pathlib
import tempfile

import numpy as np

from harness.core import Property, close, fail, hm, require, same, st
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C23", "ICGEM grids are read as written or rejected",
    rule="a case is a file written by the check (shape, area, step, columns and their order, "
    "separators, height, extra header lines) with or without one inconsistency, read from a path "
    "or an open file with or without options; non-trivial when the grid has more than one row and "
    "column or the file is inconsistent",
    technique="round trip through an independent writer; mutation of valid files with one planted "
    "inconsistency that must be rejected",
    assumptions=["rows sorted from north to south and west to east, as the service writes them"],
)
REQUIRED = ["latlimit_north", "latlimit_south", "longlimit_west", "longlimit_east",
            "latitude_parallels", "longitude_parallels", "number_of_gridpoints"]


@st.composite
def file_st(draw):
    nlat, nlon = draw(pick(1, 2, 3, 5)), draw(pick(1, 2, 4, 7))
    if draw(pick(*[False] * 24, True)):
        nlat, nlon = draw(pick((23, 130), (61, 17), (1, 1100), (1100, 1)))
    step = draw(pick(1.0, 0.5, 2.0, 0.1, 0.25))
    columns = draw(st.lists(pick("gravity_disturbance", "h_over_geoid", "sample_data", "geoid"),
                            unique=True, max_size=3))
    columns = draw(st.permutations(["longitude", "latitude", *columns]))
    return {"shape": [nlat, nlon], "step": step,
            "west": draw(pick(150.0, 0.0, -180.0, 359.0, -3.5, 12.125)),
            "south": draw(pick(16.0, -90.0, 0.0, -12.5, 60.25)), "columns": list(columns),
            "seed": draw(SEED), "kind": draw(pick("normal", "large", "integers")),
            "height": draw(pick(None, None, 0.0, 50000.0, -12.5)),
            "extra": draw(st.integers(0, 5)), "shuffle": draw(st.booleans()),
            "separator": draw(pick(" ", "   ", "\t", " \t ")), "gap": draw(pick(0, 1, 2)),
            "indent": draw(st.booleans()), "newline": draw(pick("\n", "\n", "\r\n"))}


EXTRA = [("generating_institute", "gfz-potsdam"), ("modelname", "EIGEN-6C4"),
         ("functional", "sample_data  (centrifugal term included)"),
         ("gmrefpot", "3.98600441800E+14 m**3/s**2"), ("gapvalue", "9999999.0000"),
         ("grid_format", "long_lat_value")]
UNITS = {"longitude": "[deg.]", "latitude": "[deg.]", "h_over_geoid": "[meters]",
         "sample_data": "[mgal]", "gravity_disturbance": "[mgal]", "geoid": "[meter]"}


def contents(case):
    """Axes (latitude from north to south) and values of each column."""
    nlat, nlon = case["shape"]
    lat = case["south"] + case["step"] * np.arange(nlat)[::-1]
    lon = case["west"] + case["step"] * np.arange(nlon)
    gen = rng(case["seed"])
    data = {}
    for name in case["columns"]:
        v = gen.normal(size=(nlat, nlon))
        v = {"normal": v, "large": v * 1e7, "integers": np.round(v * 1000)}[case["kind"]]
        data[name] = v
    data["longitude"], data["latitude"] = np.meshgrid(lon, lat)
    return lat, lon, data


def header(case):
    nlat, nlon = case["shape"]
    north = case["south"] + case["step"] * (nlat - 1)
    east = case["west"] + case["step"] * (nlon - 1)
    lines = [("latlimit_north", f"{north:.12f}"), ("latlimit_south", f"{case['south']:.12f}"),
             ("longlimit_west", f"{case['west']:.11f} degrees"),
             ("longlimit_east", f"{east:.11f}"), ("latitude_parallels", f"{nlat}"),
             ("longitude_parallels", f"{nlon}"), ("number_of_gridpoints", f"{nlat * nlon}")]
    lines += EXTRA[:case["extra"] + 1]
    if case["height"] is not None:
        lines.append(("height_over_ell", f"{case['height']:.4f} m"))
    if case["shuffle"]:
        lines = [lines[k] for k in rng(case["seed"] + 1).permutation(len(lines))]
    return lines


def write(case, lines, columns, units, data, blank=True):
    """Text of a file."""
    pad = "   " if case["indent"] else ""
    out = [f"{pad}{k:<22}{v}" for k, v in lines]
    out += [""] * (1 + case["gap"] if blank else 0)
    if columns is not None:
        out.append("     " + "   ".join(columns))
    if units is not None:
        out.append("     " + "   ".join(units))
    out.append("end_of_head ==================================")
    for row in zip(*(np.ravel(v) for v in data)):
        out.append(pad + case["separator"].join(repr(float(v)) for v in row))
    return case["newline"].join(out) + case["newline"]


def read(text, how, **kwargs):
    if how == "stringio":
        return hm.load_icgem_gdf(io.StringIO(text, newline=None), **kwargs)
    fd, path = tempfile.mkstemp(suffix=".gdf")
    try:
        with os.fdopen(fd, "w", newline="") as f:
            f.write(text)
        if how == "open":
            with open(path) as f:
                out = hm.load_icgem_gdf(f, **kwargs)
                require(not f.closed, "closed a file opened by the caller")
                return out
        return hm.load_icgem_gdf(pathlib.Path(path) if how == "path" else path, **kwargs)
    finally:
        os.remove(path)


@st.composite
def valid_st(draw):
    f = draw(file_st())
    chosen = None
    if draw(pick(False, False, True)):
        others = [c for c in f["columns"] if c not in ("longitude", "latitude")]
        keep = [c for c in others if draw(st.booleans())]
        chosen = [f["columns"].index(c) for c in draw(
            st.permutations(["longitude", "latitude", *keep]))]
    return {"file": f, "how": draw(pick("path", "name", "open", "stringio")), "usecols": chosen,
            "negative": draw(pick(False, False, True)),
            "dtype": draw(pick(None, None, "float64", "float32"))}


@PROP.clause("round trip", valid_st(), quick=1200, thorough=40000, jit=False, shards=2)
def round_trip(case, ctx):
    f = case["file"]
    lat, lon, data = contents(f)
    lines, columns = header(f), f["columns"]
    units = [UNITS[c] for c in columns]
    text = write(f, lines, columns, units, [data[c] for c in columns])
    kwargs = {}
    if case["usecols"] is not None:
        kwargs["usecols"] = [k - len(columns) if case["negative"] else k for k in case["usecols"]]
        columns = [columns[k] for k in case["usecols"]]
        units = [UNITS[c] for c in columns]
        ctx.event("usecols")
    if case["dtype"]:
        kwargs["dtype"] = np.dtype(case["dtype"])
    ctx.event(case["how"])
    ctx.trivial(min(f["shape"]) == 1)
    before = {k: list(v) if isinstance(v, list) else v for k, v in kwargs.items()}
    grid = read(text, case["how"], **kwargs)
    require(kwargs == before, "arguments changed")
    # increasing latitude
    dtype = np.dtype(case["dtype"] or "float64")
    same(grid.latitude.values, lat[::-1].astype(dtype), "latitude")
    same(grid.longitude.values, lon.astype(dtype), "longitude")
    names = [c for c in columns if c not in ("longitude", "latitude")]
    expected = set(names) | ({"height_over_ell"} if f["height"] is not None else set())
    require(set(grid.data_vars) == expected, f"variables {list(grid.data_vars)}")
    for c in names:
        require(grid[c].dims == ("latitude", "longitude"), f"dims {grid[c].dims}")
        same(grid[c].values, data[c][::-1].astype(dtype), f"column {c}")
        # each value on its own coordinates
        i, j = f["shape"][0] // 2, f["shape"][1] // 2
        value = grid[c].sel(latitude=lat.astype(dtype)[i], longitude=lon.astype(dtype)[j])
        same(value.values, np.asarray(data[c][i, j], dtype), f"column {c} at its coordinates")
    if f["height"] is not None:
        same(grid["height_over_ell"].values, np.full(f["shape"], f["height"]), "height")
        require(grid["height_over_ell"].dims == ("latitude", "longitude"), "dims of height")
    require(grid.attrs["attributes"].split() == columns,
            f"attributes {grid.attrs['attributes']} of columns {columns}")
    require(grid.attrs["attributes_units"].split() == [u.strip("[]") for u in units],
            f"units '{grid.attrs['attributes_units']}' of columns {columns}")
    for k, v in lines:
        require(k in grid.attrs and grid.attrs[k].split()[0] == v.split()[0],
                f"header field {k} is {grid.attrs.get(k)!r}, written {v!r}")
        if k not in REQUIRED:
            require(grid.attrs[k].split() == v.split(), f"header field {k} is {grid.attrs[k]!r}")


DEFECTS = ["missing field", "number", "parallels", "swapped parallels", "missing row", "extra row",
           "missing column", "extra column", "area", "units", "no latitude", "no longitude",
           "no blank line", "no units", "no names", "empty", "short row", "names"]


@st.composite
def invalid_st(draw):
    return {"file": draw(file_st()), "defect": draw(st.sampled_from(DEFECTS)),
            "where": draw(fl(0, 1)), "how": draw(pick("name", "stringio")),
            "change": draw(pick(1, -1, 2))}


@PROP.clause("inconsistent files", invalid_st(), quick=1000, thorough=40000, jit=False,
             shards=2, rule="the file is inconsistent")
def inconsistent(case, ctx):
    f, defect, w = case["file"], case["defect"], case["where"]
    nlat, nlon = f["shape"]
    _, _, data = contents(f)
    lines, columns = dict(header(f)), list(f["columns"])
    units = [UNITS[c] for c in columns]
    rows = [data[c].ravel() for c in columns]
    n = rows[0].size
    k = min(int(w * n), n - 1)
    blank, text = True, None
    if defect == "missing field":
        del lines[REQUIRED[int(w * 6.99)]]
    elif defect == "number":
        lines["number_of_gridpoints"] = str(n + case["change"])
    elif defect == "parallels":
        name = ("latitude", "longitude")[w < 0.5] + "_parallels"
        lines[name] = str(int(lines[name]) + abs(case["change"]))
        lines["number_of_gridpoints"] = str(int(lines["latitude_parallels"])
                                            * int(lines["longitude_parallels"]))
    elif defect == "swapped parallels":
        if nlat == nlon:
            return ctx.trivial()
        lines["latitude_parallels"], lines["longitude_parallels"] = str(nlon), str(nlat)
    elif defect == "missing row":
        if n == 1:
            return ctx.trivial()
        rows = [np.delete(r, k) for r in rows]
    elif defect == "extra row":
        rows = [np.insert(r, k, r[k]) for r in rows]
    elif defect == "missing column":
        rows = rows[:-1]
    elif defect == "extra column":
        rows = [*rows, rows[0]]
    elif defect == "area":
        name = REQUIRED[int(w * 3.99)]
        value = float(lines[name].split()[0])
        lines[name] = f"{value + case['change'] * max(f['step'], 0.1):.10f}"
    elif defect == "units":
        units = units[:-1] if w < 0.5 else [*units, "[mgal]"]
    elif defect in ("no latitude", "no longitude"):
        columns[columns.index(defect[3:])] = "colatitude"
    elif defect == "no blank line":
        blank = False
    elif defect == "no units":
        units = None
    elif defect == "no names":
        columns = None
    elif defect == "names":
        columns = columns[:-1] if w < 0.5 else [*columns, "other"]
    elif defect == "empty":
        text = "" if w < 0.5 else "\n\n"
    if defect == "short row" and n == 1:
        return ctx.trivial()
    ctx.event(defect)
    if text is None:
        text = write(f, list(lines.items()), columns, units, rows, blank)
    if defect == "short row":
        parts = text.split(f["newline"])
        head = next(i for i, line in enumerate(parts) if line.startswith("end_of_head"))
        parts[head + 1 + k] = f["separator"].join(parts[head + 1 + k].split()[:-1])
        text = f["newline"].join(parts)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            grid = read(text, case["how"])
    except (NameError, TypeError, AttributeError) as exc:
        fail(f"file with defect '{defect}' raised an accidental {type(exc).__name__}: {exc}")
    except Exception:  # noqa: BLE001
        return None
    fail(f"file with defect '{defect}' was read: {grid}")
