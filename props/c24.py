"""C24: reading of Oasis Montaj grids."""

import os
import pathlib
import struct
import tempfile
import zlib

import numpy as np

from harness.core import Property, close, fail, hm, require, same, st
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C24", "Oasis Montaj grids are read as written or rejected",
    rule="a case is a binary file written by the check (element type, compression in blocks, "
    "ordering, rotation, scale factors, dummies), intact or altered; non-trivial when it has more "
    "than one row and column",
    technique="round trip through an independent writer of the format, and corruption of valid "
    "files that must be rejected",
    assumptions=["values of the element types that are not dummies, a non-zero data factor"],
)
# element size, sign flag: format character, dummy
TYPES = {(1, 0): ("B", 255), (1, 1): ("b", -127), (2, 0): ("H", 65535), (2, 1): ("h", -32767),
         (4, 0): ("I", 4294967295), (4, 1): ("i", -2147483647), (4, 2): ("f", -1e32),
         (8, 1): ("d", -1e32), (8, 2): ("d", -1e32)}


@st.composite
def file_st(draw):
    size, sign = draw(st.sampled_from(sorted(TYPES)))
    shape = [draw(pick(1, 2, 3, 5)), draw(pick(1, 2, 4, 6))]
    if draw(pick(*[False] * 24, True)):
        shape = draw(pick([40, 61], [61, 300], [1, 2100], [2100, 1]))
    return {"size": size, "sign": sign, "shape": shape,
            "ordering": draw(pick(1, -1)), "compressed": draw(st.booleans()),
            "blocks": draw(pick(1, 2, 3, 7, 40)), "gap": draw(pick(0, 0, 5)), "seed": draw(SEED),
            "dummies": draw(pick(0.0, 0.3, 1.0)),
            "spacing": [draw(pick(1.0, 100.0, 0.25)), draw(pick(2.0, 50.0, 0.3))],
            "origin": [draw(pick(0.0, -11.0, 4e5)), draw(pick(0.0, 12.0, 7.1e6))],
            "rotation": draw(st.one_of(pick(0.0, 0.0, 90.0, 30.0, -45.0), fl(-180, 360))),
            "base": draw(pick(0.0, 1000.0, -2.5)), "factor": draw(pick(1.0, 100.0, 0.5, -2.0))}


def stored(case):
    """Stored elements (x fastest grid[y, x]) with dummies, and the mask of dummies."""
    gen = rng(case["seed"])
    char, dummy = TYPES[case["size"], case["sign"]]
    shape = tuple(case["shape"])
    if char in "fd":
        v = gen.normal(size=shape) * 10.0 ** gen.integers(-3, 6)
        v = v.astype(np.float32 if char == "f" else np.float64)
    else:
        dtype = np.dtype(char)
        info = np.iinfo(dtype)
        v = gen.integers(info.min, info.max, shape, dtype=dtype, endpoint=True)
        special = gen.choice(np.array([info.min, info.max, 0, 1, 127, 128], dtype="int64").clip(
            info.min, info.max), shape).astype(dtype)
        v = np.where(gen.random(shape) < 0.2, special, v)
        v[v == dummy] = 0
    mask = gen.random(shape) < case["dummies"]
    v[mask] = dummy
    return v, mask


def header(case, **changes):
    ny, nx = case["shape"]
    sx, sy = case["spacing"]
    size = case["size"] + (1024 if case["compressed"] else 0)
    # elements of each vector, number of vectors
    ne, nv = (nx, ny) if case["ordering"] == 1 else (ny, nx)
    de, dv = (sx, sy) if case["ordering"] == 1 else (sy, sx)
    h = {"ES": size, "SF": case["sign"], "NE": ne, "NV": nv, "KX": case["ordering"], "DE": de,
         "DV": dv, "X0": case["origin"][0], "Y0": case["origin"][1], "ROT": case["rotation"],
         "ZBASE": case["base"], "ZMULT": case["factor"], **changes}
    out = struct.pack("=5i", *(h[k] for k in ("ES", "SF", "NE", "NV", "KX")))
    out += struct.pack("=5d", *(h[k] for k in ("DE", "DV", "X0", "Y0", "ROT")))
    out += struct.pack("=2d", h["ZBASE"], h["ZMULT"])
    filler = rng(case["seed"] + 7).integers(0, 256, 512, dtype=np.uint8).tobytes()
    out += filler[:140 - len(out)]
    out += struct.pack("=5i", 3, 1, 2, 4, ne * nv)
    out += struct.pack("=4f", -1.5, 2.5, 0.25, 0.5)
    out += struct.pack("=d", 7.125) + struct.pack("=i", 9)
    return out + filler[len(out):512]


def body(case, elements):
    flat = elements.ravel() if case["ordering"] == 1 else elements.T.ravel()
    raw = flat.tobytes()
    if not case["compressed"]:
        return raw
    vector = (case["shape"][1] if case["ordering"] == 1 else case["shape"][0]) * case["size"]
    n_vectors = len(raw) // vector
    per_block = -(-n_vectors // min(case["blocks"], n_vectors))
    parts = [raw[k:k + per_block * vector] for k in range(0, len(raw), per_block * vector)]
    packed = [b"\xab" * 16 + zlib.compress(p) for p in parts]
    start = 512 + 16 + 12 * len(parts)
    offsets = []
    blob = b""
    for p in packed:
        blob += b"\x00" * case["gap"]
        offsets.append(start + len(blob))
        blob += p
    return (struct.pack("=4i", -1640531527, 1, len(parts), per_block)
            + struct.pack(f"={len(parts)}q", *offsets)
            + struct.pack(f"={len(parts)}i", *(len(p) for p in packed)) + blob)


def read(blob, how="name"):
    fd, path = tempfile.mkstemp(suffix=".grd")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(blob)
        return hm.load_oasis_montaj_grid(pathlib.Path(path) if how == "path" else path)
    finally:
        os.remove(path)


@PROP.clause("round trip", st.fixed_dictionaries({"file": file_st(), "how": pick("path", "name")}),
             quick=2000, thorough=80000, jit=False, shards=2)
def round_trip(case, ctx):
    f = case["file"]
    elements, mask = stored(f)
    ny, nx = f["shape"]
    ctx.event(f"type {TYPES[f['size'], f['sign']][0]}" + (" compressed" if f["compressed"] else ""))
    ctx.event(f"ordering {f['ordering']}")
    ctx.event("rotated" if f["rotation"] else "not rotated")
    ctx.trivial(min(ny, nx) == 1)
    grid = read(header(f) + body(f, elements), case["how"])
    want = elements.astype(float) / f["factor"] + f["base"]
    want[mask] = np.nan
    require(grid.shape == (ny, nx), f"shape {grid.shape} instead of {(ny, nx)}")
    close(grid.values, want, "values", rtol=1e-15, atol=1e-15 * abs(f["base"]), equal_nan=True)
    (sx, sy), (x0, y0) = f["spacing"], f["origin"]
    x, y = np.meshgrid(sx * np.arange(nx), sy * np.arange(ny))
    if f["rotation"] == 0:
        require(grid.dims == ("northing", "easting"), f"dims {grid.dims}")
        close(grid.easting.values, x0 + x[0], "easting", rtol=1e-14)
        close(grid.northing.values, y0 + y[:, 0], "northing", rtol=1e-14)
        require(set(grid.coords) == {"easting", "northing"}, f"coords {list(grid.coords)}")
    else:
        require(grid.dims == ("y", "x"), f"dims {grid.dims}")
        r = np.radians(f["rotation"])
        size = abs(x0) + abs(y0) + x.max() + y.max()
        e, n = x0 + x * np.cos(r) - y * np.sin(r), y0 + x * np.sin(r) + y * np.cos(r)
        require(grid.easting.dims == ("y", "x"), f"dims of easting {grid.easting.dims}")
        close(grid.easting.values, e, "rotated easting", rtol=0, atol=1e-14 * size)
        close(grid.northing.values, n, "rotated northing", rtol=0, atol=1e-14 * size)
    a = grid.attrs
    expected = {"rotation": f["rotation"], "x_origin": x0, "y_origin": y0, "base_value": f["base"],
                "data_factor": f["factor"], "ordering": f["ordering"], "sign_flag": f["sign"],
                "n_bytes_per_element": f["size"] + 1024 * f["compressed"], "map_projection": 3,
                "units_x": 1, "units_y": 2, "units_z": 4, "n_valid_points": nx * ny,
                "grid_min": -1.5, "grid_max": 2.5, "grid_median": 0.25, "grid_mean": 0.5,
                "grid_variance": 7.125, "process_flag": 9,
                "shape_e": nx if f["ordering"] == 1 else ny,
                "shape_v": ny if f["ordering"] == 1 else nx,
                "spacing_e": sx if f["ordering"] == 1 else sy,
                "spacing_v": sy if f["ordering"] == 1 else sx}
    for k, v in expected.items():
        require(k in a and a[k] == v, f"header {k} is {a.get(k)!r}, written {v!r}")


DEFECTS = {"element size": [0, 3, 5, 16, -1, 1024, 1027, 1040, 2049, 512],
           "ordering": [0, 2, -2, 100, 3], "colour": [3], "sign flag": [4, -1, 7, 100],
           "float with few bytes": [2], "truncated": [1, 2, 3, 8, 50], "longer": [1, 2, 8],
           "shape": [1, -1, 3], "header only": [512, 511, 300, 188, 187, 60, 20, 19, 1, 0]}


@st.composite
def invalid_st(draw):
    defect = draw(st.sampled_from(sorted(DEFECTS)))
    return {"file": draw(file_st()), "defect": defect, "value": draw(pick(*DEFECTS[defect])),
            "which": draw(pick("NE", "NV"))}


@PROP.clause("corrupted files", invalid_st(), quick=1200, thorough=40000, jit=False,
             rule="the file is invalid")
def corrupted(case, ctx):
    f, defect, value = case["file"], case["defect"], case["value"]
    changes, errors = {}, Exception
    if defect == "element size":
        changes["ES"], errors = value, NotImplementedError
    elif defect == "ordering":
        changes["KX"], errors = value, NotImplementedError
    elif defect == "colour":
        changes["SF"], errors = value, NotImplementedError
    elif defect == "sign flag":
        if f["size"] == 8:
            return ctx.trivial()
        changes["SF"] = value
    elif defect == "float with few bytes":
        f = {**f, "size": 1 + case["file"]["seed"] % 2, "sign": 1}
        changes["SF"] = 2
    elif defect == "shape":
        ny, nx = f["shape"]
        ne, nv = (nx, ny) if f["ordering"] == 1 else (ny, nx)
        changes[case["which"]] = {"NE": ne, "NV": nv}[case["which"]] + value
    elements, _ = stored(f)
    blob = header(f, **changes) + body(f, elements)
    if defect == "truncated":
        blob = blob[:-min(value, len(blob) - 512)]
    elif defect == "longer":
        if f["compressed"]:
            return ctx.trivial()
        blob += b"\x01" * (value * f["size"])
    elif defect == "header only":
        blob = blob[:value]
    ctx.event(defect)
    try:
        grid = read(blob)
    except IndexError as exc:  # a truncated table of blocks: rejected, like any other truncation
        if defect != "truncated":
            fail(f"{defect} ({value}) raised an accidental {type(exc).__name__}: {exc}")
        return None
    except (NameError, TypeError, AttributeError) as exc:
        fail(f"{defect} ({value}) raised an accidental {type(exc).__name__}: {exc}")
    except Exception as exc:  # noqa: BLE001
        require(isinstance(exc, errors), f"{defect} ({value}) raised {type(exc).__name__}: {exc}")
        return None
    fail(f"{defect} ({value}) was read as {grid.values!r}")
