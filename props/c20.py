"""C20: conversions between magnetic vectors and angles, total-field anomaly."""

import math

import numpy as np

from harness.core import Property, close, hm, require, same, st, xr
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C20", "Magnetic vector and angle conversions are exact inverses",
    rule="a case is a set of vectors (special directions, wide range of sizes) or of intensities "
    "and angles, given as scalars, arrays, grids or lists and with several numeric types; "
    "non-trivial when a vector is neither zero nor along an axis",
    technique="round trips in both directions, and reference formulas in exact-scalar arithmetic "
    "(math module, one element at a time)",
)

DTYPES = ["float64", "float64", "float32", "int64", "int32", "int16"]


@st.composite
def component_st(draw):
    return draw(st.one_of(pick(0.0, 1.0, -1.0, 3.0, 300.0, -45000.0, 30000.0), fl(-60000, 60000)))


@st.composite
def vectors_st(draw):
    n = draw(st.integers(1, 6))
    return {"rows": [[draw(component_st()) for _ in range(3)] for _ in range(n)],
            "dtype": draw(st.sampled_from(DTYPES)), "exponent": draw(pick(0, 0, 0, -12, 9)),
            "as": draw(pick("array", "array", "2d", "scalars", "python", "xarray")),
            "degrees": draw(pick(True, False, None))}


def pack(values, how):
    """Values of one component in the chosen container."""
    if how == "2d":
        return values.reshape(1, -1)
    if how == "xarray":
        return xr.DataArray(values, dims=("x",), coords={"x": np.arange(values.size)})
    return values


def numbers(case):
    rows = np.array(case["rows"])
    dtype = np.dtype(case["dtype"])
    if dtype.kind == "i":
        rows = np.round(rows)
        if dtype == np.int16:
            rows = np.clip(rows, -32000, 32000)
    elif dtype == np.float64:
        rows = rows * 10.0 ** case["exponent"]
    return rows.astype(dtype)


def reference(e, n, u):
    h = math.hypot(e, n)
    return math.hypot(h, u), math.atan2(-u, h), math.atan2(e, n)


@PROP.clause("vectors to angles", vectors_st(), quick=1500, thorough=60000, jit=False)
def to_angles(case, ctx):
    rows = numbers(case)
    # numpy works in single precision with narrow numbers
    eps = 3e-6 if rows.dtype.itemsize < 4 or rows.dtype == np.float32 else 1e-13
    ctx.event(case["dtype"])
    ctx.event(case["as"])
    ctx.trivial(not any(np.count_nonzero(r) > 1 for r in rows))
    kwargs = {} if case["degrees"] is None else {"degrees": case["degrees"]}
    unit = math.pi / 180 if case["degrees"] in (None, True) else 1.0
    if case["as"] in ("scalars", "python"):
        # python floats and ints raise overflow errors, numpy scalars don't
        results = []
        for row in rows:
            args = row.tolist() if case["as"] == "python" else list(row)
            results.append(hm.magnetic_vec_to_angles(*args, **kwargs))
        require(all(np.ndim(v) == 0 for r in results for v in r), "scalars become arrays")
        got = np.array(results, float).T
    else:
        before = rows.copy()
        args = [pack(rows[:, k].copy(), case["as"]) for k in range(3)]
        out = hm.magnetic_vec_to_angles(*args, **kwargs)
        for k in range(3):
            require(out[k].shape == args[k].shape, f"shape {out[k].shape}")
            same(np.ravel(args[k]), before[:, k], f"argument {k} after the call")
        got = np.array([np.ravel(o) for o in out], float)
    for k, row in enumerate(rows.astype(float)):
        want = reference(*row)
        close(got[0, k], want[0], f"intensity of {row}", rtol=eps)
        close(got[1:, k] * unit, want[1:], f"angles of {row}", rtol=eps, atol=4 * eps)
    lo, hi = math.pi / 2 / unit * (1 + 1e-6), math.pi / unit * (1 + 1e-6)
    require((np.abs(got[1]) <= lo).all() and (np.abs(got[2]) <= hi).all(), "angles out of range")
    # there and back
    if case["degrees"] is not False:
        back = np.array(hm.magnetic_angles_to_vec(*got))
        size = np.abs(rows.astype(float)).max(axis=1)
        close(back.T, rows.astype(float), "vectors after a round trip", rtol=0,
              atol=4 * eps * size[:, None])


@st.composite
def angles_st(draw):
    n = draw(st.integers(1, 6))
    rows = []
    for _ in range(n):
        rows.append([draw(st.one_of(pick(1.0, 50000.0, 1e-9), fl(0.001, 1e5))),
                     draw(st.one_of(pick(90.0, -90.0, 0.0, 45.0, 89.999), fl(-90, 90))),
                     draw(st.one_of(pick(0.0, 90.0, -90.0, 180.0, 135.0), fl(-180, 180)))])
    return {"rows": rows, "as": draw(pick("array", "2d", "scalars", "xarray", "mixed")),
            "integers": draw(pick(False, False, True)), "turns": draw(pick(0, 0, 1, -2))}


@PROP.clause("angles to vectors", angles_st(), quick=1500, thorough=60000, jit=False)
def to_vectors(case, ctx):
    rows = np.array(case["rows"])
    if case["integers"]:
        rows = np.maximum(np.round(rows), [1, -90, -180]).astype(int)
    turned = rows + np.array([0, 0, 360 * case["turns"]])
    ctx.event(case["as"])
    ctx.trivial(not any(abs(r[1]) not in (0, 90) for r in rows))
    if case["as"] == "scalars":
        got = np.array([hm.magnetic_angles_to_vec(*r) for r in turned]).T
    elif case["as"] == "mixed":
        # scalar intensity with arrays of angles
        got = np.array(hm.magnetic_angles_to_vec(turned[0, 0], turned[:, 1], turned[:, 2]))
        rows = rows.copy()
        rows[:, 0] = rows[0, 0]
    else:
        args = [pack(turned[:, k].copy(), case["as"]) for k in range(3)]
        out = hm.magnetic_angles_to_vec(*args)
        for k in range(3):
            require(out[k].shape == args[k].shape, f"shape {out[k].shape}")
            same(np.ravel(args[k]), turned[:, k], f"argument {k} after the call")
        got = np.array([np.ravel(o) for o in out])
    for k, (f, inc, dec) in enumerate(rows.astype(float)):
        i, d = math.radians(inc), math.radians(dec)
        want = [f * math.cos(i) * math.sin(d), f * math.cos(i) * math.cos(d), -f * math.sin(i)]
        close(got[:, k], want, f"vector of {rows[k]}", rtol=0, atol=1e-14 * f * (1 + abs(case["turns"]) * 4))
    f, inc, dec = (np.asarray(v) for v in hm.magnetic_vec_to_angles(*got))
    close(f, rows[:, 0], "intensity after a round trip", rtol=1e-13)
    close(inc, rows[:, 1], "inclination after a round trip", rtol=0, atol=1e-11)
    flat = np.abs(np.cos(np.radians(rows[:, 1].astype(float)))) + 1e-300
    turn = (dec - rows[:, 2] + 180) % 360 - 180
    close(turn * flat, np.zeros(len(rows)), "declination after a round trip", rtol=0,
          atol=1e-11)


@st.composite
def anomaly_st(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "seed": draw(SEED), "as": draw(pick("array", "2d", "list", "scalars", "ints")),
            "angles": draw(pick("scalar", "array", "mixed")),
            "inc": draw(st.one_of(pick(90.0, 0.0, -90.0), fl(-90, 90))),
            "dec": draw(st.one_of(pick(0.0, 90.0, 180.0), fl(-360, 360)))}


@PROP.clause("total-field anomaly", anomaly_st(), quick=800, thorough=30000, jit=False)
def anomaly(case, ctx):
    gen = rng(case["seed"])
    n = 1 if case["as"] == "scalars" else case["n"]
    b = gen.normal(size=(3, n)) * 1000
    inc, dec = np.full(n, case["inc"]), np.full(n, case["dec"])
    if case["as"] == "ints":
        b = np.round(b).astype(int)
    ctx.event(case["angles"])
    a_inc, a_dec = case["inc"], case["dec"]
    if case["angles"] != "scalar" and case["as"] != "scalars":
        a_inc = inc = gen.uniform(-90, 90, n)
        if case["angles"] == "array":
            a_dec = dec = gen.uniform(-180, 180, n)
        if case["as"] == "2d":
            a_inc = a_inc.reshape(1, -1)
            a_dec = a_dec.reshape(1, -1) if np.ndim(a_dec) else a_dec
    field = {"array": tuple(b), "ints": b, "2d": tuple(c.reshape(1, -1) for c in b),
             "list": [list(c) for c in b], "scalars": [float(c[0]) for c in b]}[case["as"]]
    out = hm.total_field_anomaly(field, a_inc, a_dec)
    require(np.shape(out) == {"2d": (1, n), "scalars": ()}.get(case["as"], (n,)),
            f"shape {np.shape(out)}")
    i, d = np.radians(inc), np.radians(dec)
    want = [b[0, k] * math.cos(i[k]) * math.sin(d[k]) + b[1, k] * math.cos(i[k]) * math.cos(d[k])
            - b[2, k] * math.sin(i[k]) for k in range(n)]
    close(np.ravel(out), want, "total-field anomaly", rtol=0, atol=1e-12 * np.abs(b).max() + 1e-300)
    # approximates the change of intensity of the field; exact for parallel fields
    f = np.array(hm.magnetic_angles_to_vec(50.0, inc, dec))
    close(hm.total_field_anomaly(tuple(f), inc, dec), np.full(n, 50.0), "parallel field", rtol=1e-13)
