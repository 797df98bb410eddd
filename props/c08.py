"""C08: invalid models are rejected wherever they are, valid ones are accepted."""

from fractions import Fraction

import numpy as np

from harness import models
from harness.core import Property, fail, hm, raises, require, st
from harness.gens import fl, pick

PROP = Property(
    "C08", "Forward models reject exactly the invalid models",
    rule="a case is a model of several bodies with at most a few defects planted at random "
    "positions (swapped or out-of-range boundaries, a point inside a tesseroid, a size mismatch, "
    "an unknown name); non-trivial when the model is invalid, or valid at the limit of validity",
    technique="an independent predicate of validity (exact arithmetic) against acceptance or "
    "rejection by every forward model, over generated models",
    assumptions=["points on the polar axis and at the center of the Earth are not generated"],
)
R = 6371e3
OBS = (np.array([0.5, -3.0]), np.array([4.0, 8.0]), np.array([50.0, 60.0]))
OBS_SPH = (np.array([10.0, -80.0]), np.array([4.0, -18.0]), np.array([9e6, 2e7]))
TENSOR = ["g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz"]


def verdict(valid, run, what, error=ValueError):
    """Accepts when valid, raises error when not."""
    if not valid:
        raises(error, run, what)
        return
    try:
        out = run()
    except Exception as exc:  # noqa: BLE001
        fail(f"{what}: valid, but raised {type(exc).__name__}: {exc}")
    require(np.isfinite(np.stack(out) if isinstance(out, tuple) else out).all(),
            f"{what}: valid, but gives non-finite values")


# ---------------------------------------------------------------- prisms
@st.composite
def prisms_st(draw):
    n = draw(st.integers(1, 5))
    rows = []
    for _ in range(n):
        row = []
        for _ in range(3):
            lo = draw(st.integers(-20, 20)) / 4
            row += [lo, lo + draw(pick(1.0, 0.25, 0.0, 3.0))]
        rows.append(row)
    for _ in range(draw(pick(0, 1, 2))):
        i, a = draw(st.integers(0, n - 1)), draw(st.integers(0, 2))
        rows[i][2 * a + 1] = rows[i][2 * a] - draw(pick(1.0, 0.25, 1e-9))
    return {"rows": rows, "kind": draw(pick("prism", "prism_mag")),
            "field": draw(st.integers(0, 20)), "null": draw(st.booleans()),
            "parallel": draw(st.booleans())}


@PROP.clause("prism boundaries", prisms_st(), quick=400, thorough=12000, jit=False)
def prism_boundaries(case, ctx):
    rows = np.array(case["rows"])
    valid = all(r[0] <= r[1] and r[2] <= r[3] and r[4] <= r[5] for r in case["rows"])
    ctx.event(f"valid={valid}")
    ctx.trivial(valid and (rows[:, 1::2] > rows[:, ::2]).all())
    n = len(rows)
    value = 0.0 if case["null"] else 1.0
    kind = case["kind"]
    fields = models.FIELDS[kind]
    field = fields[case["field"] % len(fields)]
    if kind == "prism":
        def run():
            return hm.prism_gravity(OBS, rows, np.full(n, value), field,
                                    parallel=case["parallel"])
    else:
        def run():
            return hm.prism_magnetic(OBS, rows, (np.full(n, value),) * 3, field,
                                     parallel=case["parallel"])
    verdict(valid, run, f"{kind} {field} of {case['rows']}")


# ------------------------------------------------------------- tesseroids
LONS = [-180.0, 360.0, 0.0, 180.0, 359.5, -179.5, 10.0, 350.0, 190.0, -10.0]


@st.composite
def tesseroid_st(draw, bad=True):
    """Boundaries that are valid, at a limit, or (when bad) beyond one."""
    half = st.integers(-360, 720).map(lambda v: v / 2)
    w = draw(st.one_of(st.sampled_from(LONS), half))
    e = draw(st.one_of(st.sampled_from(LONS), half, st.integers(1, 40).map(lambda v: w + v / 2)))
    s = draw(st.one_of(pick(-90.0, 0.0), st.integers(-180, 180).map(lambda v: v / 2)))
    n = draw(st.one_of(pick(90.0), st.integers(0, 40).map(lambda v: s + v / 2)))
    bottom = draw(pick(0.0, 3e6, 6e6))
    top = bottom + draw(pick(1e6, 0.0, 1e3))
    if n > 90:
        n = 90.0
    if not bad:
        return [w, e, s, n, bottom, top]
    for _ in range(draw(pick(0, 0, 1))):
        what = draw(st.integers(0, 7))
        tiny = draw(pick(1e-9, 1.0, 40.0))
        if what == 0:
            s = -90 - tiny
        elif what == 1:
            n = 90 + tiny
        elif what == 2:
            s, n = n, n - tiny
        elif what == 3:
            bottom = -tiny
        elif what == 4:
            bottom, top = top, top - tiny
        elif what == 5:
            w = -180 - tiny
        elif what == 6:
            e = 360 + tiny
        else:
            s, n = 90.0, 90 + tiny
    return [w, e, s, n, bottom, top]


def tesseroid_ok(t):
    """Valid tesseroid: in exact arithmetic (the values are exact in binary, or far enough)."""
    w, e, s, n, bottom, top = (Fraction(v) for v in t)
    if not (-90 <= s <= n <= 90 and 0 <= bottom <= top):
        return False
    if not (-180 <= w <= 360 and -180 <= e <= 360):
        return False
    if w > e:  # crosses the zero meridian, when moved to [-180, 180)
        w, e = (w + 180) % 360 - 180, (e + 180) % 360 - 180
        return w <= e
    return e - w <= 360


@st.composite
def tesseroids_st(draw):
    # the boundaries are decided by the tesseroids generated with bad=True
    rows = [draw(tesseroid_st(bad=False)) for _ in range(draw(st.integers(0, 3)))]
    rows = [r for r in rows if tesseroid_ok(r)]
    rows.insert(draw(st.integers(0, len(rows))), draw(tesseroid_st()))
    return {"rows": rows, "field": draw(pick("g_z", "potential")),
            "function": draw(pick(False, False, True)), "null": draw(st.booleans())}


@PROP.clause("tesseroid boundaries", tesseroids_st(), quick=1500, thorough=40000, shards=4)
def tesseroid_boundaries(case, ctx):
    rows = np.array(case["rows"])
    valid = all(tesseroid_ok(r) for r in case["rows"])
    ctx.event(f"valid={valid}")
    density = np.full(len(rows), 0.0 if case["null"] else 1.0)
    if case["function"]:
        from numba import njit  # noqa: PLC0415

        density = tesseroid_boundaries.__dict__.setdefault("fun", njit(lambda r: 1.0 + 0.0 * r))
    before = rows.copy()

    def run():
        return hm.tesseroid_gravity(OBS_SPH, rows, density,
                                    "g_z" if case["function"] else case["field"],
                                    parallel=False)

    verdict(valid, run, f"tesseroids {case['rows']}")
    require(np.array_equal(rows, before), "the tesseroids were modified")


@st.composite
def inside_st(draw):
    t = draw(tesseroid_st(bad=False))
    if t[4] == t[5]:
        t[5] += 1e6
    if t[2] == t[3]:
        t[2], t[3] = -10.0, 40.0
    others = [[0.0, 10.0, 0.0, 10.0, 1e3, 2e3]] * draw(st.integers(0, 2))
    at = draw(st.integers(0, len(others)))
    where = []
    for _ in range(draw(st.integers(1, 3))):
        where.append([draw(st.integers(-2, 18)) / 16, draw(st.integers(-1, 9)) / 8,
                      draw(st.integers(-1, 9)) / 8, draw(st.integers(-2, 2))])
    return {"tess": t, "others": others, "at": at, "where": where,
            "function": draw(pick(False, False, True))}


@PROP.clause("points inside tesseroids", inside_st(), quick=1500, thorough=40000, shards=4)
def points_inside(case, ctx):
    t = case["tess"]
    if not tesseroid_ok(t):
        ctx.trivial()
        return
    w, e = Fraction(t[0]), Fraction(t[1])
    if w > e:
        w, e = (w + 180) % 360 - 180, (e + 180) % 360 - 180
    if e == w:
        ctx.trivial()
        return
    inside, obs = False, []
    for fx, fy, fr, turns in case["where"]:
        lon = w + (e - w) * Fraction(fx) + 360 * turns
        lat = Fraction(t[2]) + (Fraction(t[3]) - Fraction(t[2])) * Fraction(fy)
        rad = Fraction(t[4]) + (Fraction(t[5]) - Fraction(t[4])) * Fraction(fr)
        if not -90 < lat < 90 or rad < 1e5:
            continue
        require(Fraction(float(lon)) == lon, "harness: longitude not exact")
        rel = (lon - w) % 360
        on_lon = e - w == 360 or 0 < rel < e - w
        strictly = on_lon and 0 < fy < 1 and 0 < fr < 1
        inside = inside or strictly
        obs.append([float(lon), float(lat), float(rad)])
    if not obs:
        ctx.trivial()
        return
    ctx.event(f"inside={inside}")
    ctx.event("full turn" if e - w == 360 else "partial")
    rows = list(case["others"])
    rows.insert(case["at"], t)
    density = np.ones(len(rows))
    if case["function"]:
        from numba import njit  # noqa: PLC0415

        density = points_inside.__dict__.setdefault("fun", njit(lambda r: 1.0 + 0.0 * r))
    coords = tuple(np.array(obs).T)

    def run():
        return hm.tesseroid_gravity(coords, rows, density, "g_z", parallel=False)

    if inside:
        raises(ValueError, run, f"points {obs} inside tesseroid {t}")
        return
    try:
        run()
    except ValueError as exc:
        fail(f"points {obs} outside tesseroid {t} were rejected: {exc}")
    except (SystemError, OverflowError, ZeroDivisionError):
        pass  # on the tesseroid: its discretization may give up


# ------------------------------------------------------ sizes and names
@st.composite
def sizes_st(draw):
    kind = draw(pick("prism", "prism_mag", "dipole", "point", "point_sph", "tesseroid"))
    k = models.NPROPS.get(kind, 1)
    n = draw(st.integers(1, 4))
    sizes = [n] * k
    for _ in range(draw(pick(0, 1, 1, 2))):
        sizes[draw(st.integers(0, k - 1))] = draw(st.integers(0, 6))
    if k == 3:
        sizes = sizes[:draw(pick(3, 3, 3, 3, 2))] + [n] * draw(pick(0, 0, 0, 0, 1))
    return {"kind": kind, "n": n, "sizes": sizes, "field": draw(st.integers(0, 20)),
            "zero": draw(st.booleans()), "parallel": draw(st.booleans())}


def call(kind, field, n, props, parallel=False, **kwargs):
    if kind in ("point", "point_sph"):
        sph = kind == "point_sph"
        kwargs = {"coordinate_system": "spherical" if sph else "cartesian"} | kwargs
        base = (np.arange(n) * 1.0, np.arange(n) * 2.0, np.full(n, 6e6 if sph else -3.0))
        return hm.point_gravity(OBS_SPH if sph else OBS, base, props[0], field,
                                parallel=parallel, **kwargs)
    if kind == "dipole":
        base = (np.arange(n) * 1.0, np.arange(n) * 2.0, np.full(n, -3.0))
        return hm.dipole_magnetic(OBS, base, tuple(props), field, parallel=parallel)
    rows = np.array([[i, i + 1.0, i, i + 2.0, 3.0, 4.0] for i in range(n)])
    if kind == "prism":
        return hm.prism_gravity(OBS, rows, props[0], field, parallel=parallel)
    if kind == "prism_mag":
        return hm.prism_magnetic(OBS, rows, tuple(props), field, parallel=parallel)
    rows[:, 4:] = [6e6, 6.1e6]
    return hm.tesseroid_gravity(OBS_SPH, rows, props[0], field, parallel=parallel)


@PROP.clause("size mismatches", sizes_st(), quick=500, thorough=10000, jit=False)
def size_mismatches(case, ctx):
    kind, n, sizes = case["kind"], case["n"], case["sizes"]
    valid = sizes == [n] * models.NPROPS.get(kind, 1)
    ctx.event(f"{kind} valid={valid}")
    ctx.trivial(valid)
    fields = models.FIELDS[kind]
    field = fields[case["field"] % len(fields)]
    props = [np.full(s, 0.0 if case["zero"] else 1.0) for s in sizes]
    verdict(valid, lambda: call(kind, field, n, props, case["parallel"]),
            f"{kind} {field} with {n} bodies and properties of sizes {sizes}")


NAMES = ["g_z", "G_z", "g_", "", "g", "b", "b_e", "b_z", "potential", "gz", "g_xx", "g_e", "g_n",
         "g_u", "g_ee ", " g_z", "g_nn", "g_en", "g_ne", "g_ez", "g_ze", "g_nz", "g_zn", "g_ee",
         "g_zz", "v", "b_u", "b_n", "b_eu", "g_northing", "potential_", "Potential"]
ALIASES = {"g_ne": "g_en", "g_ze": "g_ez", "g_zn": "g_nz"}


@st.composite
def names_st(draw):
    return {"kind": draw(pick("prism", "prism_mag", "dipole", "point", "point_sph", "tesseroid")),
            "field": draw(st.one_of(st.sampled_from(NAMES), st.text("gbenuz_", max_size=4))),
            "system": draw(pick(None, None, None, "cartesian", "spherical", "geodetic",
                                "Cartesian", "", "sphericall")),
            "parallel": draw(st.booleans())}


@PROP.clause("names of fields and coordinate systems", names_st(), quick=500, thorough=10000, jit=False)
def names(case, ctx):
    kind, field = case["kind"], case["field"]
    valid_fields = set(models.FIELDS[kind])
    kwargs, system_ok = {}, True
    if kind in ("point", "point_sph") and case["system"] is not None:
        kwargs["coordinate_system"] = case["system"]
        system_ok = case["system"] in ("cartesian", "spherical")
        if system_ok:
            kind = "point" if case["system"] == "cartesian" else "point_sph"
            valid_fields = set(models.FIELDS[kind])
    props = [np.ones(2)] * models.NPROPS.get(kind, 1)
    valid = field in valid_fields
    ctx.event(f"{kind} valid={valid and system_ok}")
    ctx.trivial(valid and system_ok)

    def run():
        return call(kind, field, 2, props, case["parallel"], **kwargs)

    if not system_ok:
        raises(ValueError, run, f"coordinate system {case['system']!r}")
    elif kind == "point_sph" and field in ("g_e", "g_n"):
        raises(NotImplementedError, run, f"{field} in spherical coordinates")
    elif field in ALIASES and kind in ("point", "prism"):
        # symmetric components may be accepted as aliases: then they must agree
        try:
            out = run()
        except ValueError:
            return
        require(np.allclose(out, call(kind, ALIASES[field], 2, props), rtol=1e-12),
                f"{field} differs from {ALIASES[field]}")
    else:
        verdict(valid, run, f"{kind} with field {field!r}")


# -------------------------------------------------------------- ellipsoids
@st.composite
def ellipsoid_st(draw):
    axes = [draw(pick(1.0, 2.0, 0.5, 3.0, 1e-3)) for _ in range(3)]
    for _ in range(draw(pick(0, 1, 2))):
        axes[draw(st.integers(0, 2))] = draw(pick(0.0, -1.0, -1e-9, -0.0))
    return {"axes": axes, "angles": [draw(fl(-400, 400)) for _ in range(3)]}


@PROP.clause("ellipsoid semiaxes", ellipsoid_st(), quick=300, thorough=5000, jit=False)
def ellipsoid_axes(case, ctx):
    valid = all(a > 0 for a in case["axes"])
    ctx.event(f"valid={valid}")
    ctx.trivial(valid)

    def run():
        body = hm.Ellipsoid(*case["axes"], *case["angles"], density=1.0, susceptibility=0.1)
        return hm.ellipsoid_gravity(OBS, body) + hm.ellipsoid_magnetic(OBS, body, (1, 2, 3))

    verdict(valid, run, f"ellipsoid with semiaxes {case['axes']}")
