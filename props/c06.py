"""C06: tesseroid gravity against adaptive cubature and under equivalent descriptions."""

import numpy as np

from harness import tess_ref as ref
from harness.core import Property, close, fail, hm, require, st
from harness.gens import fl, pick, rng, SEED

PROP = Property(
    "C06", "Tesseroid gravity is accurate for every valid tesseroid, however expressed",
    rule="a case is one tesseroid (0.01 degree to a full shell) and points above, beside or below "
    "it; non-trivial when the discretization converged",
    technique="reference model (independent adaptive cubature, analytic shell), metamorphic "
    "relations (longitude conventions, rotation, cutting)",
    assumptions=["the accuracy of the published method: checked against the exact integral with "
                 "the largest error seen on the pinned tree times about two"],
)
R = 6371e3
SPANS = (0.01, 0.1, 1.0, 7.5, 10.0, 45.0, 60.0, 90.0, 180.0)


def draw_tesseroid(draw, regular=False):
    limit = 60.0 if regular else 360.0
    wid = min(draw(st.one_of(pick(*SPANS, 359.0, 360.0, 300.0), st.floats(0.01, 360))), limit)
    hei = min(draw(st.one_of(pick(*SPANS), st.floats(0.01, 180))), limit, 180.0)
    lo, hi = (-80.0, 80.0 - hei) if regular else (-90.0, 90.0 - hei)
    w = draw(fl(-180, 360.0 - wid))
    s = draw(st.one_of(pick(lo, hi), fl(lo, hi)))
    top = R * draw(pick(1.0, 1.0, 0.9, 1e-3))
    size = min(np.radians(hei) * top, np.radians(wid) * top * np.cos(np.radians(s + hei / 2)))
    thick = max(min(draw(st.floats(0.001, 1.2)) * size, 0.5 * top), 5e-6 * top)
    if draw(pick(False, False, False, True)):
        thick = top * draw(pick(1.0, 0.5, 0.1))
    return [w, w + wid, s, min(s + hei, 90.0), top - thick, top]


def draw_point(draw, tess):
    w, e, s, n, b, t = tess
    where = draw(pick("above", "above", "above", "anywhere", "below", "side"))
    if where == "above":
        lon = w + draw(st.one_of(pick(0.0, 0.5, 1.0), st.floats(0, 1))) * (e - w)
        lat = s + draw(st.one_of(pick(0.0, 0.5, 1.0), st.floats(0, 1))) * (n - s)
    else:
        lon, lat = draw(fl(-180, 540)), draw(st.one_of(pick(-90.0, 90.0), fl(-90, 90)))
    h = draw(st.one_of(pick(0.0, 0.0, 1e-6, 1e-3, 1.0), st.floats(0, 0.1)))
    if where == "below":
        r = b * draw(st.floats(0.1, 0.999))
    elif where == "side":
        r = draw(st.floats(0.1, 1.0)) * t
        if (lon - w) % 360 <= e - w and s <= lat <= n:  # inside the footprint
            r = t
    else:
        r = t * (1 + h)
    return [lon, max(min(lat, 90.0), -90.0), r], where


@st.composite
def exact_case(draw):
    regular = draw(st.booleans())
    tess = draw_tesseroid(draw, regular)
    point, where = draw_point(draw, tess)
    return {"tesseroid": tess, "point": point, "where": where, "regular": regular,
            "field": draw(pick("potential", "g_z")), "radial": draw(st.booleans()),
            "density": draw(pick(1.0, 2670.0, -400.0))}


def thin(tess, point):
    """Two-dimensional discretization is enough for this tesseroid and point."""
    w, e, s, n, b, t = tess
    mid = np.radians(0.5 * (s + n))
    size = t * min(np.radians(n - s), np.radians(e - w) * np.cos(mid))
    if (abs(s) > 85 or abs(n) > 85) and e - w < 180:
        size *= 0.5
    return t - b <= 0.1 * size or abs(point[2] - 0.5 * (b + t)) >= 3 * (t - b)


def run(tess, density, point, field, radial, **kw):
    """The field, or None when the discretization is documented not to converge."""
    try:
        return float(hm.tesseroid_gravity(
            tuple(point), tess, density, field, radial_adaptive_discretization=radial, **kw))
    except (OverflowError, SystemError) as error:
        text = f"{error} {error.__cause__}"
        if "verflow" in text or "discretizations" in text:
            # 3D discretization cannot converge on points (almost) touching the body
            return None
        raise


def is_near(tess, point):
    """Closer to the tesseroid than a tenth of its smallest horizontal size."""
    w, e, s, n, b, t = tess
    lo = (point[0] - w) % 360
    if lo > e - w:
        lo = e - w if lo - (e - w) < 360 - lo else 0.0
    la, ra = min(max(point[1], s), n), min(max(point[2], b), t)
    dlo = np.radians(w + lo - point[0])
    la, lp = np.radians(la), np.radians(point[1])
    hav = np.sin((la - lp) / 2) ** 2 + np.cos(la) * np.cos(lp) * np.sin(dlo / 2) ** 2
    distance = np.sqrt((ra - point[2]) ** 2 + 4 * ra * point[2] * hav)
    mid = np.radians(0.5 * (s + n))
    size = t * min(np.radians(n - s), np.radians(e - w) * np.cos(mid))
    return distance < 0.1 * size


def tolerance(field, tess, point, radial):
    """
    Twice the largest relative error of the pinned tree (with the repairs) in
    20 000 cases of every category.
    """
    regular = is_regular(tess)
    if field == "potential":
        return 0.025 if regular else 0.05
    if is_near(tess, point):
        return 0.15 if regular else 0.5 if not radial else 10.0
    return 0.012 if regular else 0.03


def is_regular(tess):
    w, e, s, n = tess[:4]
    return max(abs(s), abs(n)) <= 80 and e - w <= 60 and n - s <= 60


@PROP.clause("exact", exact_case(), quick=700, thorough=20000, shards=4,
             rule="one tesseroid and point against adaptive cubature")
def exact(case, ctx):
    tess, point, field = case["tesseroid"], case["point"], case["field"]
    radial = case["radial"] or not thin(tess, point)
    got = run([tess], [case["density"]], point, field, radial)
    if got is None:
        require(radial, f"{field}: two dimensional discretization overflows")
        ctx.trivial()
        return
    pot, gz, size = (case["density"] * v for v in ref.field(tess, point))
    near = "near" if is_near(tess, point) else "far"
    regular = is_regular(tess)
    ctx.event(f"{field} {near} {'regular' if regular else 'extreme'} {'3D' if radial else '2D'}")
    ctx.event(case["where"])
    want, scale = (pot, abs(pot)) if field == "potential" else (gz, abs(size))
    tol = tolerance(field, tess, point, radial)
    if not abs(got - want) <= tol * scale:
        fail(f"{field}: got {got!r}, exact integral {want!r} (relative error "
             f"{(got - want) / scale:.2e}, allowed {tol})")


@PROP.clause("typical accuracy", st.fixed_dictionaries(
    {"seed": SEED, "radial": st.booleans(), "parallel": st.booleans()}),
    quick=40, thorough=1500, shards=2,
    rule="60 random tesseroids of 0.1 to 30 degrees with points above them: the median error")
def typical(case, ctx):
    r = rng(case["seed"])
    errors = {"potential": [], "g_z": []}
    for _ in range(60):
        wid, hei = 10.0 ** r.uniform(-1, 1.5, 2)
        w, s = r.uniform(-180, 360 - wid), r.uniform(-80, 80 - hei)
        mid = np.cos(np.radians(s + hei / 2))
        thick = R * np.radians(min(wid * mid, hei)) * r.uniform(0.01, 0.1)
        tess = [w, w + wid, s, s + hei, R - thick, R]
        h = R * np.radians(max(wid * mid, hei)) * 10.0 ** r.uniform(-2, 1)
        point = [w + wid * r.uniform(-1, 2), np.clip(s + hei * r.uniform(-1, 2), -90, 90), R + h]
        pot, gz, size = ref.field(tess, point)
        for field, want, scale in (("potential", pot, pot), ("g_z", gz, size)):
            got = run([tess], [1.0], point, field, case["radial"], parallel=case["parallel"])
            if got is not None:
                errors[field].append(abs(got - want) / scale)
    for field, values in errors.items():
        mid, high = np.quantile(values, [0.5, 0.9])
        ctx.event(f"{field} median below {10.0 ** np.ceil(np.log10(mid)):.0e}")
        require(mid < 1e-3 and high < 6e-3,
                lambda: f"{field}: median error {mid:.2e}, 90% quantile {high:.2e} of "
                        f"{len(values)} tesseroids")


@st.composite
def convention_case(draw):
    tess = draw_tesseroid(draw)
    point, where = draw_point(draw, tess)
    return {"tesseroid": tess, "point": point, "field": draw(pick("potential", "g_z")),
            "radial": draw(st.booleans()), "turns": draw(st.integers(-2, 2)),
            "shift": draw(st.one_of(pick(180.0, 90.0, 360.0, -360.0), fl(-400, 400))),
            "other": [draw(fl(-180, 300)), draw(fl(-90, 80))]}


def representations(w, e):
    """Valid ways of writing the same longitudinal interval."""
    out = []
    for k in (-1, 0, 1):
        a, b = w + 360 * k, e + 360 * k
        if -180 <= a and b <= 360:
            out.append((a, b))
    if e - w < 360:
        # west greater than east: the pair is moved to [-180, 180)
        for a in {(w % 360), (w + 180) % 360 - 180}:
            for b in {(e % 360), (e + 180) % 360 - 180}:
                if a > b and (((a + 180) % 360) - 180) < (((b + 180) % 360) - 180):
                    out.append((a, b))
    return out


@PROP.clause("conventions", convention_case(), quick=500, thorough=15000, shards=2,
             rule="equivalent longitudes of tesseroid and point, rotation in longitude")
def conventions(case, ctx):
    tess, point, field = case["tesseroid"], case["point"], case["field"]
    w, e = tess[:2]
    radial = case["radial"]
    base = run([tess], [1000.0], point, field, radial)
    if base is None:
        ctx.trivial()
        return
    # a second tesseroid with west < east must not be disturbed by the convention of the first
    o = case["other"]
    other = [o[0], o[0] + 5, o[1], o[1] + 5, 0.1 * R, 0.2 * R]
    with_other = point[2] > 0.25 * R
    extra = run([other], [1000.0], point, field, radial) if with_other else 0.0
    pot, _, size = ref.field(tess, point, 1000.0, ratio=0.7)
    tol = 5e-3 * (pot if field == "potential" else size)
    reps = representations(w, e)
    ctx.event(f"{len(reps)} representations")
    for a, b in reps:
        t = [a, b] + tess[2:]
        ctx.event("west greater than east" if a > b else "west below east")
        p = [point[0] + 360 * case["turns"]] + point[1:]
        got = run([t], [1000.0], p, field, radial)
        close(got, base, f"{field} with longitudes {a}, {b} and point at {p[0]}", atol=tol)
        if with_other and extra is not None:
            both = run([other, t], [1000.0, 1000.0], p, field, radial)
            close(both, base + extra, f"{field} with longitudes {a}, {b} next to another "
                  "tesseroid", atol=tol + 1e-10 * abs(extra))
    d = case["shift"]
    a, b = w + d, e + d
    while a < -180:
        a, b = a + 360, b + 360
    while b > 360:
        a, b = a - 360, b - 360
    if a >= -180:
        got = run([[a, b] + tess[2:]], [1000.0], [point[0] + d] + point[1:], field, radial)
        close(got, base, f"{field} rotated by {d} degrees", atol=tol)
        ctx.event("rotated")


@st.composite
def cut_case(draw):
    tess = draw_tesseroid(draw)
    point, _ = draw_point(draw, tess)
    return {"tesseroid": tess, "point": point, "field": draw(pick("potential", "g_z")),
            "cuts": [sorted(draw(st.lists(st.floats(0.1, 0.9), min_size=0, max_size=2)))
                     for _ in range(3)]}


@PROP.clause("cut", cut_case(), quick=300, thorough=10000, shards=2,
             rule="tesseroid cut in up to 27 parts")
def cut(case, ctx):
    tess, point, field = case["tesseroid"], case["point"], case["field"]
    radial = not thin(tess, point)
    whole = run([tess], [1000.0], point, field, radial)
    edges = []
    for a in range(3):
        lo, hi = tess[2 * a], tess[2 * a + 1]
        edges.append([lo] + [lo + f * (hi - lo) for f in case["cuts"][a]] + [hi])
    parts = [[w, e, s, n, b, t]
             for w, e in zip(edges[0], edges[0][1:])
             for s, n in zip(edges[1], edges[1][1:])
             for b, t in zip(edges[2], edges[2][1:])]
    # a thin part of a tesseroid may need three dimensional discretization
    radial_parts = radial or not all(thin(p, point) for p in parts)
    total = run(parts, [1000.0] * len(parts), point, field, radial_parts)
    if whole is None or total is None:
        ctx.trivial()
        return
    ctx.trivial(len(parts) == 1)
    ctx.event(f"{len(parts)} parts")
    pot, _, size = ref.field(tess, point, 1000.0, ratio=0.7)
    scale = pot if field == "potential" else size
    tol = tolerance(field, tess, point, radial) + max(
        tolerance(field, p, point, radial_parts) for p in parts)
    close(total, whole, f"{field}: sum of {len(parts)} parts", atol=tol * scale)


@st.composite
def shell_case(draw):
    top = R * draw(pick(1.0, 0.5))
    return {
        "top": top, "thick": draw(pick(1e3, 1e4, 1e5)),
        "lon": draw(st.lists(st.integers(-179, 179), max_size=4, unique=True)),
        "lat": draw(st.lists(st.integers(-89, 89), max_size=4, unique=True)),
        "start": draw(pick(-180.0, 0.0)), "field": draw(pick("potential", "g_z")),
        "point": [draw(fl(-360, 720)), draw(st.one_of(pick(90.0, -90.0), fl(-90, 90))),
                  draw(pick(0.0, 1.0, 1e3, 1e5, 3e6))],
    }


@PROP.clause("shell", shell_case(), quick=150, thorough=5000, shards=2,
             rule="any tessellation of a spherical shell against its analytic field")
def shell(case, ctx):
    top, bottom = case["top"], case["top"] - case["thick"]
    start = case["start"]
    lons = [start] + sorted(v + start + 180 for v in case["lon"]) + [start + 360]
    lats = [-90.0] + sorted(case["lat"]) + [90.0]
    parts = [[w, e, s, n, bottom, top] for w, e in zip(lons, lons[1:])
             for s, n in zip(lats, lats[1:])]
    point = case["point"][:2] + [top + case["point"][2]]
    ctx.event(f"{len(parts)} tesseroids")
    got = run(parts, [2670.0] * len(parts), point, case["field"], False)
    mass = 4 / 3 * np.pi * (top**3 - bottom**3) * 2670.0
    want = ref.G * mass / point[2]
    tol = 0.03
    if case["field"] == "g_z":
        want, tol = 1e5 * want / point[2], 0.02
    require(got is not None, "the discretization of a shell overflows")
    close(got, want, f"{case['field']} of a shell", rtol=tol)
