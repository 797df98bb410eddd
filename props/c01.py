"""C01: point-mass gravity against the closed form."""

from harness.core import Property, close, hm, st
from harness.gens import fl, pick, shape_of
import numpy as np

PROP = Property(
    "C01", "Point-mass gravity equals the closed form",
    rule="a case is a set of point masses, observation points, a field and a "
    "coordinate system; non-trivial when no observation point is so close to a "
    "mass that rounding dominates",
    technique="closed-form reference model, differential between coordinate systems",
    assumptions=["gravitational constant as distributed with choclo (CODATA)"],
)
G = 6.6743e-11
CART = ["potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez",
        "g_nz", "g_ne", "g_ze", "g_zn"]
AXES = {"e": 0, "n": 1, "z": 2}


@st.composite
def cartesian_case(draw):
    scale = draw(pick(1.0, 50.0, 1e3, 1e5))
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    pts = [[draw(fl(-5, 5)) * scale for _ in range(n)] for _ in range(3)]
    obs = [[draw(fl(-5, 5)) * scale for _ in range(m)] for _ in range(3)]
    # coordinates of a projection: far from the origin with respect to the distances
    shift = draw(pick([0.0] * 3, [0.0] * 3, [4e5, 7.2e6, 1.5e3], [-3e6, 2e5, -900.0]))
    pts, obs = ([[v + s for v in row] for row, s in zip(c, shift)] for c in (pts, obs))
    return {
        "points": pts, "obs": obs,
        "masses": [draw(fl(-10, 10)) * 10.0 ** draw(st.integers(0, 12)) for _ in range(n)],
        "field": draw(pick(*CART)), "shape": shape_of(draw, m),
        "parallel": draw(st.booleans()), "scale": scale,
    }


def cartesian_oracle(obs, pts, masses, field):
    d = obs[:, :, None] - pts[:, None, :]  # (3, m, n), upward positive
    l = np.sqrt((d**2).sum(axis=0))
    gm = G * np.asarray(masses)[None, :]
    d = np.stack([d[0], d[1], d[2]])
    sgn = {"e": 1.0, "n": 1.0, "z": -1.0}
    if field == "potential":
        terms, unit, mag = gm / l, 1.0, np.abs(gm) / l
    elif len(field) == 3:
        a = field[2]
        terms, unit = sgn[a] * -gm * d[AXES[a]] / l**3, 1e5
        mag = np.abs(gm) / l**2
    else:
        a, b = field[2], field[3]
        delta = 1.0 if a == b else 0.0
        terms = sgn[a] * sgn[b] * gm * (3 * d[AXES[a]] * d[AXES[b]] / l**5 - delta / l**3)
        unit, mag = 1e9, np.abs(gm) / l**3
    return unit * terms.sum(axis=1), unit * mag.sum(axis=1), l


@PROP.clause("cartesian", cartesian_case(), quick=900, thorough=30000,
             rule="13 field names, Cartesian coordinates, closed form")
def cartesian(case, ctx):
    obs, pts = np.array(case["obs"]), np.array(case["points"])
    expected, mag, l = cartesian_oracle(obs, pts, case["masses"], case["field"])
    if l.min() < 1e-6 * case["scale"]:
        ctx.trivial()
        return
    ctx.event(case["field"])
    shape = tuple(case["shape"])
    got = hm.point_gravity(
        tuple(o.reshape(shape) for o in obs), tuple(pts), case["masses"], case["field"],
        parallel=case["parallel"],
    )
    close(got, expected.reshape(shape), case["field"], rtol=1e-12,
          atol=(1e-11 * mag + 1e-300).reshape(shape))


@st.composite
def spherical_case(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    r0 = draw(pick(1.0, 1000.0, 6371e3))

    def pos(k):
        return [
            [draw(fl(-360, 720)) for _ in range(k)],
            [draw(st.one_of(fl(-90, 90), pick(-90.0, 90.0, 0.0))) for _ in range(k)],
            [draw(st.floats(0.05, 3.0)) * r0 for _ in range(k)],
        ]

    pts, obs = pos(n), pos(m)
    for k in range(m):  # some almost above or below a mass
        if draw(pick(False, False, True)):
            j, by = draw(st.integers(0, n - 1)), 10.0 ** draw(st.integers(-4, -1))
            obs[0][k] = pts[0][j] + draw(fl(-1, 1)) * by
            obs[1][k] = min(max(pts[1][j] + draw(fl(-1, 1)) * by, -90.0), 90.0)
            obs[2][k] = pts[2][j] * (1 + draw(fl(-1, 1)) * by / 100)
    return {
        "points": pts, "obs": obs,
        "masses": [draw(fl(-10, 10)) * 10.0 ** draw(st.integers(0, 15)) for _ in range(n)],
        "field": draw(pick("potential", "g_z")), "shape": shape_of(draw, m),
        "parallel": draw(st.booleans()),
    }


def ecef(lon, lat, r):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]) * r


@PROP.clause("spherical", spherical_case(), quick=900, thorough=30000,
             rule="potential and g_z, spherical coordinates, same masses in ECEF")
def spherical(case, ctx):
    obs, pts = np.array(case["obs"]), np.array(case["points"])
    x, y = ecef(*obs), ecef(*pts)
    d = x[:, :, None] - y[:, None, :]
    l = np.sqrt((d**2).sum(axis=0))
    size = obs[2][:, None] + pts[2][None, :]
    if (l / size).min() < 3e-6:
        ctx.trivial()
        return
    ctx.event(case["field"])
    ctx.event("pole" if np.any(np.abs(obs[1]) == 90) else "no pole")
    gm = G * np.array(case["masses"])[None, :]
    up = x / obs[2]
    amp = 1e-14 * (size / l) ** 2 + 1e-12
    if case["field"] == "potential":
        expected, tol = (gm / l).sum(axis=1), (np.abs(gm) / l * amp).sum(axis=1)
    else:
        expected = 1e5 * (gm / l**3 * (d * up[:, :, None]).sum(axis=0)).sum(axis=1)
        tol = 1e5 * (np.abs(gm) / l**2 * (amp * 10 + 1e-13 * size / l)).sum(axis=1)
    shape = tuple(case["shape"])
    got = hm.point_gravity(
        tuple(o.reshape(shape) for o in obs), tuple(pts), case["masses"], case["field"],
        coordinate_system="spherical", parallel=case["parallel"],
    )
    close(got, expected.reshape(shape), case["field"], atol=(tol + 1e-300).reshape(shape))


# ------------------------------------------------------------- distances
@st.composite
def distance_st(draw):
    system = draw(pick("geodetic", "spherical", "cartesian"))
    case = {"system": system, "ellipsoid": draw(pick("WGS84", "GRS80", "Mars2009")), "pair": []}
    for _ in range(2):
        if system == "cartesian":
            case["pair"].append([draw(fl(-5, 5)) * draw(pick(1.0, 1e5)) for _ in range(3)])
            continue
        lon = draw(st.one_of(pick(0.0, 180.0, -180.0, 360.0), fl(-360, 360)))
        lat = draw(st.one_of(pick(0.0, 90.0, -90.0), fl(-90, 90)))
        up = draw(fl(-1e4, 1e6)) + (6.371e6 if system == "spherical" else 0.0)
        case["pair"].append([lon, lat, up])
    case["given"] = draw(pick("tuple", "list", "array"))
    return case


@PROP.clause("distances", distance_st(), quick=400, thorough=20000,
             rule="points apart; compared with the distance between geocentric Cartesian positions")
def distances(case, ctx):
    import boule  # noqa: PLC0415

    ellipsoid = getattr(boule, case["ellipsoid"])
    xyz = []
    for a, b, c in case["pair"]:
        if case["system"] == "cartesian":
            xyz.append([a, b, c])
            continue
        lon, lat = np.radians(a), np.radians(b)
        if case["system"] == "spherical":
            rho, z = c * np.cos(lat), c * np.sin(lat)
        else:
            flat = ellipsoid.flattening
            e2 = flat * (2 - flat)
            prime = ellipsoid.semimajor_axis / np.sqrt(1 - e2 * np.sin(lat) ** 2)
            rho, z = (prime + c) * np.cos(lat), (prime * (1 - e2) + c) * np.sin(lat)
        xyz.append([rho * np.cos(lon), rho * np.sin(lon), z])
    xyz = np.array(xyz)
    want = float(np.sqrt(((xyz[0] - xyz[1]) ** 2).sum()))
    size = np.abs(xyz).max()
    ctx.event(case["system"])
    if want < 1e-3 * size:  # differences of large numbers
        ctx.trivial()
        return
    make = {"tuple": tuple, "list": list, "array": np.array}[case["given"]]
    p, q = (make(v) for v in case["pair"])
    kwargs = {"ellipsoid": ellipsoid} if case["system"] == "geodetic" else {}
    if case["given"] == "list" and case["system"] != "geodetic":
        p, q = tuple(p), tuple(q)  # reflected lists are deprecated in numba
    for one, other in ((p, q), (q, p)):
        got = hm._forward.utils.distance(one, other, coordinate_system=case["system"], **kwargs)
        close(got, want, f"{case['system']} distance", rtol=1e-7)
