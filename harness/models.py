"""Adapters: the forward models of the library behind one interface."""

from . import env  # noqa: F401

import numpy as np
from hypothesis import strategies as st

from .core import hm
from .gens import fl, pick

FIELDS = {
    "point": ["potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz"],
    "point_sph": ["potential", "g_z"],
    "dipole": ["b", "b_e", "b_n", "b_u"],
    "prism": ["potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz"],
    "prism_mag": ["b", "b_e", "b_n", "b_u"],
    "tesseroid": ["potential", "g_z"],
    "ellipsoid": ["g"],
    "ellipsoid_mag": ["b"],
}
NPROPS = {"dipole": 3, "prism_mag": 3, "ellipsoid_mag": 3}
R = 6371e3


def evaluate(kind, field, coords, bodies, props, inducing=(0.0, 0.0, 0.0), **kwargs):
    """
    Field of bodies (list of lists) with props (list of lists, one row per body).
    Returns an array with the components in the first axis.
    """
    columns = [[p[k] for p in props] for k in range(NPROPS.get(kind, 1))]
    if kind in ("point", "point_sph"):
        pts = tuple(np.array([b[k] for b in bodies], dtype=float) for k in range(3))
        out = hm.point_gravity(
            coords, pts, np.array(columns[0], dtype=float), field,
            coordinate_system="cartesian" if kind == "point" else "spherical", **kwargs)
    elif kind == "dipole":
        pts = tuple(np.array([b[k] for b in bodies], dtype=float) for k in range(3))
        out = hm.dipole_magnetic(
            coords, pts, tuple(np.array(c, dtype=float) for c in columns), field, **kwargs)
    elif kind == "prism":
        out = hm.prism_gravity(coords, np.array(bodies, dtype=float),
                               np.array(columns[0], dtype=float), field, **kwargs)
    elif kind == "prism_mag":
        out = hm.prism_magnetic(coords, np.array(bodies, dtype=float),
                                tuple(np.array(c, dtype=float) for c in columns), field, **kwargs)
    elif kind == "tesseroid":
        out = hm.tesseroid_gravity(coords, np.array(bodies, dtype=float),
                                   np.array(columns[0], dtype=float), field, **kwargs)
    elif kind == "ellipsoid":
        out = hm.ellipsoid_gravity(coords, [
            hm.Ellipsoid(*b[:6], center=tuple(b[6:9]), density=p[0])
            for b, p in zip(bodies, props)])
    elif kind == "ellipsoid_mag":
        out = hm.ellipsoid_magnetic(coords, [
            hm.Ellipsoid(*b[:6], center=tuple(b[6:9]),
                         susceptibility=b[9] if len(b) > 9 else None,
                         remanent_mag=None if p[0] is None else list(p))
            for b, p in zip(bodies, props)], inducing)
    return np.stack(out) if isinstance(out, tuple) else np.asarray(out)[None]


def draw_body(draw, kind, scale, wide=True):
    if kind in ("point", "dipole"):
        return [draw(fl(-5, 5)) * scale for _ in range(3)]
    if kind == "point_sph":
        return [draw(fl(-180, 360)), draw(fl(-90, 90)), draw(fl(0.5, 1.0)) * R]
    if kind in ("prism", "prism_mag"):
        out = []
        for _ in range(3):
            lo = draw(fl(-5, 5)) * scale
            out += [lo, lo + draw(st.one_of(pick(1.0, 2.0), st.floats(0.1, 5))) * scale]
        return out
    if kind == "tesseroid":
        w = draw(fl(-180, 340))
        s = draw(fl(-90, 85))
        top = draw(pick(1.0, 0.99, 0.8, 0.9990123)) * R
        return [w, min(w + draw(pick(0.5, 5.0, 60.0) if wide else pick(0.5, 5.0)), 360.0),
                s, min(s + draw(pick(0.5, 4.0, 40.0) if wide else pick(0.5, 4.0)), 90.0),
                top - draw(pick(1e3, 1e5, 1e6, 0.7, 12.3)), top]
    if kind in ("ellipsoid", "ellipsoid_mag"):
        axes = [draw(pick(1.0, 2.0, 3.0, 1.0, 2.5, 1.7)) * scale for _ in range(3)]
        angles = [draw(st.one_of(pick(0.0, 90.0, 45.0), fl(-360, 360))) for _ in range(3)]
        body = axes + angles + [draw(fl(-5, 5)) * scale for _ in range(3)]
        if kind == "ellipsoid_mag":
            body.append(draw(pick(None, 0.0, 0.5, 2.0)))
        return body
    raise ValueError(kind)


def draw_obs(draw, kind, scale):
    if kind in ("point_sph", "tesseroid"):
        return [draw(fl(-360, 720)), draw(st.one_of(pick(-90.0, 90.0), fl(-90, 90))),
                draw(st.one_of(pick(1.01, 2.0), st.floats(1.005, 5.0))) * R]
    return [draw(fl(-8, 8)) * scale for _ in range(3)]


def draw_null(draw, kind, scale, obs):
    """A body that must contribute nothing, with its properties."""
    k = NPROPS.get(kind, 1)
    body = draw_body(draw, kind, scale)
    if kind in ("point", "dipole", "point_sph"):
        return body, [0.0] * k
    flat = draw(st.booleans())
    at = draw(st.sampled_from(obs)) if draw(st.booleans()) else None
    if kind in ("prism", "prism_mag"):
        if at is not None:
            for a in range(3):
                body[2 * a], body[2 * a + 1] = at[a] - scale, at[a] + scale * draw(pick(0.0, 1.0))
        if not flat:
            return body, [0.0] * k
        a = draw(st.integers(0, 2))
        level = at[a] if at is not None else body[2 * a]
        body[2 * a] = body[2 * a + 1] = level
        return body, [draw(pick(2670.0, -3.0))] * k
    if kind == "tesseroid":
        if not flat:
            return body, [0.0]
        a = draw(st.integers(0, 2))
        if at is not None and a < 2:
            body[4], body[5] = 0.9 * R, 6 * R  # a sheet that may contain the point
            value = at[0] % 360 if a == 0 else at[1]
        elif at is not None:
            body = [0.0, 360.0, -90.0, 90.0, 0.0, 0.0]
            value = at[2]
        else:
            value = body[2 * a]
        body[2 * a] = body[2 * a + 1] = value
        return body, [draw(pick(2670.0, -3.0))]
    if at is not None:
        body[6:9] = at
    if kind == "ellipsoid":
        return body, [draw(pick(0.0, None))]
    body[9] = None
    props = draw(pick([None] * 3, [0.0] * 3))
    if props[0] is not None:
        body[9] = draw(pick(None, 0.0))
    return body, list(props)


def too_close(kind, coords, bodies, scale):
    """Points sources cannot be evaluated at their own location."""
    if kind not in ("point", "dipole"):
        return False
    for body in bodies:
        d = np.sqrt(sum((np.array(c) - b) ** 2 for c, b in zip(coords, body)))
        if d.min() < 1e-6 * scale:
            return True
    return False


G = 6.6743e-11
POWER = {"potential": 2, "g_e": 1, "g_n": 1, "g_z": 1}
UNIT = {"potential": 1.0, "g_e": 1e5, "g_n": 1e5, "g_z": 1e5}


def magnitude(kind, field, obs, bodies, props):
    """Size of the terms that are added: rounding errors are relative to it."""
    total = np.zeros(obs.shape[1])
    for b, p in zip(bodies, props):
        size = max(abs(v) for v in p if v is not None)
        if kind == "prism":
            dist = [np.maximum(abs(obs[a] - b[2 * a]), abs(obs[a] - b[2 * a + 1]))
                    for a in range(3)]
            length = np.sqrt(sum(d ** 2 for d in dist))
            n = POWER.get(field, 0)
            logs = 1 + np.log(np.maximum(length, 1 / np.maximum(length, 1e-300)))
            total += G * size * length ** n * UNIT.get(field, 1e9) * 10 * logs
        elif kind == "prism_mag":
            total += 1e-7 * size * 1e9 * 40
    return total
