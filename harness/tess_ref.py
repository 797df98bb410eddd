"""Reference field of a tesseroid by adaptive Gauss-Legendre cubature."""

from . import env  # noqa: F401

import numpy as np

G = 6.6743e-11
ORDER = 6
_X, _W = np.polynomial.legendre.leggauss(ORDER)


def _quad(tess, lon, lat, r, density):
    """Potential, g_z and sum of |g_z| of many small tesseroids (rows of tess)."""
    w, e, s, n, b, t = np.radians(tess[:, 0]), np.radians(tess[:, 1]), np.radians(
        tess[:, 2]), np.radians(tess[:, 3]), tess[:, 4], tess[:, 5]
    lo = (0.5 * (e - w))[:, None] * _X + (0.5 * (e + w))[:, None]
    la = (0.5 * (n - s))[:, None] * _X + (0.5 * (n + s))[:, None]
    ra = (0.5 * (t - b))[:, None] * _X + (0.5 * (t + b))[:, None]
    lo, la, ra = lo[:, :, None, None], la[:, None, :, None], ra[:, None, None, :]
    wt = (_W[:, None, None] * _W[None, :, None] * _W[None, None, :])[None]
    vol = (0.125 * (e - w) * (n - s) * (t - b))[:, None, None, None]
    mass = vol * wt * ra**2 * np.cos(la) * (density(ra) if callable(density) else density)
    # haversine form: no cancellation for near points
    hav = np.sin((la - lat) / 2) ** 2 + np.cos(la) * np.cos(lat) * np.sin((lo - lon) / 2) ** 2
    l2 = (ra - r) ** 2 + 4 * ra * r * hav
    l = np.sqrt(l2)
    gz = mass * ((r - ra) + 2 * ra * hav) / l2 / l
    return G * (mass / l).sum(), 1e5 * G * gz.sum(), 1e5 * G * np.abs(gz).sum()


def _extent(tess):
    """Chord-like sizes in the three directions."""
    w, e, s, n, b, t = tess.T
    cosmax = np.where((s < 0) & (n > 0), 1.0,
                      np.maximum(np.cos(np.radians(s)), np.cos(np.radians(n))))
    return np.stack([np.radians(e - w) * t * cosmax, np.radians(n - s) * t, t - b])


def _nearest(tess, lon, lat, r):
    """Lower bound of the distance from the point to every tesseroid."""
    w, e, s, n, b, t = tess.T
    size = np.sqrt((_extent(tess) ** 2).sum(0))
    lo, la, ra = np.radians((w + e) / 2), np.radians((s + n) / 2), (b + t) / 2
    hav = np.sin((la - lat) / 2) ** 2 + np.cos(la) * np.cos(lat) * np.sin((lo - lon) / 2) ** 2
    d = np.sqrt((ra - r) ** 2 + 4 * ra * r * hav)
    return d, size


def field(tesseroid, point, density=1.0, ratio=1.5, floor=1e-6):
    """Potential (J/kg), g_z (mGal) and the absolute sum of g_z at one point."""
    lon, lat, r = np.radians(point[0]), np.radians(point[1]), float(point[2])
    stack = np.array([tesseroid], dtype=float)
    if stack[0, 1] == stack[0, 0] or stack[0, 3] == stack[0, 2] or stack[0, 4] == stack[0, 5]:
        return np.zeros(3)
    total = np.zeros(3)
    smallest = floor * max(r, tesseroid[5])
    while len(stack):
        d, size = _nearest(stack, lon, lat, r)
        ext = _extent(stack)
        wide = (stack[:, 1] - stack[:, 0] > 40) | (stack[:, 3] - stack[:, 2] > 40)
        split = ((d < ratio * size) & (size > smallest)) | wide
        if (~split).any():
            done = stack[~split]
            for k in range(0, len(done), 4000):
                total += _quad(done[k : k + 4000], lon, lat, r, density)
        stack, ext = stack[split], ext[:, split]
        if not len(stack):
            break
        if len(stack) > 200000:
            raise RuntimeError("reference did not converge")
        # halve the directions that are comparable with the longest one
        longest = ext.max(axis=0)
        for a in range(3):
            cut = ext[a] > 0.6 * longest
            if a < 2:
                cut |= stack[:, 2 * a + 1] - stack[:, 2 * a] > 40
            mid = 0.5 * (stack[:, 2 * a] + stack[:, 2 * a + 1])
            lower, upper = stack[cut].copy(), stack[cut].copy()
            lower[:, 2 * a + 1], upper[:, 2 * a] = mid[cut], mid[cut]
            keep = stack[~cut]
            stack = np.concatenate([lower, upper, keep])
            longest = np.concatenate([longest[cut], longest[cut], longest[~cut]])
            ext = np.concatenate([ext[:, cut], ext[:, cut], ext[:, ~cut]], axis=1)
    return total
