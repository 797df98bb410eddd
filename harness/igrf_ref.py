"""Coefficient files in the classic IGRF format and the field of the coefficients."""

import datetime

import numpy as np

from .gens import rng

MAX = 13


def table(seed, epochs, style="decimals"):
    """Random coefficients of every epoch and their secular variation.

    Two arrays of shape (epochs + 1, 14, 14); the last of the first axis is the variation.
    """
    r = rng(seed)
    n, m = np.meshgrid(np.arange(MAX + 1), np.arange(MAX + 1), indexing="ij")
    size = 60000.0 / np.maximum(n, 1) ** 2.5
    out = []
    for key in "gh":
        v = r.uniform(-1, 1, (epochs + 1, MAX + 1, MAX + 1)) * size
        v[-1] *= 2e-3
        v = np.round(v, {"integers": 0, "decimals": 2, "one": 1}[style])
        v[:, (m > n) | (n == 0) | ((m == 0) & (key == "h"))] = 0
        out.append(v)
    return out


def write(path, first, g, h, seed, style="decimals", shuffle=False, trailing=False):
    """Write the coefficients as the archive distributes them."""
    r = rng(seed)
    epochs = g.shape[0] - 1
    years = [first + 5 * k for k in range(epochs)]
    digits = {"integers": 0, "decimals": 2, "one": 1}[style]

    def num(v):
        return f"{v:.{digits}f}"

    lines = []
    for n in range(1, MAX + 1):
        for m in range(n + 1):
            lines.append(["g", n, m, *g[:, n, m]])
            if m:
                lines.append(["h", n, m, *h[:, n, m]])
    if shuffle:
        r.shuffle(lines)
    last = str(years[-1] + 5)[2:]
    with open(path, "w", encoding="utf-8") as f:
        f.write("# Geomagnetic Reference Field Schmidt semi-normalised coefficients\n")
        f.write("# in units nanoTesla for IGRF and nanoTesla/year for SV\n")
        f.write("c/s deg ord " + " ".join(["IGRF"] * epochs) + " SV\n")
        f.write("g/h n m " + " ".join(f"{y}.0" for y in years) + f" {years[-1]}-{last}\n")
        for line in lines:
            f.write(f"{line[0]} {line[1]:2d} {line[2]:2d} "
                    + " ".join(num(v).rjust(8) for v in line[3:]) + (" " if trailing else "") + "\n")


def at(date, first, g, h):
    """Coefficients at a date without time zone and the slack of the extrapolation."""
    epochs = g.shape[0] - 1
    k = min((date.year - first) // 5, epochs - 1)
    start = datetime.datetime(first + 5 * k, 1, 1)
    elapsed = (date - start) / datetime.timedelta(seconds=1)
    if k == epochs - 1:
        t = elapsed / (365.25 * 86400)
        return [c[k] + t * c[-1] for c in (g, h)]
    t = elapsed / ((datetime.datetime(first + 5 * k + 5, 1, 1) - start).total_seconds())
    return [(1 - t) * c[k] + t * c[k + 1] for c in (g, h)]


def legendre(n, m, x):
    """Schmidt function and its derivative in colatitude, from the definition.

    P_nm(x) = norm (1 - x^2)^(m/2) d^m P_n / dx^m
    """
    q = np.polynomial.legendre.Legendre.basis(n)
    q0, q1 = (q.deriv(m) if m else q), q.deriv(m + 1)
    s = np.sqrt((1 - x) * (1 + x))
    norm = 1.0
    for k in range(n - m + 1, n + m + 1):
        norm /= k
    norm = np.sqrt(norm * (2 if m else 1))
    v, dv = q0(x), q1(x) if n > m else 0 * x
    return norm * s**m * v, norm * ((m * x * s ** max(m - 1, 0) * v if m else 0) - s ** (m + 1) * dv)


def field(lon, lat, height, a, f, g, h, lowest, highest, radius=6371.2e3):
    """East, north and up field at geodetic points."""
    lon, lat, height = (np.asarray(c, float) for c in (lon, lat, height))
    lam, phi = np.radians(lon), np.radians(lat)
    e2 = f * (2 - f)
    big = a / np.sqrt(1 - e2 * np.sin(phi) ** 2)
    p, z = (big + height) * np.cos(phi), (big * (1 - e2) + height) * np.sin(phi)
    r = np.hypot(p, z)
    x, s = z / r, p / r
    br = np.zeros(r.shape)
    bt, bl = br.copy(), br.copy()  # along radius, colatitude and longitude
    size = br.copy()
    for n in range(max(lowest, 1), highest + 1):
        q = (radius / r) ** (n + 2)
        for m in range(n + 1):
            v, dv = legendre(n, m, x)
            c = g[n, m] * np.cos(m * lam) + h[n, m] * np.sin(m * lam)
            d = m * (-g[n, m] * np.sin(m * lam) + h[n, m] * np.cos(m * lam))
            br += (n + 1) * q * c * v
            bt -= q * c * dv
            if m:
                bl -= q * d * v / s
            size += q * (n + 1) ** 2 * np.hypot(g[n, m], h[n, m])
    # Cartesian in the meridian plane (away from the axis, along the axis)
    axis = br * x - bt * s
    away = br * s + bt * x
    up = away * np.cos(phi) + axis * np.sin(phi)
    north = -away * np.sin(phi) + axis * np.cos(phi)
    return bl, north, up, size
