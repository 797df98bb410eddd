"""Exact fields of ellipsoids, from Carlson's integrals; axes in any order."""

from . import env  # noqa: F401

import numpy as np
from scipy.special import elliprd

G = 6.6743e-11
MU0 = 1.25663706127e-06
EPS = 2.3e-16


def rotation(yaw, pitch, roll):
    """Local to global: yaw about up, pitch lifting the first axis, roll about the first axis."""
    y, p, r = np.radians([yaw, pitch, roll])
    rz = np.array([[np.cos(y), -np.sin(y), 0], [np.sin(y), np.cos(y), 0], [0, 0, 1]])
    ry = np.array([[np.cos(p), 0, -np.sin(p)], [0, 1, 0], [np.sin(p), 0, np.cos(p)]])
    rx = np.array([[1, 0, 0], [0, np.cos(r), -np.sin(r)], [0, np.sin(r), np.cos(r)]])
    return rz @ ry @ rx


def confocal(point, axes):
    """Largest root of sum x²/(a²+L) = 1 by Newton's method, from its left; 0 inside."""
    x2, a2 = np.square(point), np.square(axes)
    if np.sum(x2 / a2) < 1:
        return 0.0
    lam = max(0.0, float(np.max(x2 - a2)))
    for _ in range(200):
        t = x2 / (a2 + lam)
        f, df = np.sum(t) - 1, -np.sum(t / (a2 + lam))
        step = -f / df
        lam += step
        if abs(step) <= 1e-16 * (lam + np.max(a2)):
            break
    return max(lam, 0.0)


def integrals(axes, lam):
    """int_lam^inf du / ((a_i² + u) R(u))"""
    q = np.square(axes) + lam
    return np.array([2 / 3 * elliprd(q[(i + 1) % 3], q[(i + 2) % 3], q[i]) for i in range(3)])


def gravity(axes, rot, center, density, point):
    """Acceleration (easting, northing, upward) in m/s²."""
    x = rot.T @ (np.asarray(point) - center)
    lam = confocal(x, axes)
    return rot @ (-2 * np.pi * G * density * np.prod(axes) * x * integrals(axes, lam))


def n_internal(axes):
    return np.diag(np.prod(axes) / 2 * integrals(axes, 0.0))


def n_external(axes, x):
    lam = confocal(x, axes)
    q = np.square(axes) + lam
    denom = np.sum((x / q) ** 2)
    grad = 2 * x / q / denom
    slope = -1 / (q * np.sqrt(np.prod(q)))  # derivatives of the integrals
    return np.prod(axes) / 2 * (np.diag(integrals(axes, lam)) + np.outer(x * slope, grad))


def magnetization(axes, rot, chi, remanent, h0):
    """Magnetization in the local axes."""
    chi = np.asarray(chi, float) * (np.eye(3) if np.ndim(chi) == 0 else 1)
    lhs = np.eye(3) + chi @ n_internal(axes)
    rhs = chi @ (rot.T @ h0) + rot.T @ remanent
    return np.linalg.solve(lhs, rhs), np.linalg.cond(lhs)


def magnetic(axes, rot, center, mag, point):
    """B (easting, northing, upward) in T of the magnetization (local axes)."""
    x = rot.T @ (np.asarray(point) - center)
    if np.sum((x / axes) ** 2) < 1:
        return rot @ (MU0 * (mag - n_internal(axes) @ mag))
    return rot @ (-MU0 * n_external(axes, x) @ mag)


def conditioning(axes, r2):
    """
    Relative error that rounding makes unavoidable in the closed forms, which
    subtract nearly equal terms for far points and nearly equal axes, and error
    of the approximation of almost equal axes.
    """
    a, b, c = sorted(np.square(axes), reverse=True)
    q = a + r2
    # SEMIAXES_RTOL, of the semiaxes
    close = [abs(p - s) < 2e-5 * p for p, s in ((a, b), (b, c))]
    if all(close):
        return 5e-5
    exact = [a == b, b == c]
    # the confocal coordinate, solved from a quadratic or cubic equation
    error = 1e-11 + 30 * EPS * q / (c + r2)
    if not any(exact):
        error += 10 * EPS * q * q / ((c + r2) * (b + r2))
    if close[0]:
        return error + 200 * EPS * q / (b - c) + (0 if exact[0] else 5e-5)
    if close[1]:
        return error + 200 * EPS * q / (a - b) + (0 if exact[1] else 5e-5)
    return error + 200 * EPS * q * (a - c) / ((a - b) * (b - c))
