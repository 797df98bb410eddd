"""
High-precision closed form of the field of a rectangular prism (Nagy 2000).

Evaluated with 100 significant digits at a point displaced by 1e-60 of the
model size away from every face plane, so that no logarithm or arctangent needs
a special case: the function is continuous there, except across the faces for
the diagonal tensor components, where the displacement goes outwards (the limit
the code documents).
"""

from . import env

env._ensure("mpmath")
import mpmath  # noqa: E402
from mpmath import mpf  # noqa: E402

MP = mpmath.mp
MP.dps = 100

AX = "enu"


def _shift(x, lo, hi, tiny):
    # outward displacement if the point is in the plane of a face
    if x == lo:
        return -tiny
    return tiny


def corners(point, prism, tiny):
    """Signed corner offsets (prism - point) of the displaced point."""
    offs = []
    for k in range(3):
        lo, hi = mpf(prism[2 * k]), mpf(prism[2 * k + 1])
        x = mpf(point[k]) + _shift(point[k], prism[2 * k], prism[2 * k + 1], tiny * (k + 2))
        offs.append((lo - x, hi - x))
    return offs


def _log(a, b, c, r):
    """log(a + r) computed without cancellation."""
    if a >= 0:
        return mpmath.log(a + r)
    return mpmath.log((b * b + c * c) / (r - a))


def kernel(name, x, y, z):
    r = mpmath.sqrt(x * x + y * y + z * z)
    if name == "potential":
        return (
            x * y * _log(z, x, y, r) + y * z * _log(x, y, z, r) + z * x * _log(y, x, z, r)
            - x * x / 2 * mpmath.atan(y * z / (x * r))
            - y * y / 2 * mpmath.atan(z * x / (y * r))
            - z * z / 2 * mpmath.atan(x * y / (z * r))
        )
    if name in ("e", "n", "u"):
        if name == "e":
            a, b, c = x, y, z
        elif name == "n":
            a, b, c = y, z, x
        else:
            a, b, c = z, x, y
        return -(
            b * _log(c, a, b, r) + c * _log(b, a, c, r) - a * mpmath.atan(b * c / (a * r))
        )
    if name == "ee":
        return -mpmath.atan(y * z / (x * r))
    if name == "nn":
        return -mpmath.atan(x * z / (y * r))
    if name == "uu":
        return -mpmath.atan(x * y / (z * r))
    if name == "en":
        return _log(z, x, y, r)
    if name == "eu":
        return _log(y, x, z, r)
    if name == "nu":
        return _log(x, y, z, r)
    raise KeyError(name)


def prism_integral(name, point, prism):
    """Integral over the prism of the kernel (upward axis positive), times 1."""
    size = max(abs(float(v)) for v in list(prism) + list(point)) or 1.0
    offs = corners(point, prism, mpf(size) * mpf(10) ** -60)
    total = mpf(0)
    for i in (0, 1):
        for j in (0, 1):
            for k in (0, 1):
                sign = -1 if (i + j + k) % 2 == 0 else 1
                total += sign * kernel(name, offs[0][i], offs[1][j], offs[2][k])
    return float(total)


def on_edge(point, prism, axis):
    """Is the point on an edge (ends included) parallel to the axis (0, 1, 2)?"""
    for k in range(3):
        lo, hi = prism[2 * k], prism[2 * k + 1]
        if k == axis:
            if not lo <= point[k] <= hi:
                return False
        elif point[k] not in (lo, hi):
            return False
    return True


def singular(name, point, prism):
    axes = {"ee": (1, 2), "nn": (0, 2), "uu": (0, 1), "en": (2,), "eu": (1,), "nu": (0,)}
    return any(on_edge(point, prism, a) for a in axes.get(name, ()))


def reach(point, prism):
    """Largest distance between the point and a corner."""
    return sum(max(abs(point[k] - prism[2 * k]), abs(point[k] - prism[2 * k + 1])) ** 2
               for k in range(3)) ** 0.5
