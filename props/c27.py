"""C27: associated Legendre functions."""

from decimal import Decimal, getcontext, localcontext
from functools import lru_cache

import numpy as np

from harness.core import Property, close, fail, hm, require, st
from harness.gens import SEED, fl, pick, rng

PROP = Property(
    "C27", "Associated Legendre functions match their definition for all degrees and orders",
    rule="a case is an argument in [-1, 1] and a maximum degree; non-trivial when the degree is "
    "at least 2 and the argument is not 0 or ±1",
    technique="explicit sum of the definition in exact arithmetic for sampled degrees and orders, "
    "identities of every degree, and derivatives from the definition",
)


def module():
    hm.__version__  # noqa: B018  (loads the package)
    import harmonica._spherical_harmonics.legendre as legendre
    return legendre


NAMES = {"none": "associated_legendre", "schmidt": "associated_legendre_schmidt",
         "full": "associated_legendre_full"}


def functions(norm):
    m = module()
    return getattr(m, NAMES[norm]), getattr(m, NAMES[norm] + "_derivative")


@lru_cache(maxsize=4096)
def factorial(n):
    return n * factorial(n - 1) if n > 1 else 1


def exact(n, m, x, derivative=0):
    """P_nm and its derivatives along the colatitude, without normalization, as Decimals.

    sin^m(t) d^m P_n(x)/dx^m with the sum over the powers of x
    """
    x = Decimal(float(x))
    s = ((1 - x) * (1 + x)).sqrt()

    def q(order):
        """d^order P_n / dx^order"""
        total = Decimal(0)
        for k in range((n - order) // 2 + 1 if order <= n else 0):
            c = factorial(2 * n - 2 * k) // factorial(n - 2 * k - order)
            total += (-1) ** k * Decimal(c) / (factorial(k) * factorial(n - k)) * power(x, n - 2 * k - order)
        return total / 2**n

    def power(b, e):
        return Decimal(1) if e == 0 else b**e

    if derivative == 0:
        return power(s, m) * q(m)
    # d/dt: x' = -s, s' = x
    if derivative == 1:
        return (m * power(s, m - 1) * x * q(m) if m else 0) - power(s, m + 1) * q(m + 1)
    out = -(power(s, m) * x * q(m + 1)) * (m + 1) + power(s, m + 2) * q(m + 2)
    if m:
        out += -m * power(s, m) * q(m) - m * power(s, m) * x * q(m + 1)
    if m > 1:
        out += m * (m - 1) * power(s, m - 2) * x * x * q(m)
    return out


def normalization(n, m, norm):
    if norm == "none":
        return Decimal(1)
    v = Decimal(factorial(n - m) * (2 if m else 1)) / factorial(n + m)
    return (v * (2 * n + 1 if norm == "full" else 1)).sqrt()


def argument(draw):
    return draw(st.one_of(
        fl(-1, 1), pick(-1.0, 1.0, 0.0, 0.5, -0.5, np.nextafter(1, 0), -np.nextafter(1, 0)),
        fl(-12, -3).map(lambda e: 1 - 10.0**e), fl(-12, -3).map(lambda e: 10.0**e - 1),
        fl(0, np.pi).map(lambda t: float(np.cos(t))), fl(-15, -3).map(lambda e: 10.0**e)))


@st.composite
def case_st(draw):
    norm = draw(pick("none", "schmidt", "full"))
    top = 13 if norm == "none" else draw(pick(4, 13, 13, 40, 90))
    return {"norm": norm, "x": float(draw(st.composite(lambda d: argument(d))())),
            "degree": draw(st.one_of(st.integers(0, top), st.just(top))), "seed": draw(SEED)}


def run(case, extra=0):
    """Values and derivatives, in arrays with room around what must be written."""
    n = case["degree"]
    p_of, d_of = functions(case["norm"])
    outs = []
    big = [np.full((n + 3, n + 3), 7.25e77) for _ in range(2 + extra)]
    inner = [b[1:-1, 1:-1] for b in big]
    p_of(case["x"], n, inner[0])
    for k in range(1, 2 + extra):
        before = inner[k - 1].copy()
        d_of(n, inner[k - 1], inner[k])
        require(np.array_equal(before, inner[k - 1]), "the derivative changed its argument")
    upper = np.triu(np.ones((n + 1, n + 1), bool), 1)
    for b, v in zip(big, inner):
        frame = np.ones(b.shape, bool)
        frame[1:-1, 1:-1] = upper
        if not (b[frame] == 7.25e77).all():
            fail("an entry outside of the array or of order above the degree was written")
        outs.append(v)
    return outs


def weight(n, m, norm):
    """Size of the functions of a degree and order."""
    if norm == "schmidt":
        return 1.0
    if norm == "full":
        return np.sqrt(2 * n + 1.0)
    return float((Decimal(factorial(n + m)) / (factorial(n - m) * (2 if m else 1))).sqrt())


@PROP.clause("values and derivatives against the definition", case_st(), quick=500, thorough=20000,
             examples=[{"norm": k, "x": x, "degree": n, "seed": n} for k in NAMES
                       for n in (0, 1, 2, 13) for x in (1.0, 0.3)])
def definition(case, ctx):
    degree, norm, x = case["degree"], case["norm"], case["x"]
    ctx.trivial(degree < 2 or x in (-1.0, 0.0, 1.0))
    ctx.event(norm)
    ctx.event("low" if degree < 14 else "high")
    p, d1, d2 = run(case, 1)
    pairs = [(n, m) for n in range(degree + 1) for m in range(n + 1)]
    if len(pairs) > 40:
        r = rng(case["seed"])
        some = [pairs[k] for k in r.choice(len(pairs), 25, replace=False)]
        pairs = some + [(degree, 0), (degree, 1), (degree, degree), (degree, degree - 1),
                        (1, 0), (1, 1), (2, 1), (2, 2), (degree, 2)]
    with localcontext(getcontext()) as ctx_:
        ctx_.prec = 60 + 2 * degree
        for n, m in pairs:
            scale = weight(n, m, norm) * (n + 1)
            c = normalization(n, m, norm)
            for k, (v, what) in enumerate(((p, "P"), (d1, "dP"), (d2, "d²P"))):
                expected = float(exact(n, m, x, k) * c)
                # the functions of arguments close to ±1 change fast with the argument
                if not abs(v[n, m] - expected) <= 4e-14 * scale * (n + 1) ** k * (n + 3):
                    fail(f"{what}({n}, {m}) at {x!r} ({norm}): {v[n, m]!r} instead of {expected!r}")


@st.composite
def identity_st(draw):
    norm = draw(pick("schmidt", "full"))
    return {"norm": norm, "x": float(draw(st.composite(lambda d: argument(d))())),
            "degree": draw(pick(13, 60, 200, 500, 1000, 2000)), "seed": draw(SEED)}


@PROP.clause("identities of high degrees", identity_st(), quick=60, thorough=1500)
def identities(case, ctx):
    """Addition theorem, the sum of the squared derivatives, and Legendre's equation."""
    degree, norm, x = case["degree"], case["norm"], case["x"]
    ctx.trivial(x in (-1.0, 0.0, 1.0))
    p, d1, d2 = run(case, 1)
    n = np.arange(degree + 1.0)
    low = np.tril(np.ones(p.shape, bool))
    p, d1, d2 = (np.where(low, v, 0) for v in (p, d1, d2))
    c = np.sqrt(2 * n + 1)[:, None] if norm == "full" else 1.0
    p, d1, d2 = p / c, d1 / c, d2 / c
    tol = 1e-12 * (n + 10)
    close((p**2).sum(axis=1), np.ones(degree + 1), "sum over the orders of P²", atol=tol)
    close((d1**2).sum(axis=1) / np.maximum(n * (n + 1) / 2, 1), np.minimum(n, 1),
          "sum over the orders of dP²", atol=tol)
    # sin² d²P + sin cos dP + (n (n + 1) sin² - m²) P = 0
    s = np.sqrt((1 - x) * (1 + x))
    m = np.arange(degree + 1.0)
    left = s**2 * d2 + s * x * d1 + (n * (n + 1))[:, None] * s**2 * p - (m**2)[None, :] * p
    close(left / (n * (n + 1) + 1)[:, None], np.zeros(p.shape), "Legendre's equation", atol=tol[:, None])


@PROP.clause("normalizations agree", case_st().map(
    lambda c: {**c, "norm": "none", "degree": min(max(c["degree"], 1), 13)}), quick=300, thorough=6000)
def agree(case, ctx):
    """The three normalizations differ only by their factors, and parity in the argument."""
    degree = case["degree"]
    ctx.trivial(degree < 2 or case["x"] in (-1.0, 0.0, 1.0))
    out = {k: run({**case, "norm": k}) for k in NAMES}
    back = run({**case, "norm": "schmidt", "x": -case["x"]})
    for n in range(degree + 1):
        for m in range(n + 1):
            for k in range(2):
                v, s, f = (out[key][k][n, m] for key in ("none", "schmidt", "full"))
                tol = 1e-12 * (n + 1)
                close(v / weight(n, m, "none"), s, f"({n}, {m}) unnormalized against Schmidt", atol=tol)
                close(f / np.sqrt(2 * n + 1), s, f"({n}, {m}) full against Schmidt", atol=tol)
                close(back[k][n, m], (-1) ** (n + m + k) * s, f"({n}, {m}) at -x", atol=tol)
