"""Strategies shared by the laws (all produce JSON-able values)."""
import math


def logf(st, lo, hi):
    """Log-uniform floats in [lo, hi] (shrinks towards lo)."""
    a, b = math.log(lo), math.log(hi)
    return st.floats(0, 1).map(lambda u: math.exp(a + (b - a) * u))


def unif(st, lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def coeffs(st, n_min, n_max, size=10.):
    return st.lists(st.floats(-size, size, allow_nan=False).map(lambda x: round(x, 3)),
                    min_size=n_min, max_size=n_max)


def poly(c, x):
    """Value of sum c[k] x^k (works on arrays)."""
    r = 0. * x
    for a in reversed(c):
        r = r * x + a
    return r


def polyint(c, a, b):
    return sum(ck * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k, ck in enumerate(c))
