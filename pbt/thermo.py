"""Reference thermodynamics (dimensionless, T = 1): independent of the code under test."""
import math
from functools import lru_cache

from scipy.integrate import quad


def occ(E, eta):
    if E > 700:
        return 0.
    if eta < 0:
        return 1 / math.expm1(E) if E > 0 else math.inf
    return 1 / (math.exp(E) + 1)


def _int(f, a, b, points):
    pts = sorted({p for p in points if a < p < b})
    edges = [a] + pts + [b]
    return sum(quad(f, lo, hi, epsabs=0, epsrel=1e-11, limit=400)[0]
               for lo, hi in zip(edges, edges[1:]))


@lru_cache(maxsize=4096)
def moments(r, eta, cut=None):
    """(n, rho, P) of one degree of freedom at m/T = r, integrated up to p = cut T."""
    top = cut if cut is not None else 40 + 8 * math.sqrt(40 * (r + 1))
    pts = [r * 0.3, r, 3 * r, 0.03, 0.3, 1., 3., 8., 15., math.sqrt(r), 3 * math.sqrt(r),
           6 * math.sqrt(r)]

    def E(p):
        return math.sqrt(p * p + r * r)
    scale = math.exp(min(r, 600))       # keeps the tails above the underflow

    def f(p):
        e = E(p)
        if e > 690 and e - r > 80:
            return 0.
        # occ(E) e^r without overflow
        x = math.exp(-(e - r)) if r <= 600 else math.exp(-(e - 600))
        return x / (1 + eta * math.exp(-e)) if eta > 0 or e > 1e-3 \
            else scale / math.expm1(e)
    k = 1 / (2 * math.pi ** 2) / scale
    n = _int(lambda p: p * p * f(p), 0, top, pts) * k
    rho = _int(lambda p: p * p * E(p) * f(p), 0, top, pts) * k
    P = _int(lambda p: p ** 4 / E(p) * f(p) if p > 0 else 0., 0, top, pts) * k / 3
    return n, rho, P


@lru_cache(maxsize=4096)
def fluctuation(r, eta, k):
    """I_k = 1/(2 pi^2) int y^k f (1 -+ f) dy at aT = 1."""
    top = 40 + 8 * math.sqrt(40 * (r + 1))
    pts = [r * 0.3, r, 3 * r, 0.03, 0.3, 1., 3., 8., 15., math.sqrt(r), 3 * math.sqrt(r),
           6 * math.sqrt(r)]
    scale = math.exp(min(r, 600))

    def g(y):
        e = math.sqrt(y * y + r * r)
        if e - min(r, 600) > 700:
            return 0.
        if eta < 0 and e < 1e-3:
            return y ** k / (2 * math.sinh(e / 2)) ** 2 * scale
        return y ** k * math.exp(-(e - min(r, 600))) / (1 + eta * math.exp(-e)) ** 2
    return _int(g, 0, top, pts) / (2 * math.pi ** 2) / scale
