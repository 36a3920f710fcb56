"""P05: quadratures."""
import math
import os

from pbt.core import law, require, close
from pbt.gens import coeffs, poly, polyint, logf


def exact2d(c, a, b, g, h):
    """Exact integral of sum c[i][j] x^i y^j over a<x<b, g0+g1 x < y < h0+h1 x (Fractions)."""
    from fractions import Fraction as F
    from numpy.polynomial import polynomial as P
    a, b = F(a), F(b)

    def mul(p, q):
        r = [F(0)] * (len(p) + len(q) - 1)
        for i, x in enumerate(p):
            for j, y in enumerate(q):
                r[i + j] += x * y
        return r
    total = F(0)
    for j in range(max(len(row) for row in c)):
        # ∫ y^j dy = (h^{j+1} - g^{j+1})/(j+1)
        hp, gp = [F(1)], [F(1)]
        for _ in range(j + 1):
            hp = mul(hp, [F(h[0]), F(h[1])])
            gp = mul(gp, [F(g[0]), F(g[1])])
        d = [(x - y) / (j + 1) for x, y in zip(hp, gp)]
        for i, row in enumerate(c):
            if j < len(row) and row[j]:
                for k, dk in enumerate(d):
                    n = i + k + 1
                    total += F(row[j]) * dk * (b ** n - a ** n) / n
    return float(total)


def bounds(st):
    return st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(
        lambda t: [t[0] / 8., t[1] / 8.])


@law('P05', lambda st: st.fixed_dictionaries({
    'c': coeffs(st, 1, 14), 'b': bounds(st), 'order': st.one_of(st.just(100), st.integers(1, 40)),
    'fixed': st.booleans()}), quick=500, thorough=8000, cpp=False,
     rule='polynomials of degree up to 13, any orientation of the bounds, orders 1-40 and the '
          'default 100, fixed-order and adaptive; non-trivial when the polynomial has degree >= 1 '
          'and the interval is not empty')
def one_dimensional(case, ctx):
    import numpy
    from common import integrators
    from common.integrators import gauss_legendre
    c = case['c']
    a, b = case['b']
    order = case['order']
    c = c[:2 * order]
    os.environ['GAUSS_LEGENDRE_ORDER'] = str(order)
    os.environ['FIXED_ORDER_1D_QUADRATURE'] = 'yes' if case['fixed'] else ''
    try:
        gauss_legendre.init_quadrature()
        got, err = integrators.integrate_1D(lambda x: poly(c, x), (a, b))
        direct = integrators.gaussian(lambda x: poly(c, x), a, b)
        wrapped = integrators.lambda_integrate((a, b))(lambda k: (lambda x: k * poly(c, x)))(2.)
        empty, _ = integrators.integrate_1D(lambda x: poly(c, x), (a, a))
    finally:
        del os.environ['GAUSS_LEGENDRE_ORDER']
        gauss_legendre.init_quadrature()
    want = polyint(c, a, b)
    scale = sum(abs(x) * max(abs(a), abs(b), 1) ** (k + 1) for k, x in enumerate(c)) + 1e-300
    close(got, want, 1e-10, 'integral', scale)
    close(direct, want, 1e-10, 'fixed-order integral', scale)
    close(wrapped, 2 * want, 1e-10, 'decorated integral', 2 * scale)
    close(empty, 0., 1e-10, 'integral over an empty interval', scale)
    if case['fixed']:
        require(numpy.isnan(err), 'a fixed-order quadrature has no error estimate')
    else:
        require(err >= 0, 'adaptive quadrature error estimate %r', err)
    ctx.label('fixed' if case['fixed'] else 'adaptive', 'reversed' if a > b else 'forward')
    ctx.nontrivial(len(c) > 1 and a != b)


@law('P05', lambda st: st.fixed_dictionaries({
    'c': coeffs(st, 1, 6), 'a': st.integers(0, 20), 'mid': st.integers(0, 20),
    'b': st.integers(0, 20), 's': logf(st, 1e-3, 1e3), 'k': st.floats(-3, 3)}),
     quick=200, thorough=3000, cpp=False,
     rule='smooth non-polynomial integrands exp(-s x) p(x): additivity, reversal, linearity')
def one_dimensional_algebra(case, ctx):
    import numpy
    from common import integrators as I
    s, c = case['s'], case['c']
    a, m, b = (case[x] / s for x in ('a', 'mid', 'b'))

    def f(x):
        return numpy.exp(-s * x) * poly(c, s * x)

    def F(u, v):
        return float(I.integrate_1D(f, (u, v))[0])
    scale = sum(abs(x) * math.factorial(k) for k, x in enumerate(c)) / s * 2 + 1e-300
    close(F(a, b), F(a, m) + F(m, b), 1e-9, 'additivity', scale)
    close(F(a, b), -F(b, a), 1e-9, 'reversal', scale)
    k = case['k']
    both = float(I.integrate_1D(lambda x: k * f(x) + f(2 * x), (a, b))[0])
    close(both, k * F(a, b) + F(2 * a, 2 * b) / 2, 1e-9, 'linearity', scale * (1 + abs(k)))
    ctx.nontrivial(len(set((a, m, b))) == 3)


def region(st):
    lin = st.tuples(st.integers(-8, 8), st.integers(-4, 4)).map(lambda t: [t[0] / 2., t[1] / 2.])
    return st.fixed_dictionaries({
        'c': st.lists(st.lists(st.integers(-5, 5), min_size=1, max_size=4), min_size=1,
                      max_size=4),
        'd': st.lists(st.lists(st.integers(-5, 5), min_size=1, max_size=3), min_size=1,
                      max_size=3),
        'b': bounds(st), 'g': lin, 'h': lin})


def poly2(c, x, y):
    r = 0. * x * y
    for i, row in enumerate(c):
        for j, v in enumerate(row):
            r = r + v * x ** i * y ** j
    return r


def scale2(c, case):
    B = max(1., abs(case['b'][0]), abs(case['b'][1]))
    Y = max(1., abs(case['g'][0]) + abs(case['g'][1]) * B,
            abs(case['h'][0]) + abs(case['h'][1]) * B)
    return sum(abs(v) * B ** (i + 1) * Y ** (j + 1) for i, row in enumerate(c)
               for j, v in enumerate(row)) * 4 + 1e-300


@law('P05', region, quick=300, thorough=5000, cpp=False,
     rule='polynomials in two variables over regions whose inner bounds depend on the outer '
          'variable; non-trivial when the integrand or the bounds distinguish the two variables')
def two_dimensional(case, ctx):
    from common import integrators as I
    from common.integrators import paired
    c, d, g, h = case['c'], case['d'], case['g'], case['h']
    a, b = case['b']

    def glo(x):
        return g[0] + g[1] * x

    def hhi(x):
        return h[0] + h[1] * x
    want = exact2d(c, a, b, g, h)
    wantd = exact2d(d, a, b, g, h)
    got, _ = I.integrate_2D(lambda x, y: poly2(c, x, y), ((a, b), (glo, hhi)))
    close(got, want, 1e-9, 'double integral', scale2(c, case))
    one, two = paired.integrate_2D(lambda x, y: (poly2(c, x, y), poly2(d, x, y)),
                                   ((a, b), (glo, hhi)))
    close(one, want, 1e-9, 'first of two double integrals', scale2(c, case))
    close(two, wantd, 1e-9, 'second of two double integrals', scale2(d, case))
    ctx.nontrivial(want != 0 and (len(c) > 1 or g[1] != 0 or h[1] != 0))


@law('P05', lambda st: st.fixed_dictionaries({
    'c': coeffs(st, 1, 12), 'd': coeffs(st, 1, 12), 'b': bounds(st)}),
     quick=200, thorough=3000, cpp=False, rule='pairs of polynomials')
def paired_one_dimensional(case, ctx):
    import numpy
    from common.integrators import paired
    a, b = case['b']
    if a == b:
        ctx.nontrivial(False)
        return
    one, two = paired.integrate_1D(
        lambda x: numpy.array([poly(case['c'], x), poly(case['d'], x)]), (a, b))
    for got, c, name in ((one, case['c'], 'first'), (two, case['d'], 'second')):
        scale = sum(abs(v) * max(abs(a), abs(b), 1) ** (k + 1) for k, v in enumerate(c)) + 1e-300
        close(got, polyint(c, a, b), 1e-10, name + ' integral', scale)


@law('P05', lambda st: st.fixed_dictionaries({
    'c': coeffs(st, 1, 25), 'order': st.one_of(st.just(100), st.integers(1, 60))}),
     quick=200, thorough=3000, cpp=False,
     rule='polynomials times the exponential weight on the half line; non-trivial with degree >= 2')
def laguerre(case, ctx):
    from common.integrators import gauss_laguerre as L
    os.environ['GAUSS_LAGUERRE_ORDER'] = str(case['order'])
    try:
        L.init_quadrature()
        c = case['c'][:2 * case['order']]
        got, _ = L.integrate_1D(lambda x: poly(c, x))
        also = L.gaussian(lambda x: poly(c, x))
    finally:
        del os.environ['GAUSS_LAGUERRE_ORDER']
        L.init_quadrature()
    want = sum(v * math.factorial(k) for k, v in enumerate(c))
    scale = sum(abs(v) * math.factorial(k) for k, v in enumerate(c)) + 1e-300
    close(got, want, 1e-8, 'Gauss-Laguerre integral', scale)
    close(also, want, 1e-8, 'Gauss-Laguerre integral', scale)
    ctx.nontrivial(len(c) > 2)


@law('P05', lambda st: st.fixed_dictionaries({
    'c': st.lists(st.integers(-9, 9), min_size=1, max_size=3),
    'd': st.lists(st.integers(-9, 9), min_size=1, max_size=3),
    'x': st.lists(st.integers(1, 20), min_size=2, max_size=10).filter(lambda l: len(l) % 2 == 0),
    'y': st.lists(st.integers(1, 20), min_size=2, max_size=8).filter(lambda l: len(l) % 2 == 0),
    'x0': st.integers(-10, 10)}), quick=300, thorough=4000, cpp=False,
     rule='parabolas sampled on uneven grids with an odd number of points')
def simpson(case, ctx):
    import numpy
    from common.integrators import paired
    x = case['x0'] + numpy.cumsum([0] + case['x']) / 7.
    y = numpy.cumsum([0] + case['y']) / 5.
    c, d = case['c'], case['d']
    one, two = paired.integrate_1D_simpsons([poly(c, x), poly(d, x)], x)
    sc = 30. * max(abs(x).max(), 1.) ** 3
    close(one, polyint(c, x[0], x[-1]), 1e-10, 'first Simpson integral', sc)
    close(two, polyint(d, x[0], x[-1]), 1e-10, 'second Simpson integral', sc)
    # the last axis of the samples runs over the first grid
    s1 = numpy.array([poly(c, x) * v for v in poly(d, y)])
    s2 = numpy.array([poly(d, x) * v for v in poly(c, y)])
    one, two = paired.integrate_2D_simpsons([s1, s2], (x, y))
    sc *= 30. * max(abs(y).max(), 1.) ** 3
    close(one, polyint(c, x[0], x[-1]) * polyint(d, y[0], y[-1]), 1e-10, 'first 2D Simpson', sc)
    close(two, polyint(d, x[0], x[-1]) * polyint(c, y[0], y[-1]), 1e-10, 'second 2D Simpson', sc)
    ctx.nontrivial(len(c) == 3 or len(d) == 3)
