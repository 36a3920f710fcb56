"""P31: orthogonal polynomials and the quadrature rules made from them."""
import math
from fractions import Fraction

import numpy

from pbt.core import law, require, close, all_close, Skip


def parameter(st):
    return st.one_of(st.integers(0, 4).map(float), st.floats(-0.9, 4.).map(lambda x: round(x, 3)),
                     st.just(-0.5))


def jacobi_moment(a, b, j, k):
    """Integral of (1-x)^(a+j) (1+x)^(b+k) over [-1, 1]."""
    lg = math.lgamma
    return 2 ** (a + b + j + k + 1) * math.exp(lg(a + j + 1) + lg(b + k + 1) - lg(a + b + j + k + 2))


def exact(x, w, a, b, degree, what):
    """The rule integrates (1-x)^j (1+x)^k exactly for every j + k up to the degree."""
    for d in range(degree + 1):
        for j in {0, d // 2, d}:
            k = d - j
            got = float(numpy.sum(w * (1 - x) ** j * (1 + x) ** k))
            close(got, jacobi_moment(a, b, j, k), 1e-9, '%s: integral of (1-x)^%d (1+x)^%d' % (what, j, k))


@law('P31', lambda st: st.fixed_dictionaries({
    'N': st.integers(2, 14), 'a': parameter(st), 'b': parameter(st)}), quick=400, thorough=8000,
     rule='Gauss rules of every order up to 14 for Jacobi weights; non-trivial with different exponents')
def gauss_rules(case, ctx):
    from common import orthopoly as o
    N, a, b = case['N'], case['a'], case['b']
    x, w = o.gauss(*o.rec_jacobi(N, a, b))
    require(len(x) == len(w) == N, '%d nodes, %d weights', len(x), len(w))
    require((numpy.diff(x) > 0).all() and -1 < x[0] and x[-1] < 1, 'nodes %r', x)
    require((w > 0).all(), 'weights %r', w)
    exact(x, w, a, b, 2 * N - 1, 'Gauss')
    # one degree more cannot be integrated exactly: the nodal polynomial squared is positive
    require(float(numpy.sum(w * numpy.prod([x - t for t in x], axis=0) ** 2)) < 1e-20, 'nodes')
    # same rule on [0, 1], where the weight is (1-x)^a x^b
    y, v = o.gauss(*o.rec_jacobi01(N, a, b))
    all_close(y, (1 + x) / 2, 1e-9, 'nodes on [0, 1]', 1e-3)
    all_close(v, w / 2 ** (a + b + 1), 1e-7, 'weights on [0, 1]', 1e-6 * v.max())
    ctx.nontrivial(a != b)


@law('P31', lambda st: st.fixed_dictionaries({
    'N': st.integers(3, 12), 'a': parameter(st), 'b': parameter(st), 'x': st.floats(0, 3),
    'left': st.booleans(), 'y': st.floats(0, 3)}), quick=400, thorough=8000,
     rule='rules with one or two prescribed nodes; non-trivial when a node is outside the interval')
def prescribed_nodes(case, ctx):
    from common import orthopoly as o
    N, a, b = case['N'], case['a'], case['b']
    xr = (-1 - case['x']) if case['left'] else 1 + case['x']
    x, w = o.radau(*(o.rec_jacobi(N, a, b) + (xr,)))
    require(len(x) == N, '%d nodes', len(x))
    close(x[0] if case['left'] else x[-1], xr, 1e-8, 'prescribed node')
    require((numpy.diff(x) > 0).all() and (w > 0).all(), 'rule %r %r', x, w)
    exact_scaled(x, w, a, b, 2 * N - 2, 'one prescribed node')
    lo, hi = -1 - case['x'], 1 + case['y']
    x, w = o.lobatto(*(o.rec_jacobi(N, a, b) + (lo, hi)))
    require(len(x) == N, '%d nodes', len(x))
    close(x[0], lo, 1e-8, 'first prescribed node')
    close(x[-1], hi, 1e-8, 'second prescribed node')
    require((numpy.diff(x) > 0).all() and (w > 0).all(), 'rule %r %r', x, w)
    exact_scaled(x, w, a, b, 2 * N - 3, 'two prescribed nodes')
    ctx.nontrivial(case['x'] > 0)


def exact_scaled(x, w, a, b, degree, what):
    """As exact(); nodes outside [-1, 1] lose accuracy for high powers."""
    top = float(numpy.abs(x).max())
    for d in range(degree + 1):
        for j in {0, d // 2, d}:
            k = d - j
            t = w * (1 - x) ** j * (1 + x) ** k
            close(float(numpy.sum(t)), jacobi_moment(a, b, j, k), 1e-8,
                  '%s: integral of (1-x)^%d (1+x)^%d' % (what, j, k), float(numpy.abs(t).sum()))


@law('P31', lambda st: st.fixed_dictionaries({
    'N': st.integers(0, 12), 'a': parameter(st), 'b': parameter(st),
    'x': st.lists(st.floats(-1, 1), min_size=1, max_size=6)}), quick=400, thorough=8000,
     rule='Jacobi polynomials and derivatives at random points; non-trivial from third order')
def polynomials(case, ctx):
    from common import orthopoly as o
    from scipy.special import eval_jacobi
    N, a, b = case['N'], case['a'], case['b']
    x = numpy.array(case['x'])
    P = o.jacobi(N, a, b, x)
    require(P.shape == (len(x), N + 1), 'shape %s', P.shape)
    D = o.jacobiD(N, a, b, x)
    if N:
        require(D.shape == (len(x), N + 1), 'shape %s', D.shape)
    one = lambda n: max(abs(float(eval_jacobi(n, a, b, t))) for t in (-1, 1, 0))
    for n in range(N + 1):
        all_close(P[:, n], eval_jacobi(n, a, b, x), 1e-8, 'P_%d' % n, one(n))
        want = 0.5 * (n + a + b + 1) * eval_jacobi(n - 1, a + 1, b + 1, x) if n else 0 * x
        if N:
            all_close(D[:, n], want, 1e-8, "P'_%d" % n, n * n * one(n) + 1e-9)
    # normalised polynomials are orthonormal
    t, w = o.gauss(*o.rec_jacobi(N + 2, a, b))
    if a + b != -1:            # the norm of P_0 is formed from gamma(a+b+1)
        Q = o.jacobi(N, a, b, t, 2)
        G = (Q * w[:, None]).T.dot(Q)
        require(abs(G - numpy.eye(N + 1)).max() < 1e-7, 'scalar products %r', G)
    if N and a + b != -1 and a + b + 2 != -1:
        DQ, Qx = o.jacobiD(N, a, b, x, 2), o.jacobi(N, a, b, x, 2)
        for n in range(N + 1):
            # the ratio to the standard polynomial is the same before and after the derivative
            i = int(numpy.argmax(abs(P[:, n])))
            if abs(P[i, n]) > 1e-3 * one(n):
                all_close(DQ[:, n], D[:, n] * Qx[i, n] / P[i, n], 1e-7,
                          "derivative of the normalised P_%d" % n,
                          (n * n * one(n) + 1e-9) * Qx[i, n] / P[i, n])
    # monic polynomials from the recursion
    if N > 1:
        al, be = o.rec_jacobi(N, a, b)
        M = o.polyval(al, be, t)
        require(M.shape == (len(t), N + 1), 'shape %s', M.shape)
        G = (M * w[:, None]).T.dot(M)
        s = numpy.sqrt(numpy.diag(G))
        G = G / s / s[:, None]
        require(abs(G - numpy.eye(N + 1)).max() < 1e-7, 'scalar products %r', G)
        for n in range(N):
            close(numpy.prod(be[:n + 1]), s[n] ** 2, 1e-7, 'norm of the monic polynomial %d' % n)
    ctx.nontrivial(N >= 3)


def shifted_legendre(n):
    """Coefficients of the monic Legendre polynomial on [0, 1]."""
    c = [Fraction((-1) ** (n - k) * math.comb(n, k) * math.comb(n + k, k)) for k in range(n + 1)]
    return [x / c[-1] for x in c]


@law('P31', lambda st: st.fixed_dictionaries({
    'N': st.integers(1, 8), 'int': st.booleans(), 'ai': st.integers(0, 6),
    'a': st.integers(-18, 80).map(lambda k: k / 20.)}), quick=300, thorough=2000,
     rule='logarithmic weights with whole and fractional powers; non-trivial from second order')
def logarithmic_weight(case, ctx):
    from common import orthopoly as o
    N = case['N']
    a = case['ai'] if case['int'] else case['a']
    if not case['int'] and a == int(a):
        raise Skip()
    F = Fraction(a).limit_denominator(100)
    mm = o.mm_log(2 * N, a)
    require(len(mm) == 2 * N, '%d moments', len(mm))
    first = None
    for n in range(2 * N):
        want = sum(c / (F + k + 1) ** 2 for k, c in enumerate(shifted_legendre(n)))
        first = first or abs(float(want))
        close(mm[n], float(want), 1e-8, 'modified moment %d' % n, first * 1e-3 * 4. ** -n)
    al, be = o.rec_jaclog(N, a)
    require(len(al) == len(be) == N, '%d coefficients', len(al))
    if N == 1:
        return
    x, w = o.gauss(al, be)
    require((x > 0).all() and (x < 1).all() and (w > 0).all(), 'rule %r %r', x, w)
    for k in range(2 * N):
        close(float(numpy.sum(w * x ** k)), 1. / (a + k + 1) ** 2, 1e-7, 'integral of x^(a+%d) log(1/x)' % k)
    ctx.nontrivial(N >= 2)


@law('P31', lambda st: st.fixed_dictionaries({
    'N': st.integers(-2, 5), 'kind': st.sampled_from(['float', 'size', 'a', 'b', 'log'])}),
     quick=40, thorough=100, rule='parameters outside the domain; all non-trivial')
def invalid_parameters(case, ctx):
    from common import orthopoly as o
    N = case['N']
    calls = {'float': (TypeError, lambda: o.rec_jacobi01(float(N), 0, 0)),
             'size': (ValueError, lambda: o.rec_jacobi01(min(N, 0), 0, 0)),
             'a': (ValueError, lambda: o.rec_jacobi01(3, -1 - abs(N), 0)),
             'b': (ValueError, lambda: o.rec_jacobi01(3, 0, -1 - abs(N))),
             'log': (ValueError, lambda: o.mm_log(3, -1 - abs(N)))}
    exc, fn = calls[case['kind']]
    try:
        r = fn()
    except exc:
        ctx.nontrivial()
        return
    require(False, 'accepted: %r', r)
