"""P18: the D-functions are the momentum integrals that define them."""
import itertools
import math
from fractions import Fraction

from pbt.core import law, require, close
from pbt.gens import logf

# A function of lambda is a sum of c * i^r * lambda^-n * exp(i k lambda): {(n, k): [c_re, c_im]}


def mul(a, b):
    r = {}
    for (n, k), (x, y) in a.items():
        for (m, q), (u, v) in b.items():
            e = r.setdefault((n + m, k + q), [Fraction(0), Fraction(0)])
            e[0] += x * u - y * v
            e[1] += x * v + y * u
    return r


H = Fraction(1, 2)


def sin(p):
    return {(0, p): [Fraction(0), -H], (0, -p): [Fraction(0), H]} if p else {}


def osc(p):
    """p (cos(p l) - sin(p l) / (p l))."""
    if not p:
        return {}
    return {(0, p): [p * H, Fraction(0)], (0, -p): [p * H, Fraction(0)],
            (1, p): [Fraction(0), H], (1, -p): [Fraction(0), -H]}


def integral(factors, n0):
    """4/pi times the integral over positive lambda of the product over lambda^n0 (even)."""
    t = {(n0, Fraction(0)): [Fraction(1), Fraction(0)]}
    for f in factors:
        t = mul(t, f)
    tot = Fraction(0)
    for (n, k), (x, y) in t.items():
        # finite part of the integral of lambda^-n exp(i k lambda) over the whole line
        s = (k > 0) - (k < 0)
        v = Fraction(s) * k ** (n - 1) / math.factorial(n - 1)       # times pi i^n
        re, im = [(x, y), (-y, x), (-x, -y), (y, -x)][n % 4]
        tot += 2 * re * v
    return tot


def exact(which, p):
    p = [Fraction(x) for x in p]
    if which == 'D1':
        return integral([sin(x) for x in p], 2)
    if which == 'D2':
        return integral([sin(p[0]), sin(p[1]), osc(p[2]), osc(p[3])], 2)
    if which == 'D3':
        return integral([osc(x) for x in p], 2)
    if which == 'Db1':
        return integral([sin(x) for x in p], 1)
    return integral([sin(p[0]), osc(p[1]), osc(p[2])], 1)


def momenta(st, n):
    """Momenta whose sums are exact in floating point."""
    one = st.one_of(st.integers(1, 12).map(float), st.integers(1, 4096).map(lambda k: k / 64.),
                    st.integers(1, 2000).map(float))
    free = st.lists(one, min_size=n, max_size=n)

    def closed(c):
        # one momentum is a combination of the others: limits of the allowed region
        xs, signs = c
        s = abs(sum(x if b else -x for x, b in zip(xs, signs)))
        return xs + [s if s else xs[0]]
    edge = st.tuples(st.lists(one, min_size=n - 1, max_size=n - 1),
                     st.lists(st.booleans(), min_size=n - 1, max_size=n - 1)).map(closed)
    return st.one_of(free, free, edge).flatmap(st.permutations)


@law('P18', lambda st: momenta(st, 4), quick=1500, thorough=40000,
     rule='four momenta, inside, on and outside the limits of the allowed region; non-trivial when '
          'the momenta can add up to zero')
def basic_functions(case, ctx):
    from interactions.four_particle.cpp import integral as c
    top = max(case)
    inside = 2 * top < sum(case)
    for which, power in (('D1', 1), ('D2', 3), ('D3', 5)):
        want = exact(which, case)
        got = getattr(c, which)(*case)
        close(got, float(want), 1e-12, '%s%r' % (which, tuple(case)), 200 * top ** power)
        if not inside and 2 * top > sum(case):
            require(want == 0, 'oracle')
    ctx.label('inside' if inside else 'edge' if 2 * top == sum(case) else 'outside')
    ctx.nontrivial(inside)


@law('P18', lambda st: momenta(st, 3), quick=1000, thorough=20000,
     rule='three momenta, inside, on and outside the limits; non-trivial when they form a triangle')
def functions_at_rest(case, ctx):
    from interactions.four_particle.cpp import integral as c
    top = max(case)
    inside = 2 * top < sum(case)
    for which, power in (('Db1', 0), ('Db2', 2)):
        want = exact(which, case)
        close(getattr(c, which)(*case), float(want), 1e-12, '%s%r' % (which, tuple(case)),
              200. * top ** power)
    ctx.nontrivial(inside)


def config(st):
    return st.fixed_dictionaries({
        'p': st.lists(logf(st, .01, 50.), min_size=4, max_size=4),
        'm': st.lists(st.one_of(st.just(0.), logf(st, .01, 50.)), min_size=4, max_size=4),
        'K1': st.floats(-3, 3).map(lambda x: round(x, 3)), 'K2': st.floats(-3, 3).map(lambda x: round(x, 3)),
        'order': st.permutations([0, 1, 2, 3]), 'perm': st.permutations([0, 1, 2, 3]),
        'sides': st.lists(st.sampled_from([-1, 1]), min_size=4, max_size=4)})


def energies(case):
    return [math.hypot(p, m) for p, m in zip(case['p'], case['m'])]


def scale(case, E):
    top = max(case['p'])
    P = 1.
    for e in E:
        P *= e
    return (abs(case['K1']) * (P * top + sum(E[i] * E[j] for i in range(4) for j in range(i)) * top ** 3
                               + top ** 5)
            + abs(case['K2']) * max(case['m']) ** 2 * (max(E) ** 2 * top + top ** 3)) * 10


@law('P18', config, quick=1000, thorough=20000,
     rule='matrix elements with random masses, orders and sides; non-trivial with both constants')
def combination(case, ctx):
    """Products of four-vectors: time-like parts minus or plus the space-like ones."""
    from interactions.four_particle.cpp import integral as c
    p, m, s, o = case['p'], case['m'], case['sides'], case['order']
    E = energies(case)
    i, j, k, l = o
    d1 = float(exact('D1', p))
    d2 = lambda a, b: float(exact('D2', [p[x] for x in range(4) if x not in (a, b)] + [p[a], p[b]])) * s[a] * s[b]
    d3 = float(exact('D3', p)) * s[0] * s[1] * s[2] * s[3]
    want = case['K1'] * (E[0] * E[1] * E[2] * E[3] * d1 + E[i] * E[j] * d2(k, l) + E[k] * E[l] * d2(i, j)
                         + d3) + case['K2'] * m[i] * m[j] * (E[k] * E[l] * d1 + d2(k, l))
    got = c.D(p, E, m, case['K1'], case['K2'], o, s)
    sc = scale(case, E)
    close(got, want, 1e-11, 'D', sc)
    # the numbering of the particles is a convention
    q = case['perm']
    inv = [q.index(x) for x in range(4)]
    re = lambda v: [v[x] for x in q]
    close(c.D(re(p), re(E), re(m), case['K1'], case['K2'], [inv[x] for x in o], re(s)), got, 1e-11,
          'other numbering', sc)
    # the two pairs and their members can be exchanged (the masses belong to the first pair)
    close(c.D(p, E, m, case['K1'], case['K2'], [j, i, l, k], s), got, 1e-11, 'members exchanged', sc)
    close(c.D(p, E, m, case['K1'], 0., [k, l, i, j], s), c.D(p, E, m, case['K1'], 0., o, s), 1e-11,
          'pairs exchanged', sc)
    # linear in the constants
    close(c.D(p, E, m, case['K1'], 0., o, s) + c.D(p, E, m, 0., case['K2'], o, s), got, 1e-11,
          'sum of the terms', sc)
    close(c.D(p, E, m, 2 * case['K1'], 2 * case['K2'], o, s), 2 * got, 1e-12, 'twice the constants', sc)
    ctx.nontrivial(case['K1'] and case['K2'] and d1)


@law('P18', config, quick=1000, thorough=20000,
     rule='the first particle at rest and slow; non-trivial when the others form a triangle')
def limit_at_rest(case, ctx):
    """The function for a particle at rest is the limit of D / (p0 E0)."""
    from interactions.four_particle.cpp import integral as c
    p, m = list(case['p']), list(case['m'])
    rest = sorted(p[1:])
    gap = abs(rest[0] + rest[1] - rest[2])
    if m[0] == 0:
        m[0] = 1.
    eps = 1e-4 * min(rest[0], gap, m[0])
    if gap < 1e-6 * rest[2] or eps < 1e-7 * rest[2]:
        ctx.nontrivial(False)
        return
    p[0] = 0.
    E = [math.hypot(a, b) for a, b in zip(p, m)]
    at_rest = c.Db(p, E, m, case['K1'], case['K2'], case['order'], case['sides'])
    p[0] = eps
    E = [math.hypot(a, b) for a, b in zip(p, m)]
    slow = c.D(p, E, m, case['K1'], case['K2'], case['order'], case['sides']) / (p[0] * E[0])
    P = E[1] * E[2] * E[3]
    sc = abs(case['K1']) * (P + max(E[1:]) * rest[2] ** 2) + \
        abs(case['K2']) * (max(m) ** 2 * max(E[1:]) + max(m) * (max(E[1:]) ** 2 + rest[2] ** 2))
    # rounding: differences of fifth powers divided by eps
    lost = 1e-14 * scale(dict(case, m=m), E) / (eps * E[0])
    require(abs(at_rest - slow) <= 1e-3 * sc + lost, 'at rest %r, slow %r (scale %r)', at_rest, slow, sc)
    ctx.nontrivial(2 * rest[2] < sum(rest) and lost < 1e-2 * sc)
