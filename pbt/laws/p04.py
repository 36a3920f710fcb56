"""P04: momentum grids."""
import math
import os

from pbt.core import law, require, close
from pbt.gens import logf


def basics(g, n, top, what):
    import numpy
    t = numpy.asarray(g.TEMPLATE)
    require(t.shape == (n,), '%s: %s points, asked for %d', what, t.shape, n)
    require(g.MOMENTUM_SAMPLES == n, '%s: MOMENTUM_SAMPLES %r', what, g.MOMENTUM_SAMPLES)
    require(t[0] == 0 == g.MIN_MOMENTUM, '%s starts at %r', what, t[0])
    close(t[-1], top, 1e-12, what + ': last point')
    close(g.MAX_MOMENTUM, top, 1e-12, what + ': MAX_MOMENTUM')
    require(tuple(g.BOUNDS) == (g.MIN_MOMENTUM, g.MAX_MOMENTUM), '%s: BOUNDS %r', what, g.BOUNDS)
    require(bool(numpy.all(numpy.diff(t) > 0)), '%s is not increasing', what)
    return t


def spec(st):
    return st.fixed_dictionaries({
        'n': st.one_of(st.none(), st.integers(2, 300), st.integers(2, 3000)),
        'max': st.one_of(st.none(), logf(st, 1e-3, 1e5)),
        'env_n': st.one_of(st.none(), st.integers(2, 700)),
        'env_max': st.one_of(st.none(), st.integers(1, 5000))})


def resolve(case):
    from common import UNITS
    if case['env_n'] is not None:
        os.environ['MOMENTUM_SAMPLES'] = str(case['env_n'])
    if case['env_max'] is not None:
        os.environ['MAX_MOMENTUM_MEV'] = str(case['env_max'])
    kw = {}
    if case['n'] is not None:
        kw['MOMENTUM_SAMPLES'] = case['n']
    if case['max'] is not None:
        kw['MAX_MOMENTUM'] = case['max'] * UNITS.MeV
    n = case['n'] or case['env_n'] or 401
    top = (case['max'] or case['env_max'] or 100) * UNITS.MeV
    return kw, n, top


@law('P04', spec, quick=400, thorough=8000, cpp=False,
     rule='sizes from 2 to 3000 points, given explicitly, by environment or by default')
def linear_grid(case, ctx):
    from common import LinearSpacedGrid
    kw, n, top = resolve(case)
    t = basics(LinearSpacedGrid(**kw), n, top, 'linear grid')
    for i in range(n):
        close(t[i], top * i / (n - 1), 1e-11, 'point %d' % i)
    ctx.label('explicit n' if case['n'] else 'default n', 'explicit max' if case['max'] else
              'default max')


@law('P04', spec, quick=400, thorough=8000, cpp=False,
     rule='sizes from 2 to 3000 points, given explicitly, by environment or by default')
def log_grid(case, ctx):
    from common import LogSpacedGrid
    kw, n, top = resolve(case)
    if n > 1500:
        n = 1500
        kw['MOMENTUM_SAMPLES'] = n
    t = basics(LogSpacedGrid(**kw), n, top, 'logarithmic grid')
    if n > 2:
        for i in range(1, n - 1):
            close(t[i + 1] - t[i], 1.2 * (t[i] - t[i - 1]), 1e-6, 'growth of the interval %d' % i,
                  1e-9 * t[i])
    ctx.label('n<10' if n < 10 else 'n>=10')


@law('P04', spec, quick=150, thorough=1500, cpp=False, rule='pairs of grids with shared settings')
def grids_are_independent(case, ctx):
    from common import LinearSpacedGrid, LogSpacedGrid
    kw, n, top = resolve(case)
    if n > 1500:
        kw['MOMENTUM_SAMPLES'] = n = 1500
    for G in (LinearSpacedGrid, LogSpacedGrid):
        one, two = G(**kw), G(**kw)
        keep = two.TEMPLATE.copy()
        one.TEMPLATE += 1.
        one.TEMPLATE[0] = -5.
        three = G(**kw)
        require((two.TEMPLATE == keep).all() and (three.TEMPLATE == keep).all(),
                '%s: changing one grid changes another', G.__name__)


@law('P04', lambda st: st.fixed_dictionaries({
    'M': logf(st, 1, 2000), 'tau': logf(st, 1e-3, 1e4), 'aT': logf(st, 0.3, 3),
    'b': st.floats(0.3, 3), 'c': st.integers(20, 400)}),
     quick=200, thorough=4000, cpp=False, hang=30,
     rule='masses, lifetimes and resolutions of decaying particles; non-trivial with more than '
          'ten points')
def heuristic_grid(case, ctx):
    import numpy
    from common import HeuristicGrid, UNITS
    M, tau, aT = case['M'] * UNITS.MeV, case['tau'] * UNITS.s, case['aT'] * UNITS.MeV
    b, c = case['b'], case['c']
    a_max = math.sqrt(2 * 0.5 / UNITS.s * b * tau)
    T_max = aT / a_max
    top = a_max * (M + math.sqrt(M * T_max))
    g = HeuristicGrid(M, tau, aT=aT, b=b, c=c)
    t = basics(g, len(g.TEMPLATE), top, 'heuristic grid')
    for i in range(len(t) - 1, 0, -1):
        p = t[i]
        T = aT * M * (aT + p * c ** 2 - math.sqrt(aT * (aT + 2 * p * c ** 2))) \
            / (2 * p ** 2 * c ** 2)
        close(t[i - 1], max(p - math.sqrt(M * T / c) * aT / T, 0), 1e-9,
              'point %d from the top' % (len(t) - 1 - i), 1e-9 * p)
    ctx.nontrivial(len(t) > 10)
