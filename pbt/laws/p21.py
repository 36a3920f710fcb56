"""P21: the collision integral at one momentum is a function of that momentum and the spectra only."""
import ctypes
import ctypes.util

import numpy

from pbt.core import law, require, Skip, isolated, NoConvergence
from pbt.laws import p20


def threads():
    """Setter of the number of OpenMP threads of the loaded library."""
    for name in (None, 'libgomp.so.1', ctypes.util.find_library('gomp')):
        try:
            return ctypes.CDLL(name).omp_set_num_threads
        except (OSError, AttributeError, TypeError):
            pass
    return lambda n: None


def case_of(st, kind):
    base = p20.case_3p(st) if kind == 'three' else p20.case_4p(st, kind)
    if kind == 'scattering':
        # far below threshold the range of integration goes beyond the grid
        def heavier(t):
            c, extra = t
            for i, x in zip((2, 3), extra):
                c['sp'][i]['m'] = round(c['sp'][i]['m'] + x, 4)
                if x:
                    c['sp'][i]['eq'] = False
            return c
        base = st.tuples(base, st.one_of(st.just((0., 0.)), st.tuples(st.floats(3., 8.), st.floats(0., 8.)))).map(heavier)
    return st.tuples(base, st.lists(st.integers(0, 30), min_size=1, max_size=12), st.integers(1, 8),
                     st.lists(st.integers(0, 30), min_size=9, max_size=9)).map(
        lambda t: dict(t[0], pick=t[1], threads=t[2], sort=t[3]))


def native(case, params, sp, reaction):
    """The compiled integral as a function of the list of momenta."""
    four = len(reaction) == 4
    if four:
        from interactions.four_particle.cpp import integral as m
        P, G, R, kinds = m.particle_t, m.grid_t, m.reaction_t, m.CollisionIntegralKind
    else:
        from interactions.three_particle.cpp import integral as m
        P, G, R, kinds = m.particle_t3, m.grid_t3, m.reaction_t3, m.CollisionIntegralKind_3
    rs = [R(specie=P(m=s['m'], grid=G(grid=p.grid.TEMPLATE / params.aT, distribution=p._distribution),
                     eta=1 if s['fermion'] else -1, in_equilibrium=int(p.in_equilibrium), T=p.aT / params.aT),
            side=item.side) for s, p, item in zip(case['sp'], sp, reaction)]
    b = [(p.grid.MIN_MOMENTUM / params.aT, p.grid.MAX_MOMENTUM / params.aT) for p in sp]
    kind = getattr(kinds, case['kind'])
    if four:
        Ms = [m.M_t([int(x) for x in o], K1, K2, K) for K1, K2, o, K in case['Ms']]
        return lambda ps, step: m.integration(ps, *b[1], *b[2], b[3][1], rs, Ms, step, kind)
    return lambda ps, step: m.integration_3(ps, *b[1], b[2][1], rs, step, kind)


def check(case, ctx):
    sides = p20.SIDES3 if case['three'] else p20.SIDES
    params, sp, reaction = p20.build(case, sides[case['type']])
    run = native(case, params, sp, reaction)
    ps = [float(x) for x in sp[0].grid.TEMPLATE / params.aT]
    pick = [i % len(ps) for i in case['pick']]
    order = sorted(range(len(ps)), key=lambda i: (case['sort'][i % 9], i))
    set_threads = threads()

    def all_of_them():
        rough = run(ps, 1e-30)
        big = max(abs(x) for x in rough)
        if not big:
            return None
        step = 50. / big
        set_threads(8)
        full = run(ps, step)
        again = run(ps, step)
        set_threads(case['threads'])
        out = [('another number of threads', range(len(ps)), run(ps, step)), ('a second evaluation', range(len(ps)), again),
               ('another order of the momenta', order, run([ps[i] for i in order], step)),
               ('other momenta', pick, run([ps[i] for i in pick], step))]
        out += [('a single momentum', [i], run([ps[i]], step)) for i in pick[:3]]
        return big, full, [(a, list(b), c) for a, b, c in out]
    try:
        r = isolated(all_of_them)
    except NoConvergence:
        ctx.label('no convergence')
        raise Skip()
    if r is None:
        raise Skip()
    big, full, others = r
    require(len(full) == len(ps), '%d values at %d momenta', len(full), len(ps))
    for what, which, values in others:
        require(len(values) == len(which), '%s: %d values at %d momenta', what, len(values), len(which))
        for i, v in zip(which, values):
            require(v == full[i] or abs(v - full[i]) <= 1e-12 * abs(full[i]),
                    '%s: %r at p = %r T, %r when all of the grid is integrated', what, v, ps[i], full[i])
    ctx.label(case['type'], case['kind'], '%d threads' % case['threads'])
    ctx.nontrivial(sum(abs(x) > 1e-3 * big for x in full) > 2)


for _kind in ('decay', 'scattering', 'creation', 'three'):
    def _law(case, ctx):
        check(dict(case, three=len(case['sp']) == 3), ctx)
    _law.__name__ = 'three_particle' if _kind == 'three' else 'four_particle_' + _kind
    globals()[_law.__name__] = law(
        'P21', (lambda k: lambda st: case_of(st, k))(_kind), quick=150 if _kind == 'three' else 40,
        thorough=10000 if _kind == 'three' else 3000, hang=300, cpp=True,
        rule='random reactions; any subset, order and number of threads; non-trivial when the integral '
             'matters at three momenta or more')(_law)
