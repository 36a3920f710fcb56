"""P11: advancing the distribution functions with the collision integrals."""
import contextlib
import io
import math

import numpy

from pbt.core import law, require, close, all_close, Skip, isolated, NoConvergence
from pbt.gens import logf
from pbt import world, collide

# implicit Adams coefficients, derived independently of the code: the weight of node t_{n+1-j} is the
# integral over the last interval of its Lagrange polynomial


def implicit_weights(k):
    """Weights of f(t_{n+1}), f(t_n), ... of the k-point implicit rule on a unit step."""
    nodes = [1 - j for j in range(k)]
    out = []
    for j, xj in enumerate(nodes):
        c = numpy.poly1d([1.])
        for i, xi in enumerate(nodes):
            if i != j:
                c = c * numpy.poly1d([1., -xi]) / (xj - xi)
        ci = c.integ()
        out.append(ci(1.) - ci(0.))
    return out


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def field(st, n, lo=-5., hi=5.):
    return st.lists(st.floats(lo, hi, width=32), min_size=n, max_size=n)


def terms(st):
    return st.lists(st.fixed_dictionaries({
        'kind': st.sampled_from(['Full', 'Full_vacuum_decay', 'F_decay', 'F_f_vacuum_decay',
                                 'F_creation', 'F_1', 'F_1_vacuum_decay', 'F_f']),
        'A': field(st, 6, 0, 2.), 'B': field(st, 6, -20., 2.)}), min_size=0, max_size=3)


def cases(st):
    return st.fixed_dictionaries({
        'mass': st.one_of(st.just(0.), logf(st, 0.1, 50)), 'fermion': st.booleans(),
        'f': st.lists(st.one_of(st.just(0.), logf(st, 1e-8, 0.9)), min_size=6, max_size=6),
        'dy': logf(st, 1e-4, 0.3), 'steps': st.lists(terms(st), min_size=1, max_size=8)})


@law('P11', cases, quick=300, thorough=6000,
     rule='decoupled species with prescribed gain and loss terms over 1-8 steps; non-trivial when '
          'a loss term acts in at least two steps')
def implicit_step(case, ctx):
    """df = A + B f is advanced implicitly, with the history of earlier rates."""
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    from common import UNITS
    fermion = case['fermion'] or case['mass'] == 0
    params = world.params(T=5., dy=case['dy'])
    g = world.grid(6, 10.)
    with quiet():
        p = world.particle(params, mass=case['mass'], fermion=fermion, Tdec=10., grid=g)
        require(not p.in_equilibrium, 'decoupled from the start')
        f = numpy.array(case['f'])
        f[3] = max(f[3], 0.1)           # not (yet) a decayed species
        p._distribution = f.copy()
        p.populate_methods()
        history = []
        stored = [p.data['distribution'][i].copy() for i in range(len(p.data['distribution']))]
        active = 0
        h = params.h
        for terms_ in case['steps']:
            A, B = numpy.zeros(6), numpy.zeros(6)
            stubs = []
            for t in terms_:
                a, b = numpy.array(t['A']), numpy.array(t['B'])
                if t['kind'].startswith('Full'):
                    val = (a + b * f, b)
                    A, B = A + a, B + b
                elif t['kind'] in ('F_decay', 'F_f_vacuum_decay'):
                    val = b * f            # the rate times the occupation
                    B = B + numpy.where(f > 0, b, 0.)
                else:
                    val = a
                    A = A + a
                stubs.append(world.Stub(getattr(K, t['kind']),
                                        lambda ps, v=val: v))
            p.collision_integrals = stubs
            rate = p.integrate_collisions()
            require(len(rate) == 6, 'one rate per grid point')
            if stubs:
                k = min(5, len(history[-5:]) + 1)
                w = implicit_weights(k)
                rhs = f + h * (w[0] * A + sum(w[j] * history[-j] for j in range(1, k)))
                want = (rhs / (1 - h * w[0] * B) - f) / h
                active += bool(B.any())
                for s in stubs:
                    require(len(s.calls) == 1 and numpy.array_equal(s.calls[0][0], g.TEMPLATE)
                            , 'every integral is evaluated once on the grid')
                    close(s.calls[0][1], h, 1e-12, 'step given to the integral')
            else:
                want = numpy.zeros(6)
            scale = 1e-6 * (1 + numpy.max(numpy.abs(want))) + 1e-6 / h * numpy.max(f)
            for i in range(6):
                close(rate[i], want[i], 1e-8, 'rate at grid point %d' % i, scale)
            p.collision_integral = rate
            p.update_distribution()
            f = numpy.maximum(f + rate * h, 0)
            all_close(p._distribution, f, 1e-10, 'updated occupation', 1e-12)
            require((p._distribution >= 0).all(), 'negative occupation')
            f = p._distribution.copy()
            history.append(numpy.array(rate))
            stored.append(f)
            require(p.collision_integrals == [], 'the integrals are not cleared')
        require(len(p.data['collision_integral']) == len(history), 'history of rates')
        for i, r in enumerate(history):
            all_close(p.data['collision_integral'][i], r, 1e-12, 'recorded rate', 1e-300)
        require(len(p.data['distribution']) == len(stored), 'history of the distribution')
        for i, r in enumerate(stored):
            all_close(p.data['distribution'][i], r, 1e-12, 'recorded distribution', 1e-300)
    ctx.label('steps%d' % min(len(history), 6))
    ctx.nontrivial(active >= 2)


@law('P11', lambda st: st.fixed_dictionaries({
    'mass': st.one_of(st.just(0.), logf(st, 0.1, 50)), 'fermion': st.booleans(),
    'f': st.lists(st.one_of(st.just(0.), logf(st, 1e-8, 0.9)), min_size=5, max_size=5),
    'rate': st.lists(st.one_of(st.floats(-100, 100, width=32), st.just(math.nan)), min_size=5,
                     max_size=5), 'dy': logf(st, 1e-4, 0.5),
    'eq': st.sampled_from([False, False, True])}), quick=300, thorough=5000,
     rule='arbitrary rates, some undefined; non-trivial when a rate is undefined or empties a '
          'momentum')
def occupation_stays_physical(case, ctx):
    """f' = max(f + rate h, 0); undefined rates count as 0; equilibrium species are not touched."""
    params = world.params(T=5., dy=case['dy'])
    g = world.grid(5, 10.)
    with quiet():
        p = world.particle(params, mass=case['mass'], grid=g,
                           fermion=case['fermion'] or case['mass'] == 0,
                           Tdec=1. if case['eq'] else 10.)
        f = numpy.array(case['f'])
        p._distribution = f.copy()
        p.collision_integral = numpy.array(case['rate'])
        p.collision_integrals = ['x']
        n0 = len(p.data['distribution'])
        p.update_distribution()
    if case['eq']:
        require(numpy.array_equal(p._distribution, f), 'an equilibrium species is changed')
        require(len(p.data['distribution']) == n0, 'an equilibrium species is recorded')
        ctx.nontrivial(False)
        return
    r = numpy.nan_to_num(numpy.array(case['rate']))
    want = numpy.maximum(f + r * params.h, 0.)
    all_close(p._distribution, want, 1e-12, 'occupation', 1e-13)
    all_close(p.data['distribution'][-1], want, 1e-12, 'recorded occupation', 1e-13)
    all_close(p.data['collision_integral'][-1], r, 1e-12, 'recorded rate', 1e-300)
    require(len(p.data['distribution']) == n0 + 1, 'one record per step')
    ctx.nontrivial(bool(numpy.isnan(case['rate']).any() or (f + r * params.h < 0).any()))


@law('P11', lambda st: st.fixed_dictionaries({
    'gamma': st.lists(logf(st, 0.05, 500.), min_size=4, max_size=4),
    'target': st.lists(logf(st, 1e-3, 0.9), min_size=4, max_size=4),
    'f': st.lists(logf(st, 1e-3, 0.9), min_size=4, max_size=4),
    'n': st.integers(60, 200)}), quick=60, thorough=1000,
     rule='relaxation towards a target with rates from slow to stiff')
def relaxation(case, ctx):
    """df/dlna = -G (f - f0) follows the exact solution, and is stable when G h is large."""
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    n = case['n']
    params = world.params(T=5., dy=2. / n)
    g = world.grid(4, 10.)
    G, f0 = numpy.array(case['gamma']), numpy.array(case['target'])
    with quiet():
        p = world.particle(params, mass=0., Tdec=10., grid=g)
        start = numpy.array(case['f'])
        p._distribution = start.copy()
        for _ in range(n):
            f = p._distribution
            p.collision_integrals = [world.Stub(K.Full, lambda ps, f=f: (G * (f0 - f), -G))]
            p.collision_integral = p.integrate_collisions()
            p.update_distribution()
    want = f0 + (start - f0) * numpy.exp(-2. * G)
    for i in range(4):
        if G[i] * 2. / n < 0.3:
            # the history holds rates averaged over the steps: first order
            tol = 1.5 * G[i] * 2. / n * (1 - math.exp(-2. * G[i])) + 1e-9
            close(p._distribution[i], want[i], tol, 'relaxation with rate %r' % G[i], 1.)
            ctx.label('resolved')
        else:
            ctx.label('stiff')
            if G[i] * 2. / n < 1.2:
                close(p._distribution[i], want[i], 0.5, 'stiff relaxation', 1.)
        require(0 <= p._distribution[i], 'negative occupation')


@law('P11', lambda st: st.fixed_dictionaries({
    'B': st.lists(st.floats(-50, 0, width=32), min_size=5, max_size=5),
    'f': st.lists(logf(st, 1e-8, 0.9), min_size=5, max_size=5), 'dy': logf(st, 1e-4, 0.5)}),
     quick=150, thorough=2000, rule='pure decay in one step')
def decay_rate_counts_occupation_once(case, ctx):
    """A pure decay rate B gives f/(1 - B h) in the first step, whichever kind carries it."""
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    B = numpy.array(case['B'])
    f = numpy.array(case['f'])
    for kind in ('Full', 'F_decay', 'F_f_vacuum_decay', 'Full_vacuum_decay'):
        params = world.params(T=5., dy=case['dy'])
        with quiet():
            p = world.particle(params, mass=3., Tdec=10., grid=world.grid(5, 10.))
            p._distribution = f.copy()
            val = (B * f, B) if kind.startswith('Full') else B * f
            p.collision_integrals = [world.Stub(getattr(K, kind), lambda ps: val)]
            p.collision_integral = p.integrate_collisions()
            p.update_distribution()
        all_close(p._distribution, f / (1 - B * params.h), 1e-9, kind, 1e-300)


@law('P11', lambda st: st.fixed_dictionaries({
    'c': collide.contents(st), 'log': st.sampled_from([True, True, False]), 'steps': st.integers(2, 5)}),
     quick=24, thorough=1500, hang=600,
     rule='small universes with one or two real reactions, advanced by 2-5 steps; non-trivial when a '
          'spectrum changes by more than 1e-5 in at least two steps')
def every_step_uses_the_current_state(case, ctx):
    """Interactions that live on from step to step act like interactions created for the step."""
    c = case['c']
    collide.settings(case['log'])

    def run(fresh):
        with quiet():
            u, p = collide.start(c)
            for _ in range(case['steps']):
                if fresh:
                    u.interactions = collide.interactions(c, p)
                collide.step(u)
        return collide.history(u, p)
    try:
        kept, new = isolated(lambda: (run(False), run(True)))
    except NoConvergence:
        raise Skip()
    collide.same(kept, new, 'interactions kept from step to step')
    moving = 0
    for k in new:
        if k.endswith(' f') and len(new[k]) > 1:
            moving = max(moving, numpy.sum(numpy.max(abs(numpy.diff(new[k], axis=0)), axis=1) > 1e-5))
    ctx.label(*[name for name, _ in c['reactions']])
    ctx.nontrivial(moving >= 2)
