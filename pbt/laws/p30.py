"""P30: collision terms are left out only where they vanish, and then they are zero."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, all_close, Skip, isolated, NoConvergence
from pbt.gens import logf
from pbt import world

STERILE = 'Sterile neutrino (Dirac)'
KINDS = ['Full', 'Full_vacuum_decay', 'F_1', 'F_f', 'F_creation', 'F_decay', 'F_1_vacuum_decay',
         'F_f_vacuum_decay']
SIDES3 = {'decay': (-1, 1, 1), 'creation': (-1, -1, 1)}
SIDES4 = {'decay': (-1, 1, 1, 1), 'creation': (-1, -1, -1, 1), 'scattering': (-1, -1, 1, 1)}


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def one(st):
    return st.fixed_dictionaries({
        'm': st.one_of(st.just(0.), logf(st, 1., 200.)), 'majorana': st.booleans(),
        'Q': st.sampled_from([0, 0, 1, -1]), 'fast': st.sampled_from([False, False, False, True]),
        'created': st.sampled_from([0., 0., 1e-12, 3.]), 'decayed': st.sampled_from([False, False, True]),
        'sterile': st.sampled_from([False, False, False, True]),
        # what is left of the number per comoving volume, in units of the threshold
        'left': st.one_of(st.just(1e20), logf(st, 1e-4, 0.9), logf(st, 1.1, 1e6))})


def case_of(st, n):
    return st.fixed_dictionaries({
        'T': st.one_of(logf(st, .05, 30.), logf(st, .8, 1.2)), 'ini': st.one_of(logf(st, 1.05, 100.), st.floats(14.85, 15.15)),
        'kind': st.sampled_from(KINDS), 'm': st.sampled_from([1., 1., .4, 3.]),
        'heat': st.one_of(st.just(0.), st.floats(0., .4)),
        'type': st.sampled_from(sorted(SIDES3 if n == 3 else SIDES4)),
        'sp': st.lists(one(st), min_size=n, max_size=n),
        'which': st.one_of(st.just(list(range(n))),
                           st.lists(st.integers(0, n - 1), min_size=n, max_size=n)),
        'rel': st.sampled_from([True, True, False])})


def make(case, n):
    """The reaction, with the species in the prescribed states."""
    from common import UNITS
    from interactions import IntegralItem
    from interactions.four_particle import FourParticleIntegral, CollisionIntegralKind
    from interactions.three_particle import ThreeParticleIntegral
    params = world.params(T=case['T'] * case['ini'], dy=0.05, m=case.get('m', 1.))
    params.update(3.5 * params.T ** 4, params.T ** 3)
    g = world.grid(9, 12.)
    if case['rel']:
        os.environ['Relativistic_decoupling'] = 'True'
    pool = []
    with quiet():
        for i, s in enumerate(case['sp']):
            kw = dict(fast_decay=True, lifetime=1e-6 * UNITS.s, BR={}) if s['fast'] else {}
            p = world.particle(params, mass=s['m'], dof=2, grid=g, symbol='s%d' % i,
                               name=STERILE if s['sterile'] else 'species %d' % i,
                               majorana=s['majorana'], Q=s['Q'], Tdec=2 * case['T'] * case['ini'],
                               **kw)
            if s['fast']:
                p.num_creation = s['created']
            p.decayed = s['decayed']
            pool.append(p)
        world.advance(params, case['ini'] - 1, case.get('heat', 0.))
        for s, p in zip(case['sp'], pool):
            p.update()
    # number densities relative to the start
    thr = 1e-10 * (params.a_ini / 10) ** 3
    for s, p in zip(case['sp'], pool):
        n0 = p.data['params']['density'][0]
        if s['left'] < 1e19:
            p.density = s['left'] * thr * n0
    sp = [pool[w] for w in case['which'][:n]]
    sides = (SIDES3 if n == 3 else SIDES4)[case['type']]
    reaction = tuple(IntegralItem(side=d, specie=p, antiparticle=False, index=i, crossed=False)
                     for i, (p, d) in enumerate(zip(sp, sides)))
    cls = ThreeParticleIntegral if n == 3 else FourParticleIntegral
    inter = cls(particle=sp[0], reaction=reaction, Ms=[], kind=getattr(CollisionIntegralKind, case['kind']))
    states = [case['sp'][w] for w in case['which'][:n]]
    return params, sp, states, inter


def no_fast(case, mother):
    """Decays and creations of fast-decaying species of which there are none."""
    return case['type'] != 'scattering' and mother['fast'] and mother['created'] == 0


@law('P30', lambda st: case_of(st, 4), quick=1500, thorough=20000,
     rule='four-particle reactions with species diluted, decayed, absent or sterile; non-trivial '
          'when left out for exactly one reason, or calculated although some species is diluted, '
          'decayed or absent')
def four_particle_selection(case, ctx):
    from common import kinematics, UNITS
    params, sp, states, inter = make(case, 4)
    mother = states[-1] if case['type'] == 'creation' else states[0]
    if not all(p.data['params']['density'][0] > 0 for p in sp):
        raise Skip()            # heavier than any thermal energy: there never were any particles
    diluted = [s['left'] < 1 for s in states]
    T, T_ini = params.T / UNITS.MeV, params.m / params.a_ini / UNITS.MeV
    close(T_ini, case['T'] * case['ini'], 1e-9, 'initial temperature')
    reasons = {
        'mother decayed': case['type'] == 'creation' and mother['decayed'],
        'diluted': case['type'] == 'scattering' and (diluted[0] or diluted[1])
        and (diluted[2] or diluted[3]),
        'nothing created': no_fast(case, mother),
        'sterile scattering': case['type'] == 'scattering' and any(s['sterile'] for s in states)
        and (T < 1 or case['rel'] and T < T_ini / 15),
        'hot sterile': case['type'] == 'decay' and states[0]['sterile'] and T > states[0]['m']}
    got = bool(kinematics.Neglect4pInteraction(inter, sp[0].grid.TEMPLATE))
    why = [k for k in sorted(reasons) if reasons[k]]
    require(got == bool(why), '%s is %s, reasons to leave it out: %s', case['type'],
            'left out' if got else 'calculated', why)
    if got:
        zeros(case, inter, sp[0], ctx)
    ctx.label(*(why or ['calculated']))
    ctx.nontrivial(len(why) == 1 or not why and any(
        s['decayed'] or s['left'] < 1 or s['fast'] and s['created'] == 0 for s in states))


def zeros(case, inter, particle, ctx):
    """Left-out terms are zero at every momentum, in the form which the solver expects."""
    ps = particle.grid.TEMPLATE
    with quiet():
        r = inter.integrate(ps, stepsize=particle.params.h)
    pair = case['kind'] in ('Full', 'Full_vacuum_decay') or hasattr(particle, 'fast_decay')
    if pair:
        require(isinstance(r, tuple) and len(r) == 2, 'a pair is expected, not %r', r)
    else:
        r = (r,)
    for x in r:
        require(numpy.shape(x) == numpy.shape(ps) and not numpy.any(x), 'left-out term: %r', x)


@law('P30', lambda st: case_of(st, 3), quick=500, thorough=10000,
     rule='three-particle reactions with species massless, decayed or absent; non-trivial when '
          'left out for exactly one reason, or calculated although some species is decayed or absent')
def three_particle_selection(case, ctx):
    from common import kinematics
    params, sp, states, inter = make(case, 3)
    mother = states[-1] if case['type'] == 'creation' else states[0]
    pair = case['kind'] in ('Full', 'Full_vacuum_decay') or states[0]['fast']
    # single terms of a decay are zero by themselves when the mother is absent
    reasons = {
        'massless mother': case['type'] == 'decay' and states[0]['m'] == 0,
        'mother decayed': case['type'] == 'creation' and mother['decayed'] and pair,
        'nothing created': no_fast(case, mother) and pair}
    got = bool(kinematics.Neglect3pInteraction(inter, sp[0].grid.TEMPLATE))
    why = [k for k in sorted(reasons) if reasons[k]]
    require(got == bool(why), '%s is %s, reasons to leave it out: %s', case['type'],
            'left out' if got else 'calculated', why)
    if got:
        zeros(case, inter, sp[0], ctx)
    ctx.label(*(why or ['calculated']))
    ctx.nontrivial(len(why) == 1 or not why and (mother['decayed'] or no_fast(case, mother)))


@law('P30', lambda st: st.fixed_dictionaries({
    'T': logf(st, .1, 30.), 'm': st.one_of(st.just(0.), logf(st, .1, 100.)), 'fast': st.sampled_from([False, False, True]),
    'sterile': st.booleans(), 'empty': st.sampled_from([False, False, False, True]),
    'left': st.lists(st.one_of(logf(st, 1e-4, .9), logf(st, 1.1, 1e5), st.just(1e20)), min_size=1,
                     max_size=5), 'ini': logf(st, 1.5, 100.)}),
     quick=300, thorough=5000,
     rule='histories of the number of particles of a decoupled species around the threshold; '
          'non-trivial when it decays')
def species_that_is_gone(case, ctx):
    """A diluted massive species is empty for good; nothing else is emptied."""
    from common import UNITS
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    with quiet():
        params = world.params(T=case['T'] * case['ini'], dy=0.05)
        params.update(3.5 * params.T ** 4, params.T ** 3)
        kw = dict(fast_decay=True, lifetime=1e-6 * UNITS.s, BR={}) if case['fast'] else {}
        if case['empty']:
            kw['thermal_dyn'] = False
        p = world.particle(params, mass=case['m'], dof=2, grid=world.grid(9, 12.),
                           Tdec=2 * case['T'] * case['ini'],
                           name=STERILE if case['sterile'] else 'species', **kw)
        n0 = p.data['params']['density'][0]
        thr = 1e-10 * (params.a_ini / 10) ** 3
        gone = False
        world.advance(params, case['ini'] - 1)
        for i, left in enumerate(case['left']):
            world.advance(params, 0.01)
            p.update()
            if left < 1e19:
                p.density = left * thr * n0
            if case['fast']:
                p.collision_integrals = []
                r = p.integrate_collisions()
                require(not numpy.any(r), 'something out of nothing')
                require(not p.decayed, 'a fast-decaying species is marked as decayed')
                p.update_distribution()
                continue
            calls = []

            def value(ps):
                calls.append(1)
                return numpy.full(len(ps), 1e-3)
            p.collision_integrals = [world.Stub(K.F_1, value)]
            before = p._distribution.copy()
            r = p.integrate_collisions()
            p.collision_integral = r
            # the first record of the spectrum is the initial state
            if left < 1 and case['m'] > 0 and n0 > 0 and i > 0:
                gone = True
            require(p.decayed == gone, 'decayed: %r after %r', p.decayed, case['left'][:i + 1])
            p.update_distribution()
            if gone:
                require(not calls, 'collisions of a decayed species are calculated')
                require(not p._distribution.any(), 'a decayed species still has particles')
                require(numpy.shape(r) == numpy.shape(p.grid.TEMPLATE) and not r.any(), 'rate %r', r)
            else:
                require(calls and (p._distribution > before).all(), 'collisions are left out')
    if case['sterile'] and gone:
        require(os.environ.get('STERILE_DECAYED') == 'True', 'the decay of the sterile neutrino '
                'is not announced')
    else:
        require(not os.environ.get('STERILE_DECAYED'), 'announced decay of a sterile neutrino')
    ctx.label('gone' if gone else 'there')
    ctx.nontrivial(gone)


@law('P30', lambda st: st.fixed_dictionaries({
    'n': st.sampled_from([3, 4]), 'type': st.sampled_from(['decay', 'creation', 'scattering']),
    'which': st.lists(st.integers(0, 2), min_size=4, max_size=4),
    'sp': st.lists(one(st), min_size=4, max_size=4)}), quick=400, thorough=5000,
     rule='reactions with repeated species; non-trivial when the first species repeats on its side')
def identical_particles(case, ctx):
    """Identical particles on the left: every one of them is the observed particle in turn."""
    from common import kinematics
    if case['n'] == 3 and case['type'] == 'scattering':
        raise Skip()
    c = dict(case, T=3., ini=2., kind='F_1', rel=False)
    params, sp, states, inter = make(c, case['n'])
    left = [p for p, it in zip(sp, inter.reaction) if it.side == -1]
    right = [p for p, it in zip(sp, inter.reaction) if it.side == 1]
    k, back = sum(p is sp[0] for p in left), sum(p is sp[0] for p in right)
    counted = any(s['sterile'] for s in states) or case['type'] == 'creation' and \
        not (states[-1]['majorana'] and states[0]['Q'])
    want = 1.
    if counted and k > 1:
        # those which are also produced cancel
        if case['n'] == 3:
            want = float(k) if not back else 1.
        else:
            want = {2: 2. if back <= 1 else 1., 3: 3. if not back else 1.}[k]
    got = (kinematics.CollisionMultiplier3p if case['n'] == 3 else
           kinematics.CollisionMultiplier4p)(inter)
    require(got == want, '%d identical on the left, %d on the right (%s): %r instead of %r', k, back,
            case['type'], got, want)
    ctx.label('times %g' % want)
    ctx.nontrivial(k > 1)
