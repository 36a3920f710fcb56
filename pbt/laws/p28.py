"""P28: fast-decaying species decay within the step; their products are counted exactly."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, all_close, Skip, isolated, NoConvergence
from pbt.gens import logf
from pbt import world


def number(y, f, dof):
    from scipy.integrate import simps
    return float(simps(f * dof * y ** 2, y))


def states(p):
    """States of one charge of a species."""
    return p.dof if p.majorana else p.dof / 2.


def shape(st):
    return st.tuples(st.floats(0.05, 1.), st.floats(.3, 6.), st.integers(0, 2)).map(list)


def spectrum(s, y):
    return 10 ** (-6 + 4 * s[0]) * (y / y[-1]) ** s[2] * numpy.exp(-y / s[1])


MOTHER = lambda st: {
    'norm': st.sampled_from([1., 1., .3, 3.]), 'linear': st.sampled_from([False, False, True]),
    'T': logf(st, .05, 3.), 'M': logf(st, 10., 500.), 'dof': st.sampled_from([1, 2, 3, 4]),
    'majorana': st.booleans(), 'fermion': st.booleans(), 'thermal': st.booleans(),
    'thermalise': st.booleans(), 'tau': logf(st, 1e-9, 1e-1), 'wait': st.integers(0, 4),
    'n': st.sampled_from([31, 51, 101, 100])}


def with_decoys(BR):
    """Other channels of the same species in other numbers, which are not followed."""
    out = {}
    for i, k in enumerate(sorted(BR)):
        kinds = sorted(set(k))
        decoys = [''.join(kinds)] + [''.join(kinds) + s for s in kinds] + [''.join(kinds) + kinds[-1] * 2]
        decoys = [d for d in decoys if all(sorted(d) != sorted(x) for x in BR)]
        for j, d in enumerate(decoys):
            if (i + j) % 2:
                out[d] = .77
        out[k] = BR[k]
        for j, d in enumerate(decoys):
            if not (i + j) % 2:
                out[d] = .66
    return out


def mother(case, BR, **kw):
    """A decoupled fast-decaying species in an expanding plasma, and the ratio t/t_decoupling."""
    from common import UNITS
    m = case.get('norm', 1.)
    if case.get('linear'):
        os.environ['LOGARITHMIC_TIMESTEP'] = ''
    params = world.params(T=case['T'], dy=0.01, m=m, dx=0.01 * m * m / case['T'] * UNITS.MeV)
    params.update(3.5 * params.T ** 4, params.T ** 3)
    params.init_time(params.rho)
    g = world.grid(case['n'], kw.pop('top', 30.) * m)
    if case.get('thermalise'):
        kw['thermalization'] = True
    P = world.particle(params, mass=case['M'], dof=case['dof'], fermion=case['fermion'],
                       Tdec=case['T'] * (1.5 if case.get('late') else 1.0005) if case['thermal'] else 0, grid=g, name='Mother',
                       symbol='M', majorana=case['majorana'], Q=kw.pop('Q', 0),
                       thermal_dyn=case['thermal'], fast_decay=True,
                       lifetime=case['tau'] * UNITS.s, BR=BR, **kw)
    return params, g, P


def background(case, params, P, y):
    """What is left of the thermal population."""
    if not case['thermal']:
        return 0 * y
    if params.T >= P.decoupling_temperature:
        raise Skip()
    mass = P.mass * P.aT / P.decoupling_temperature
    return world.fd(numpy.sqrt(y ** 2 + mass ** 2) / P.aT, P.eta) \
        * math.exp(-(params.t - P.t_decoupling) / P.lifetime)


def integral_class(values):
    """A collision integral of the real class with prescribed results."""
    from interactions.four_particle import FourParticleIntegral

    class Prescribed(FourParticleIntegral):
        def integrate(self, ps, stepsize=None):
            return values
    return Prescribed


@law('P28', lambda st: st.fixed_dictionaries(dict(
    MOTHER(st), heat=st.one_of(st.just(0.), st.floats(0., 9e-3)), creations=st.lists(shape(st), min_size=1, max_size=3),
    channels=st.lists(st.tuples(st.floats(.01, 1.), shape(st)).map(list), max_size=3),
    scattering=st.one_of(st.none(), shape(st)), none=st.sampled_from([False] * 5 + [True]))),
     quick=400, thorough=6000,
     rule='fast-decaying species with up to three ways of creation and three decay channels; '
          'non-trivial when something is created and decays')
def created_particles_decay(case, ctx):
    from common import UNITS
    from interactions import IntegralItem
    from interactions.four_particle import CollisionIntegralKind as K
    names = ['ab', 'aac', 'bc']
    BR = {names[i]: c[0] / max(1., sum(x[0] for x in case['channels']))
          for i, c in enumerate(case['channels'])}
    total = sum(BR.values())
    BR = with_decoys(BR)
    # a grid that contains the spectrum of the thermalised particles
    top = max(30., 8 * math.sqrt(case['M'] / case['T'])) if case['thermalise'] else 30.
    with contextlib.redirect_stdout(io.StringIO()):
        params, g, P = mother(case, BR, top=top)
        y = g.TEMPLATE / UNITS.MeV
        for i in range(case['wait']):
            world.advance(params, 0.01, case['heat'])
            P.update()
            P.update_distribution()
        sp = {s: world.particle(params, mass=0, dof=2, grid=g, name=s, symbol=s, majorana=True,
                                Q=0, Tdec=1e3) for s in 'abcd'}
    sp['M'] = P

    def make(left, right, kind, values):
        reaction = tuple(IntegralItem(side=s, specie=sp[x], antiparticle=False, index=i,
                                      crossed=False)
                         for i, (s, x) in enumerate([(-1, x) for x in left] + [(1, x) for x in right]))
        return integral_class(values)(particle=P, reaction=reaction, Ms=[], kind=kind)
    zero = numpy.zeros(len(y))
    F1s = [0 * y if case['none'] else spectrum(c, y) for c in case['creations']]
    Ffs = {n: -spectrum(c[1], y) for n, c in zip(names, case['channels'])}
    for i, F in enumerate(F1s):
        P.collision_integrals.append(make('M' + 'ab'[:1 + i % 2], 'd', K.F_creation, (F, zero.copy())))
    for n, F in Ffs.items():
        P.collision_integrals.append(make('M', n, K.F_decay, (zero.copy(), F.copy())))
    extra = 0.
    if case['scattering']:
        extra = -spectrum(case['scattering'], y)
        P.collision_integrals.append(make('Ma', 'bc', K.F_f, (zero.copy(), extra.copy())))
    bg = background(case, params, P, y * UNITS.MeV)
    with contextlib.redirect_stdout(io.StringIO()):
        got = numpy.array(P.integrate_collisions())
    F1 = sum(F1s)
    created = number(y, F1, states(P))
    close(P.num_creation / UNITS.MeV ** 3, created, 1e-9, 'number of created particles')
    h = params.h
    shift = 0.
    if case['thermalise']:
        mass, aT = P.conformal_mass / UNITS.MeV, P.aT / UNITS.MeV
        N = number(y, F1, 1.) * h
        maxwell = 4 * math.pi * (2 * math.pi * mass * aT) ** -1.5 * numpy.exp(-y ** 2 / (2 * mass * aT))
        before = bg + N * maxwell
        shift = (before - bg - F1 * h) / h
    else:
        before = bg + F1 * h
    require(numpy.all(numpy.isfinite(got)), 'the rate is %r', got)
    want = F1 + shift + extra * before
    for n, F in Ffs.items():
        lost = number(y, -F * before, states(P))
        if lost:
            want = want + F * before * BR[n] * created / lost
    scale = max(abs(F1).max(), 1e-300)
    all_close(got, want, 1e-6, 'rate', floor=scale)
    if Ffs and not case['scattering'] and created > 1e-200:
        net = number(y, got - (shift if case['thermalise'] else 0.), states(P))
        close(net, created * (1 - total), 1e-6, 'created minus decayed particles',
              floor=created)
        ctx.label('balanced')
    if case['thermalise'] and created:
        # the grid contains the whole spectrum
        close(number(y, F1 * h + shift * h, 1.), number(y, F1 * h, 1.), 1e-2,
              'particles after thermalisation')
        ctx.label('thermalised')
    # the spectrum that the products see during the step
    all_close(P._distribution, before, 1e-9, 'spectrum of the decaying particles',
              floor=max(abs(before).max(), 1e-300))
    ctx.nontrivial(created > 0 and bool(Ffs))
    ctx.label('thermal relic' if case['thermal'] else 'non-thermal', *['channel ' + n for n in Ffs])


@law('P28', lambda st: st.fixed_dictionaries(dict(
    MOTHER(st), heat=st.one_of(st.just(0.), st.floats(0., 9e-3)), steps=st.integers(1, 8), f=shape(st), I=st.floats(-1, 1),
    late=st.sampled_from([False] * 3 + [True]))), quick=250, thorough=3000,
     rule='histories of the spectrum of a fast-decaying species; non-trivial with a thermal relic')
def between_steps(case, ctx):
    """After each step only what is left of the thermal population remains."""
    from common import UNITS
    with contextlib.redirect_stdout(io.StringIO()):
        params, g, P = mother(case, {})
        y = g.TEMPLATE
        t_dec = None
        start = params.t
        for i in range(case['steps']):
            was = P.in_equilibrium
            world.advance(params, 0.01, case['heat'])
            P.update()
            if case['thermal'] and was and not P.in_equilibrium:
                t_dec = params.t
                close(P.t_decoupling, t_dec, 1e-12, 'time of decoupling')
            if P.in_equilibrium:
                continue
            P._distribution = spectrum(case['f'], y / UNITS.MeV)
            P.collision_integral = case['I'] * spectrum(case['f'], y / UNITS.MeV)
            P.update_distribution()
            if not case['thermal']:
                require(not P._distribution.any(), 'particles remain after the step')
                continue
            if case['late']:
                # decoupled before the beginning: the decays are counted from there
                if t_dec is None:
                    t_dec = P.t_decoupling
                require(start <= t_dec <= params.t, 'decays since %r, begins at %r', t_dec, start)
                close(P.t_decoupling, t_dec, 1e-12, 'time of decoupling')
                ctx.label('decoupled before the beginning')
            all_close(P._distribution, background(case, params, P, y), 1e-9, 'thermal relics',
                      floor=1e-290)
            ctx.nontrivial()
    ctx.nontrivial(False)


# --- creation of the products --------------------------------------------------------------

@law('P28', lambda st: st.fixed_dictionaries(dict(
    MOTHER(st), channel=st.sampled_from(['ab', 'aa', 'aac', 'abc', 'aaa', 'abb']),
    m=st.lists(st.integers(0, 30).map(lambda i: i / 100.), min_size=3, max_size=3), massless=st.integers(0, 2),
    pdof=st.sampled_from([1, 2, 4]), pmajorana=st.booleans(), Q=st.sampled_from([0, -1]),
    kind=st.sampled_from(['F_creation', 'F_1', 'F_1_vacuum_decay']),
    fast=st.booleans(), BR=st.floats(.01, 1.), num=logf(st, 1e-12, 1e-2), f=shape(st),
    empty=st.sampled_from([False] * 7 + [True]))), quick=300, thorough=3000,
     rule='decays into two and three products, identical or not, of any charge, with the compiled '
          'collision integrals; non-trivial when the decays reach the grid', hang=120)
def products_are_counted(case, ctx):
    from common import UNITS
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleM, FourParticleIntegral, \
        CollisionIntegralKind as K
    from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
    case = dict(case, thermalise=False, thermal=False)
    ch = case['channel']
    if ch.count('a') > 1 and case['majorana']:
        # the observed product is counted per charge state
        if case['Q'] and ch.count('a') == 3 or not case['Q'] and not case['pmajorana']:
            raise Skip()
    if case['Q'] and case['pmajorana']:
        raise Skip()
    if case['pdof'] == 1 and not case['pmajorana'] or case['fast'] and case['kind'] == 'F_1':
        raise Skip()
    with contextlib.redirect_stdout(io.StringIO()):
        key = ch[::-1]
        params, g, P = mother(case, with_decoys({key: case['BR'], 'xyz': .5}), top=40.)
        world.advance(params, 0.01)
        P.update()
        M = case['M']
        gp = world.grid(case['n'], (M / case['T'] + 45.) * case['norm'])
        sp = {}
        for i, s in enumerate('abc'):
            m = 0. if i == case['massless'] else case['m'][i] * M
            kw = dict(mass=m, dof=case['pdof'] if s == 'a' else 2, grid=gp, name='Product ' + s,
                      symbol=s, majorana=case['pmajorana'] if s == 'a' else True,
                      Q=case['Q'] if s == 'a' else 0, Tdec=1e3, thermal_dyn=False)
            if case['fast'] and s == 'a':
                kw.update(fast_decay=True, BR={}, lifetime=1e-9 * UNITS.s)
            sp[s] = world.particle(params, **kw)
        if M <= 1.02 * sum(sp[s].mass for s in ch) / UNITS.MeV:
            raise Skip()
        n = len(ch)
        make = dict(particles=((P,), tuple(sp[s] for s in ch)),
                    antiparticles=((False,), tuple(not sp[s].majorana for s in ch)), kind=getattr(K, case['kind']))
        if n == 2:
            I = CrossGeneratingInteraction(name='decay', Ms=[ThreeParticleM(K=1.)],
                                           integral_type=ThreeParticleIntegral, **make)
        else:
            I = CrossGeneratingInteraction(name='decay', Ms=[FourParticleM(K1=1e-10, order=(0, 1, 2, 3))],
                                           integral_type=FourParticleIntegral, **make)
        mine = [i for i in I.integrals if i.particle is sp['a']
                and sum(x.side for x in i.reaction) < 0 and i.reaction[-1].specie is P]
        require(len(mine) == 1, 'creation of the product by %d integrals', len(mine))
        y = g.TEMPLATE / UNITS.MeV
        P._distribution = 0 * y if case['empty'] else spectrum(case['f'], y)
        P.num_creation = 0. if case['empty'] else case['num'] * UNITS.MeV ** 3
        A = sp['a']
        mine[0].initialize()
        require(A.collision_integrals == [mine[0]], 'the integral is not active')
        try:
            r = isolated(lambda: mine[0].integrate(gp.TEMPLATE, stepsize=params.h))
        except NoConvergence:
            ctx.label('integral does not converge')
            raise Skip()
    if case['fast']:
        require(len(r) == 2, 'gain and loss terms')
        require(not numpy.any(r[1]), 'creation takes part in the loss')
        r = r[0]
    r = numpy.asarray(r, dtype=float)
    require(r.shape == gp.TEMPLATE.shape, 'shape %s', r.shape)
    require(numpy.all(numpy.isfinite(r)), 'rate %r', r)
    if case['empty']:
        require(not r.any(), 'products of particles that do not exist')
        ctx.nontrivial(False)
        return
    if not r.any():
        # the compiled integral vanishes on the whole grid
        raise Skip()
    require((r >= -1e-12 * r.max()).all(), 'negative creation rate %g', r.min())
    times = ch.count('a')
    if times > 1 and case['majorana'] and case['Q']:
        times /= 2.
    got = number(gp.TEMPLATE / UNITS.MeV, r, states(A))
    close(got, times * case['BR'] * case['num'], 1e-6, 'created products of %s' % ch)
    ctx.nontrivial()
    ctx.label(ch, case['kind'], 'fast' if case['fast'] else 'stable')
