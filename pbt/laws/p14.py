"""P14: a run of the universe: bookkeeping, stopping, independence of runs."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, all_close, Skip, isolated, NoConvergence
from pbt.gens import logf
from pbt import world, collide

COLS = ['aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S']


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def content(st):
    return st.fixed_dictionaries({
        'norm': st.sampled_from([1., 1., .3, 3.]), 'T': logf(st, 0.05, 50), 'dy': logf(st, 2e-3, 0.1), 'log': st.sampled_from([True, True, False]),
        'plasma': st.lists(st.fixed_dictionaries({
            'r': st.one_of(st.just(0.), logf(st, 0.05, 10)), 'dof': st.integers(1, 6),
            'fermion': st.booleans(),
            'dec': st.one_of(st.just(0.), st.floats(0.3, 1.5)), 'rate': st.floats(-0.4, 0.02)}),
            min_size=1, max_size=3)})


class Rate(object):
    """An interaction with a prescribed rate that notes when it was used."""
    integrals = ()

    def __init__(self, particle, k, log):
        self.particle, self.k, self.log = particle, k, log
        self.seen = []

    def __str__(self):
        return 'rate'

    def initialize(self):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
        p = self.particle
        self.seen.append((p.params.a, p.params.T, p.T, len(p.data['params'])))
        if not p.in_equilibrium:
            def value(ps):
                v = self.k * p._distribution
                return v if self.log else v / p.params.x
            p.collision_integrals.append(world.Stub(K.F_1, value))


def build(case, folder=None):
    from common import Params, UNITS
    from evolution import Universe
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if case['log'] else ''
    m = case['norm']
    params = Params(T=case['T'] * UNITS.MeV, dy=case['dy'], m=m * UNITS.MeV,
                    dx=case['dy'] * m * m / case['T'] * UNITS.MeV)
    u = Universe(params=params, folder=folder, max_log_rate=0)
    g = world.grid(15, 15. * m)
    parts = [world.particle(None, dof=2, fermion=False, name='Photon', symbol='g')]
    inter = []
    for i, s in enumerate(case['plasma']):
        p = world.particle(None, mass=s['r'] * case['T'], dof=s['dof'],
                           fermion=s['fermion'] or s['r'] == 0, Tdec=s['dec'] * case['T'],
                           name='S%d' % i, symbol='s%d' % i, grid=g)
        parts.append(p)
        inter.append(world.interaction(Rate, p, s['rate'], case['log']))
    u.add_particles(parts)
    u.interactions += inter
    if case.get('osc') and len(inter) > 1:
        flavours = [r.particle for r in inter]
        for i, p in enumerate(flavours):
            p.flavour = 'flavour %d' % i

        def pattern(MSW_12, MSW_13, matter):
            s = case['osc'] / len(flavours) / (1 + numpy.abs(MSW_12) + 0. * MSW_13)
            return {(a.flavour, b.flavour): s + (1 - s * len(flavours)) * (a is b)
                    for a in flavours for b in flavours}
        u.init_oscillations(pattern, flavours, matter_effects=case['osc'] > .5)
    if case.get('kawano'):
        el = world.particle(None, mass=.511, dof=4, name='Electron', symbol='e')
        nu = world.particle(None, dof=2, name='Neutrino', symbol='nu', grid=world.grid(21, 20. * m),
                            Tdec=case['kawano'] * case['T'])
        u.add_particles([el, nu])
        parts += [el, nu]
        u.init_kawano(electron=el, neutrino=nu)
    return u, parts, inter


def run_case(st):
    return st.fixed_dictionaries({'c': content(st), 'steps': st.one_of(st.integers(3, 25).map(float),
                                                     st.floats(0, 25)),
                                  'init': st.booleans(), 'monitor': st.booleans(),
                                  'ab': st.booleans()})


@law('P14', run_case, quick=200, thorough=4000, hang=300,
     rule='universes with up to three extra species run for up to 25 steps; non-trivial with at '
          'least three steps and a species out of equilibrium')
def run_bookkeeping(case, ctx):
    from common import UNITS
    c = case['c']
    os.environ['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = '1' if case['ab'] else ''
    calls = []
    with quiet():
        u, parts, inter = build(c)
        require(sorted(p.name for p in u.particles) == sorted(p.name for p in parts), 'species')
        masses = [p.mass for p in u.particles]
        require(masses == sorted(masses, reverse=True), 'the heaviest species goes first')
        if case['monitor']:
            u.step_monitor = lambda uu: calls.append((uu is u, len(uu.data), uu.params.T))
        T0, x0, t0, aT0 = u.params.T, u.params.x, u.params.t, u.params.aT
        T_final = T0 * (1 + c['dy']) ** -case['steps']
        out = u.evolve(T_final, export=False, **({} if case['init'] else {'init_time': False}))
    require(out is u.data, 'the history is returned')
    n = len(u.data)
    D = {k: numpy.array(u.data[k]) for k in COLS}
    for k in COLS:
        require(len(D[k]) == n and numpy.isfinite(D[k]).all(), 'column %s: %r', k, D[k])
    # initial record
    close(D['T'][0], T0, 1e-12, 'initial T')
    close(D['x'][0], x0, 1e-12, 'initial x')
    close(D['aT'][0], aT0, 1e-12, 'initial aT')
    H0 = math.sqrt(8 * math.pi / 3 * D['rho'][0]) / (1.2209e22 * UNITS.MeV)
    if case['init']:
        close(D['t'][0], 0.5 / H0, 1e-9, 'initial age')
    else:
        close(D['t'][0], t0, 1e-12, 'initial time', 1 / H0)
    # stops at the first record at or below the final temperature
    require(D['T'][-1] <= T_final or n == 1 and T0 <= T_final, 'stopped above the final T')
    require((D['T'][:-1] > T_final).all(), 'ran past the final temperature')
    require(u.params.T == D['T'][-1] and u.params.a == D['a'][-1] and u.params.t == D['t'][-1],
            'the last record is the current state')
    # scale factor, temperature and time
    m = u.params.m
    all_close(D['a'], D['x'] / m, 1e-12, 'a = x/m')
    all_close(D['T'], D['aT'] / D['a'], 1e-12, 'T = aT/a')
    h = c['dy'] if c['log'] else c['dy'] * c['norm'] ** 2 / c['T'] * UNITS.MeV
    if c['log']:
        all_close(D['x'][1:] / D['x'][:-1] - 1, [c['dy']] * (n - 1), 1e-7, 'growth of x')
    else:
        all_close(numpy.diff(D['x']), [h] * (n - 1), 1e-7, 'growth of x')
    H = numpy.sqrt(8 * math.pi / 3 * D['rho']) / (1.2209e22 * UNITS.MeV)
    all_close(numpy.diff(D['t']), (1 - D['a'][:-1] / D['a'][1:]) / H[1:], 1e-6, 'time steps',
              1e-9 * D['t'][-1])
    require((numpy.diff(D['t']) > 0).all(), 'time runs backwards')
    # the step of aT
    if not case['ab']:
        all_close(numpy.diff(D['aT']), D['fraction'][1:] * h, 1e-6, 'step of aT',
                  1e-9 * aT0)
    else:
        from fractions import Fraction as F
        for i in range(1, n):
            k = min(i, 5)
            w = explicit_weights(k)
            want = h * sum(w[j] * D['fraction'][i - j] for j in range(k))
            close(D['aT'][i] - D['aT'][i - 1], want, 1e-6, 'step %d of aT' % i, 1e-9 * aT0)
    # sums over the species
    for k, col in (('rho', 'energy_density'),):
        for i in range(n):
            tot = sum(p.data['params'][col][i] for p in parts)
            close(D[k][i], tot, 1e-9, 'total %s of record %d' % (k, i))
    for p in parts:
        require(len(p.data['params']) == n, '%s has %d records for %d', p.name,
                len(p.data['params']), n)
        # the record of step i holds the state at the beginning of the step
        if n > 1:
            all_close(p.data['params']['a'][1:], D['a'][:-1], 1e-12, 'a in the records of a species')
            all_close(p.data['params']['T'][1:], D['T'][:-1], 1e-12, 'T in the records of a species')
            all_close(p.data['params']['t'][1:], D['t'][:-1], 1e-12, 't in the records of a species',
                      1e-3 / H0)
    close(D['S'][-1], sum(p.entropy for p in parts), 1e-9, 'total entropy')
    close(u.total_energy_density(), sum(p.energy_density for p in parts), 1e-12, 'total energy')
    # every interaction is prepared once per step with species at the current state
    for r in inter:
        require(len(r.seen) == n - 1, 'an interaction is prepared %d times in %d steps',
                len(r.seen), n - 1)
        for i, (a, T, pT, rows) in enumerate(r.seen):
            close(a, D['a'][i], 1e-12, 'scale factor seen by the interaction')
            require(rows == i + 2, 'species are updated before the interactions')
    if case['monitor']:
        require([x[:2] for x in calls] == [(True, i + 1) for i in range(n - 1)],
                'the monitor is called once per step: %r', calls)
    noneq = any(not p.in_equilibrium for p in parts)
    ctx.label('noneq' if noneq else 'equilibrium', 'steps%d' % min(n - 1, 3))
    ctx.nontrivial(n > 3 and noneq)


def explicit_weights(k):
    nodes = [-j for j in range(k)]
    out = []
    for j, xj in enumerate(nodes):
        c = numpy.poly1d([1.])
        for i, xi in enumerate(nodes):
            if i != j:
                c = c * numpy.poly1d([1., -xi]) / (xj - xi)
        ci = c.integ()
        out.append(ci(1.) - ci(0.))
    return out


def history(u, parts):
    out = {k: numpy.array(u.data[k]) for k in COLS}
    for p in parts:
        for k in ('a', 't', 'T', 'density', 'energy_density'):
            out[p.name + k] = numpy.array(p.data['params'][k])
        out[p.name + 'f'] = numpy.array(p.data['distribution'].data)
        out[p.name + 'I'] = numpy.array(p.data['collision_integral'].data)
    if u.kawano:
        for k in u.kawano_data.columns:
            out['kawano ' + k] = numpy.array(u.kawano_data[k])
    return out


def same(a, b, what):
    require(sorted(a) == sorted(b), '%s: different columns', what)
    for k in a:
        require(a[k].shape == b[k].shape and numpy.array_equal(a[k], b[k], equal_nan=True),
                '%s: %s differs: %r, %r', what, k, a[k], b[k])


@law('P14', lambda st: st.fixed_dictionaries({
    'a': content(st), 'b': content(st),
    'osc': st.lists(st.one_of(st.just(0.), st.floats(.05, 1.), st.floats(.05, 1.)), min_size=2, max_size=2),
    'kawano': st.one_of(st.none(), st.lists(st.floats(.5, 1.5), min_size=2, max_size=2)),
    'order': st.lists(st.booleans(), min_size=2, max_size=16)}),
     quick=120, thorough=2000, hang=300,
     rule='two universes, with and without oscillations and nucleon rates, advanced in an arbitrary '
          'interleaving; non-trivial when both advance and differ')
def universes_do_not_interfere(case, ctx):
    ca = dict(case['a'], osc=case['osc'][0])
    cb = dict(case['b'], log=ca['log'], osc=case['osc'][1])
    if case['kawano']:
        ca['kawano'], cb['kawano'] = case['kawano']
    na = sum(case['order'])
    nb = len(case['order']) - na

    def start(c):
        u, parts, inter = build(c)
        u.params.init_time(u.total_energy_density())
        u.params.update(u.total_energy_density(), u.total_entropy())
        u.save_params()
        return u, parts

    def step(u):
        u.make_step()
        u.save()
        u.step += 1
    with quiet():
        alone = []
        for c, n in ((ca, na), (cb, nb)):
            u, parts = start(c)
            for _ in range(n):
                step(u)
            alone.append(history(u, parts))
        ua, pa = start(ca)
        ub, pb = start(cb)
        for first in case['order']:
            step(ua if first else ub)
    same(history(ua, pa), alone[0], 'first universe')
    same(history(ub, pb), alone[1], 'second universe')
    require(ua.data is not ub.data, 'shared history')
    if ua.oscillations and ub.oscillations:
        ctx.label('oscillations in both')
    if ua.kawano and ub.kawano and len(ua.kawano_data) and len(ub.kawano_data):
        ctx.label('nucleon rates in both')
    ctx.nontrivial(na > 0 and nb > 0 and ca != cb)


@law('P14', lambda st: st.fixed_dictionaries({
    'a': collide.contents(st, True), 'b': collide.contents(st, True),
    'cut': st.sampled_from([None, 3, 10]), 'order': st.lists(st.booleans(), min_size=2, max_size=6)}),
     quick=20, thorough=1000, hang=600,
     rule='two small universes with real collisions, with and without sterile neutrinos, advanced in an '
          'arbitrary interleaving; non-trivial when both advance')
def collisions_do_not_interfere(case, ctx):
    collide.settings(True, case['cut'])
    both = {True: case['a'], False: case['b']}

    def run():
        with quiet():
            alone = {}
            for which in both:
                u, p = collide.start(both[which])
                for _ in range(case['order'].count(which)):
                    collide.step(u)
                alone[which] = collide.history(u, p)
            mixed = {which: collide.start(both[which]) for which in both}
            for which in case['order']:
                collide.step(mixed[which][0])
        return [(alone[which], collide.history(*mixed[which])) for which in both]
    try:
        results = isolated(run)
    except NoConvergence:
        raise Skip()
    for name, (alone, mixed) in zip(('first', 'second'), results):
        collide.same(mixed, alone, name + ' universe')
    ctx.label(*['sterile' for c in both.values() if c['sterile']])
    ctx.nontrivial(len(set(case['order'])) == 2)


@law('P14', lambda st: st.fixed_dictionaries({
    'c': content(st), 'steps': st.integers(2, 12), 'at': st.integers(1, 12),
    'what': st.sampled_from(['interrupt', 'error', 'unstable', 'nan'])}), quick=80, thorough=1500,
     hang=300, rule='a run that is interrupted or fails at a chosen step; non-trivial when it '
                    'fails after the first step')
def interrupted_run(case, ctx):
    """What was recorded before the interruption is intact and equal to the undisturbed run."""
    c, at = case['c'], min(case['at'], case['steps'])
    with quiet():
        u0, p0, _ = build(c)
        T_final = 1e-6 * u0.params.T
        u0.step_monitor = lambda uu: (_ for _ in ()).throw(ZeroDivisionError()) \
            if len(uu.data) > case['steps'] else None
        try:
            u0.evolve(T_final, export=False)
        except ZeroDivisionError:
            pass
        u, parts, _ = build(c)

        def monitor(uu):
            if len(uu.data) == at:
                if case['what'] == 'interrupt':
                    raise KeyboardInterrupt()
                if case['what'] == 'error':
                    raise ZeroDivisionError()
                uu.fraction = 0.
                uu.params.aT *= -1. if case['what'] == 'unstable' else math.nan
        u.step_monitor = monitor
        ended = None
        try:
            u.evolve(T_final, export=False)
        except KeyboardInterrupt:
            ended = 'KeyboardInterrupt'
        except SystemExit as e:
            ended = e.code
        except ZeroDivisionError:
            ended = 'error'
    if case['what'] == 'error':
        require(ended == 'error', 'an error inside a step is swallowed')
    else:
        require(ended not in (None, 0), 'a broken run ends normally (%r)', ended)
    n = at
    require(len(u.data) >= n, 'records are lost')
    for k in COLS:
        require(numpy.array_equal(u.data[k][:n], u0.data[k][:n]), 'earlier records of %s differ', k)
    ctx.label(case['what'])
    ctx.nontrivial(at > 1)
