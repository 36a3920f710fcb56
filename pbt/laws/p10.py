"""P10: dynamical regimes, decoupling and free streaming."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, all_close, Skip
from pbt.gens import logf
from pbt import world


def story(st):
    return st.fixed_dictionaries({
        'norm': st.sampled_from([1., 1., .3, 3.]), 'before': st.one_of(st.just([]), st.lists(st.fixed_dictionaries({
            'dx': logf(st, 1e-3, 0.5), 'daT': st.floats(-0.02, 0.05)}), max_size=3)),
        'T': logf(st, 0.05, 500), 'r': st.one_of(st.just(0.), logf(st, 1e-4, 30)),
        'dec': st.one_of(st.just(0.), logf(st, 1e-3, 2.), st.floats(0.2, 1.05)),
        'dof': st.integers(1, 8), 'fermion': st.booleans(), 'thermal': st.sampled_from(
            [True, True, True, False]), 'Q': st.sampled_from([0, 0, 1, -1]),
        'gamma': st.sampled_from([None, 30., 3.]), 'n': st.integers(5, 40),
        'moves': st.lists(st.fixed_dictionaries({
            'dx': logf(st, 1e-3, 0.5), 'daT': st.floats(-0.02, 0.05)}), min_size=1, max_size=8)})


@law('P10', story, quick=400, thorough=8000,
     rule='species followed through cooling histories; non-trivial when it decouples or changes '
          'regime on the way, or is never thermal')
def decoupling_history(case, ctx):
    from common import UNITS
    if case['gamma']:
        os.environ['REGIME_SWITCHING_FACTOR'] = repr(case['gamma'])
    gamma = case['gamma'] or 1e3
    # a massless boson has no finite occupation at y = 0 and can not be put on a grid
    case = dict(case, fermion=case['fermion'] or case['r'] == 0)
    params = world.params(T=case['T'], m=case['norm'])
    for mv in case['before']:
        # the species joins a universe that has been heated in the meantime
        world.advance(params, mv['dx'], min(mv['daT'], 0.5 * mv['dx']))
    g = world.grid(case['n'], 30. * case['norm'])
    mass = case['r'] * case['T']
    with contextlib.redirect_stdout(io.StringIO()):
        p = world.particle(params, mass=mass, dof=case['dof'], fermion=case['fermion'], grid=g,
                           Tdec=case['dec'] * case['T'], thermal_dyn=case['thermal'],
                           Q=case['Q'])
        eta = 1 if case['fermion'] else -1
        Tdec = case['dec'] * case['T'] * UNITS.MeV
        if not case['thermal'] and Tdec == 0:
            Tdec = params.T
        close(p.decoupling_temperature, Tdec, 1e-12, 'decoupling temperature')
        coupled = case['thermal'] and params.T > Tdec
        aT = params.aT
        frozen = p._distribution.copy()
        seen, regimes, rows = coupled, set(), 1
        order = ['radiation', 'intermediate', 'dust', 'non-equilibrium']

        def check(where):
            T = aT / params.a
            for border in (Tdec, p.mass * gamma, p.mass / gamma):
                if border and abs(T / border - 1) < 1e-9:
                    raise Skip()        # decided by rounding
            require(bool(p.in_equilibrium) == coupled, '%s: equilibrium is %r, expected %r '
                    '(T = %r, T_dec = %r)', where, bool(p.in_equilibrium), coupled, p.T, Tdec)
            T = p.T
            if not coupled:
                want = 'non-equilibrium'
            elif T > p.mass * gamma:
                want = 'radiation'
            elif T * gamma < p.mass:
                want = 'dust'
            else:
                want = 'intermediate'
            require(p.regime.name == want, '%s: regime %s, expected %s', where, p.regime.name,
                    want)
            if regimes:
                require(max(order.index(x) for x in regimes) <= order.index(want),
                        '%s: regime %s after %s', where, want, sorted(regimes))
            regimes.add(want)
            close(p.aT, aT, 1e-12, where + ': aT of the species')
            close(p.T, aT / params.a, 1e-12, where + ': T of the species')
            require(len(p.data['params']) == rows, '%s: %d records, expected %d', where,
                    len(p.data['params']), rows)
            rec = p.data['params'][-1]
            for col, v in (('a', params.a), ('t', params.t), ('T', params.T),
                           ('density', p.density), ('energy_density', p.energy_density)):
                close(rec[col], v, 1e-12, where + ': recorded ' + col)
            require(len(p.collision_integral) == case['n'] and not p.collision_integral.any(),
                    '%s: the collision integral is not cleared', where)
        check('start')
        drop = False
        dust = False
        for i, mv in enumerate(case['moves']):
            world.advance(params, mv['dx'], min(mv['daT'], 0.5 * mv['dx']))
            p.update()
            rows += 1
            where = 'step %d' % (i + 1)
            was = coupled
            if was:
                aT = params.aT
                if Tdec and abs(aT / params.a / Tdec - 1) < 1e-9:
                    raise Skip()
                coupled = aT / params.a > Tdec
                if not coupled:
                    drop = True
                    close(p.t_decoupling, params.t, 1e-12, where + ': moment of decoupling')
                    E = numpy.sqrt(g.TEMPLATE ** 2 + (p.mass * params.a) ** 2)
                    with numpy.errstate(divide='ignore', over='ignore'):
                        frozen = 1 / (numpy.exp(E / aT) + eta)
                    got = p._distribution
                    ok = numpy.isfinite(frozen)
                    all_close(got[ok], frozen[ok], 1e-9, where + ': distribution at decoupling',
                              1e-290)
                    frozen = got.copy()
            elif not case['thermal'] and case['Q'] != 0:
                aT = params.aT
                require(not p._distribution.any(), 'a species without thermal population has one')
            else:
                require(numpy.array_equal(p._distribution, frozen), '%s: the distribution of a '
                        'decoupled species changes without collisions', where)
            check(where)
    ctx.label(*sorted(regimes))
    ctx.nontrivial(drop or len(regimes) > 1 or not case['thermal'])


@law('P10', lambda st: st.fixed_dictionaries({
    'norm': st.sampled_from([1., 1., .3, 3.]), 'T': logf(st, 0.1, 100), 'r': st.one_of(st.just(0.), logf(st, 1e-2, 30)),
    'fermion': st.booleans(), 'dof': st.integers(1, 8), 'n': st.integers(20, 80),
    'growth': st.lists(logf(st, 1e-3, 1.), min_size=1, max_size=6), 'tilt': st.floats(0, 1)}),
     quick=250, thorough=5000,
     rule='decoupled species without collisions, with a thermal or distorted spectrum; '
          'non-trivial when the universe grows by more than 10%')
def free_streaming(case, ctx):
    """Number scales as a^-3, massless energy and pressure as a^-4, entropy as a^-3."""
    params = world.params(T=case['T'], m=case['norm'])
    g = world.grid(case['n'], 20. * case['norm'])
    fermion = case['fermion'] or case['r'] == 0        # a massless boson diverges at y = 0
    with contextlib.redirect_stdout(io.StringIO()):
        p = world.particle(params, mass=case['r'] * case['T'], dof=case['dof'],
                           fermion=fermion, grid=g, Tdec=2 * case['T'])
        p._distribution = p._distribution * (1 - 0.5 * case['tilt'] * numpy.linspace(0, 1, case['n']))
        p.populate_methods()
        first = (params.a, p.density, p.energy_density, p.pressure, p.entropy)
        f0 = p._distribution.copy()
        for d in case['growth']:
            world.advance(params, d)
            p.update()
            k = first[0] / params.a
            close(p.density, first[1] * k ** 3, 1e-9, 'number in a comoving volume')
            close(p.entropy, first[4] * k ** 3, 1e-9, 'entropy in a comoving volume')
            if case['r'] == 0:
                close(p.energy_density, first[2] * k ** 4, 1e-9, 'energy redshift')
                close(p.pressure, first[3] * k ** 4, 1e-9, 'pressure redshift')
                close(p.pressure, p.energy_density / 3, 1e-9, 'P = rho/3')
            else:
                e, e0 = p.energy_density / p.density, first[2] / first[1]
                require(p.mass * (1 - 1e-9) <= e <= e0 * (1 + 1e-9), 'mean energy %r from %r '
                        'with mass %r', e, e0, p.mass)
                require(p.pressure <= p.energy_density / 3 * (1 + 1e-9), 'P > rho/3')
                require(p.pressure <= first[3] * k ** 4 * (1 + 1e-9) * (
                    first[2] / first[1] / p.mass), 'pressure falls slower than a^-4')
            require(numpy.array_equal(p._distribution, f0), 'the spectrum changes')
    ctx.label('massless' if case['r'] == 0 else 'massive')
    ctx.nontrivial(sum(case['growth']) > 0.1)


@law('P10', lambda st: st.fixed_dictionaries({
    'norm': st.sampled_from([1., 1., .3, 3.]), 'T': logf(st, 0.1, 100), 'mass': st.one_of(st.just(0.), logf(st, 1e-3, 1e3)),
    'ys': st.lists(st.floats(-1e3, 1e3), min_size=1, max_size=8), 'dx': st.floats(0, 3),
    'cm': st.one_of(st.none(), logf(st, 1e-3, 1e3))}), quick=300, thorough=4000,
     rule='momenta and masses; non-trivial for a massive species')
def energies(case, ctx):
    from common import UNITS
    params = world.params(T=case['T'], m=case['norm'])
    p = world.particle(params, mass=case['mass'], grid=world.grid(5, 10.))
    world.advance(params, case['dx'])
    M, a = case['mass'] * UNITS.MeV, params.a
    close(p.conformal_mass, M * a, 1e-12, 'conformal mass')
    ys = numpy.array(case['ys']) * UNITS.MeV
    all_close(p.energy(ys), numpy.hypot(ys, M), 1e-12, 'energy', 1e-300)
    all_close(p.conformal_energy(ys), numpy.hypot(ys, M * a), 1e-12, 'conformal energy', 1e-300)
    if case['cm'] is not None and M > 0:
        cm = case['cm'] * UNITS.MeV
        all_close(p.conformal_energy(ys, cm), numpy.hypot(ys, cm), 1e-12,
                  'conformal energy with a given mass', 1e-300)
    close(p.energy(ys[0]), math.hypot(ys[0], M), 1e-12, 'scalar energy', 1e-300)
    ctx.nontrivial(M > 0)


@law('P10', lambda st: st.fixed_dictionaries({
    'parts': st.lists(st.tuples(st.integers(0, 5), st.text('abc', min_size=1, max_size=2)),
                      min_size=0, max_size=8, unique=True),
    'drop': st.lists(st.text('abc', min_size=1, max_size=2), max_size=3)}),
     quick=200, thorough=3000, rule='lists of species with equal and different masses')
def ordering_and_filtering(case, ctx):
    """Species are processed from the heaviest to the lightest; filtering removes exactly the named."""
    from common import utils
    g = world.grid(3, 1.)
    ps = [world.particle(None, mass=m, name=n, grid=g) for m, n in case['parts']]
    out = utils.particle_orderer(list(ps))
    require(sorted(map(id, out)) == sorted(map(id, ps)), 'species are lost or repeated')
    masses = [p.mass for p in out]
    require(masses == sorted(masses, reverse=True), 'masses in order: %r', masses)
    kept = utils.particle_filter(case['drop'], ps)
    require([id(p) for p in kept] == [id(p) for p in ps if p.name not in case['drop']],
            'filtering by name')
    ctx.nontrivial(len(ps) > 1)
