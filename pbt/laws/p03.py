"""P03: the cosmological clock: scale factor, temperature, Friedmann rate and age."""
import math
import os

from pbt.core import law, require, close
from pbt.gens import logf

M_P = 1.2209e22      # MeV


def units():
    from common import UNITS
    return UNITS


def start(st):
    return st.fixed_dictionaries({
        'T': logf(st, 1e-3, 1e4), 'm': st.one_of(st.just(1.), logf(st, 1e-2, 1e2)),
        'dy': logf(st, 1e-4, 0.3), 'dx': logf(st, 1e-6, 0.3), 'log': st.booleans(),
        't': st.one_of(st.just(0.), logf(st, 1e-6, 1e3)),
    })


def make(case):
    from common import Params, UNITS
    os.environ['LOGARITHMIC_TIMESTEP'] = 'on' if case['log'] else ''
    return Params(T=case['T'] * UNITS.MeV, m=case['m'] * UNITS.MeV, dy=case['dy'],
                  dx=case['dx'] * case['m'] ** 2 / case['T'] * UNITS.MeV, t=case['t'] * UNITS.s)


@law('P03', start, quick=400, thorough=8000, cpp=False,
     rule='initial conditions over seven decades of temperature and both kinds of step')
def initial_conditions(case, ctx):
    U = units()
    p = make(case)
    T, m = case['T'] * U.MeV, case['m'] * U.MeV
    close(p.T, T, 1e-14, 'T')
    close(p.a, m / T, 1e-12, 'initial scale factor')
    close(p.a_ini, m / T, 1e-12, 'stored initial scale factor')
    close(p.aT, m, 1e-12, 'initial aT')
    close(p.x, p.a * m, 1e-12, 'x = a m')
    close(p.t, case['t'] * U.s, 1e-14, 'initial time')
    if case['log']:
        close(p.y, math.log(m / T), 1e-9, 'y = ln a', 1e-9)
        close(p.h, case['dy'], 1e-14, 'step in ln a')
        close(p.dx, p.x * case['dy'], 1e-12, 'step in x')
    else:
        close(p.h, p.dx, 1e-14, 'step in x')
        close(p.dx, case['dx'] * case['m'] ** 2 / case['T'] * U.MeV, 1e-12, 'step in x')
    ctx.label('log' if case['log'] else 'linear')


@law('P03', lambda st: st.fixed_dictionaries({
    'log': st.booleans(), 'dy': st.sampled_from([None, 0.01, 'absent', 0]),
    'dx': st.sampled_from([None, 0.01, 'absent', 0]), 'T': logf(st, 0.1, 100)}),
     quick=60, thorough=300, cpp=False, rule='the step of the chosen kind is or is not given')
def step_size_is_mandatory(case, ctx):
    from common import Params, UNITS
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if case['log'] else ''
    kw = {k: case[k] for k in ('dy', 'dx') if case[k] != 'absent'}
    if case['log'] and 'dy' in kw and kw['dy'] is None:
        del kw['dy']
    given = kw.get('dy' if case['log'] else 'dx')
    try:
        Params(T=case['T'] * UNITS.MeV, **kw)
    except Exception:
        require(not given, 'a complete configuration %r is refused', kw)
        return
    require(given, 'no step size of the configured kind was given (%r), and the run starts', kw)


@law('P03', lambda st: st.fixed_dictionaries({
    'p': start(st), 'steps': st.lists(st.fixed_dictionaries({
        'rho': logf(st, 1e-12, 1e12), 'S': logf(st, 1e-6, 1e6),
        'daT': st.floats(-0.2, 0.2), 'move': st.booleans()}), min_size=1, max_size=12),
    'init': st.booleans()}),
     quick=400, thorough=8000, cpp=False,
     rule='histories of expansion steps with arbitrary energy densities and changes of aT; '
          'non-trivial with at least two expanding steps')
def friedmann_history(case, ctx):
    U = units()
    p = make(case['p'])
    MeV = U.MeV
    if case['init']:
        rho = case['steps'][0]['rho'] * MeV ** 4
        r = p.init_time(rho)
        H = math.sqrt(8 * math.pi / 3 * rho) / (M_P * MeV)
        close(p.t, 0.5 / H, 1e-9, 'initial age is 1/(2H)')
        close(r, p.t, 1e-14, 'returned age')
    moves = 0
    for s in case['steps']:
        a0, t0, T0 = p.a, p.t, p.T
        m = p.m
        if s['move']:
            p.x += p.dx
            moves += 1
        p.aT *= 1 + s['daT']
        x, aT = p.x, p.aT
        rho, S = s['rho'] * MeV ** 4, s['S'] * MeV ** 3
        p.update(rho, S)
        H = math.sqrt(8 * math.pi / 3 * rho) / (M_P * MeV)
        close(p.H, H, 1e-12, 'Friedmann equation')
        close(p.rho, rho, 1e-15, 'rho')
        close(p.S, S, 1e-15, 'S')
        close(p.a, x / m, 1e-13, 'scale factor follows x')
        close(p.T, aT / (x / m), 1e-13, 'T = aT / a')
        close(p.x, x, 1e-15, 'x is not changed by the update')
        close(p.aT, aT, 1e-15, 'aT is not changed by the update')
        da = 1 - a0 / p.a
        close(p.t - t0, da / H, 1e-7, 'time step (1 - a_old/a)/H', 1e-9 * t0)
        if s['move']:
            require(p.t > t0 or p.t - t0 == 0 and da / H < 1e-15 * t0,
                    'time does not advance in an expanding step')
        close(p.N_eff, (rho - math.pi ** 2 / 15 * T0 ** 4)
              / (7. / 8 * math.pi ** 2 / 15 * (T0 / 1.401) ** 4), 1e-9, 'N_eff',
              1e-9 * (1 + rho / T0 ** 4))
        if case['p']['log']:
            close(p.dx, p.x * case['p']['dy'], 1e-12, 'next step in x')
            close(p.h, case['p']['dy'], 1e-15, 'h')
        else:
            close(p.h, p.dx, 1e-15, 'h')
    ctx.label('init_time' if case['init'] else 'plain', 'moves%d' % min(moves, 3))
    ctx.nontrivial(moves >= 2)


@law('P03', lambda st: st.fixed_dictionaries({
    'T': logf(st, 1e-3, 1e3), 'N': st.floats(0, 12)}), quick=200, thorough=2000, cpp=False,
     rule='photons and N standard neutrino species at T/1.401')
def n_eff_counts_neutrinos(case, ctx):
    from common import Params, UNITS
    p = Params(T=case['T'] * UNITS.MeV, dy=0.01)
    T = p.T
    close(p.aT, UNITS.MeV, 1e-12, 'aT of a run with the default normalisation')
    require(p.t == 0, 'age %r at the start', p.t)
    rho = math.pi ** 2 / 15 * T ** 4 + case['N'] * 7. / 8 * math.pi ** 2 / 15 * (T / 1.401) ** 4
    p.update(rho, 1.)
    close(p.N_eff, case['N'], 1e-9, 'N_eff', 1.)


@law('P03', lambda st: st.fixed_dictionaries({
    'T': logf(st, 1e-2, 1e3), 'species': st.lists(st.fixed_dictionaries({
        'm': st.one_of(st.just(0.), logf(st, 1e-3, 1e4)), 'dof': st.integers(1, 24),
        'fermion': st.booleans(), 'eq': st.booleans()}), max_size=8)}),
     quick=300, thorough=3000, cpp=True,
     rule='mixtures of species; non-trivial with at least one counted and one skipped species')
def entropic_degrees_of_freedom(case, ctx):
    import contextlib
    import io
    from common import Params, UNITS
    from evolution import Universe
    from fractions import Fraction
    from pbt import world
    params = Params(T=case['T'] * UNITS.MeV, dy=0.01)
    u = Universe(params=params)
    parts, want, n = [], Fraction(0), 0
    g = world.grid(5, 10.)
    for i, s in enumerate(case['species']):
        with contextlib.redirect_stdout(io.StringIO()):
            parts.append(world.particle(
                params if s['eq'] else None, mass=s['m'], dof=s['dof'], fermion=s['fermion'],
                grid=g, name='species %d' % i, Tdec=0. if s['eq'] else 2 * case['T']))
        if not s['eq']:
            parts[-1].params, parts[-1].T = params, params.T
        if s['eq'] and params.T > s['m'] * UNITS.MeV:
            n += 1
            want += s['dof'] * (Fraction(7, 8) if s['fermion'] else 1)
    u.particles = parts
    got = Params.entropic_dof_eq(u)
    close(got, float(want), 1e-12, 'entropic degrees of freedom', 1e-9)
    ctx.nontrivial(0 < n < len(parts))


@law('P03', lambda st: st.fixed_dictionaries({
    'T': logf(st, 1e-2, 1e2), 'g': st.floats(1, 100), 'dy': logf(st, 5e-4, 2e-2),
    'n': st.integers(20, 400)}), quick=60, thorough=600, cpp=False,
     rule='radiation-dominated expansion followed for n steps')
def radiation_age(case, ctx):
    """With rho ~ T^4 and constant aT the age stays 1/(2H), up to the order of the step."""
    from common import Params, UNITS
    p = Params(T=case['T'] * UNITS.MeV, dy=case['dy'])

    def rho():
        return math.pi ** 2 / 30 * case['g'] * p.T ** 4
    p.init_time(rho())
    for _ in range(case['n']):
        p.x += p.dx
        p.aT = p.aT
        p.T = p.aT / (p.x / p.m)
        p.update(rho(), 1.)
    H = math.sqrt(8 * math.pi / 3 * rho()) / (M_P * UNITS.MeV)
    # the step (1 - a_old/a)/H(a) integrates dt = da/(a H) backward: relative error below dy
    close(p.t * 2 * H, 1., 1.05 * case['dy'] + 1e-9, 'age of a radiation-dominated universe')
    close(p.a, p.a_ini * (1 + case['dy']) ** case['n'], 1e-9, 'growth of the scale factor')
