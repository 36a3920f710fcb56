"""P13: the temperature equation: entropy and energy conservation of the expanding plasma."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, Skip
from pbt.gens import logf
from pbt import thermo, world


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def universe(params):
    from evolution import Universe
    return Universe(params=params, max_log_rate=1e9)


def plasma(st, nmin=0, nmax=4):
    return st.lists(st.fixed_dictionaries({
        'r': st.one_of(st.just(0.), logf(st, 0.02, 20)), 'dof': st.integers(1, 12),
        'fermion': st.booleans()}), min_size=nmin, max_size=nmax)


def build(case, log=True, dy=0.02, dx=None):
    """Photons, a plasma of equilibrium species and decoupled massless species."""
    from common import Params, UNITS
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if log else ''
    m = case.get('norm', 1.)
    params = Params(T=case['T'] * UNITS.MeV, m=m * UNITS.MeV, dy=dy,
                    dx=(dx or 1e-3 * UNITS.MeV) * m * m)
    u = universe(params)
    g = world.grid(case.get('n', 101), 20. * m)
    parts = [world.particle(None, mass=0., dof=2, fermion=False, name='Photon', symbol='g')]
    for i, s in enumerate(case['plasma']):
        parts.append(world.particle(None, mass=s['r'] * case['T'], dof=s['dof'],
                                    fermion=s['fermion'], name='S%d' % i, symbol='s%d' % i))
    for i, s in enumerate(case.get('dark', [])):
        parts.append(world.particle(None, mass=s['r'] * case['T'], dof=s['dof'], fermion=True,
                                    Tdec=2 * case['T'], name='D%d' % i, symbol='d%d' % i, grid=g))
    u.add_particles(parts)
    return u, parts


def entropy(case, T, a):
    """Comoving entropy of the equilibrium plasma from exact integrals."""
    tot = 0.
    for s in [{'r': 0., 'dof': 2, 'fermion': False}] + case['plasma']:
        M = s['r'] * case['T']
        r = M / T
        n, rho, P = thermo.moments(r, 1 if s['fermion'] else -1)
        tot += s['dof'] * (rho + P) * T ** 3
    return tot * a ** 3


@law('P13', lambda st: st.fixed_dictionaries({
    'norm': st.sampled_from([1., 1., .3, 3.]), 'T': logf(st, 0.1, 100), 'plasma': plasma(st, 0, 4), 'drop': st.floats(1.2, 20.),
    'n': st.just(11), 'log': st.booleans(), 'ab': st.booleans(),
    'dark': st.lists(st.fixed_dictionaries({'r': st.just(0.), 'dof': st.integers(1, 6)}),
                     max_size=2)}), quick=60, thorough=1000, hang=600,
     rule='plasmas of photons and species that become non-relativistic, cooled by a factor up to '
          '20; non-trivial when a massive species transfers entropy')
def comoving_entropy_is_conserved(case, ctx):
    """s a^3 of the plasma is the same at the end as at the start, from the reported T and a."""
    from common import UNITS
    os.environ['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = '1' if case['ab'] else ''
    dy = 0.01
    dx = dy / case['T'] * UNITS.MeV
    with quiet():
        u, parts = build(case, case['log'], dy=dy, dx=dx)
        T0, a0 = u.params.T / UNITS.MeV, u.params.a
        Tf = u.params.T / case['drop']
        if not case['log']:
            Tf = max(Tf, u.params.T / 3)
        data = u.evolve(Tf, export=False)
    T, a = data['T'] / UNITS.MeV, data['a']
    close(T[0], T0, 1e-12, 'first recorded temperature')
    S0 = entropy(case, T0, a0)
    for i in sorted({len(T) // 3, 2 * len(T) // 3, len(T) - 1}):
        S = entropy(case, T[i], a[i])
        # x grows by the factor 1 + dy, and ln x by dy (1 - dy/2): first order in the step
        grown = math.log(data['aT'][i] / data['aT'][0])
        tol = 1e-3 + (3.5 if case['ab'] else 10.) * dy * max(grown, 0.)
        close(S, S0, tol, 'entropy in a comoving volume at T = %r MeV' % T[i])
    require((numpy.diff(T) < 0).all(), 'the temperature does not fall')
    aT = data['aT']
    require((numpy.diff(aT) >= -1e-9 * aT[0]).all(), 'aT falls')
    if not any(s['r'] for s in case['plasma']):
        close(aT[-1], aT[0], 1e-12, 'aT of pure radiation')
    ctx.label('log' if case['log'] else 'linear', 'ab' if case['ab'] else 'euler')
    ctx.nontrivial(aT[-1] > aT[0] * 1.001)


class Exchange(object):
    """An interaction whose collision integral is a prescribed rate (per ln a or per x)."""
    integrals = ()

    def __init__(self, particle, rate):
        self.particle, self.rate = particle, rate

    def initialize(self):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
        if not self.particle.in_equilibrium:
            self.particle.collision_integrals.append(
                world.Stub(K.F_1, lambda ps: self.rate(self.particle)))


@law('P13', lambda st: st.fixed_dictionaries({
    'norm': st.sampled_from([1., 1., .3, 3.]), 'T': logf(st, 0.5, 20), 'plasma': plasma(st, 0, 2), 'log': st.booleans(),
    'dark': st.lists(st.fixed_dictionaries({
        'r': st.one_of(st.just(0.), logf(st, 0.05, 5)), 'dof': st.integers(1, 6),
        'rate': st.floats(-1.5, 1.5)}), min_size=1, max_size=2), 'n': st.just(161)}),
     quick=40, thorough=800, hang=600,
     rule='decoupled species that gain or lose energy at a prescribed rate; non-trivial when more '
          'than 1% of the energy is exchanged')
def energy_is_conserved(case, ctx):
    """d(rho a^3) = -P d(a^3) for the sum of the plasma and the decoupled species."""
    from common import UNITS
    N = 60
    dy = 0.005
    with quiet():
        u, parts = build(case, case['log'], dy=dy, dx=dy / case['T'] * UNITS.MeV)
        dark = [p for p in parts if p.name.startswith('D')]
        by = {p.name: s for p, s in zip(dark, case['dark'])}

        def rate(p):
            k = by[p.name]['rate']
            out = k * p._distribution * numpy.tanh(p.grid.TEMPLATE / UNITS.MeV / 2)
            return out if case['log'] else out / p.params.x
        for p in dark:
            u.interactions.append(world.interaction(Exchange, p, rate))
        track = []
        u.params.init_time(u.total_energy_density())
        u.params.update(u.total_energy_density(), u.total_entropy())
        u.save_params()
        for _ in range(N):
            # state before the step: everything at the same a
            track.append(snapshot(case, u, dark))
            u.make_step()
            if not u.params.aT > 0.6 * case['norm'] * UNITS.MeV:
                raise Skip()            # the plasma is exhausted
            u.save()
        track.append(snapshot(case, u, dark))
    a = numpy.array([t[0] for t in track])
    rho = numpy.array([t[1] for t in track])
    P = numpy.array([t[2] for t in track])
    E = rho * a ** 3
    V = a ** 3
    work = numpy.sum((P[1:] + P[:-1]) / 2 * numpy.diff(V))
    change = E[-1] - E[0] + work
    exchanged = abs(track[-1][3] - track[0][3])
    # one step of start-up error of the multistep schemes
    tol = 1e-3 * E[0] + 0.08 * exchanged
    require(abs(change) <= tol, 'energy balance of the universe: %r of %r is lost, %r exchanged',
            change, E[0], exchanged)
    ctx.label('log' if case['log'] else 'linear')
    ctx.nontrivial(exchanged > 0.01 * E[0])


def snapshot(case, u, dark):
    """(a, total energy density, total pressure, dark energy a^4) with every species at this a."""
    from common import UNITS
    a, T = u.params.a, u.params.T / UNITS.MeV
    rho = P = 0.
    for s in [{'r': 0., 'dof': 2, 'fermion': False}] + case['plasma']:
        n, r, pr = thermo.moments(s['r'] * case['T'] / T, 1 if s['fermion'] else -1)
        rho += s['dof'] * r * T ** 4
        P += s['dof'] * pr * T ** 4
    dk = 0.
    for p in dark:
        y = p.grid.TEMPLATE / UNITS.MeV
        M = p.mass / UNITS.MeV * a
        E = numpy.hypot(y, M)
        f = p._distribution
        k = p.dof / (2 * math.pi ** 2) / a ** 4
        from scipy.integrate import trapezoid
        e = k * trapezoid(y ** 2 * E * f, y)
        rho += e
        dk += e * a ** 3
        with numpy.errstate(invalid='ignore', divide='ignore'):
            P += k / 3 * trapezoid(numpy.where(E > 0, y ** 4 / numpy.where(E > 0, E, 1), 0) * f, y)
    return a, rho, P, dk


@law('P13', lambda st: st.fixed_dictionaries({
    'T': logf(st, 0.1, 100), 'plasma': plasma(st, 0, 4), 'log': st.booleans(),
    'dark': st.lists(st.fixed_dictionaries({'r': st.one_of(st.just(0.), logf(st, 0.1, 5)),
                                            'dof': st.integers(1, 6)}), max_size=2),
    'rate': st.floats(-1, 1), 'n': st.just(21)}), quick=150, thorough=3000,
     rule='one evaluation of the temperature equation; non-trivial with both an equilibrium '
          'massive species and a collision rate')
def right_hand_side(case, ctx):
    """d(aT)/dx = sum N / sum D (times x for the logarithmic step), one term per species."""
    from common import UNITS
    with quiet():
        u, parts = build(case, case['log'])
        dark = [p for p in parts if p.name.startswith('D')]
        for p in dark:
            u.interactions.append(world.interaction(Exchange, p, lambda q: case['rate'] * q._distribution))
        u.params.update(u.total_energy_density(), u.total_entropy())
        f0 = {p.name: p._distribution.copy() for p in dark}
        got = u.integrand(u.params.x, u.params.aT)
    aT, x, m, a = (v / UNITS.MeV for v in (u.params.aT, u.params.x, u.params.m, u.params.a * UNITS.MeV))
    N = 0.
    D = 2 * math.pi ** 2 / 15 * 2 * aT ** 3
    for s in case['plasma']:
        eta = 1 if s['fermion'] else -1
        M = s['r'] * case['T']
        if s['r'] == 0:
            D += 2 * math.pi ** 2 / 15 * s['dof'] * aT ** 3 * (0.875 if s['fermion'] else 1.)
            continue
        r = M * a / aT
        i2, i4 = thermo.fluctuation(r, eta, 2), thermo.fluctuation(r, eta, 4)
        D += s['dof'] * aT ** 3 * (i4 + r * r * i2)
        N += s['dof'] * aT ** 2 * i2 * (M / m) ** 2 * x
    Nd = 0.
    for p in dark:
        y = p.grid.TEMPLATE / UNITS.MeV
        from scipy.integrate import simpson
        E = numpy.hypot(y, p.mass / UNITS.MeV * a)
        Nd -= p.dof / (2 * math.pi ** 2) * simpson(
            y ** 2 * E * case['rate'] * f0[p.name], x=y) / (x if case['log'] else 1 / UNITS.MeV)
    want = (N + Nd) / D * (x * UNITS.MeV if case['log'] else 1.)
    # tiny rates drown in the rounding of f
    size = (abs(N) + max(abs(Nd), 1e-6 * (abs(Nd / case['rate']) if case['rate'] else 0.))) / D * (x * UNITS.MeV if case['log'] else 1.)
    close(got, want, 5e-3, 'right-hand side of the temperature equation', 0.1 * size + 1e-290)
    require(got == u.fraction, 'the stored right-hand side')
    ctx.label('log' if case['log'] else 'linear')
    ctx.nontrivial(N != 0 and bool(dark) and case['rate'] != 0)
