"""P09: equilibrium thermodynamics in every dynamical regime."""
import math
import os

from pbt.core import law, require, close, Violation
from pbt.gens import logf
from pbt import thermo

ZETA3 = 1.2020569031595942


def species(st):
    return st.fixed_dictionaries({
        'T': logf(st, 1e-3, 1e4),
        'r': st.one_of(st.just(0.), logf(st, 1e-5, 1e3), st.floats(0.05, 12)),
        'dof': st.integers(1, 24), 'fermion': st.booleans(),
        'gamma': st.sampled_from([None, None, 1e3, 100., 20., 5., 1.]),
        'moves': st.lists(st.fixed_dictionaries({
            'dx': st.floats(0, 1.5), 'daT': st.floats(-0.3, 0.6)}), max_size=4),
        'm': st.one_of(st.just(1.), logf(st, 0.1, 10.)),
    })


def make(case):
    from common import Params, UNITS, statistics as S
    from particles import Particle
    if case['gamma'] is not None:
        os.environ['REGIME_SWITCHING_FACTOR'] = repr(case['gamma'])
    params = Params(T=case['T'] * UNITS.MeV, m=case['m'] * UNITS.MeV, dy=0.01)
    p = Particle(mass=case['r'] * case['T'] * UNITS.MeV, dof=case['dof'],
                 statistics=S.FERMION if case['fermion'] else S.BOSON, params=params)
    return params, p


def states(case):
    """The species at the start and after every expansion step."""
    params, p = make(case)
    yield params, p
    for mv in case['moves']:
        params.x *= 1 + mv['dx']
        params.aT *= 1 + mv['daT']
        params.update(params.T ** 4, 1.)
        p.update()
        yield params, p


def expected_regime(p, T, gamma):
    if T > p.mass * gamma:
        return 'radiation'
    if T * gamma < p.mass:
        return 'dust'
    return 'intermediate'


@law('P09', species, quick=500, thorough=12000,
     rule='species of any mass, spin statistics and number of states followed through expansion '
          'steps; non-trivial when the mass is neither 0 nor above 500 T')
def densities_by_regime(case, ctx):
    gamma = case['gamma'] or 1e3
    for params, p in states(case):
        T = params.T
        close(p.T, T, 1e-12, 'temperature of the species')
        close(p.aT, params.aT, 1e-12, 'aT of the species')
        name = p.regime.name
        require(name == expected_regime(p, p.T, gamma), 'regime %s at m/T = %r with factor %r',
                name, p.mass / p.T, gamma)
        g, r = case['dof'], p.mass / T
        eta = 1 if case['fermion'] else -1
        n, rho, P, s = p.density, p.energy_density, p.pressure, p.entropy
        for what, v in (('density', n), ('energy density', rho), ('pressure', P),
                        ('entropy', s)):
            require(math.isfinite(v) and v >= 0, '%s: %r', what, v)
        close(s, (rho + P) / T, 1e-9, 's T = rho + P', 1e-290)
        if name == 'radiation':
            fn, fr = (0.75, 0.875) if case['fermion'] else (1., 1.)
            close(n, fn * g * ZETA3 / math.pi ** 2 * T ** 3, 2e-3, 'density of radiation')
            close(rho, fr * g * math.pi ** 2 / 30 * T ** 4, 1e-10, 'energy density of radiation')
            close(P, rho / 3, 1e-10, 'pressure of radiation')
        elif name == 'dust':
            nd = g * (p.mass * T / 2 / math.pi) ** 1.5 * math.exp(-r)
            close(n, nd, 1e-9, 'density of dust', 1e-290)
            close(rho, nd * (p.mass + 1.5 * T), 1e-9, 'energy density of dust', 1e-290)
            close(P, nd * T, 1e-9, 'pressure of dust', 1e-290)
        else:
            full = thermo.moments(r, eta)
            cut = thermo.moments(r, eta, 20.)
            tol = 2e-4 if eta < 0 and r < 0.05 else 1e-5
            for what, got, k, pw in (('density', n, 0, 3), ('energy density', rho, 1, 4),
                                     ('pressure', P, 2, 4)):
                v = got / g / T ** pw
                # the numerical integration may cut the exponential tail at p = 20 T
                if not cut[k] * (1 - tol) - 1e-280 <= v <= full[k] * (1 + tol) + 1e-280:
                    raise Violation('%s of a species with m/T = %r: %r T^%d per state, '
                                    'expected %r' % (what, r, v, pw, full[k]))
        ctx.label(name)
        ctx.nontrivial(0 < r < 500)


@law('P09', species, quick=400, thorough=10000,
     rule='as above, for the two terms of the temperature equation; non-trivial for massive '
          'species below m = 500 T')
def temperature_equation_terms(case, ctx):
    """D = aT d(s a^3)/d(aT) and N = -aT d(s a^3)/dx, from exact integrals."""
    from common import UNITS
    for lag in (True, False):
        if not lag and (case['m'] != 1. or any(abs(mv['daT']) > 0.2 for mv in case['moves'])):
            continue        # the momentum grid must cover the distribution
        os.environ['LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES'] = '1' if lag else ''
        for params, p in states(case):
            g, r = case['dof'], p.mass / params.T
            eta = 1 if case['fermion'] else -1
            name = p.regime.name
            N, D = p.numerator(), p.denominator()
            require(math.isfinite(N) and math.isfinite(D), 'terms %r %r at m/T = %r', N, D, r)
            aT = params.aT
            if not lag and params.aT > 2 * UNITS.MeV:
                break
            if name == 'radiation':
                fr = 0.875 if case['fermion'] else 1.
                close(N, 0., 0., 'numerator of radiation')
                close(D, 2 * math.pi ** 2 / 15 * fr * g * aT ** 3, 1e-10,
                      'denominator of radiation')
            else:
                i2, i4 = thermo.fluctuation(r, eta, 2), thermo.fluctuation(r, eta, 4)
                # quadrature accuracy: worst for light bosons
                tol = 3e-4 if lag or r < 1 else 1e-6
                tolN = 5e-3 if lag or r < 1 else 1e-6
                if not lag and r > 100:
                    tol = tolN = 1e-2       # the momentum grid ends
                floor = 1e-290
                close(D, g * aT ** 3 * (i4 + r * r * i2), tol, 'denominator at m/T = %r' % r,
                      floor)
                # dx-derivative: conformal mass M x / m
                close(N, g * aT ** 2 * i2 * (p.mass / params.m) ** 2 * params.x, tolN,
                      'numerator at m/T = %r' % r, floor)
            ctx.label(name, 'laguerre' if lag else 'legendre')
            ctx.nontrivial(0 < r < 500)


@law('P09', lambda st: st.fixed_dictionaries({
    'T': logf(st, 1e-2, 1e3), 'r': st.one_of(st.just(0.), logf(st, 1e-2, 8.)),
    'dof': st.integers(1, 12), 'fermion': st.booleans(), 'h': logf(st, 1e-3, 1e-2)}),
     quick=200, thorough=4000,
     rule='pairs of neighbouring temperatures; non-trivial for massive species')
def thermodynamic_consistency(case, ctx):
    """s = dP/dT and rho = T s - P, by a central difference of the reported pressure."""
    vals = []
    for k in (-2, -1, 0, 1, 2):
        c = dict(case, gamma=None, moves=[], m=1.)
        c['T'] = case['T'] * (1 + k * case['h'])
        c['r'] = case['r'] * case['T'] / c['T']
        params, p = make(c)
        vals.append((params.T, p.pressure, p.entropy, p.energy_density))
    h = case['h'] * vals[2][0]
    dP = (vals[0][1] - 8 * vals[1][1] + 8 * vals[3][1] - vals[4][1]) / (12 * h)
    close(vals[2][2], dP, 2e-4, 's = dP/dT')
    for (T0, P0, s0, r0), (T1, P1, s1, r1) in zip(vals, vals[1:]):
        require(P1 > P0 and s1 > s0 and r1 > r0, 'densities do not grow with temperature')
    ctx.nontrivial(case['r'] > 0)


@law('P09', lambda st: st.fixed_dictionaries({
    'T': logf(st, 1e-2, 1e3), 'r': st.one_of(st.just(0.), logf(st, 1e-4, 2e3)),
    'fermion': st.booleans(), 'd1': st.integers(1, 20), 'd2': st.integers(1, 20)}),
     quick=150, thorough=2000, rule='the same species with two numbers of states')
def proportional_to_states(case, ctx):
    out = []
    for d in (case['d1'], case['d2']):
        params, p = make(dict(case, dof=d, gamma=None, moves=[], m=1.))
        out.append([v / d for v in (p.density, p.energy_density, p.pressure, p.entropy,
                                    p.numerator(), p.denominator())])
    for a, b in zip(*out):
        close(a, b, 1e-10, 'per-state quantity', 1e-290)
    # fermions never exceed bosons
    params, q = make(dict(case, dof=case['d1'], gamma=None, moves=[], m=1.,
                          fermion=not case['fermion']))
    params, p = make(dict(case, dof=case['d1'], gamma=None, moves=[], m=1.))
    if case['fermion']:
        p, q = q, p
    for what in ('density', 'energy_density', 'pressure', 'entropy'):
        require(getattr(p, what) >= getattr(q, what) * (1 - 1e-9),
                'bosons have a smaller %s than fermions', what)
    ctx.nontrivial(case['d1'] != case['d2'])
