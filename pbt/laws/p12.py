"""P12: macroscopic quantities of a decoupled species follow from its spectrum."""
import contextlib
import io
import math

import numpy
from scipy.integrate import quad

from pbt.core import law, require, close, all_close
from pbt.gens import logf
from pbt import world


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def make(case, n=None, f=None):
    params = world.params(T=case['T'], m=case['m'])
    g = world.grid(n or case['n'], case.get('top', 20.))
    fermion = case['fermion'] or case['r'] == 0
    with quiet():
        p = world.particle(params, mass=case['r'] * case['T'], dof=case['dof'],
                           fermion=fermion, grid=g, Tdec=2 * case['T'])
        for d in case['growth']:
            world.advance(params, d)
        p.update()
        if f is not None:
            p._distribution = f(g.TEMPLATE)
            p.populate_methods()
    return params, p, g


def base(st):
    return {'T': logf(st, 0.1, 100), 'r': st.one_of(st.just(0.), logf(st, 1e-2, 10)),
            'm': st.one_of(st.just(1.), logf(st, .3, 3)),
            'fermion': st.booleans(), 'dof': st.integers(1, 8),
            'growth': st.lists(st.floats(0, 1.5), max_size=2)}


@law('P12', lambda st: st.fixed_dictionaries(dict(
    base(st), half=st.integers(4, 40), top=logf(st, 1., 50.), c0=st.floats(0.05, 0.45),
    c1=st.floats(-0.04, 0.4))), quick=400, thorough=8000,
     rule='spectra linear in momentum, for which the moments are polynomials; non-trivial with a '
          'slope and an expanded universe')
def polynomial_moments(case, ctx):
    """n = g/(2 pi^2 a^3) int y^2 f, and for a massless species rho and P, exactly."""
    from common import UNITS
    top = case['top'] * UNITS.MeV
    n = 2 * case['half'] + 1
    c0, c1 = case['c0'], case['c1'] / top
    params, p, g = make(case, n, lambda y: c0 + c1 * y)
    k = case['dof'] / (2 * math.pi ** 2)
    want = k * (c0 * top ** 3 / 3 + c1 * top ** 4 / 4) / params.a ** 3
    close(p.density, want, 1e-9, 'number density')
    if case['r'] == 0:
        params, p, g = make(case, n, lambda y: c0 + 0 * y)
        want = k * c0 * top ** 4 / 4 / params.a ** 4
        close(p.energy_density, want, 1e-9, 'energy density')
        close(p.pressure, want / 3, 1e-9, 'pressure')
    params, p, g = make(case, n, lambda y: c0 + 0 * y)
    eta = p.eta
    s = -(c0 * math.log(c0) + eta * (1 - eta * c0) * math.log(1 - eta * c0))
    close(p.entropy, k * s * top ** 3 / 3 / params.a ** 3, 1e-9, 'entropy density')
    require(p.denominator() == 0, 'a decoupled species takes no part in the heat capacity')
    ctx.nontrivial(abs(case['c1']) > 1e-3 and params.a > params.a_ini * 1.01)


def moments_of(p, a, f, ytop, pts=()):
    """Independent quadrature of the same moments of a given spectrum."""
    M, eta, k = p.mass * a, p.eta, p.dof / (2 * math.pi ** 2)

    def E(y):
        return math.hypot(y, M)

    def I(fn):
        return quad(fn, 0, ytop, epsabs=0, epsrel=1e-9, limit=400)[0]

    def s(y):
        x = f(y)
        return -y * y * (x * math.log(x) + eta * (1 - eta * x) * math.log1p(-eta * x)) \
            if x > 0 else 0.
    return (k / a ** 3 * I(lambda y: y * y * f(y)),
            k / a ** 4 * I(lambda y: y * y * E(y) * f(y)),
            k / a ** 4 / 3 * I(lambda y: y ** 4 / E(y) * f(y) if y > 0 else 0.),
            k / a ** 3 * I(s))


def smooth(st):
    return st.fixed_dictionaries(dict(
        base(st), n=st.integers(201, 500), amp=st.floats(0.05, 1.), mu=st.floats(-0.3, 0.3),
        scale=st.floats(0.8, 1.6)))


def smooth_check(case, ctx, tol):
    """Distorted thermal spectra on fine grids against independent quadrature."""
    from common import UNITS
    eta = 1. if case['fermion'] or case['r'] == 0 else -1.
    T = case['scale'] * UNITS.MeV
    a0 = case['m'] / case['T']
    M0 = case['r'] * case['T'] * UNITS.MeV * a0

    def f(y):
        e = numpy.sqrt(y ** 2 + M0 ** 2) / T
        return case['amp'] * (1 + case['mu'] * numpy.tanh(y / T / 3)) / (
            numpy.exp(numpy.minimum(e, 600)) + eta)
    params, p, g = make(case, case['n'], f)
    want = moments_of(p, params.a, lambda y: float(f(y)), 20. * UNITS.MeV)
    for what, got, w in zip(('density', 'energy density', 'pressure', 'entropy'),
                            (p.density, p.energy_density, p.pressure, p.entropy), want):
        close(got, w, tol, what)
    require(p.pressure <= p.energy_density / 3 * (1 + 1e-9), 'P > rho/3')
    require(p.energy_density >= p.mass * p.density * (1 - 1e-9), 'rho < m n')
    ctx.label('massless' if case['r'] == 0 else 'massive')
    ctx.nontrivial(case['mu'] != 0)


@law('P12', smooth, quick=200, thorough=4000,
     rule='distorted thermal spectra on fine grids; non-trivial when distorted')
def smooth_spectra(case, ctx):
    smooth_check(case, ctx, 2e-3)


@law('P12', smooth, quick=25, thorough=500, env={'SIMPSONS_NONEQ_PARTICLES': ''},
     rule='the same with the Gaussian quadrature selected; non-trivial when distorted')
def smooth_spectra_gaussian(case, ctx):
    smooth_check(case, ctx, 5e-3)


def coarse(st):
    return st.fixed_dictionaries(dict(
        base(st), n=st.integers(5, 40),
        f=st.lists(st.one_of(st.just(0.), logf(st, 1e-9, 0.95)), min_size=40, max_size=40),
        g=st.lists(logf(st, 1e-9, 0.95), min_size=40, max_size=40), w=st.floats(0, 1)))


@law('P12', coarse, quick=300, thorough=5000,
     rule='arbitrary non-negative spectra on coarse grids; non-trivial with an empty momentum')
def linearity(case, ctx):
    linearity_check(case, ctx, True)


@law('P12', coarse, quick=40, thorough=800, env={'SIMPSONS_NONEQ_PARTICLES': ''},
     rule='the same with the Gaussian quadrature selected, which interpolates exponentially: '
          'only finiteness and the scaling; non-trivial with an empty momentum')
def scaling_gaussian(case, ctx):
    linearity_check(case, ctx, False)


def linearity_check(case, ctx, linear):
    """Number, energy and pressure are linear in the spectrum and scale with the states."""
    n = case['n']
    fs = [numpy.array(case['f'][:n]), numpy.array(case['g'][:n])]
    mix = case['w'] * fs[0] + (1 - case['w']) * fs[1]
    out = []
    for f in fs + [mix, 0 * mix]:
        params, p, g = make(case, n, lambda y: f.copy())
        out.append((p.density, p.energy_density, p.pressure, p.entropy))
    for k in range(3 if linear else 0):
        close(out[2][k], case['w'] * out[0][k] + (1 - case['w']) * out[1][k], 1e-9,
              'moment %d of a mixture' % k, 1e-12 * max(abs(out[0][k]), abs(out[1][k])))
    for k in range(4):
        require(out[3][k] == 0, 'an empty species has moment %d equal to %r', k, out[3][k])
        require(math.isfinite(out[0][k]), 'moment %d is %r', k, out[0][k])
    c2 = dict(case, dof=case['dof'] * 3)
    params, p, g = make(c2, n, lambda y: mix.copy())
    for k, v in enumerate((p.density, p.energy_density, p.pressure, p.entropy)):
        close(v, 3 * out[2][k], 1e-9, 'moment %d with three times the states' % k, 1e-300)
    ctx.nontrivial(bool((fs[0] == 0).any()))


def heat(st):
    return st.fixed_dictionaries(dict(
        base(st), half=st.integers(20, 60), top=logf(st, 5., 30.),
        rate=st.tuples(st.floats(-1, 1), st.floats(-1, 1))))


def heat_check(case, ctx, tol, log):
    """The heat given to the plasma is minus the energy that collisions give to the species."""
    import os
    from common import UNITS
    from common import Params
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if log else ''
    top = case['top'] * UNITS.MeV
    n = 2 * case['half'] + 1
    params = Params(T=case['T'] * UNITS.MeV, dy=0.02, dx=1e-3 * UNITS.MeV,
                    m=case['m'] * UNITS.MeV)
    g = world.grid(n, case['top'])
    with quiet():
        p = world.particle(params, mass=case['r'] * case['T'], dof=case['dof'], fermion=True,
                           grid=g, Tdec=2 * case['T'])
        for d in case['growth']:
            world.advance(params, d)
        p.update()
    c0, c1 = case['rate']

    def rate(y):        # linear: the same between the grid points in every interpolation
        return c0 + c1 * y / top
    p.collision_integral = rate(g.TEMPLATE)
    M = p.mass * params.a
    J = quad(lambda y: y * y * math.hypot(y, M) * rate(y), 0, top, epsabs=0, epsrel=1e-10,
             limit=300, points=[min(M, top)])[0]
    size = top ** 4 / 4 * (abs(c0) + abs(c1)) + M * top ** 3 / 3 * (abs(c0) + abs(c1))
    want = -p.dof / (2 * math.pi ** 2) * J / (params.x if log else 1.)
    close(p.numerator(), want, tol, 'heat exchange', p.dof / (2 * math.pi ** 2) * size * 0.05
          / (params.x if log else 1.) + 1e-290)
    require(p.denominator() == 0, 'heat capacity of a decoupled species')
    ctx.label('log' if log else 'linear')


@law('P12', heat, quick=200, thorough=3000,
     rule='linear collision rates, both kinds of step')
def heat_exchange(case, ctx):
    heat_check(case, ctx, 1e-3, True)
    heat_check(case, ctx, 1e-3, False)


@law('P12', heat, quick=30, thorough=500, env={'SIMPSONS_NONEQ_PARTICLES': ''},
     rule='linear collision rates, both kinds of step, with the Gaussian quadrature selected')
def heat_exchange_gaussian(case, ctx):
    heat_check(case, ctx, 1e-3, True)
    heat_check(case, ctx, 1e-3, False)
