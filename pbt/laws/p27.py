"""P27: weak rates that convert neutrons and protons."""
import contextlib
import io
import math

import numpy

from pbt.core import law, require, close
from pbt.gens import logf
from pbt import world

Q = 1.29333
M_E = 0.51099


def setup(case, T, top=None):
    """Electrons in equilibrium at T; neutrinos in equilibrium, decoupled with their own
    temperature, or with a distorted spectrum."""
    from common import UNITS
    import kawano
    params = world.params(T=T, m=case.get('m', 1.))
    e = world.particle(params, mass=M_E, dof=4, name='Electron', symbol='e', Q=-1, majorana=False,
                       grid=world.grid(11, case.get('etop', 20.)))
    g = world.grid(case.get('n', 201), top or 30.)
    nu = world.particle(params, mass=0., dof=2, Tdec=0. if case['nu'] == 'eq' else 1e3, grid=g,
                        name='Electron neutrino', symbol='ν_e', majorana=False)
    return params, e, nu, kawano


def reference(T, f_nu, top, kind):
    """Rate in units of the decay rate of the free neutron, momenta in MeV."""
    from scipy.integrate import quad
    norm = 17.5426

    def fe(E):
        return 1 / (math.exp(min(E / T, 700)) + 1)

    def integrand(p):
        E = {1: Q + p, 2: Q + p, 3: Q - p, 4: Q - p, 5: p - Q, 6: p - Q}[kind]
        if E < M_E:
            return 0.
        k = math.sqrt(E * E - M_E * M_E)
        f, g = fe(E), f_nu(p)
        w = {1: (1 - f) * g, 2: f * (1 - g), 3: (1 - f) * (1 - g), 4: f * g, 5: f * (1 - g),
             6: (1 - f) * g}[kind]
        return p * p * k * E * w
    lo, hi = {1: (0, top), 2: (0, top), 3: (0, Q - M_E), 4: (0, Q - M_E), 5: (Q + M_E, top),
              6: (Q + M_E, top)}[kind]
    if lo >= hi:
        return 0.
    pts = [x for x in (lo + 3 * T, lo + 10 * T, lo + 30 * T) if lo < x < hi]
    return norm * quad(integrand, lo, hi, points=pts or None, limit=200)[0]


@law('P27', lambda st: st.fixed_dictionaries({
    'T': logf(st, 0.05, 10), 'nu': st.just('eq'), 'top': logf(st, 5, 60), 'aT': logf(st, 0.8, 1.5), 'm': st.one_of(st.just(1.), logf(st, .3, 3)),
    'etop': logf(st, 1., 100.),
    'n': st.integers(5, 60)}),
     quick=200, thorough=2000,
     rule='plasma in equilibrium at any temperature; all non-trivial')
def detailed_balance(case, ctx):
    from common import UNITS
    with contextlib.redirect_stdout(io.StringIO()):
        params, e, nu, kawano = setup(case, case['T'], case['top'])
        kawano.init_kawano(electron=e, neutrino=nu)
        params.aT *= case['aT']
        params.update(params.T ** 4, params.T ** 3)
        e.update()
        nu.update()
        r = kawano.baryonic_rates(params.a)
    T = params.T / UNITS.MeV
    require(len(r) == 6, '%d rates', len(r))
    for i in range(6):
        require(math.isfinite(r[i]) and r[i] >= 0, 'rate %d is %r', i + 1, r[i])
    for i in (0, 2, 4):
        close(r[i + 1], r[i] * math.exp(-Q / T), 1e-3 + 1e-4 / T, 'balance of process %d at T = %g MeV'
              % (i + 1, T), floor=1e-60)


@law('P27', lambda st: st.fixed_dictionaries({
    'T': logf(st, 0.15, 3), 'nu': st.sampled_from(['eq', 'cool', 'distorted', 'empty']),
    'Tnu': logf(st, 0.7, 1.), 'd': st.floats(-.5, .5), 'later': logf(st, 1., 3.), 'm': st.one_of(st.just(1.), logf(st, .3, 3)),
    'etop': logf(st, 1., 100.),
    'n': st.sampled_from([301, 401])}), quick=80, thorough=1000,
     rule='electrons in equilibrium with equilibrium, cooler, distorted or absent neutrinos; '
          'non-trivial when the neutrinos are not in equilibrium')
def rates(case, ctx):
    from common import UNITS
    m = case['m']
    a = m / case['T'] * case['later']
    T = m / a
    # the upper limit of the grid has to cover the spectra and the mass difference
    top = 25. * m + 2 * a
    with contextlib.redirect_stdout(io.StringIO()):
        params, e, nu, kawano = setup(case, case['T'], top)
        kawano.init_kawano(electron=e, neutrino=nu)
        params.x *= case['later']
        params.update(params.T ** 4, params.T ** 3)
        e.update()
        nu.update()
        y = nu.grid.TEMPLATE / UNITS.MeV
        if case['nu'] == 'eq':
            f = lambda x: 1 / (numpy.exp(x / m) + 1)
        elif case['nu'] == 'cool':
            f = lambda x: 1 / (numpy.exp(x / m / case['Tnu']) + 1)
        elif case['nu'] == 'distorted':
            f = lambda x: 1 / (numpy.exp(x / m / case['Tnu']) + 1) * (1 + case['d'] * x / (5 * m + x))
        else:
            f = lambda x: 0. * x
        if case['nu'] != 'eq':
            require(not nu.in_equilibrium, 'neutrinos did not decouple')
            nu._distribution = f(y)
        r = kawano.baryonic_rates(params.a)
    require(len(r) == 6, '%d rates', len(r))
    fn = lambda p: float(f(p * a))
    scale = sum(reference(T, fn, top / a, k) for k in range(1, 7))
    for k in range(1, 7):
        want = reference(T, fn, top / a, k)
        close(r[k - 1], want, 3e-2, 'rate %d at T = %g MeV' % (k, T), floor=1e-3 * scale)
    if case['nu'] == 'empty':
        for k in (1, 4, 6):
            require(r[k - 1] == 0, 'rate %d without neutrinos: %r', k, r[k - 1])
    ctx.label(case['nu'])
    ctx.nontrivial(case['nu'] != 'eq')


@law('P27', lambda st: st.fixed_dictionaries({'T': logf(st, 1e-3, 0.03), 'nu': st.just('eq')}),
     quick=60, thorough=500, rule='late times, when neutrons only decay; all non-trivial')
def neutron_decay(case, ctx):
    from common import UNITS
    with contextlib.redirect_stdout(io.StringIO()):
        params, e, nu, kawano = setup(dict(case, n=31), case['T'])
        kawano.init_kawano(electron=e, neutrino=nu)
        r = kawano.baryonic_rates(params.a)
    close(r[2], 1., 1e-1 * case['T'] / 0.03 + 2e-2, 'decay of free neutrons')
    for k in (1, 3):
        require(r[k] < 1e-3, 'rate %d at T = %g MeV: %r', k + 1, case['T'], r[k])


@law('P27', lambda st: st.fixed_dictionaries({
    'a': st.lists(logf(st, 0.2, 5), min_size=2, max_size=6), 'nu': st.just('eq')}),
     quick=60, thorough=500, rule='universes queried in turn; all non-trivial')
def rates_follow_the_selected_species(case, ctx):
    """Rates depend on the species selected last and on the scale factor alone."""
    from common import UNITS
    with contextlib.redirect_stdout(io.StringIO()):
        seen = {}
        systems = [setup(dict(case, n=21), T) for T in (0.5, 2.)]
        for i, T in enumerate(case['a']):
            params, e, nu, kawano = systems[i % 2]
            params.x = 1. / T * params.m
            params.update(params.T ** 4, params.T ** 3)
            e.update()
            nu.update()
            kawano.init_kawano(electron=e, neutrino=nu)
            r = kawano.baryonic_rates(params.a)
            p2, e2, nu2, _ = setup(dict(case, n=21), T)
            kawano.init_kawano(electron=e2, neutrino=nu2)
            s = kawano.baryonic_rates(p2.a)
            for k in range(6):
                close(r[k], s[k], 1e-9, 'rate %d of a universe at T = %g' % (k + 1, T), floor=1e-30)
