"""P01: run-time configuration through environment variables."""
import os

from pbt.core import law, require

# Documented settings: name -> (type, default)
DOCUMENTED = {
    'SPLIT_COLLISION_INTEGRAL': True,
    'FIXED_ORDER_1D_QUADRATURE': True,
    'GAUSS_LEGENDRE_ORDER': 100,
    'GAUSS_LAGUERRE_ORDER': 100,
    'LOGARITHMIC_TIMESTEP': True,
    'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION': True,
    'ADAMS_MOULTON_DISTRIBUTION_CORRECTION': False,
    'MOMENTUM_SAMPLES': 401,
    'MAX_MOMENTUM_MEV': 100,
    'MAX_SCALE_FACTOR': 10,
    'FOUR_PARTICLE_GRID_RESOLUTION': 0.24999,
    'NORMAL_HIERARCHY_NEUTRINOS': True,
    'REGIME_SWITCHING_FACTOR': 1e3,
    'SIMPSONS_INTEGRATION': False,
    'SIMPSONS_NONEQ_PARTICLES': True,
    'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES': True,
}
NAMES = sorted(DOCUMENTED)


def texts(st, name):
    d = DOCUMENTED.get(name)
    if isinstance(d, bool):
        return st.sampled_from(['', '1', 'true', 'True', 'yes', '0', 'false', 'False', 'no', ' ',
                                'None'])
    if isinstance(d, int):
        return st.integers(-10**6, 10**9).map(str)
    if isinstance(d, float):
        return st.one_of(st.integers(-1000, 10**7).map(str),
                         st.floats(-1e30, 1e30, allow_nan=False).map(repr),
                         st.sampled_from(['1e3', '1E-3', ' 5.5 ', 'inf', '.5']))
    return st.text('abcXYZ0123456789.-+e ', max_size=12)


def op(st):
    named = st.sampled_from(NAMES + ['HNL_ENERGY', 'PBT_UNKNOWN_SETTING'])
    return st.one_of(
        named.flatmap(lambda n: st.tuples(st.just('set'), st.just(n), texts(st, n)).map(list)),
        st.tuples(st.just('unset'), named).map(list),
        st.tuples(st.just('get'), named).map(list),
    )


def expected(name, model):
    if name not in DOCUMENTED:
        return model.get(name)
    d = DOCUMENTED[name]
    if name not in model:
        return d
    v = model[name]
    if isinstance(d, bool):
        return v != ''
    return type(d)(v)


def same(name, got, want):
    d = DOCUMENTED.get(name)
    if isinstance(d, bool):
        return bool(got) == want
    return type(got) is type(want) and got == want


@law('P01', lambda st: st.lists(op(st), min_size=1, max_size=25), quick=1500, thorough=20000,
     cpp=False, rule='histories of setting, clearing and reading variables; non-trivial when an '
     'override is set before the final read-back of every documented setting')
def configuration_history(case, ctx):
    import environment
    model = {}
    for o in case:
        if o[0] == 'set':
            os.environ[o[1]] = o[2]
            model[o[1]] = o[2]
        elif o[0] == 'unset':
            os.environ.pop(o[1], None)
            model.pop(o[1], None)
        got, want = environment.get(o[1]), expected(o[1], model)
        require(same(o[1], got, want), 'after %r the setting %s reads %r, expected %r', o, o[1],
                got, want)
    for n in NAMES:
        got, want = environment.get(n), expected(n, model)
        require(same(n, got, want), 'setting %s reads %r, expected %r', n, got, want)
    ctx.label(*['set ' + n for n in model])
    ctx.nontrivial(bool(model))


@law('P01', lambda st: st.sampled_from([n for n in NAMES if not isinstance(DOCUMENTED[n], bool)])
     .flatmap(lambda n: st.tuples(st.just(n), st.sampled_from(['abc', '1,5', '', '--2', '5 MeV']))
              .map(list)), quick=100, thorough=500, cpp=False,
     rule='numeric settings overridden with text that is not a number')
def malformed_number_is_rejected(case, ctx):
    import environment
    os.environ[case[0]] = case[1]
    try:
        v = environment.get(case[0])
    except ValueError:
        return
    require(False, 'setting %s=%r is silently read as %r', case[0], case[1], v)


@law('P01', lambda st: st.fixed_dictionaries({
    'samples': st.one_of(st.none(), st.integers(2, 600)),
    'max': st.one_of(st.none(), st.integers(1, 2000)),
    'order': st.integers(1, 60), 'lorder': st.integers(1, 60),
    'log': st.booleans(), 'factor': st.one_of(st.none(), st.sampled_from([1.5, 10., 1e2, 1e4])),
}), quick=150, thorough=2000, rule='overrides made after the program has been imported; '
     'non-trivial when at least one default is overridden')
def overrides_take_effect_at_use(case, ctx):
    """Objects made after a setting has been changed follow the new value."""
    import numpy
    from common import LinearSpacedGrid, LogSpacedGrid, UNITS, Params
    from common.integrators import gauss_legendre, gauss_laguerre
    from particles import Particle, REGIMES
    for name, key in (('MOMENTUM_SAMPLES', 'samples'), ('MAX_MOMENTUM_MEV', 'max'),
                      ('REGIME_SWITCHING_FACTOR', 'factor')):
        if case[key] is not None:
            os.environ[name] = str(case[key])
    n = case['samples'] or 401
    m = (case['max'] or 100) * UNITS.MeV
    for G in (LinearSpacedGrid, LogSpacedGrid):
        g = G()
        require(len(g.TEMPLATE) == n == g.MOMENTUM_SAMPLES, '%s: %d points, configured %d',
                G.__name__, len(g.TEMPLATE), n)
        require(abs(g.TEMPLATE[-1] / m - 1) < 1e-12, '%s ends at %r MeV', G.__name__,
                g.TEMPLATE[-1] / UNITS.MeV)
    os.environ['GAUSS_LEGENDRE_ORDER'] = str(case['order'])
    os.environ['GAUSS_LAGUERRE_ORDER'] = str(case['lorder'])
    try:
        gauss_legendre.init_quadrature()
        gauss_laguerre.init_quadrature()
        require(len(gauss_legendre.points) == len(gauss_legendre.weights) == case['order'],
                'Gauss-Legendre order')
        require(len(gauss_laguerre.points) == len(gauss_laguerre.weights) == case['lorder'],
                'Gauss-Laguerre order')
    finally:
        os.environ.pop('GAUSS_LEGENDRE_ORDER')
        os.environ.pop('GAUSS_LAGUERRE_ORDER')
        gauss_legendre.init_quadrature()
        gauss_laguerre.init_quadrature()
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if case['log'] else ''
    p = Params(T=2. * UNITS.MeV, dy=0.01, dx=0.003 * UNITS.MeV)
    require(p.h == (0.01 if case['log'] else 0.003 * UNITS.MeV), 'step size %r does not follow '
            'the configured kind of step', p.h)
    k = case['factor'] or 1e3
    params = Params(T=1. * UNITS.MeV, dy=0.01, dx=0.003 * UNITS.MeV)
    for ratio, want in ((k * 1.01, REGIMES.DUST), (1 / k / 1.01, REGIMES.RADIATION),
                        (k / 1.01, REGIMES.INTERMEDIATE), (1.01 / k, REGIMES.INTERMEDIATE)):
        part = Particle(mass=ratio * UNITS.MeV, params=params)
        require(part.regime is want, 'mass/T = %r with switching factor %r is treated as %s',
                ratio, k, part.regime.name)
    ctx.nontrivial(any(case[x] is not None for x in ('samples', 'max', 'factor')))
