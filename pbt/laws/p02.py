"""P02: natural units, physical constants, and invariance under the choice of base units."""
import math
import random

from pbt.core import law, require, close
from pbt.laws.units_table import TABLE

# CODATA-level values of what the units and constants stand for
HBAR = 6.582119e-22          # MeV s
HBARC = 0.1973269804         # GeV fm


@law('P02', lambda st: st.fixed_dictionaries({
    'seed': st.one_of(st.integers(-10**9, 10**9), st.text(max_size=8).filter(lambda s: s != 'SI')),
    'lo': st.floats(-3, 0), 'hi': st.floats(0, 3), 'state': st.integers(0, 10**6),
}), quick=400, thorough=8000, cpp=False,
     rule='random base units; every one of the %d derived units and constants is compared with '
          'its SI value and dimension' % len(TABLE))
def derived_units_scale_with_base_units(case, ctx):
    import numericalunits as nu
    random.seed(case['state'])
    before = random.getstate()
    nu.reset_units(case['seed'], [case['lo'], case['hi']])
    require(random.getstate() == before, 'choosing units changes the state of the global random '
            'number generator')
    base = (nu.m, nu.kg, nu.s, nu.C, nu.K)
    for b in base:
        require(10 ** case['lo'] * (1 - 1e-12) <= b <= 10 ** case['hi'] * (1 + 1e-12),
                'base unit %r outside of the requested range', b)
    logs = [math.log(b) for b in base]
    for name, (si, dim) in TABLE.items():
        want = math.log(si) + sum(d * l for d, l in zip(dim, logs))
        got = getattr(nu, name)
        require(got > 0 and abs(math.log(got) - want) < 1e-9,
                'unit %s: %r, expected exp(%r)', name, got, want)
    # same seed, same units
    nu.reset_units(case['seed'], [case['lo'], case['hi']])
    require(base == (nu.m, nu.kg, nu.s, nu.C, nu.K), 'the same seed gives different units')
    nu.reset_units('SI')
    require((nu.m, nu.kg, nu.s, nu.C, nu.K) == (1., 1., 1., 1., 1.), 'SI base units')
    for name, (si, dim) in TABLE.items():
        require(abs(getattr(nu, name) / si - 1) < 1e-12, 'SI value of %s', name)
    ctx.label(*['dim%s' % abs(d) for d in (0, 1)])


@law('P02', lambda st: st.lists(st.integers(0, 5), min_size=0, max_size=3), quick=20, thorough=50,
     cpp=False, rule='unseeded resets leave the global random number generator alone')
def unseeded_reset_keeps_rng(case, ctx):
    import numericalunits as nu
    random.seed(len(case))
    state = random.getstate()
    for _ in case:
        nu.reset_units()
    require(random.getstate() == state, 'reset_units() disturbs the random number generator')
    want = nu.kg * nu.m ** 2 / nu.s ** 2
    close(nu.J, want, 1e-12, 'joule')


def natural(U):
    """Expected ratios of the units, all expressed through U.eV."""
    MeV, GeV = 1e6 * U.eV, 1e9 * U.eV
    return {
        'keV': (1e3 * U.eV, 1e-12), 'MeV': (MeV, 1e-12), 'GeV': (GeV, 1e-12),
        'TeV': (1e12 * U.eV, 1e-12),
        's': (1 / HBAR / MeV, 1e-5),
        'kg': (5.609589e26 * GeV, 1e-5),
        'm': (1e15 / HBARC / GeV, 1e-5),
        'N': (1.231618e-6 * GeV ** 2, 2e-5),
        'K9': (8.617333e-2 * MeV, 1e-5),
        'g_cm3': (1e-3 * 5.609589e26 * GeV / (1e13 / HBARC / GeV) ** 3, 1e-5),
    }


@law('P02', lambda st: st.floats(-12, 6).map(lambda u: 10. ** u), quick=200, thorough=2000,
     cpp=False, rule='the electronvolt is rescaled and the units derived again')
def natural_units(case, ctx):
    from common import UNITS
    saved = dict(vars(UNITS))
    try:
        for eV in (None, case):
            if eV is not None:
                UNITS.eV = eV
                UNITS.reset_units()
            for name, (want, tol) in natural(UNITS).items():
                close(getattr(UNITS, name), want, tol, 'UNITS.%s with eV=%r' % (name, UNITS.eV))
            close(UNITS.N, UNITS.kg * UNITS.m / UNITS.s ** 2, 1e-3, 'N = kg m / s^2')
    finally:
        for k, v in saved.items():
            if not k.startswith('__') and not isinstance(v, classmethod):
                setattr(UNITS, k, v)


@law('P02', lambda st: [0], cpp=False, enumerate_=True, quick=1, thorough=1,
     rule='physical constants against their values in MeV')
def constants(case, ctx):
    from common import CONST, UNITS
    MeV = UNITS.MeV
    for name, want, tol in [
            ('M_p', 1.2209e22 * MeV, 2e-5), ('G', 1 / (1.2209e22 * MeV) ** 2, 4e-5),
            ('G_F', 1.1663787e-11 / MeV ** 2, 5e-4), ('sin_theta_w_2', 0.2312, 5e-4),
            ('g_R', 0.2312, 5e-4), ('g_L', 0.7312, 2e-4), ('eta', 6.1e-10, 2e-2),
            ('alpha', 7.2973525e-3, 1e-6), ('lambda_QCD', 150 * MeV, 1e-6),
            ('M_W', 80379 * MeV, 1e-5), ('f_K', 155.6 * MeV, 1e-4), ('f_D', 212 * MeV, 1e-3),
            ('f_Ds', 249 * MeV, 1e-3), ('f_Ds_star', 315 * MeV, 1e-3),
            ('f_eta_c', 335 * MeV, 1e-3),
            ('delta_m12_sq', 7.37e-17 * MeV ** 2, 1e-4),
            ('delta_m13_sq', 2.56e-15 * MeV ** 2, 1e-4)]:
        close(getattr(CONST, name), want, tol, 'CONST.%s' % name)
    close(CONST.g_L, CONST.sin_theta_w_2 + .5, 1e-12, 'g_L')
    close(CONST.G * CONST.M_p ** 2, 1., 1e-12, 'G M_p^2')
    close(CONST.MSW_constant,
          16 * math.sqrt(2) * 1.2020569 * CONST.G_F / math.pi / CONST.M_W ** 2, 1e-4, 'MSW')
    close(CONST.H * 4.55e17 * UNITS.s, 1., 1e-9, 'Hubble constant')
    # gravity in laboratory units
    close(CONST.G, 6.674e-11 * UNITS.m ** 3 / UNITS.kg / UNITS.s ** 2, 2e-3,
          'Newton constant in SI units')
