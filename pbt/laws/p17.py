"""P17: decoupling temperature and momentum grids of a sterile neutrino and its decay products."""
import math
import os

from pbt.core import law, require, close
from pbt.gens import logf

G_F = 1.166e-11          # MeV^-2
M_P = 1.2209e22          # MeV
MU = 105.658
NU_MESONS = [134.98, 139.57, 547.86, 775.11, 782.65, 957.78, 1019.46]
MESONS = [134.98, 139.57, 493.677, 497.611, 547.86, 775.11, 782.65, 957.78, 1019.46]
SPECIAL = [MU, 139.57, 134.98, 150., MU + 10, MU + 0.35, 134.98 + 0.35] + MESONS


def mass_and_angle(st):
    # masses next to the thresholds are as likely as the rest
    near = st.tuples(st.sampled_from(SPECIAL), st.floats(-0.6, 0.6)).map(
        lambda t: round(t[0] + t[1], 6))
    far = st.tuples(st.sampled_from(SPECIAL), st.floats(-25., 25.)).map(
        lambda t: round(t[0] + t[1], 6))
    return st.fixed_dictionaries({
        'M': st.one_of(logf(st, 1., 3000), logf(st, 50., 1500), near, far),
        'theta': logf(st, 1e-7, 1.),
        'res': st.sampled_from([None, None, 0.1, 0.5]),
        'scale': st.sampled_from([None, None, 3, 25]), 'top': st.sampled_from([None, None, 20, 300])})


def rel_temperature(M, theta):
    g = 61.75 if M > 150 else 14.25 if M > MU else 10.75
    return (1.66 * math.sqrt(g) / (M_P * G_F ** 2 * theta ** 2)) ** (1. / 3)


def guard(M):
    """Masses that coincide with a threshold are decided by rounding."""
    from pbt.core import Skip
    if any(abs(M - x) < 1e-9 * x for x in SPECIAL):
        raise Skip()


@law('P17', mass_and_angle, quick=800, thorough=20000,
     rule='masses from 1 MeV to 3 GeV and mixing angles over seven decades')
def decoupling(case, ctx):
    from common import kinematics, UNITS
    M, th = case['M'], case['theta']
    guard(M)
    T = rel_temperature(M, th)
    close(kinematics.decoupling_temperature_relativistic(M * UNITS.MeV, th), T * UNITS.MeV, 1e-9,
          'relativistic decoupling temperature')
    if abs(T / M - 1) < 1e-9 or abs(1.5 * T / M - 1) < 1e-9:
        from pbt.core import Skip
        raise Skip()
    if T > M:
        want, kind = 1.5 * T, 'relativistic'
    elif 1.5 * T >= M:
        want, kind = 1.5 * M, 'intermediate'
    else:
        want, kind = M, 'non-relativistic'
    got = kinematics.decoupling_temperature(M * UNITS.MeV, th)
    close(got, want * UNITS.MeV, 1e-9, 'decoupling temperature (%s)' % kind)
    flag = os.environ.get('Relativistic_decoupling')
    require(bool(flag) == (kind == 'relativistic'), 'relativistic decoupling recorded as %r for '
            'a %s species', flag, kind)
    # never below the mass, never increasing with the mixing
    require(got >= M * UNITS.MeV * (1 - 1e-9), 'decouples below its mass')
    more = kinematics.decoupling_temperature(M * UNITS.MeV, min(th * 1.5, 1.))
    require(more <= got * (1 + 1e-9), 'a more strongly coupled species decouples earlier')
    ctx.label(kind)


def settings(case):
    if case['res']:
        os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = repr(case['res'])
    if case['scale']:
        os.environ['MAX_SCALE_FACTOR'] = repr(case['scale'])
    if case['top']:
        os.environ['MAX_MOMENTUM_MEV'] = repr(case['top'])
    return case['res'] or 0.24999, case['scale'] or 10, case['top'] or 100


def cm(M, m):
    return (M * M - m * m) / (2 * M)


def spread(E, p, m, rest, boost):
    """Width of the product's momentum when the mother's momentum is spread by `boost`."""
    hi, lo = (E + boost * p / rest) ** 2 - m * m, (E - boost * p / rest) ** 2 - m * m
    return math.sqrt(hi) - math.sqrt(lo) if lo >= 0 else None


WIDTH = math.sqrt(3 - 8 / math.pi)       # rms momentum spread of a Maxwellian, in units of aT


def resolution(kind, M, res, std=False):
    if kind == 'HNL':
        return WIDTH
    if kind == 'neutrino':
        if M < 134.98:
            return res / 2 if MU < M < MU + 10 else res
        m = max(x for x in NU_MESONS if x < M)
        return min(1.5 * cm(M, m) * WIDTH / M, res / 3)
    if kind == 'meson':
        if M < 134.98:
            return res
        m = max(x for x in MESONS if x < M)
        p = cm(M, m)
        d = spread(math.hypot(p, m), p, m, M, WIDTH)
        if d is None or not d > 0:
            d = res / 3
        return min(d / 3, res)
    if M < 139.57 or std:
        return res / 2 if MU < M < MU + 10 else res
    p = cm(139.57, MU)
    return min(spread(math.hypot(p, MU), p, MU, 139.57, 0.67 * math.sqrt(139.57 * 0.5)), res)


@law('P17', lambda st: st.tuples(mass_and_angle(st), st.sampled_from(
    ['HNL', 'neutrino', 'meson', 'lepton', 'lepton std'])).map(
        lambda t: dict(t[0], kind=t[1])), quick=3000, thorough=60000,
     rule='grids of the sterile neutrino and of its neutrino, meson and lepton decay products; '
          'non-trivial above the muon mass')
def grids(case, ctx):
    from common import kinematics, UNITS
    res, scale, top = settings(case)
    M, th = case['M'], case['theta']
    guard(M)
    kind, std = case['kind'].split()[0], case['kind'].endswith('std')
    kw = {'std': True} if std else {}
    got = getattr(kinematics, 'grid_resolution_' + kind)(M * UNITS.MeV, th, **kw)
    want = resolution(kind, M, res, std)
    # next to a meson threshold the released momentum is a small difference
    tol = 1e-6
    close(got, want * UNITS.MeV, tol, 'resolution of the %s grid' % case['kind'])
    if kind != 'HNL':
        require(got <= res * UNITS.MeV * (1 + 1e-12), 'coarser than the configured resolution')
    n, mx = getattr(kinematics, 'grid_params_' + kind)(M * UNITS.MeV, th, **kw)
    if kind == 'HNL':
        Td = rel_temperature(M, th)
        if abs(Td / M - 1) < 1e-9 or abs(1.5 * Td / M - 1) < 1e-9:
            from pbt.core import Skip
            raise Skip()
        Td = 1.5 * Td if Td > M else 1.5 * M if 1.5 * Td >= M else M
        # the occupation number at decoupling falls to 1e-100 at the end of the grid
        E = math.hypot(mx / UNITS.MeV, M / Td)
        close(E, 100 * math.log(10), 1e-9, 'energy at the end of the grid')
    elif kind == 'neutrino' or kind == 'lepton' and (M < MU or std):
        close(mx, M * scale * UNITS.MeV, 1e-9, 'end of the %s grid' % kind)
    elif kind == 'meson' and M < 134.98:
        close(mx, top * UNITS.MeV, 1e-9, 'end of the meson grid')
    else:
        m = MU if kind == 'lepton' else 134.98
        w = 10 if M - m < 0.35 else math.sqrt(M * M - m * m)
        close(mx, w * scale * UNITS.MeV, 1e-9, 'end of the %s grid' % kind)
    require(isinstance(n, int), 'the number of points is %r', n)
    close(n, int(mx / got), 1e-12, 'number of points')
    ctx.label(kind, 'above muon' if M > MU else 'below muon')
    ctx.nontrivial(M > MU)


@law('P17', lambda st: st.tuples(mass_and_angle(st), st.sampled_from(
    ['neutrino', 'meson', 'lepton'])).map(lambda t: dict(t[0], kind=t[1])), quick=300,
     thorough=5000, rule='decays of the sterile neutrino at rest at the latest time considered; '
                         'non-trivial with an open channel')
def grids_contain_the_decay_products(case, ctx):
    """Products of a sterile neutrino at rest fit on their grid until the largest scale factor."""
    from common import kinematics, UNITS
    res, scale, top = settings(case)
    M = case['M']
    guard(M)
    m = {'neutrino': 0., 'meson': 134.98, 'lepton': MU}[case['kind']]
    n, mx = getattr(kinematics, 'grid_params_' + case['kind'])(M * UNITS.MeV, case['theta'])
    require(n >= 1 and mx > 0, 'grid of %r points up to %r', n, mx)
    if M <= m:
        ctx.nontrivial(False)
        return
    p = cm(M, m) * scale * UNITS.MeV          # two-body decay with a massless partner
    require(mx >= p * (1 - 1e-9), 'products with momentum %r do not fit on a grid up to %r', p, mx)
