"""P16: kinematic bounds and the momenta for which collision integrals are computed."""
import math
import os

import numpy

from pbt.core import law, require, close, all_close
from pbt.gens import logf
from pbt import world


def masses(st, n):
    """n product masses and an excess: the mother weighs sum + excess."""
    return st.fixed_dictionaries({
        'm': st.lists(st.one_of(st.just(0.), logf(st, 1e-2, 300)), min_size=n, max_size=n),
        'q': logf(st, 1e-2, 500)})


@law('P16', lambda st: masses(st, 2), quick=600, thorough=20000, cpp=True,
     rule='two-body decays of any masses; non-trivial with a massive product')
def centre_of_mass_momentum(case, ctx):
    from common import kinematics
    m1, m2 = case['m']
    M = m1 + m2 + case['q']
    p = kinematics.cm_momentum(M, m1, m2)
    E = math.sqrt(p * p + m1 * m1) + math.sqrt(p * p + m2 * m2)
    close(E, M, 1e-9, 'energy of the two products')
    require(p > 0, 'momentum %r', p)
    close(kinematics.cm_momentum(M, m2, m1), p, 1e-9, 'exchange of the products')
    s = 3.7
    close(kinematics.cm_momentum(s * M, s * m1, s * m2), s * p, 1e-9, 'change of units')
    ctx.nontrivial(m1 or m2)


def items(species, sides):
    from interactions import IntegralItem
    return [IntegralItem(side=s, specie=p, antiparticle=False, index=i, crossed=False)
            for i, (p, s) in enumerate(zip(species, sides))]


def integral(reaction, particle):
    from interactions.four_particle import FourParticleIntegral, CollisionIntegralKind
    from interactions.three_particle import ThreeParticleIntegral
    cls = FourParticleIntegral if len(reaction) == 4 else ThreeParticleIntegral
    return cls(reaction=tuple(reaction), particle=particle, Ms=[], kind=CollisionIntegralKind.Full,
               washout_temperature=0)


def make(case, n, tops):
    """Species (products, then the mother) and the parameters they share."""
    from common import UNITS
    params = world.params(T=case['T'], m=case['norm'])
    ms = list(case['d']['m'])
    M = sum(ms) + case['d']['q']
    out = []
    for i, m in enumerate(ms + [M]):
        g = world.grid(case['n'], tops[i], log=case['log'] and i == 0)
        p = world.particle(params, mass=m, grid=g, name='s%d' % i, symbol='s%d' % i)
        out.append(p)
    if case.get('grow'):
        world.advance(params, case['grow'])
    return params, out


def growth(st):
    """The expansion since the beginning."""
    return st.one_of(st.just(0.), logf(st, .1, 20.))


def decay_case(st, n):
    return st.fixed_dictionaries({
        'd': masses(st, n), 'norm': st.sampled_from([1., 1., .3, 3.]), 'T': logf(st, 0.3, 100), 'n': st.integers(5, 120),
        'log': st.booleans(), 'top': logf(st, 0.5, 500), 'topM': logf(st, 0.05, 2000),
        'env': st.sampled_from([None, None, 5, 30, 250]), 'grow': growth(st),
        'u': st.lists(st.tuples(*[st.floats(0, 1)] * 6).map(list), min_size=1, max_size=8)})


def top_of(case, params_a):
    """Keep the mother's momentum below 1e4 times its mass (the boost is formed from 1 - beta^2)."""
    M = (sum(case['d']['m']) + case['d']['q']) * params_a
    return min(case['topM'], 3e3 * M)


@law('P16', lambda st: decay_case(st, 2), quick=400, thorough=8000,
     rule='two-body decays in flight with random directions; non-trivial when the mother moves '
          'and the bounds cut the grid')
def three_particle_bounds(case, ctx):
    from common import kinematics, UNITS
    a = (1. + case['grow']) / case['T'] * case['norm']
    params, sp = make(case, 2, [case['top'], case['top'], top_of(case, a)])
    A, B, C = sp
    reaction = items(sp, (-1, -1, 1))
    lo, hi = kinematics.three_particle_bounds_creation(reaction)
    m1, m2, M = (p.conformal_mass for p in sp)
    P = C.grid.MAX_MOMENTUM
    pc = math.sqrt(max((M * M - (m1 + m2) ** 2) * (M * M - (m1 - m2) ** 2), 0)) / (2 * M)
    Ec = math.sqrt(pc * pc + m1 * m1)
    E = math.sqrt(M * M + P * P)
    # fastest product: emitted forward by the fastest mother
    fastest = (E * pc + P * Ec) / M
    close(hi, fastest, 1e-5, 'largest momentum of a product', 1e-9 * P)
    if m1 == 0:
        close(lo, pc * M / (E + P), 1e-4, 'smallest momentum of a massless product', 1e-9 * P)
    else:
        require(0 <= lo <= 1e-6 * (fastest + m1), 'a massive product can be at rest, but the '
                'lower bound is %r', lo)
    slack = 1e-6 * (hi + P)
    for u in case['u']:
        p = u[0] * P
        e = math.sqrt(M * M + p * p)
        c = 2 * u[1] - 1
        pl = (e * pc * c + p * Ec) / M
        k = math.sqrt(pl * pl + pc * pc * (1 - c * c))
        require(lo - slack <= k <= hi + slack, 'a decay in flight produces momentum %r outside '
                '[%r, %r]', k, lo, hi)
    s1, s2, s3 = kinematics.three_particle_grid_bounds_creation(reaction)
    t = A.grid.TEMPLATE
    inside = (t > lo + slack) & (t < hi - slack)
    if len(s2):
        require(len(s1) + len(s2) + len(s3) == len(t), 'slices of %d, %d and %d of %d points',
                len(s1), len(s2), len(s3), len(t))
        require(numpy.array_equal(numpy.asarray(s2), t[len(s1):len(s1) + len(s2)]),
                'the computed momenta are not a contiguous part of the grid')
        require(not any(s1) and not any(s3), 'skipped momenta are not zero')
        require(not inside[:len(s1)].any() and not inside[len(s1) + len(s2):].any(),
                'allowed momenta are skipped')
        # no more than one point too many on either side
        near = ((t > lo - slack) & (t < hi + slack)).sum()
        require(len(s2) <= near + 2, '%d momenta computed, %d are allowed', len(s2),
                near)
    else:
        require(not inside[1:-1].any() or inside.sum() == 0, 'allowed momenta are skipped')
    inter = integral(reaction, A)
    ps = t / params.aT
    r = kinematics.grid_cutoff_3p(inter, ps)
    if len(s2) and numpy.any(s2):
        all_close(r[0], numpy.asarray(s2) / params.aT, 1e-14, 'momenta in units of aT')
        require(list(r[1]) == list(s1) and list(r[2]) == list(s3), 'slices differ')
    # the reverse reaction is computed everywhere
    back = integral(items([C, A, B], (-1, 1, 1)), C)
    r = kinematics.grid_cutoff_3p(back, ps)
    require(numpy.array_equal(r[0], ps) and list(r[1]) == [] and list(r[2]) == [],
            'a decay is not computed on the full grid')
    cut = len(s1) + len(s3)
    ctx.label('cut' if cut else 'whole', 'empty' if not len(s2) else 'some')
    ctx.nontrivial(P > 0.1 * M and 0 < cut)


def settings_of(case):
    if case['env']:
        os.environ['MAX_MOMENTUM_MEV'] = repr(case['env'])
    return case['env'] or 100.


def check_cut(where, t, s1, s2, top, ctx):
    """s1 must hold every momentum up to `top` and at most one more; s2 zeros for the rest."""
    require(len(s1) + len(s2) == len(t), '%s: %d + %d of %d points', where, len(s1), len(s2), len(t))
    require(numpy.array_equal(numpy.asarray(s1), t[:len(s1)]), '%s: not the start of the grid', where)
    require(not any(s2), '%s: skipped momenta are not zero', where)
    require(not (t[len(s1):] < top * (1 - 1e-9)).any(), '%s: momenta up to %r must be computed, '
            'but the last is %r', where, top, s1[-1])
    require((t[:len(s1)] < top * (1 + 1e-9)).sum() >= len(s1) - 1, '%s: momenta beyond %r are '
            'computed', where, top)
    if len(s2):
        ctx.label(where + ' cut')


@law('P16', lambda st: decay_case(st, 3), quick=400, thorough=8000,
     rule='three-body decays in flight with random phase space points; non-trivial when the grid is '
          'cut')
def four_particle_creation(case, ctx):
    from common import kinematics, UNITS
    mx = settings_of(case) * UNITS.MeV
    params, sp = make(case, 3, [case['top']] * 3 + [case['topM']])
    A, B, C, D = sp
    reaction = items(sp, (-1, -1, -1, 1))
    got = kinematics.four_particle_bounds_creation(reaction)
    m1, m2, m3, M = (p.conformal_mass for p in sp)
    P = D.grid.MAX_MOMENTUM
    E = math.sqrt(M * M + P * P)
    energetic = math.sqrt(max((E - m2 - m3) ** 2 - m1 * m1, 0))
    require(got >= mx * (1 - 1e-12), 'bound %r below the configured momentum %r', got, mx)
    require(got <= max(mx, energetic) * (1 + 1e-9), 'bound %r beyond the available energy', got)
    for u in case['u']:
        # s = invariant mass of B + C, direction of A, momentum of the mother
        s = (m2 + m3) + u[0] * (M - m1 - m2 - m3)
        pc = math.sqrt(max((M * M - (m1 + s) ** 2) * (M * M - (m1 - s) ** 2), 0)) / (2 * M)
        c, p = 2 * u[1] - 1, u[2] * P
        e = math.sqrt(M * M + p * p)
        pl = (e * pc * c + p * math.sqrt(pc * pc + m1 * m1)) / M
        k = math.sqrt(pl * pl + pc * pc * (1 - c * c))
        require(k <= got * (1 + 1e-9), 'a decay in flight produces momentum %r beyond %r', k, got)
    t = A.grid.TEMPLATE
    inter = integral(reaction, A)
    ps, s1, s2 = kinematics.grid_cutoff_4p(inter)
    check_cut('creation', t, s1, s2, got, ctx)
    all_close(ps, numpy.asarray(s1) / params.aT, 1e-14, 'momenta in units of aT')
    ctx.nontrivial(len(s2) > 0)


@law('P16', lambda st: st.fixed_dictionaries({
    'd': masses(st, 3), 'norm': st.sampled_from([1., 1., .3, 3.]), 'T': logf(st, 0.3, 100), 'n': st.integers(5, 120), 'log': st.booleans(),
    'top': logf(st, 0.5, 500), 'topM': logf(st, 0.5, 500),
    'env': st.sampled_from([None, None, 5, 30, 250]), 'grow': growth(st), 'later': st.booleans(),
    'hnl': st.one_of(st.none(), logf(st, 1, 600)), 'elsewhere': st.sampled_from([False, False, True]), 'dm': st.one_of(st.just(0.), logf(st, .1, 200)),
    'sterile': st.sampled_from([False, False, True]),
    'decay': st.booleans()}), quick=1500, thorough=20000,
     rule='scattering and decay reactions with and without a recorded sterile neutrino energy; '
          'non-trivial when the grid is cut or a sterile neutrino is involved')
def four_particle_scattering_and_decay(case, ctx):
    from common import kinematics, UNITS
    mx = settings_of(case) * UNITS.MeV
    params, sp = make(case, 3, [case['top']] * 3 + [case['topM']])
    D = sp[3]
    first, sides = (D, (-1, 1, 1, 1)) if case['decay'] else (sp[0], (-1, -1, 1, 1))
    others = [p for p in sp if p is not first]
    if case['sterile']:
        first.name = 'Sterile neutrino (Dirac)'
    t = first.grid.TEMPLATE
    hnl = None
    if case['hnl']:
        # a sterile neutrino of this (or another) universe has interacted before
        sterile = world.particle(params, mass=sum(case['d']['m']) + case['d']['q'] + case['dm'], Tdec=1e6, name='Sterile neutrino (Dirac)',
                                 grid=world.grid(5, 10 * case['hnl']))
        if case['elsewhere']:
            sterile.set_params(world.params(T=case['T']))
        kinematics.store_energy(integral(items([sterile] + others, sides), sterile))
        if case['later']:
            # the last record counts
            world.advance(params, .7)
            kinematics.store_energy(integral(items([sterile] + others, sides), sterile))
        if not case['elsewhere']:
            E2 = (case['hnl'] * UNITS.MeV) ** 2 + sterile.conformal_mass ** 2 - first.conformal_mass ** 2
            hnl = max(math.sqrt(E2), mx)
    elif not case['sterile']:
        # nothing to be recorded
        kinematics.store_energy(integral(items([first] + others, sides), first))
    if case['sterile']:
        top = t[-1]
    elif hnl:
        top = hnl
    else:
        top = t[-1] if case['decay'] else mx
    inter = integral(items([first] + others, sides), first)
    ps, s1, s2 = kinematics.grid_cutoff_4p(inter)
    check_cut('decay' if case['decay'] else 'scattering', t, s1, s2, top * (1 + 1e-8) if top == t[-1] else top, ctx)
    all_close(ps, numpy.asarray(s1) / params.aT, 1e-14, 'momenta in units of aT')
    ctx.nontrivial(len(s2) > 0 or case['sterile'] or bool(hnl))


@law('P16', lambda st: st.fixed_dictionaries({
    'n': st.integers(3, 600), 'top': logf(st, 1, 100), 'log': st.booleans(),
    'res': st.sampled_from([None, None, 0.05, 0.5, 1.5]), 'cut': st.floats(0.3, 1),
    'c': st.lists(st.floats(-5, 5), min_size=2, max_size=2)}), quick=400, thorough=8000,
     rule='grids finer and coarser than the configured resolution; non-trivial when thinned out')
def thinning(case, ctx):
    """Momenta may be left out only on grids finer than the resolution, and in a way that leaves
    a spacing of the order of the resolution."""
    from common import kinematics, UNITS
    from scipy.interpolate import interp1d
    if case['res']:
        os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = repr(case['res'])
    res = (case['res'] or 0.24999) * UNITS.MeV
    g = world.grid(case['n'], case['top'], log=case['log'])
    params = world.params(T=5.)
    k = max(3, int(case['cut'] * case['n']))
    s1 = g.TEMPLATE[:k].copy()
    if s1[-1] < 2.5 * res:
        s1 = g.TEMPLATE.copy()
    if s1[-1] < 2.5 * res:
        from pbt.core import Skip
        raise Skip()
    p = world.particle(params, grid=g)
    inter = integral(items([p, p, p, p], (-1, -1, 1, 1)), p)
    ps, flag = kinematics.interpolation_4p(inter, s1 / params.aT, s1)
    full = s1 / params.aT
    fine = g.MAX_MOMENTUM / (g.MOMENTUM_SAMPLES - 1)
    if fine > res * (1 + 1e-9):
        require(not flag, 'a grid coarser than the resolution is thinned out')
    elif fine < res * (1 - 1e-9):
        require(flag, 'a grid finer than the resolution is not thinned out')
    if not flag:
        require(numpy.array_equal(ps, full), 'momenta change without thinning')
        return
    ps = numpy.asarray(ps)
    require(all(p in full for p in ps), 'a momentum is not on the grid')
    require(ps[0] == full[0] and ps[-1] == full[-1], 'the ends of the grid are not kept')
    require((numpy.diff(ps) >= 0).all(), 'momenta are out of order')
    gap = numpy.diff(full).max()
    step = (full[-1] - full[0]) / (math.ceil(s1[-1] / res - 1e-9) - 1)
    require(numpy.diff(ps).max() <= (step + gap) * (1 + 1e-9), 'gap of %r at a resolution of %r',
            numpy.diff(ps).max(), res)
    require(len(numpy.unique(ps)) >= 2, 'nothing left')
    # linear functions survive the interpolation exactly
    v = case['c'][0] + case['c'][1] * ps
    back = interp1d(ps, v, kind='linear')(full)
    all_close(back, case['c'][0] + case['c'][1] * full, 1e-9, 'linear function',
              abs(case['c'][0]) + abs(case['c'][1]) * full[-1] + 1e-9)
    ctx.nontrivial(len(ps) < len(full))


@law('P16', lambda st: st.fixed_dictionaries({
    'type': st.sampled_from(['decay', 'creation', 'scattering']),
    'kind': st.sampled_from(['Full', 'Full', 'F_1', 'F_f', 'F_decay', 'F_creation']),
    'T': logf(st, .5, 20.), 'M': st.floats(3., 9.).map(lambda x: round(x, 2)),
    'm': st.lists(st.one_of(st.just(0.), st.floats(.1, .6).map(lambda x: round(x, 2))), min_size=3, max_size=3),
    'n': st.integers(9, 24), 'top': st.floats(6., 16.).map(lambda x: round(x, 2)),
    'step': st.floats(1.3, 4.).map(lambda x: round(x, 2)), 'cut': st.one_of(st.just(100.), st.floats(.4, 1.1).map(lambda x: round(x, 2))),
    'own': st.one_of(st.just(1.), st.floats(.7, 1.)), 'f': st.lists(st.floats(.1, 1.).map(lambda x: round(x, 2)), min_size=4, max_size=4)}),
     quick=40, thorough=800, hang=300,
     rule='real collision integrals on grids finer than the resolution; non-trivial when momenta are interpolated')
def integrals_thinned_out(case, ctx):
    """With thinning, the integral is unchanged at a subset of the momenta that covers the part
    that is computed, and interpolated linearly at the others."""
    import contextlib
    import io
    from common import CONST, UNITS
    from interactions.four_particle import FourParticleIntegral, FourParticleM, CollisionIntegralKind
    from pbt.core import isolated, Skip
    T, n = case['T'], case['n']
    params = world.params(T=T, m=20., dy=.05)
    unit = params.aT / UNITS.MeV
    fine = case['top'] * unit / (n - 1)
    res = min(case['step'], (n - 1) / 3.) * fine
    os.environ['LOGARITHMIC_TIMESTEP'] = '1'
    os.environ['MAX_MOMENTUM_MEV'] = repr(math.ceil(max(case['cut'] * case['top'] * unit, 3 * res)))
    params.update(5 * params.T ** 4, params.T ** 3)
    sides = {'decay': (-1, 1, 1, 1), 'creation': (-1, -1, -1, 1), 'scattering': (-1, -1, 1, 1)}[case['type']]
    m = [x * T for x in case['m']]
    M = case['M'] * T
    ms = {'decay': [M] + m, 'creation': m + [M], 'scattering': m + [m[0]]}[case['type']]
    sp = []
    for i, x in enumerate(ms):
        # the other particles have grids of their own
        g = world.grid(n if i == 0 else 11, case['top'] * unit)
        p = world.particle(params, mass=x, grid=g, Tdec=1e6, majorana=False, name='species %d' % i, symbol='s%d' % i)
        with contextlib.redirect_stdout(io.StringIO()):
            p.update()
        p._distribution = case['f'][i] * p._distribution
        # the plasma has been heated since its decoupling
        p.aT = params.aT * case['own']
        p.T = p.aT / params.a
        sp.append(p)
    G2 = 32 * CONST.G_F ** 2
    Ms = [FourParticleM(K1=G2, order=(0, 1, 2, 3)), FourParticleM(K1=G2, order=(0, 2, 1, 3))]
    inter = FourParticleIntegral(particle=sp[0], reaction=tuple(items(sp, sides)), Ms=Ms,
                                 kind=getattr(CollisionIntegralKind, case['kind']))
    ps = sp[0].grid.TEMPLATE

    def calculate(resolution):
        os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = repr(resolution)
        with contextlib.redirect_stdout(io.StringIO()):
            inter.initialize()
        out = isolated(lambda: inter.integrate(ps, stepsize=1e-3 * params.H / G2 / params.T ** 5))
        return list(out) if case['kind'] == 'Full' else [out]
    every, some = calculate(0.), calculate(res)
    t = numpy.array(ps)
    interpolated = False
    for a, b in zip(every, some):
        a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
        require(a.shape == t.shape and b.shape == t.shape, 'shapes %s and %s for %d momenta', a.shape, b.shape, len(t))
        require(numpy.isfinite(a).all() and numpy.isfinite(b).all(), 'integrals are not finite')
        scale = abs(a).max()
        if not scale:
            require(not b.any(), 'thinning creates a collision term')
            continue
        # the quantity is multiplied with the spectrum after the interpolation
        w = numpy.ones(n)
        if case['kind'] in ('F_f', 'F_decay'):
            w = sp[0]._distribution
        # (momenta that are left out are zero in both)
        x, y, z = t, a / w, b / w
        tol = 1e-9 * abs(y).max()
        kept = [i for i in range(n) if abs(y[i] - z[i]) <= tol]
        require(kept and kept[0] == 0 and kept[-1] == n - 1, 'the ends are not kept: %r, %r', y, z)
        for i, j in zip(kept, kept[1:]):
            k = numpy.arange(i, j + 1)
            line = y[i] + (y[j] - y[i]) * (x[k] - x[i]) / (x[j] - x[i])
            require((abs(z[k] - line) <= tol).all(), 'between the momenta %d and %d the integral is %r, the '
                    'interpolation %r', i, j, z[k], line)
            require(x[j] - x[i] <= 2.5 * res * UNITS.MeV + 2 * x[1], 'a gap of %r at a resolution of %r', x[j] - x[i], res)
            interpolated = interpolated or j > i + 1
    ctx.label(case['type'], case['kind'])
    ctx.nontrivial(interpolated)
