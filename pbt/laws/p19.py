"""P19: collisions leave thermal equilibrium alone and drive any spectrum towards it."""
import contextlib
import io
import math

import numpy

from pbt.core import law, require, Skip, isolated, NoConvergence
from pbt.gens import logf
from pbt.laws import p20


def species(st, case, draw):
    """Spectra exp(c + E / theta) with balanced potentials: the reaction is in equilibrium."""
    sp, kind = case['sp'], case['type']
    mode = draw(st.sampled_from(['thermal', 'potentials']))
    pot = st.floats(.15, 2.).map(lambda x: round(x, 3))
    # (beyond the grid the spectra fall as exp(-E / T))
    theta = 1. if mode == 'thermal' or max(s['m'] for s in sp) > 8 else draw(st.floats(.6, 1.5).map(lambda x: round(x, 3)))
    for i, s in enumerate(sp):
        s['theta'] = theta
        if mode == 'thermal':
            s['c'] = 0.
            s['fermion'] = s['fermion'] or not s['m']
            s['eq'] = bool(i and draw(st.booleans()))
        else:
            s['eq'] = False
            s['c'] = draw(pot)
    if mode == 'potentials':
        n = len(sp)
        light = [i for i in range(n) if i != (0 if kind == 'decay' else n - 1)]
        if kind == 'scattering':
            tot, part = sp[0]['c'] + sp[1]['c'], draw(st.floats(.2, .8))
            sp[2]['c'], sp[3]['c'] = tot * part, tot * (1 - part)
        else:
            sp[0 if kind == 'decay' else n - 1]['c'] = sum(sp[i]['c'] for i in light)
    case['mode'] = mode
    # how far the first particle is from equilibrium
    case['away'] = draw(st.one_of(st.just(0.), st.floats(.1, 2.), st.floats(-2., -.1).filter(
        lambda d: sp[0]['fermion'] or sp[0]['c'] + d > .1)))


def equilibrium(s, q):
    E = numpy.sqrt(q * q + s['m'] ** 2)
    return 1 / (numpy.exp(s['c'] + E / s['theta']) + (1 if s['fermion'] else -1))


def case_4p(st, kind):
    @st.composite
    def make(draw):
        c = draw(p20.case_4p(st, kind))
        species(st, c, draw)
        if c['kind'].endswith('vacuum_decay'):
            c['kind'] = 'Full'
        return c
    return make()


def case_3p(st):
    @st.composite
    def make(draw):
        c = draw(p20.case_3p(st))
        species(st, c, draw)
        if c['kind'].endswith('vacuum_decay'):
            c['kind'] = 'Full'
        return c
    return make()


def measure(case, ctx, inter_for, ps, f0):
    """All kinds of the integral; each is a multiple of F_1 at every momentum."""
    def run(kind, step):
        return isolated(lambda: inter_for(kind).integrate(ps, stepsize=step))
    try:
        # a first estimate sets the scale of the absolute accuracy
        rough = numpy.asarray(run('F_1', 1e-30))
        big = float(numpy.max(numpy.abs(rough)))
        if not big or not math.isfinite(big):
            raise Skip()
        step = 50 / big
        F1 = numpy.asarray(run('F_1', step))
        full, Ff = [numpy.asarray(x) for x in run('Full', step)]
        other = numpy.asarray(run(case['kind'], step)) if case['kind'] not in ('Full', 'F_1') else None
    except NoConvergence:
        ctx.label('no convergence')
        raise Skip()
    return F1, full, Ff, other, big


def verdict(case, ctx, q, F1, full, Ff, other, big):
    s = case['sp'][0]
    eta = 1 if s['fermion'] else -1
    fe = equilibrium(s, q)
    f = equilibrium(dict(s, c=s['c'] + case['away']), q)
    checked = 0
    for i in range(len(q)):
        scale = abs(F1[i])
        tol = 2e-2 * scale + 5e-3 * big
        tol_f = 2e-2 * scale / fe[i] + 5e-3 * big / fe[i]
        if not numpy.isfinite([F1[i], fe[i], f[i]]).all():
            continue
        require(F1[i] >= -tol, 'the gain at p = %.4g T is %r', q[i], F1[i])
        require(abs(Ff[i] + F1[i] / fe[i]) <= tol_f,
                'p = %.4g T: the linear part is %r, detailed balance requires %r', q[i], Ff[i], -F1[i] / fe[i])
        want = F1[i] * (1 - f[i] / fe[i])
        require(abs(full[i] - want) <= tol * max(1, f[i] / fe[i]),
                'p = %.4g T: the collision integral is %r, %r by detailed balance (gain %r, occupation %r, '
                'in equilibrium %r)', q[i], full[i], want, F1[i], f[i], fe[i])
        if other is not None:
            want = {'F_f': -F1[i] / fe[i] * f[i], 'F_decay': -F1[i] * f[i] / fe[i] * (1 - eta * fe[i]),
                    'F_creation': F1[i] * (1 - eta * f[i])}[case['kind']]
            require(abs(other[i] - want) <= tol * max(1, f[i] / fe[i], f[i]), 'p = %.4g T: %s is %r, %r by detailed '
                    'balance', q[i], case['kind'], other[i], want)
        checked += scale > .05 * big
    ctx.label(case['type'], case['kind'], case['mode'], 'in equilibrium' if not case['away'] else 'away')
    ctx.nontrivial(checked > 1)


def prepare(case, sides):
    params, sp, reaction = p20.build(dict(case, own=[1.] * 4), sides)
    q = sp[0].grid.TEMPLATE / params.aT
    s = case['sp'][0]
    for p, x in zip(sp[1:], case['sp'][1:]):
        if not p.in_equilibrium:
            p._distribution = equilibrium(x, p.grid.TEMPLATE / params.aT)
    sp[0]._distribution = equilibrium(dict(s, c=s['c'] + case['away']), q)
    return params, sp, reaction, q


def four(case, ctx):
    from common import CONST
    from interactions.four_particle import FourParticleIntegral, FourParticleM, CollisionIntegralKind
    params, sp, reaction, q = prepare(case, p20.SIDES[case['type']])
    G2 = 32 * CONST.G_F ** 2

    def inter(kind):
        Ms = [FourParticleM(K1=K1 * G2, K2=K2 * G2, K=K * G2 * params.T ** 4, order=tuple(o))
              for K1, K2, o, K in case['Ms']]
        x = FourParticleIntegral(particle=sp[0], reaction=reaction, Ms=Ms,
                                 kind=getattr(CollisionIntegralKind, kind))
        with contextlib.redirect_stdout(io.StringIO()):
            x.initialize()
        return x
    verdict(case, ctx, q, *measure(case, ctx, inter, sp[0].grid.TEMPLATE, sp[0]._distribution))


for _kind in ('decay', 'scattering', 'creation'):
    def _law(case, ctx):
        four(case, ctx)
    _law.__name__ = 'four_particle_' + _kind
    globals()[_law.__name__] = law(
        'P19', (lambda k: lambda st: case_4p(st, k))(_kind), quick=100, thorough=4000, hang=300,
        rule='partners in thermal or chemical equilibrium, the first particle in equilibrium or away from it; '
             'non-trivial when the gain matters at two momenta or more')(_law)


@law('P19', case_3p, quick=200, thorough=10000, hang=300,
     rule='two-body decays and their inverse; non-trivial when the gain matters at two momenta or more')
def three_particle(case, ctx):
    from common import UNITS
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    from interactions.four_particle import CollisionIntegralKind
    params, sp, reaction, q = prepare(case, p20.SIDES3[case['type']])

    def inter(kind):
        x = ThreeParticleIntegral(particle=sp[0], reaction=reaction, kind=getattr(CollisionIntegralKind, kind),
                                  Ms=[ThreeParticleM(K=K * UNITS.MeV ** 2) for K in case['K']])
        with contextlib.redirect_stdout(io.StringIO()):
            x.initialize()
        return x
    verdict(case, ctx, q, *measure(case, ctx, inter, sp[0].grid.TEMPLATE, sp[0]._distribution))
