"""P22: collisions conserve energy and the number of particles they must conserve."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, Skip, isolated, NoConvergence
from pbt.gens import logf
from pbt import world
from pbt.laws import p20

TOP = 18.
REACTIONS = {           # species of the four (three) fields, antiparticle flags, number on the left
    'scattering': ([0, 1, 2, 3], [0, 0, 1, 1], 2),
    'elastic': ([0, 1, 0, 1], [0, 0, 0, 0], 2),
    'self': ([0, 0, 0, 0], [0, 0, 0, 0], 2),
    'annihilation': ([0, 0, 1, 1], [0, 1, 0, 1], 2),
    'decay': ([0, 1, 2, 3], [0, 1, 1, 1], 1),
    'pair decay': ([0, 1, 1, 2], [0, 0, 1, 1], 1),
    'two-body decay': ([0, 1, 2], [0, 1, 1], 1),
    'two-body pair decay': ([0, 1, 1], [0, 0, 1], 1),
}


def nodes(n, kinks=False):
    """Quadrature rule on [0, TOP] with the end points added (with no weight)."""
    t, w = numpy.polynomial.legendre.leggauss(n)
    t, w = (t + 1) / 2, w / 2
    return (numpy.concatenate([[0.], TOP * t ** 1.5, [TOP]]),
            numpy.concatenate([[0.], TOP * 1.5 * t ** .5 * w, [0.]]))


def cases(st, names):
    @st.composite
    def make(draw):
        name = draw(st.sampled_from(names))
        which, _, left = REACTIONS[name]
        n = max(which) + 1
        light = st.one_of(st.just(0.), logf(st, .05, 1.5))
        m = draw(st.lists(light, min_size=n, max_size=n))
        if left == 1:
            rest = sum(m[i] for i in which[1:])
            m[0] = max(3., rest * draw(st.floats(1.6, 4.)))
        c = {k: draw(v) for k, v in p20.common_fields(st).items() if k not in ('points', 'majorana', 'dof', 'before', 'own')}
        c['name'] = name
        c['sp'] = [{'m': x, 'fermion': draw(st.sampled_from([True, True, True, False])), 'eq': False,
                    'c': draw(st.floats(.1, 2.).map(lambda v: round(v, 3))),
                    'theta': draw(st.floats(.6, 1.2).map(lambda v: round(v, 3))),
                    'dof': draw(st.sampled_from([2, 2, 4, 6]))} for x in m]
        if len(which) == 4:
            order = st.sampled_from([(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2), (1, 2, 0, 3), (1, 3, 0, 2),
                                     (2, 3, 0, 1)]).map(list)
            K = st.floats(.1, 3.).map(lambda x: round(x, 2))
            c['Ms'] = draw(st.lists(st.tuples(K, st.one_of(st.just(0.), st.floats(-.3, .3).map(lambda x: round(x, 2))), order)
                                    .map(list), min_size=1, max_size=2))
            # the spectra of a particle and its antiparticle are the same in the code
            c['K'] = 2. if name == 'pair decay' else draw(st.sampled_from([0., 0., 0., 2.]))
        else:
            c['K'] = draw(st.floats(.1, 5.))
        return c
    return make()


def spectrum(s, q):
    E = numpy.sqrt(q * q + s['m'] ** 2)
    return 1 / (numpy.exp(s['c'] + E / s['theta']) + (1 if s['fermion'] else -1))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def populate(case, make):
    """Species with their spectra, the interactions built by `make`, and the rates of every species:
    the numbers and energies gained by every species, with the sizes of the terms; D is for decays only."""
    from common import UNITS
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if case['log'] else ''
    os.environ['MAX_MOMENTUM_MEV'] = '100000'
    os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = '0'
    params = world.params(T=case['T'], m=case['x'], dy=0.05, dx=0.05 * UNITS.MeV)
    params.aT *= case['heat']
    params.update(case['rho'] * params.T ** 4, params.T ** 3)
    q, w = nodes(case.get('n', 11))
    sp = []
    for i, s in enumerate(case['sp']):
        with quiet():
            p = world.particle(params, mass=s['m'] * params.T / UNITS.MeV, dof=s['dof'], fermion=s['fermion'],
                               grid=p20.Grid(q * params.aT), Tdec=1e6 * case['T'], majorana=False,
                               name='species %d' % i, symbol='s%d' % i)
            p.flavour = s.get('flavour')
            p.update()
        p._distribution = spectrum(s, q)
        sp.append(p)
    with quiet():
        for inter in make(params, sp):
            inter.initialize()
    integrals = [(i, x) for i, p in enumerate(sp) for x in p.collision_integrals]
    require(integrals, 'no collision integral at all')

    def calculate():
        out = []
        for i, x in integrals:
            grid = sp[i].grid.TEMPLATE
            C, B = x.integrate(grid, stepsize=1e-30)
            big = float(numpy.max(abs(numpy.asarray(B))))
            if not big:
                out.append((i, 0, numpy.zeros(len(q)), numpy.zeros(len(q))))
                continue
            C, B = [numpy.asarray(v) for v in x.integrate(grid, stepsize=10 / big * (1 if case['log'] else params.aT))]
            out.append((i, sum(item.side for item in x.reaction), C, abs(C - sp[i]._distribution * B) + abs(sp[i]._distribution * B)))
        return out
    try:
        results = isolated(calculate)
    except NoConvergence:
        raise Skip()
    net = [[0.] * 4 for _ in sp]
    for i, kind, C, S in results:
        for j in [0] + ([2] if kind else []):
            net[i][j] = net[i][j] + C
            net[i][j + 1] = net[i][j + 1] + S
    energy = [numpy.sqrt(q * q + s['m'] ** 2) for s in case['sp']]
    N, E, sN, sE, D, sD, DE, sDE = [[] for _ in range(8)]
    for i, (C, S, C2, S2) in enumerate(net):
        g = case['sp'][i]['dof'] * w * q * q
        N.append(float(numpy.sum(g * C)))
        sN.append(float(numpy.sum(g * S)))
        D.append(float(numpy.sum(g * C2)))
        sD.append(float(numpy.sum(g * S2)))
        DE.append(float(numpy.sum(g * energy[i] * C2)))
        sDE.append(float(numpy.sum(g * energy[i] * S2)))
        E.append(float(numpy.sum(g * energy[i] * C)))
        sE.append(float(numpy.sum(g * energy[i] * S)))
    return N, sN, D, sD, E, sE, DE, sDE


def balanced(values, sizes, what, tol=2.5e-2):
    total, size = math.fsum(values), math.fsum(sizes)
    require(abs(total) <= tol * size, '%s: %s add up to %.4g of %.4g', what, values, total, size)


def conservation(case, ctx):
    from common import CONST, UNITS
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    which, anti, left = REACTIONS[case['name']]
    four = len(which) == 4

    def make(params, sp):
        G2 = 32 * CONST.G_F ** 2
        if four and case['K']:
            Ms = (FourParticleM(K=case['K'] * G2 * params.T ** 4),)
        elif four:
            Ms = tuple(FourParticleM(K1=K1 * G2, K2=K1 * K2 * G2, order=tuple(o)) for K1, K2, o in case['Ms'])
        else:
            Ms = (ThreeParticleM(K=case['K'] * UNITS.MeV ** 2),)
        p = [sp[i] for i in which]
        a = [bool(x) for x in anti]
        return [CrossGeneratingInteraction(
            name='generated', particles=(tuple(p[:left]), tuple(p[left:])),
            antiparticles=(tuple(a[:left]), tuple(a[left:])), Ms=Ms,
            integral_type=FourParticleIntegral if four else ThreeParticleIntegral)]
    N, sN, D, sD, E, sE, DE, sDE = populate(case, make)
    name = case['name']
    balanced(DE, sDE, 'energy in decays')
    if name != 'pair decay':
        # adding constant matrix elements of different crossings is not supported
        balanced(E, sE, 'energy')
    if name in ('elastic', 'annihilation', 'self'):
        balanced(N, sN, 'number')
    elif left == 1:
        for i in sorted(set(which[1:])):
            k = which[1:].count(i)
            balanced([D[0] * k, D[i]], [sD[0] * k, sD[i]], 'decays: mothers and species %d' % i)
    ctx.label(name)
    if name == 'scattering' or left == 1:
        ctx.label('distinct')
    ctx.nontrivial(max(abs(x) for x in E) > .1 * sum(sE))


for _name, _which, _quick, _thorough in (
        ('scattering', ['scattering', 'elastic', 'self', 'annihilation'], 20, 600),
        ('decay', ['decay', 'pair decay'], 16, 500),
        ('two_body_decay', ['two-body decay', 'two-body pair decay'], 100, 4000)):
    def _law(case, ctx):
        conservation(case, ctx)
    _law.__name__ = _name
    globals()[_name] = law(
        'P22', (lambda w: lambda st: cases(st, w))(_which), quick=_quick, thorough=_thorough, hang=600,
        rule='reactions of random species and all their crossings, with random masses, spectra and '
             'matrix elements; non-trivial when the spectra really change')(_law)


def sm_cases(st):
    @st.composite
    def make(draw):
        n = draw(st.integers(1, 3))
        c = {k: draw(v) for k, v in p20.common_fields(st).items() if k not in ('points', 'majorana', 'dof', 'before', 'own')}
        c['leptons'] = draw(st.integers(0, 2 if n == 1 else 1))
        m = [0.] * n + [draw(logf(st, .05, 1.5)) for _ in range(c['leptons'])]
        c['flavours'] = n
        shift = draw(st.integers(0, 2))
        c['sp'] = [{'m': x, 'fermion': True, 'eq': False, 'dof': 2 if i < n else 4,
                    'c': draw(st.floats(-.5, 2.).map(lambda v: round(v, 3))),
                    'flavour': ['electron', 'muon', 'tau'][(i if i < n else i - n + shift) % 3],
                    'theta': draw(st.floats(.6, 1.5).map(lambda v: round(v, 3)))} for i, x in enumerate(m)]
        c['n'] = 9
        return c
    return make()


@law('P22', sm_cases, quick=14, thorough=300, hang=600,
     rule='weak interactions of up to three neutrino flavours with up to two lepton species as the library '
          'lists them; non-trivial when energy goes from one species to another')
def weak_interactions(case, ctx):
    from library.SM import interactions
    n = case['flavours']

    def make(params, sp):
        return interactions.neutrino_interactions(leptons=sp[n:], neutrinos=sp[:n])
    N, sN, D, sD, E, sE, DE, sDE = populate(case, make)
    balanced(N, sN, 'number')
    balanced(E, sE, 'energy')
    ctx.label('%d neutrinos %d leptons' % (n, case['leptons']))
    ctx.nontrivial(max(abs(x) for x in E) > .02 * sum(sE))
