"""P26: neutrino oscillations redistribute collision rates and nothing else."""
import contextlib
import io
import itertools
import math
import os

import numpy

from pbt.core import law, require, close, all_close
from pbt.gens import logf
from pbt import world

FL = ['electron', 'muon', 'tau']
S12, S13 = 0.297, 0.0215            # sin^2 of the vacuum angles
D12, D13 = 7.37e-17, 2.56e-15       # MeV^2
G_F, M_W = 1.1663787e-11, 80385.


def reference(th12, th13):
    """Averaged probabilities sum_i |U_ai|^2 |U_bi|^2 without mixing of the second and third."""
    c12, s12, c13, s13 = math.cos(th12), math.sin(th12), math.cos(th13), math.sin(th13)
    U = numpy.array([[c13 * c12, c13 * s12, s13],
                     [-s12, c12, 0.],
                     [-s13 * c12, -s13 * s12, c13]])
    W = U ** 2
    return W.dot(W.T)


def in_matter(s, A):
    th = math.asin(math.sqrt(s))
    return .5 * math.atan2(math.sin(2 * th), math.cos(2 * th) + A)


def matrix(pattern, i=None):
    pick = lambda v: float(v) if i is None else float(numpy.asarray(v)[i])
    return numpy.array([[pick(pattern[a, b]) for b in FL] for a in FL])


def physical(P, what):
    for i in range(3):
        close(P[i].sum(), 1., 1e-12, '%s: probabilities from %s' % (what, FL[i]))
        close(P[:, i].sum(), 1., 1e-12, '%s: probabilities into %s' % (what, FL[i]))
        for j in range(3):
            require(-1e-12 <= P[i, j] <= 1 + 1e-12, '%s: probability %r', what, P[i, j])
            close(P[i, j], P[j, i], 1e-12, '%s: symmetry' % what, floor=1e-9)


def potentials(st):
    return st.one_of(st.just(0.), logf(st, 1e-6, 1e8))


@law('P26', lambda st: st.fixed_dictionaries({
    'A12': st.lists(potentials(st), min_size=1, max_size=5), 'ratio': logf(st, 1e-3, 1.),
    'inverted': st.booleans(), 'matter': st.booleans(), 'array': st.booleans()}),
     quick=600, thorough=10000, rule='matter potentials over fourteen decades, both hierarchies; '
                                     'non-trivial with matter effects')
def transition_probabilities(case, ctx):
    from library.SM import particles as SMP
    A12 = case['A12'] if case['array'] else case['A12'][:1]
    A13 = [(-1 if case['inverted'] else 1) * case['ratio'] * a for a in A12]
    if case['array']:
        pattern = SMP.leptons.oscillations_map(numpy.array(A12), numpy.array(A13), case['matter'])
    else:
        pattern = SMP.leptons.oscillations_map(A12[0], A13[0], case['matter'])
    require(set(pattern) == set(itertools.product(FL, FL)), 'pairs %s', sorted(pattern))
    c13 = math.cos(2 * math.asin(math.sqrt(S13)))
    for i in range(len(A12)):
        if case['array'] and case['matter']:
            P = matrix(pattern, i)
        else:
            P = matrix(pattern)
        physical(P, 'A12=%r A13=%r' % (A12[i], A13[i]))
        if not case['matter']:
            all_close(P, reference(in_matter(S12, 0), in_matter(S13, 0)), 1e-3, 'vacuum')
            continue
        ctx.nontrivial()
        if abs(c13 + A13[i]) < 5e-2:
            continue                    # the resonance amplifies the rounding of the angles
        if c13 + A13[i] > 0:
            want = reference(in_matter(S12, A12[i]), in_matter(S13, A13[i]))
            all_close(P, want, 5e-3 * (1 + .05 / (c13 + A13[i]) ** 2), 'probabilities in matter, '
                      'A12=%r A13=%r' % (A12[i], A13[i]), floor=1e-9)
        if A12[i] > 1e3 and abs(A13[i]) > 1e3:
            require(P[0, 0] > 1 - 1e-3, 'mixing of electron neutrinos is not suppressed at high '
                    'density: %r', P[0, 0])
            ctx.label('dense')


def nu(params, name, grid, Tdec):
    from common import UNITS
    from library.SM import particles as SMP
    from particles import Particle
    d = dict(getattr(SMP.leptons, name))
    d['decoupling_temperature'] = Tdec * UNITS.MeV
    return Particle(params=params, grid=grid, **d)


@law('P26', lambda st: st.fixed_dictionaries({
    'T': logf(st, 0.1, 30), 'm': st.one_of(st.just(1.), logf(st, .3, 3)), 'aT': logf(st, 0.7, 1.5), 'dec': st.lists(st.one_of(logf(st, 0.1, 30), st.just(40.)), min_size=3, max_size=3),
    'normal': st.sampled_from([None, None, '', '1']), 'matter': st.booleans(),
    'flavours': st.one_of(st.permutations(['e', 'mu', 'tau']), st.lists(st.sampled_from(['e', 'mu', 'tau']), unique=True, min_size=2, max_size=3), st.lists(st.sampled_from(['e', 'mu', 'tau']), unique=True, min_size=1, max_size=3)),
    'on': st.sampled_from([True, True, True, False]), 'n': st.integers(5, 21),
    'top': logf(st, 3., 40.),
    'I': st.lists(st.lists(st.floats(-1, 1), min_size=3, max_size=3), min_size=3, max_size=3)}),
     quick=400, thorough=5000,
     rule='universes with one to three flavours, both hierarchies, with and without matter effects; '
          'non-trivial when rates are mixed')
def mixing_of_rates(case, ctx):
    from common import UNITS
    from evolution import Universe
    from library.SM import particles as SMP
    if case['normal'] is not None:
        os.environ['NORMAL_HIERARCHY_NEUTRINOS'] = case['normal']
    with contextlib.redirect_stdout(io.StringIO()):
        params = world.params(T=case['T'], dy=0.01, m=case['m'])
        u = Universe(params=params)
        g = world.grid(case['n'], case['top'])
        ps = [nu(params, 'neutrino_' + f, g, d) for f, d in zip(case['flavours'], case['dec'])]
        e = world.particle(params, mass=0.511, dof=4)
        u.add_particles([e] + ps)
        if case['on']:
            u.init_oscillations(SMP.leptons.oscillations_map, ps, matter_effects=case['matter'])
        # move on, so that the pattern has to follow the temperature
        params.x *= 1.3
        params.aT *= case['aT']
        params.update(params.T ** 4, params.T ** 3)
        u.update_particles()
        y = g.TEMPLATE
        before, rates = {}, {}
        for p, c in zip(ps, case['I']):
            rates[p.flavour] = 1e-4 * (c[0] + c[1] * y / case['top'] + c[2] * (y / case['top']) ** 2)
            if p.in_equilibrium:
                rates[p.flavour] = 0. * y
            p.collision_integral = rates[p.flavour].copy()
            p._distribution = numpy.full(len(y), 0.3)
            before[p.flavour] = p._distribution.copy()
        u.update_distributions()
    T = params.T / UNITS.MeV
    a = params.a
    mixed = case['on'] and any(T < p.decoupling_temperature / UNITS.MeV for p in ps)
    if any(abs(T - p.decoupling_temperature / UNITS.MeV) < 1e-9 * T for p in ps):
        return
    h = params.h
    sign = 1 if case['normal'] in (None, '1') else -1
    for i, yi in enumerate(y / UNITS.MeV):
        if case['matter']:
            # forward scattering on a symmetric electron-positron plasma
            pot = 16 * math.sqrt(2) * G_F / (3 * M_W ** 2) * (yi / a) ** 2 * 7 * math.pi ** 2 / 60 \
                * T ** 4
            A12, A13 = pot / D12, sign * pot / D13
            c13 = math.cos(2 * math.asin(math.sqrt(S13)))
            c13_A = c13 + A13
            if c13_A < .15:
                continue                # beyond the resonance of the inverted hierarchy
        else:
            A12 = A13 = 0.
            c13_A = 1.
        P = reference(in_matter(S12, A12), in_matter(S13, A13))
        for p in ps:
            if mixed:
                want = sum(P[FL.index(p.flavour), FL.index(q.flavour)] * rates[q.flavour][i]
                           for q in ps)
            else:
                want = rates[p.flavour][i]
            scale = max(abs(rates[q.flavour][i]) for q in ps)
            if not p.in_equilibrium:
                got = (p._distribution[i] - before[p.flavour][i]) / h
                close(got, want, 2e-2 * (1 + .05 / c13_A ** 2), 'rate of %s at y = %g' % (p.flavour, yi), floor=1.5 * scale + 1e-8)
    if mixed and len(ps) == 3 and not any(p.in_equilibrium for p in ps):
        total = sum(p._distribution - before[p.flavour] for p in ps)
        all_close(total, h * sum(rates.values()), 1e-9, 'total number of neutrinos', floor=1e-4 * h)
        ctx.label('all decoupled')
    ctx.label('mixed' if mixed else 'not mixed')
    ctx.nontrivial(mixed and len(ps) > 1)
