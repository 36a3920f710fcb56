"""P29: the QCD transition replaces quarks and gluons by hadrons at constant entropy."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, all_close
from pbt.gens import logf
from pbt import world

QUARKS = ['Up quark', 'Down quark', 'Charm quark', 'Strange quark', 'Top quark', 'Bottom quark',
          'Gluon']


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def species(st, lo, hi):
    """A species: mass and decoupling temperature relative to the initial temperature."""
    return st.fixed_dictionaries({
        'r': st.one_of(st.just(0.), st.just(0.), logf(st, 0.05, 20)), 'dof': st.integers(1, 24),
        'fermion': st.booleans(), 'dec': st.sampled_from([0., 0., 0., 0.6, 1.4])})


class Counted(object):
    """An interaction that counts how often it is used."""
    integrals = ()

    def __init__(self, name):
        self.name, self.used = name, 0

    def __str__(self):
        return self.name

    def initialize(self):
        self.used += 1


def case_of(st):
    return st.fixed_dictionaries({
        'T': logf(st, 1., 500.), 'dy': logf(st, 2e-3, 0.05), 'log': st.sampled_from([True, True, False]),
        'quarks': st.lists(st.tuples(st.integers(0, 6), species(st, 0, 1)).map(list), min_size=0,
                           max_size=7, unique_by=lambda q: q[0]),
        'others': st.lists(species(st, 0, 1), max_size=3),
        'hadrons': st.lists(species(st, 0, 1), max_size=5),
        'steps': st.integers(0, 6), 'after': st.integers(1, 5),
        'inter': st.tuples(*[st.integers(0, 3)] * 4).map(list),
        'none': st.booleans(), 'order': st.booleans(),
        # interactions of the same name are still different interactions
        'same': st.booleans()})


def build(s, i, name, T):
    g = world.grid(11, 15.)
    return world.particle(None, mass=s['r'] * T, dof=s['dof'], grid=g,
                          fermion=s['fermion'] or (s['r'] == 0 and s['dec'] > 0),
                          Tdec=s['dec'] * T, name=name, symbol=name[:3] + str(i), Q=0)


def effective(parts, T):
    """Entropic degrees of freedom of the species in equilibrium lighter than T."""
    tot = 0
    for p, equilibrium in parts:
        if equilibrium and p.mass < T:
            tot += p.dof * (7 / 8. if p.eta == 1 else 1)
    return tot


@law('P29', case_of, quick=300, thorough=5000, hang=300,
     rule='universes with any of the six quarks, gluons and up to three other species, a few steps, '
          'up to five hadrons, more steps; non-trivial when quarks in equilibrium disappear after '
          'at least one step')
def transition(case, ctx):
    from common import Params, UNITS
    from evolution import Universe
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if case['log'] else ''
    T = case['T']
    with quiet():
        u = Universe(params=Params(T=T * UNITS.MeV, dy=case['dy'], dx=case['dy'] / T * UNITS.MeV),
                     max_log_rate=0)
        photon = world.particle(None, dof=2, fermion=False, name='Photon', symbol='g')
        quarks = [build(s, i, QUARKS[i], T) for i, s in case['quarks']]
        others = [build(s, i, 'Other %d' % i, T) for i, s in enumerate(case['others'])]
        hadrons = [build(s, i, 'Hadron %d' % i, T) for i, s in enumerate(case['hadrons'])]
        start = quarks + [photon] + others if case['order'] else [photon] + others + quarks
        u.add_particles(start)
        groups = [[world.interaction(Counted, 'interaction' if case['same'] else '%s %d' % (n, i))
                   for i in range(k)] for n, k in
                  zip(('quark', 'common', 'hadron', 'secondary'), case['inter'])]
        quarkic, common, hadronic, secondary = groups
        u.interactions += [x for pair in zip(quarkic, common) for x in pair] \
            + quarkic[len(common):] + common[len(quarkic):]
        Tf = u.params.T * (1 + case['dy']) ** -(case['steps'] - .5)
        u.evolve(Tf, export=False)
        n = len(u.data)
        before = [numpy.array(u.data[c]).copy() for c in ('aT', 'T', 'a', 'x', 't', 'rho')]
        kept = [(p, p.in_equilibrium) for p in u.particles]
        spectra = {p: numpy.array(p._distribution) for p, _ in kept}
        T1, aT1, x1, a1, t1 = (u.params.T, u.params.aT, u.params.x, u.params.a, u.params.t)
        g1 = effective(kept, T1)
        used = [x.used for x in quarkic]
        # arguments may be omitted
        pick = lambda l: None if case['none'] and not l else list(l)
        u.QCD_transition(hadrons=list(hadrons), quarkic_interactions=pick(quarkic),
                         hadronic_interactions=pick(hadronic),
                         secondary_interactions=pick(secondary))
        hist = len(u.data), [numpy.array(u.data[c]).copy() for c in
                             ('aT', 'T', 'a', 'x', 't', 'rho')]
    # content
    names = [p.name for p in u.particles]
    require(sorted(names) == sorted([p.name for p in [photon] + others + hadrons]),
            'species after the transition: %s', names)
    require(all(any(p is q for q in [photon] + others + hadrons) for p in u.particles),
            'a species has been replaced')
    masses = [p.mass for p in u.particles]
    require(masses == sorted(masses, reverse=True), 'the heaviest species goes first')
    # history
    # (the last record makes way for the state after the transition)
    require(hist[0] == n - 1, 'the history has %d records instead of %d', hist[0], n - 1)
    for c, h, b in zip(('aT', 'T', 'a', 'x', 't', 'rho'), hist[1], before):
        require(numpy.array_equal(h, b[:-1]), 'the history of %s changed', c)
    # entropy: the species that go heat those that stay; hadrons start in equilibrium if they
    # are coupled
    now = [(p, e) for p, e in kept if p.name not in QUARKS] \
        + [(h, T1 > h.decoupling_temperature) for h in hadrons]
    g2 = effective(now, T1)
    close(u.params.aT, aT1 * (g1 / g2) ** (1 / 3.), 1e-9, 'temperature after the transition, with '
          '%r and %r degrees of freedom' % (g1, g2))
    close(u.params.T, u.params.aT / a1, 1e-12, 'T = aT/a')
    require(u.params.x == x1 and u.params.a == a1, 'the scale factor changes')
    close(u.params.t, t1, 1e-12, 'the age changes')
    for p in u.particles:
        if T1 > p.decoupling_temperature and u.params.T > p.decoupling_temperature:
            close(p.T, u.params.T, 1e-12, 'temperature of %s after the transition' % p.name)
    # interactions
    want = common + hadronic + secondary
    require(sorted(map(id, u.interactions)) == sorted(map(id, want)),
            'interactions after the transition: %s', [x.name for x in u.interactions])
    # the run goes on from here
    with quiet():
        T2 = u.params.T
        aT2 = u.params.aT
        u.evolve(T2 * (1 + case['dy']) ** -(case['after'] - .5), export=False, init_time=False)
    require(len(u.data) > n, 'no steps after the transition')
    close(u.data['aT'][n - 1], aT2, 1e-12, 'first record after the transition')
    close(u.data['x'][n - 1], x1, 1e-12, 'first record after the transition')
    steps = len(u.data) - n
    require([x.used for x in quarkic] == used, 'interactions of quarks are still in use')
    require(all(x.used == steps for x in hadronic + secondary), 'interactions of hadrons are used '
            '%s times in %d steps', [x.used for x in hadronic + secondary], steps)
    for h in hadrons:
        require(h.params is u.params and len(h.data['params']) >= steps, 'a hadron does not take part')
    # decoupled species keep their spectrum
    for p, e in kept:
        if not e and p.name not in QUARKS:
            all_close(p._distribution, spectra[p], 1e-9, 'spectrum of a decoupled species', 1e-30)
    gone = sum(1 for p, e in kept if p.name in QUARKS and e and p.mass < T1)
    ctx.label('%d quarks' % len(quarks), '%d hadrons' % len(hadrons))
    ctx.nontrivial(gone and n > 1)
