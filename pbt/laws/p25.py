"""P25: the library of particles and interactions follows the physical data and matrix elements."""
import contextlib
import io
import itertools
import math
from collections import Counter

from pbt.core import law, require, close, Skip
from pbt.gens import logf
from pbt import world

G_F = 1.1663787e-11      # MeV^-2
HBAR = 6.582119569e-22   # MeV s
SIN2 = 0.23122
ALPHA = 1 / 137.036
V_UD = 0.974

# name in the library: statistics, spin states (particles and antiparticles), charge, Majorana,
# mass [MeV], lifetime [s], decay constant [MeV], branching ratios
F, B = 'f', 'b'
DATA = {
    'photon': (B, 2, 0, True, 0, None, None, None),
    'gluon': (B, 16, 0, True, 0, None, None, None),
    'hadrons.neutron': (F, 4, 0, False, 939.5654, None, None, None),
    'hadrons.proton': (F, 4, 1, False, 938.2720, None, None, None),
    'hadrons.neutral_pion': (B, 1, 0, True, 134.977, 8.52e-17, 130.2, {'γγ': .98823}),
    'hadrons.charged_pion': (B, 2, -1, False, 139.570, 2.6033e-8, 130.2, {'μν_μ': .999877}),
    'hadrons.charged_kaon': (B, 2, -1, False, 493.677, 1.238e-8, 155.6,
                             {'π0eν_e': .0507, 'πππ': .05583, 'μν_μ': .6356, 'ππ0': .2067}),
    'hadrons.kaon_long': (B, 1, 0, True, 497.611, 5.116e-8, 155.6,
                          {'πeν_e': .4055, 'πμν_μ': .2704, 'π0π0π0': .1952, 'πππ0': .1254}),
    'hadrons.kaon_short': (B, 1, 0, True, 497.611, 8.954e-11, 155.6,
                           {'ππ': .6920, 'π0π0': .3069}),
    'hadrons.eta': (B, 1, 0, True, 547.862, HBAR / 1.31e-3, 81.7,
                    {'γγ': .3941, 'π0π0π0': .3268, 'πππ0': .2292, 'ππγ': .0422}),
    'hadrons.charged_rho': (B, 6, -1, False, 775.11, HBAR / 149.1, 209., {'ππ0': 1.}),
    'hadrons.neutral_rho': (B, 3, 0, True, 775.26, HBAR / 149.1, 208.9, {'ππ': 1.}),
    'hadrons.omega': (B, 3, 0, True, 782.65, HBAR / 8.49, 195.5, {'πππ0': .892, 'π0γ': .084}),
    'hadrons.eta_prime': (B, 1, 0, True, 957.78, HBAR / .196, -94.7,
                          {'ππη': .426, 'ρ0γ': .289, 'π0π0η': .228}),
    'hadrons.phi': (B, 3, 0, True, 1019.461, HBAR / 4.249, 229.5,
                    {'KK': .489, 'K0LK0S': .342, 'ρ0π0': .1532}),
    'leptons.neutrino_e': (F, 2, 0, False, 0, None, None, None),
    'leptons.neutrino_mu': (F, 2, 0, False, 0, None, None, None),
    'leptons.neutrino_tau': (F, 2, 0, False, 0, None, None, None),
    'leptons.electron': (F, 4, -1, False, 0.5109989, None, None, None),
    'leptons.muon': (F, 4, -1, False, 105.6584, 2.19698e-6, None, {'eν_eν_μ': 1.}),
    'leptons.tau': (F, 4, -1, False, 1776.86, 2.903e-13, None, None),
    'quarks.up': (F, 12, 2 / 3., False, 2.2, None, None, None),
    'quarks.down': (F, 12, -1 / 3., False, 4.7, None, None, None),
    'quarks.charm': (F, 12, 2 / 3., False, 1275., None, None, None),
    'quarks.strange': (F, 12, -1 / 3., False, 95., None, None, None),
    'quarks.top': (F, 12, 2 / 3., False, 173.1e3, None, None, None),
    'quarks.bottom': (F, 12, -1 / 3., False, 4180., None, None, None),
}
FLAVOURS = {'leptons.neutrino_e': 'electron', 'leptons.neutrino_mu': 'muon',
            'leptons.neutrino_tau': 'tau', 'leptons.electron': 'electron', 'leptons.muon': 'muon',
            'leptons.tau': 'tau'}
FAMILY = {'up': 1, 'down': 1, 'charm': 2, 'strange': 2, 'top': 3, 'bottom': 3}
VECTORS = ['charged_rho', 'neutral_rho', 'omega', 'phi']
MESONS = [k.split('.')[1] for k in DATA if k.startswith('hadrons.') and DATA[k][5]]
CHARGE = {'π': -1, 'K': -1, 'ρ': -1, 'e': -1, 'μ': -1}


def template(name):
    from library.SM import particles as P
    x = P
    for part in name.split('.'):
        x = getattr(x, part)
    return x


def split_symbols(key):
    """The species in a name of a decay channel."""
    known = ['K0L', 'K0S', 'ν_e', 'ν_μ', 'ν_τ', 'π0', 'ρ0', 'η*', 'π', 'γ', 'e', 'μ', 'η', 'K',
             'ρ', 'ω', 'ϕ']
    out = []
    while key:
        for k in known:
            if key.startswith(k):
                out.append(k)
                key = key[len(k):]
                break
        else:
            return None
    return out


SYMBOL = {'γ': 'photon', 'π0': 'hadrons.neutral_pion', 'π': 'hadrons.charged_pion',
          'K': 'hadrons.charged_kaon', 'K0L': 'hadrons.kaon_long', 'K0S': 'hadrons.kaon_short',
          'η': 'hadrons.eta', 'ρ': 'hadrons.charged_rho', 'ρ0': 'hadrons.neutral_rho',
          'ω': 'hadrons.omega', 'η*': 'hadrons.eta_prime', 'ϕ': 'hadrons.phi',
          'e': 'leptons.electron', 'μ': 'leptons.muon', 'τ': 'leptons.tau',
          'ν_e': 'leptons.neutrino_e', 'ν_μ': 'leptons.neutrino_mu', 'ν_τ': 'leptons.neutrino_tau'}


@law('P25', lambda st: sorted(DATA), enumerate_=True, name='particle_data',
     rule='every species of the library against independent reference data')
def particle_data(case, ctx):
    from common import UNITS, statistics as S
    stat, dof, Q, majorana, mass, life, f, br = DATA[case]
    with contextlib.redirect_stdout(io.StringIO()):
        params = world.params(T=1.)
        p = make(params, case)
    require(p.statistics == (S.FERMION if stat == F else S.BOSON), '%s: statistics', case)
    require(p.eta == (1 if stat == F else -1), '%s: sign %r in the distribution', case, p.eta)
    require(p.dof == dof, '%s: %r states, expected %r', case, p.dof, dof)
    close(p.Q, Q, 1e-9, case + ' charge')
    require(p.majorana == majorana, '%s: majorana %r', case, p.majorana)
    close(p.mass / UNITS.MeV, mass, 2e-3 if 'quarks' not in case else 2e-2, case + ' mass')
    if case in FLAVOURS:
        require(p.flavour == FLAVOURS[case], '%s: flavour %r', case, p.flavour)
    if case.startswith('quarks'):
        require(p.family == FAMILY[case.split('.')[1]], '%s: family %r', case, p.family)
    if life:
        close(p.lifetime / UNITS.s, life, 2e-2, case + ' lifetime')
        require(p.fast_decay, '%s does not decay fast', case)
    else:
        require(not hasattr(p, 'fast_decay'), '%s decays fast', case)
    if f is not None:
        close(p.decay_constant / UNITS.MeV, f, 1e-2, case + ' decay constant')
        require(p.type == ('vector' if case.split('.')[1] in VECTORS else 'scalar'), '%s: type %r',
                case, p.type)
    if br:
        got = {}
        for k, v in p.BR.items():
            s = split_symbols(k)
            require(s, '%s: unknown channel %r', case, k)
            got[tuple(sorted(s))] = v
            charges = [CHARGE.get(x, 0) for x in s]
            total = [sum(c * t for c, t in zip(charges, signs))
                     for signs in itertools.product((1, -1), repeat=len(s))]
            require(Q in total, '%s -> %s violates charge conservation', case, k)
            require(sum(DATA[SYMBOL[x]][4] for x in s) < mass, '%s -> %s is closed', case, k)
        want = {tuple(sorted(split_symbols(k))): v for k, v in br.items()}
        require(set(got) == set(want), '%s: channels %s', case, sorted(got))
        for k in want:
            close(got[k], want[k], 2e-2, '%s -> %s branching ratio' % (case, k))
        require(.88 < sum(got.values()) <= 1 + 1e-9, '%s: branching ratios add to %r', case,
                sum(got.values()))


@law('P25', lambda st: st.fixed_dictionaries({
    'M': logf(st, 1e-3, 1e5), 'theta': logf(st, 1e-12, 1), 'dirac': st.booleans()}),
     quick=300, thorough=40000, rule='sterile neutrinos of any mass and mixing; all non-trivial')
def sterile_data(case, ctx):
    from common import UNITS, statistics as S
    from library.NuMSM import particles as NuP
    make_ = NuP.dirac_sterile_neutrino if case['dirac'] else NuP.sterile_neutrino
    with contextlib.redirect_stdout(io.StringIO()):
        a = make_(mass=case['M'] * UNITS.MeV, mixing_angle=case['theta'])
        b = make_(mass=2 * case['M'] * UNITS.MeV, mixing_angle=case['theta'] / 2)
        p = world_particle(world.params(T=1.), a)
    close(p.mass / UNITS.MeV, case['M'], 1e-12, 'mass')
    close(p.mixing_angle, case['theta'], 1e-12, 'mixing angle')
    close(b['mass'] / UNITS.MeV, 2 * case['M'], 1e-12, 'mass of the second')
    require(p.dof == (4 if case['dirac'] else 2), 'states %r', p.dof)
    require(p.majorana == (not case['dirac']), 'majorana %r', p.majorana)
    require(p.Q == 0 and p.statistics == S.FERMION, 'charge or statistics')


@law('P25', lambda st: [[i, j] for i in (1, 2, 3) for j in (1, 2, 3)], enumerate_=True,
     rule='every element of the quark mixing matrix', name='quark_mixing')
def quark_mixing(case, ctx):
    from library.SM import particles as P
    V = P.quarks.CKM
    ref = [[.974, .225, .004], [.225, .973, .041], [.009, .040, .999]]
    i, j = case
    require(abs(V[i, j] - ref[i - 1][j - 1]) < 1.5e-3, 'V%d%d = %r', i, j, V[i, j])
    close(sum(V[i, k] ** 2 for k in (1, 2, 3)), 1., 5e-3, 'unitarity of row %d' % i)
    close(sum(V[k, j] ** 2 for k in (1, 2, 3)), 1., 5e-3, 'unitarity of column %d' % j)


# --- networks ------------------------------------------------------------------------------

def world_particle(params, tmpl, **kw):
    from particles import Particle
    d = dict(tmpl)
    d.update(kw)
    return Particle(params=params, grid=world.grid(5, 20.), **d)


def make(params, name, **kw):
    return world_particle(params, template(name), **kw)


def species(params, names):
    return {n: make(params, n) for n in names}


def totals(inters):
    """{(first, lhs, rhs): [integrals]} with species symbols."""
    out = {}
    for i in inters:
        for I in i.integrals:
            k = key_of(I)
            out.setdefault(k, []).append(I)
    return out


def key_of(I):
    lhs = [p.specie.symbol for p in I.reaction if p.side == -1]
    rhs = [p.specie.symbol for p in I.reaction if p.side == 1]
    return (lhs[0], tuple(sorted(lhs[1:])), tuple(sorted(rhs)))


def reactants(k):
    return [k[0]] + list(k[1]) + list(k[2])


def evaluate(integrals, k, dots, mass):
    """Sum of the squared matrix elements of `integrals`, averaged over the exchange of identical
    species on the same side (the phase space integral cannot tell them apart).

    dots[a][b] is the product of the momenta at canonical positions, which are those of key k."""
    names = reactants(k)
    n = len(names)
    n_l = 1 + len(k[1])
    total = 0.
    for I in integrals:
        # canonical positions of the actors of this integral
        actors = [(0, 0)] + [(j, p) for j, p in enumerate(range(1, n))]
        lhs = [p for p in I.reaction if p.side == -1]
        rhs = [p for p in I.reaction if p.side == 1]
        order_l = sorted(range(1, len(lhs)), key=lambda j: lhs[j].specie.symbol)
        order_r = sorted(range(len(rhs)), key=lambda j: rhs[j].specie.symbol)
        pos = {0: 0}
        for c, j in enumerate(order_l):
            pos[j] = 1 + c
        for c, j in enumerate(order_r):
            pos[n_l + j] = n_l + c
        # average over exchanges
        groups = []
        for lo, hi in ((1, n_l), (n_l, n)):
            for s in sorted(set(names[lo:hi])):
                groups.append([q for q in range(lo, hi) if names[q] == s])
        perms = list(itertools.product(*[list(itertools.permutations(g)) for g in groups]))
        acc = 0.
        for perm in perms:
            sub = {}
            for g, pp in zip(groups, perm):
                for a, b in zip(g, pp):
                    sub[a] = b
            sub[0] = 0
            for M in I.Ms:
                o = [sub[pos[x]] for x in M.order]
                acc += M.K + M.K1 * dots[o[0]][o[1]] * dots[o[2]][o[3]] + \
                    M.K2 * mass[o[0]] * mass[o[1]] * dots[o[2]][o[3]]
        total += acc / len(perms)
    return total


def phase_space_point(masses, n_l, rnd):
    """Products of four-momenta at a random point of phase space, first n_l incoming."""
    def boost(p, b):
        b2 = sum(x * x for x in b)
        g = 1 / math.sqrt(1 - b2)
        bp = sum(x * y for x, y in zip(b, p[1:]))
        f = (g - 1) * bp / b2 + g * p[0] if b2 > 0 else 0.
        return [g * (p[0] + bp)] + [x + f * y for x, y in zip(p[1:], b)]

    def direction():
        c = rnd() * 2 - 1
        f = 2 * math.pi * rnd()
        s = math.sqrt(1 - c * c)
        return [s * math.cos(f), s * math.sin(f), c]

    def two(M, m1, m2):
        k = math.sqrt(max(0., (M * M - (m1 + m2) ** 2) * (M * M - (m1 - m2) ** 2))) / (2 * M)
        d = direction()
        return ([math.sqrt(k * k + m1 * m1)] + [k * x for x in d],
                [math.sqrt(k * k + m2 * m2)] + [-k * x for x in d])

    m = masses
    if n_l == 2:
        W = max(m[0] + m[1], m[2] + m[3]) + 1 + 20 * rnd()
        ps = list(two(W, m[0], m[1])) + list(two(W, m[2], m[3]))
    else:
        # 1 -> 3
        def decay(M, a, b, c):
            lo, hi = b + c, M - a
            W = lo + (hi - lo) * (0.05 + 0.9 * rnd())
            p1, q = two(M, a, W)
            p2, p3 = two(W, b, c)
            v = [x / q[0] for x in q[1:]]
            return p1, boost(p2, v), boost(p3, v)
        if n_l == 1:
            ps = [[m[0], 0, 0, 0]] + list(decay(m[0], *m[1:]))
        else:
            ps = list(decay(m[3], *m[:3])) + [[m[3], 0, 0, 0]]
    return [[a[0] * b[0] - sum(x * y for x, y in zip(a[1:], b[1:])) for b in ps] for a in ps]


def uniform(seq):
    it = itertools.cycle(seq)
    return lambda: next(it)


def cmp_elements(integrals, k, mass_of, expected, rnd, what, floor=1e-9):
    from common import CONST, UNITS
    names = reactants(k)
    mass = [mass_of[x] for x in names]
    unit = 32 * CONST.G_F ** 2
    for _ in range(3):
        dots = phase_space_point(mass, 1 + len(k[1]), rnd)
        D = [[x * UNITS.MeV ** 2 for x in row] for row in dots]
        got = evaluate(integrals, k, D, [x * UNITS.MeV for x in mass]) / unit / UNITS.MeV ** 4
        want = expected(dots, mass)
        # average over the exchange of identical species
        n_l = 1 + len(k[1])
        groups = [[q for q in range(lo, hi) if names[q] == s]
                  for lo, hi in ((1, n_l), (n_l, 4)) for s in sorted(set(names[lo:hi]))]
        acc, cnt = 0., 0
        for perm in itertools.product(*[list(itertools.permutations(g)) for g in groups]):
            sub = {0: 0}
            for g, pp in zip(groups, perm):
                sub.update(zip(g, pp))
            acc += expected([[dots[sub[i]][sub[j]] for j in range(4)] for i in range(4)], mass)
            cnt += 1
        want = acc / cnt
        close(got, want, 1e-6, '%s: squared matrix element / 32 G_F^2 of %s' % (what, show(k)),
              floor=floor * max(max(r) for r in dots) ** 2)


def show(k):
    return ' + '.join([k[0]] + list(k[1])) + ' -> ' + ' + '.join(k[2])


NEUTRINOS = ['leptons.neutrino_e', 'leptons.neutrino_mu', 'leptons.neutrino_tau']
LEPTONS = ['leptons.electron', 'leptons.muon']


@law('P25', lambda st: st.fixed_dictionaries({
    'nu': st.lists(st.sampled_from(NEUTRINOS), unique=True, min_size=1, max_size=3),
    'lep': st.lists(st.sampled_from(LEPTONS), unique=True, min_size=1, max_size=2),
    'u': st.lists(st.floats(0, 1), min_size=11, max_size=11)}), quick=240, thorough=4000,
     rule='networks of up to three neutrino flavours and two charged leptons; non-trivial with two '
          'flavours')
def neutrino_network(case, ctx):
    """Table of Dolgov, Hansen and Semikoz (1997) for every flavour, charges summed."""
    from library.SM import interactions as SMI
    from common import CONST
    with contextlib.redirect_stdout(io.StringIO()):
        params = world.params(T=1.)
        sp = species(params, case['nu'] + case['lep'])
        inters = SMI.neutrino_interactions(leptons=[sp[n] for n in case['lep']],
                                           neutrinos=[sp[n] for n in case['nu']])
    got = totals(inters)
    mass_of = {p.symbol: DATA[n][4] for n, p in sp.items()}
    for n, p in sp.items():
        from common import UNITS
        mass_of[p.symbol] = p.mass / UNITS.MeV
    close(CONST.g_R, SIN2, 1e-2, 'sin^2 of the Weinberg angle')
    gR = CONST.g_R
    rnd = uniform(case['u'])
    nus = [sp[n].symbol for n in case['nu']]
    leps = [sp[n].symbol for n in case['lep']]
    flav = {sp[n].symbol: FLAVOURS[n] for n in sp}
    want = {}
    for a in nus:
        want[(a, (a,), (a, a))] = lambda d, m: 2 * d[0][1] * d[2][3] + 4 * d[0][3] * d[1][2]
        for b in nus:
            if b == a:
                continue
            # fields sorted by symbol on the right
            i, j = (2, 3) if a < b else (3, 2)      # positions of a and b
            want[(a, (b,), tuple(sorted((a, b))))] = (
                lambda d, m, i=i, j=j: d[0][1] * d[2][3] + d[0][j] * d[1][i])
            want[(a, (a,), (b, b))] = lambda d, m: d[0][3] * d[1][2]
        for l in leps:
            gL = gR + (.5 if flav[l] == flav[a] else -.5)
            want[(a, (a,), (l, l))] = (
                lambda d, m, gL=gL: 4 * (gL ** 2 * d[0][3] * d[1][2] + gR ** 2 * d[0][2] * d[1][3]
                                         + gL * gR * m[2] * m[3] * d[0][1]))
            i, j = (2, 3) if a < l else (3, 2)      # positions of the neutrino and the lepton
            want[(a, (l,), tuple(sorted((a, l))))] = (
                lambda d, m, gL=gL, i=i, j=j:
                4 * ((gL ** 2 + gR ** 2) * (d[0][1] * d[i][j] + d[0][j] * d[1][i])
                     - 2 * gL * gR * m[1] * m[j] * d[0][i]))
    firsts = {k: v for k, v in got.items() if k[0] in nus}
    require(set(firsts) == set(want), 'reactions of the neutrinos: unexpected %s, missing %s',
            [show(k) for k in set(firsts) - set(want)], [show(k) for k in set(want) - set(firsts)])
    for k in want:
        cmp_elements(firsts[k], k, mass_of, want[k], rnd, 'neutrino network')
    ctx.nontrivial(len(nus) > 1)


def two_body_width(K, M, m1, m2):
    p = math.sqrt(max(0., (M * M - (m1 + m2) ** 2) * (M * M - (m1 - m2) ** 2))) / (2 * M)
    return K * p / (8 * math.pi * M * M)


def literature_width(meson, lep, M, th):
    """Partial widths of a sterile neutrino (Gorbunov, Shaposhnikov; Boyarsky et al.)."""
    _, _, Q, _, mh, _, f, _ = DATA['hadrons.' + meson]
    ml = DATA[lep][4]
    x, y = mh / M, ml / M
    pre = (G_F * th * f) ** 2 * M ** 3
    if meson in VECTORS:
        kappa = {'neutral_rho': 1 - 2 * SIN2, 'omega': 4 * SIN2 / 3, 'phi': 4 * SIN2 / 3 - 1,
                 'charged_rho': V_UD}[meson]
        pre *= kappa ** 2
        if Q == 0:
            return pre / (32 * math.pi) * (1 + 2 * x * x) * (1 - x * x) ** 2
        lam = math.sqrt((1 - (x - y) ** 2) * (1 - (x + y) ** 2))
        return pre / (16 * math.pi) * ((1 - y * y) ** 2 + x * x * (1 + y * y) - 2 * x ** 4) * lam
    if Q == 0:
        return pre / (32 * math.pi) * (1 - x * x) ** 2
    lam = math.sqrt((1 - (x - y) ** 2) * (1 - (x + y) ** 2))
    return pre * V_UD ** 2 / (16 * math.pi) * ((1 - y * y) ** 2 - x * x * (1 + y * y)) * lam


def sterile_case(st):
    return st.fixed_dictionaries({
        'M': st.one_of(logf(st, 150., 2500), logf(st, 2., 2500), logf(st, 500., 2500)),
        'dirac': st.just(True),     # crossings are documented as not suitable for Majorana species
        'thetas': st.lists(st.one_of(logf(st, 1e-6, 1.), logf(st, 1e-6, 1.), st.just(0.)), min_size=3, max_size=3),
        'mesons': st.lists(st.sampled_from(
            ['neutral_pion', 'charged_pion', 'eta', 'charged_rho', 'neutral_rho', 'omega',
             'eta_prime', 'phi']), unique=True, min_size=1, max_size=8),
        'nu': st.lists(st.sampled_from(NEUTRINOS), unique=True, min_size=1, max_size=3),
        'lep': st.lists(st.sampled_from(LEPTONS), unique=True, min_size=1, max_size=2),
        'u': st.lists(st.floats(0, 1), min_size=11, max_size=11)})


def sterile_setup(case, mesons=()):
    from common import UNITS
    from library.NuMSM import particles as NuP
    params = world.params(T=1.)
    sp = species(params, case['nu'] + case['lep'] + ['hadrons.' + m for m in mesons])
    make_ = NuP.dirac_sterile_neutrino if case['dirac'] else NuP.sterile_neutrino
    N = world_particle(params, make_(mass=case['M'] * UNITS.MeV))
    thetas = dict(zip(('electron', 'muon', 'tau'), case['thetas']))
    return sp, N, thetas


@law('P25', sterile_case, quick=480, thorough=10000,
     rule='sterile neutrinos of any mass and mixing with any set of mesons; non-trivial with an open '
          'channel')
def sterile_meson_widths(case, ctx):
    from common import UNITS, kinematics
    from library.NuMSM import interactions as NuI
    from interactions.four_particle import CollisionIntegralKind as K
    with contextlib.redirect_stdout(io.StringIO()):
        sp, N, thetas = sterile_setup(case, case['mesons'])
        inters = NuI.sterile_hadrons_interactions(
            thetas=thetas, sterile=N, neutrinos=[sp[n] for n in case['nu']],
            leptons=[sp[n] for n in case['lep']],
            mesons=[sp['hadrons.' + m] for m in case['mesons']])
    got = totals(inters)
    M = case['M']
    want = {}
    edge = set()
    for m in case['mesons']:
        h = sp['hadrons.' + m]
        for l in (case['nu'] if DATA['hadrons.' + m][2] == 0 else case['lep']):
            th = thetas[FLAVOURS[l]]
            if not th:
                continue
            excess = M - (h.mass + sp[l].mass) / UNITS.MeV
            k = ('N', (), tuple(sorted((sp[l].symbol, h.symbol))))
            if abs(excess) < 1e-3 * M:
                edge.add(k)         # closed or open depending on the last digits of the masses
            elif excess > 0:
                want[k] = (m, l, th)
            if excess < 0 and abs(excess) >= 1e-3 * M:
                ctx.label('closed')
    have = {k for k in got if k[0] == 'N' and not k[1] and k not in edge}
    require(have == set(want), 'decays of the sterile neutrino: unexpected %s, missing %s',
            [show(k) for k in have - set(want)], [show(k) for k in set(want) - have])
    for k, (m, l, th) in want.items():
        Ksum = sum(x.K for I in got[k] for x in I.Ms)
        h = sp['hadrons.' + m]
        width = two_body_width(Ksum / 2, case['M'] * UNITS.MeV, h.mass, sp[l].mass)
        expect = literature_width(m, l, M, th) * UNITS.MeV
        close(width, expect, 2.5e-2 + 4e-3 * M / max(1e-9, M - (h.mass + sp[l].mass) / UNITS.MeV),
              'width of %s for a sterile neutrino of %.6g MeV' % (show(k), M))
        # the products gain what the sterile neutrino loses
        for s, p in ((sp[l].symbol, sp[l]), (h.symbol, h)):
            other = [x for x in k[2] if x != s]
            ck = (s, tuple(other), ('N',))
            require(ck in got, 'no creation of %s by %s', s, show(k))
            Kc = sum(x.K * kinematics.CollisionMultiplier3p(I) for I in got[ck] for x in I.Ms)
            # a neutral product is its own antiparticle and is fed by both
            factor = (1 if p.majorana else 2) / 2.
            close(Kc * factor, Ksum, 1e-9, 'creation of %s by %s' % (s, show(k)))
            for I in got[ck]:
                require(I.kind == (K.F_creation if hasattr(p, 'fast_decay') else K.Full),
                        'kind %r of the creation of %s', I.kind, s)
    for k, v in got.items():
        for I in v:
            ks = [x.specie.symbol for x in I.reaction if x.side == 1]
            if k[0] not in ('N',) and len(ks) > 1 and hasattr(I.particle, 'fast_decay'):
                require(I.kind == K.F_decay, 'kind %r of the decay of %s', I.kind, k[0])
    ctx.nontrivial(bool(want))


@law('P25', sterile_case, quick=240, thorough=6000,
     rule='leptonic channels of sterile neutrinos of any mass and mixing; non-trivial with two '
          'flavours')
def sterile_leptonic(case, ctx):
    from common import UNITS, CONST, kinematics
    from library.NuMSM import interactions as NuI
    from interactions.four_particle import CollisionIntegralKind as K
    with contextlib.redirect_stdout(io.StringIO()):
        sp, N, thetas = sterile_setup(case)
        inters = NuI.sterile_leptons_interactions(
            thetas=thetas, sterile=N, neutrinos=[sp[n] for n in case['nu']],
            leptons=[sp[n] for n in case['lep']])
    got = totals(inters)
    M = case['M']
    mass_of = {p.symbol: p.mass / UNITS.MeV for p in sp.values()}
    mass_of['N'] = M
    gR = CONST.g_R
    rnd = uniform(case['u'])
    terms = {}          # species of a decay: [function of named momenta]

    def add(names, fn):
        terms.setdefault(tuple(sorted(names)), []).append((names, fn))

    for a in case['nu']:
        th = thetas[FLAVOURS[a]]
        if not th:
            continue
        t = th ** 2
        for b in case['nu']:
            c = 2 if a == b else 1
            # a, b, anti-b
            add((sp[a].symbol, sp[b].symbol, sp[b].symbol),
                lambda d, m, x, y, z, c=c, t=t: c * t * d[0][z] * d[x][y])
        for l in case['lep']:
            gL = gR + (.5 if FLAVOURS[l] == FLAVOURS[a] else -.5)
            # neutrino, lepton, antilepton
            add((sp[a].symbol, sp[l].symbol, sp[l].symbol),
                lambda d, m, x, y, z, gL=gL, t=t: 4 * t * (
                    gL ** 2 * d[0][z] * d[x][y] + gR ** 2 * d[0][y] * d[x][z]
                    + gL * gR * m[y] * m[z] * d[0][x]))
    for l in case['lep']:
        th = thetas[FLAVOURS[l]]
        for l2 in case['lep']:
            for a in case['nu']:
                if th and l2 != l and FLAVOURS[a] == FLAVOURS[l2]:
                    # lepton l, antilepton l2, neutrino of l2
                    add((sp[l].symbol, sp[l2].symbol, sp[a].symbol),
                        lambda d, m, x, y, z, t=th ** 2: 4 * t * d[0][y] * d[x][z])
    want = {}
    edge = set()
    for key, fns in terms.items():
        excess = M - sum(mass_of[s] for s in key)
        k = ('N', (), key)
        if abs(excess) < 1e-3 * M:
            edge.add(k)
            continue
        if excess < 0:
            ctx.label('closed')
            continue

        def fn(d, m, fns=fns, key=key):
            total = 0.
            for names, f in fns:
                # positions of the named actors (identical species are symmetrised outside)
                free = [1, 2, 3]
                where = []
                for s in names:
                    q = [p for p in free if key[p - 1] == s][0]
                    free.remove(q)
                    where.append(q)
                total += f(d, m, *where)
            return total
        want[k] = fn
    have = {k for k in got if k[0] == 'N' and not k[1] and k not in edge}
    require(have == set(want), 'decays of the sterile neutrino: unexpected %s, missing %s',
            [show(k) for k in have - set(want)], [show(k) for k in set(want) - have])
    scale = max(case['thetas']) ** 2
    for k, fn in want.items():
        cmp_elements(got[k], k, mass_of, fn, rnd, 'sterile neutrino', floor=1e-9 * scale)
        # what the sterile neutrino loses appears in the products (electrons stay in equilibrium)
        for s in sorted(set(k[2]) - {'e'}):
            rest = list(k[2])
            rest.remove(s)
            ck = (s, tuple(rest), ('N',))
            require(ck in got, 'no creation of %s by %s', s, show(k))
            dots = phase_space_point([mass_of[x] for x in reactants(ck)], 3, rnd)
            D = [[x * UNITS.MeV ** 2 for x in row] for row in dots]
            mass = [mass_of[x] * UNITS.MeV for x in reactants(ck)]
            n = k[2].count(s)
            # average over which of the identical products comes first
            acc = 0.
            first = [0] + [q + 1 for q, x in enumerate(rest) if x == s]
            for q in first:
                idx = [q] + [p for p in range(3) if p != q] + [3]
                idx = [idx[0]] + sorted(idx[1:3], key=lambda p: reactants(ck)[p]) + [3]
                DD = [[D[i][j] for j in idx] for i in idx]
                for I in got[ck]:
                    acc += kinematics.CollisionMultiplier4p(I) * evaluate(
                        [I], ck, DD, [mass[i] for i in idx])
            acc /= len(first)
            # the same point seen from the decay
            order = [3] + sorted(range(3), key=lambda p: reactants(ck)[p])
            DN = [[D[i][j] for j in order] for i in order]
            base = evaluate(got[k], k, DN, [mass[i] for i in order])
            close(acc, n * base, 1e-6, 'creation of %s by %s' % (s, show(k)), floor=1e-12 * abs(base))
            for I in got[ck]:
                require(I.kind == (K.F_creation if hasattr(I.particle, 'fast_decay') else K.Full),
                        'kind %r of the creation of %s', I.kind, s)
    if not any(case['thetas'][('electron', 'muon', 'tau').index(FLAVOURS[x])]
               for x in case['nu'] + case['lep']):
        require(not got, 'interactions without mixing: %s', [show(k) for k in got])
    for k in got:
        require('N' in reactants(k), '%s does not involve the sterile neutrino', show(k))
    ctx.nontrivial(len(want) > 1)


# --- decays of mesons and muons ------------------------------------------------------------

def three_body_phase_space(M, m1, m2, m3):
    from scipy.integrate import quad
    lam = lambda a, b, c: max(0., a * a + b * b + c * c - 2 * (a * b + a * c + b * c))
    f = lambda s: math.sqrt(lam(M * M, s, m3 * m3) * lam(s, m1 * m1, m2 * m2)) / s
    v, _ = quad(f, (m1 + m2) ** 2, (M - m3) ** 2)
    return v / (128 * math.pi ** 3 * M * M)


NO_CREATION = {('K', ('π', 'π', 'π'), 'π'), ('K', ('μ', 'ν_μ'), 'μ'), ('K', ('π', 'π0'), 'π'),
               ('K0L', ('e', 'ν_e', 'π'), 'π'), ('K0L', ('μ', 'ν_μ', 'π'), 'π'),
               ('K0L', ('μ', 'ν_μ', 'π'), 'μ'), ('ρ', ('π', 'π0'), 'π'),
               ('ω', ('π', 'π', 'π0'), 'π')}
WRONG_CHARGE = {('K', ('π', 'π', 'π')), ('K0L', ('e', 'ν_e', 'π')), ('K0L', ('μ', 'ν_μ', 'π')),
                ('ω', ('π', 'π', 'π0'))}


def symbols_of(meson):
    return template('hadrons.' + meson)['symbol']


@law('P25', lambda st: st.fixed_dictionaries({
    'primary': st.lists(st.sampled_from(MESONS), unique=True, min_size=1, max_size=5),
    'muon': st.booleans()}), quick=240, thorough=6000,
     rule='decay chains of any ordered set of mesons; non-trivial when one meson is a product of '
          'another')
def meson_decay_chain(case, ctx):
    from common import UNITS, kinematics
    from library.SM import interactions as SMI
    with contextlib.redirect_stdout(io.StringIO()):
        params = world.params(T=1.)
        sp = species(params, ['hadrons.' + m for m in MESONS] + NEUTRINOS[:2] + LEPTONS
                     + ['photon'])
        inters = SMI.meson_interactions(
            primary_mesons=[sp['hadrons.' + m] for m in case['primary']],
            mesons=[sp['hadrons.' + m] for m in MESONS], leptons=[sp[l] for l in LEPTONS],
            neutrinos=[sp[n] for n in NEUTRINOS[:2]], photon=[sp['photon']],
            muon_tau=[1 if case['muon'] else 0, 0])
    got = totals(inters)
    by_symbol = {p.symbol: p for p in sp.values()}
    # everything that can be reached
    todo = [symbols_of(m) for m in case['primary']]
    reach = []
    while todo:
        s = todo.pop()
        if s in reach:
            continue
        reach.append(s)
        p = by_symbol[s]
        if hasattr(p, 'BR'):
            for k in p.BR:
                todo.extend(split_symbols(k))
    want = set()
    for s in reach:
        p = by_symbol[s]
        if s == 'μ' and case['muon']:
            continue                        # the caller has added the decay of the muon
        for k in getattr(p, 'BR', {}):
            want.add((s, (), tuple(sorted(split_symbols(k)))))
    have = Counter({k: len(v) for k, v in got.items() if not k[1]})
    require(set(have) == want, 'decays after %s: unexpected %s, missing %s', case['primary'],
            [show(k) for k in set(have) - want], [show(k) for k in want - set(have)])
    for k in sorted(want):
        require(have[k] == 1, '%s is added %d times', show(k), have[k])
        p = by_symbol[k[0]]
        prods = [by_symbol[x] for x in k[2]]
        br = [v for key, v in p.BR.items() if tuple(sorted(split_symbols(key))) == k[2]][0]
        I = got[k][0]
        states = p.dof if p.majorana else p.dof / 2.
        Ksum = sum(M.K for M in I.Ms)
        if k[0] == 'μ':
            m = p.mass / UNITS.MeV
            pairs = [M for M in I.Ms if M.K1 or M.K2]
            require(len(pairs) == 1 and pairs[0].K2 == 0, 'matrix element of the muon decay')
            K1 = pairs[0].K1 / UNITS.MeV ** -4
            # |M|^2 = 128 G^2 (a.b)(c.d) summed over spins gives G^2 m^5/(192 pi^3) if the mother is
            # paired with the electron antineutrino
            close(K1, 128 * G_F ** 2, 1e-2, 'strength of the muon decay')
            o = pairs[0].order
            pair = o[:2] if 0 in o[:2] else o[2:]
            partner = I.reaction[[x for x in pair if x != 0][0]]
            require(partner.specie.symbol == 'ν_e', 'the muon is paired with %s',
                    partner.specie.symbol)
            width = G_F ** 2 * m ** 5 / (192 * math.pi ** 3)
            close(width * p.lifetime * UNITS.MeV, 1., 2e-2, 'lifetime of the muon')
        else:
            width = (two_body_width(Ksum, p.mass, *[x.mass for x in prods]) if len(prods) == 2 else
                     Ksum * three_body_phase_space(p.mass, *[x.mass for x in prods]) / (2 * p.mass))
            close(width / states * p.lifetime, br, 4e-2, 'branching ratio of %s' % show(k))
        # charge
        charge = sum(-x.side * (1 - 2 * x.antiparticle) * DATA[SYMBOL[x.specie.symbol]][2]
                     for x in I.reaction)
        if charge:
            ident = (k[0], k[2])
            if ident in WRONG_CHARGE:
                ctx.known.append('charge is not conserved in the generated decay %s' % show(k))
            else:
                require(False, '%s: charge changes by %g', show(k), charge)
        # products
        for s in sorted(set(k[2]) - {'e', 'γ'}):
            rest = list(k[2])
            rest.remove(s)
            ck = (s, tuple(rest), (k[0],))
            n = len(got.get(ck, []))
            if n == 0 and (k[0], k[2], s) in NO_CREATION:
                ctx.known.append('%s creates no %s' % (show(k), s))
                continue
            require(n == 1, '%s has %d creation integrals of %s', show(k), n, s)
            J = got[ck][0]
            mult = (kinematics.CollisionMultiplier3p if len(k[2]) == 2
                    else kinematics.CollisionMultiplier4p)(J)
            d = by_symbol[s]
            # number of this species per decay, per charge state when it is not its own antiparticle
            number = k[2].count(s)
            if not d.majorana and p.majorana and d.Q:
                number = number / 2.
            close(mult, number, 1e-9, 'number of %s in %s' % (s, show(k)))
    for k in got:
        require(k[0] in reach, '%s is not reached by %s', k[0], case['primary'])
    ctx.nontrivial(any(symbols_of(a) in itertools.chain(*[split_symbols(k) for k in
                       template('hadrons.' + b)['BR']])
                       for a in case['primary'] for b in case['primary']))


QUARKS = ['quarks.up', 'quarks.down', 'quarks.charm', 'quarks.strange', 'quarks.bottom']


@law('P25', lambda st: st.fixed_dictionaries({
    'M': logf(st, 3., 2e4), 'dirac': st.just(True),
    'thetas': st.lists(st.one_of(logf(st, 1e-6, 1.), st.just(0.)), min_size=3, max_size=3),
    'quarks': st.lists(st.sampled_from(QUARKS), unique=True, min_size=1, max_size=4),
    'nu': st.lists(st.sampled_from(NEUTRINOS), unique=True, min_size=1, max_size=3),
    'lep': st.lists(st.sampled_from(LEPTONS), unique=True, min_size=1, max_size=2),
    'u': st.lists(st.floats(0, 1), min_size=11, max_size=11)}), quick=480, thorough=8000,
     rule='decays of sterile neutrinos into quarks; non-trivial with an open channel')
def sterile_quarks(case, ctx):
    from common import UNITS, CONST
    from library.NuMSM import interactions as NuI
    with contextlib.redirect_stdout(io.StringIO()):
        sp, N, thetas = sterile_setup(case)
        sp.update(species(N.params, case['quarks']))
        inters = NuI.sterile_quark_interactions(
            thetas=thetas, sterile=N, neutrinos=[sp[n] for n in case['nu']],
            leptons=[sp[n] for n in case['lep']], quarks=[sp[q] for q in case['quarks']])
    got = totals(inters)
    mass_of = {p.symbol: p.mass / UNITS.MeV for p in sp.values()}
    mass_of['N'] = case['M']
    ref = [[.974, .225, .004], [.225, .973, .041], [.009, .040, .999]]
    s2 = CONST.g_R
    want = {}

    def add(names, fn):
        key = tuple(sorted(names))
        excess = case['M'] - sum(mass_of[x] for x in key)
        k = ('N', (), key)
        if excess < 1e-3 * case['M']:
            return
        where = []
        free = [1, 2, 3]
        for n in names:
            q = [p for p in free if key[p - 1] == n][0]
            free.remove(q)
            where.append(q)
        want[k] = lambda d, m: fn(d, m, *where)

    for q in case['quarks']:
        Q = DATA[q][2]
        gL = (.5 if Q > 0 else -.5) - Q * s2
        gR = -Q * s2
        for a in case['nu']:
            t = thetas[FLAVOURS[a]] ** 2
            if t:
                add((sp[a].symbol, sp[q].symbol, sp[q].symbol),
                    lambda d, m, x, y, z, t=t, gL=gL, gR=gR: 4 * t * (
                        gL ** 2 * d[0][z] * d[x][y] + gR ** 2 * d[0][y] * d[x][z]
                        + gL * gR * m[y] * m[z] * d[0][x]))
    for u in case['quarks']:
        for w in case['quarks']:
            if DATA[u][2] > 0 > DATA[w][2]:
                V = ref[FAMILY[u.split('.')[1]] - 1][FAMILY[w.split('.')[1]] - 1]
                for l in case['lep']:
                    t = thetas[FLAVOURS[l]] ** 2
                    if t:
                        add((sp[l].symbol, sp[u].symbol, sp[w].symbol),
                            lambda d, m, x, y, z, t=t, V=V: 4 * t * V * V * d[0][z] * d[x][y])
    have = {k for k in got if k[0] == 'N' and not k[1]
            and case['M'] - sum(mass_of[x] for x in k[2]) > 1e-3 * case['M']}
    require(have == set(want), 'decays of the sterile neutrino into quarks: unexpected %s, '
            'missing %s', [show(k) for k in have - set(want)], [show(k) for k in set(want) - have])
    rnd = uniform(case['u'])
    scale = max(case['thetas']) ** 2
    for k, fn in want.items():
        cmp_elements(got[k], k, mass_of, fn, rnd, 'sterile neutrino', floor=1e-12 * scale)
    ctx.nontrivial(bool(want))


@law('P25', lambda st: st.fixed_dictionaries({
    'c': sterile_case(st), 'vacuum': st.sampled_from([None, 'F_1', 'F_1_vacuum_decay',
                                                     'F_f_vacuum_decay']),
    'muon_dec': st.booleans(), 'lep': st.booleans()}), quick=240, thorough=6000,
     rule='secondary decays of the products of a sterile neutrino; non-trivial with an unstable '
          'product')
def secondary_decays(case, ctx):
    """Every unstable product of the primary interactions decays, and nothing else is added."""
    from common import utils
    from library.NuMSM import interactions as NuI
    from interactions.four_particle import CollisionIntegralKind as K
    c = dict(case['c'])
    kind = getattr(K, case['vacuum']) if case['vacuum'] else None
    with contextlib.redirect_stdout(io.StringIO()):
        sp, N, thetas = sterile_setup(dict(c, nu=NEUTRINOS[:2], lep=LEPTONS), MESONS)
        sp['photon'] = make(N.params, 'photon')
        nus = [sp[n] for n in NEUTRINOS[:2]]
        leps = [sp[l] for l in LEPTONS]
        primary = [NuI.sterile_hadrons_interactions(
            thetas=thetas, sterile=N, neutrinos=nus, leptons=leps,
            mesons=[sp['hadrons.' + m] for m in c['mesons']])]
        if case['lep']:
            primary.append(NuI.sterile_leptons_interactions(
                thetas=thetas, sterile=N, neutrinos=nus, leptons=leps))
        out = NuI.interactions_decay_products(
            interactions_primary=primary, neutrinos=nus, leptons=leps,
            mesons=[sp['hadrons.' + m] for m in MESONS], photon=[sp['photon']],
            muon_dec=case['muon_dec'], kind=kind)
    got = totals(out)
    produced = {x.specie.symbol for main in primary for i in main for I in i.integrals
                for x in I.reaction if x.side == 1}
    by_symbol = {p.symbol: p for p in sp.values()}
    todo = [s for s in produced if s in SYMBOL and SYMBOL[s].startswith('hadrons')]
    if 'μ' in produced:
        todo.append('μ')
    reach = set()
    while todo:
        s = todo.pop()
        if s not in reach and hasattr(by_symbol[s], 'BR'):
            reach.add(s)
            for k in by_symbol[s].BR:
                todo.extend(split_symbols(k))
    if case['muon_dec']:
        reach.discard('μ')
    want = {(s, (), tuple(sorted(split_symbols(k)))) for s in reach for k in by_symbol[s].BR}
    have = {k for k in got if not k[1]}
    require(have == want, 'secondary decays: unexpected %s, missing %s',
            [show(k) for k in have - want], [show(k) for k in want - have])
    vac = case['vacuum'] and 'vacuum' in case['vacuum']
    for k, v in got.items():
        if not k[1]:
            require(len(v) == 1, '%s is added %d times', show(k), len(v))
        for I in v:
            n_r = len(k[2])
            require(n_r == 1 or not k[1], 'scattering %s among the secondary decays', show(k))
            if n_r == 1:
                expect = K.F_1_vacuum_decay if vac else K.F_creation
            else:
                expect = K.F_f_vacuum_decay if vac else K.F_decay
            require(I.kind == expect, 'kind %r of %s', I.kind, show(k))
    ctx.nontrivial(bool(want))
    ctx.label('%d decays' % len(want))


@law('P25', lambda st: [{'primary': [m], 'muon': b} for m in MESONS for b in (False, True)],
     enumerate_=True, rule='the decay chain of every single meson', name='every_meson')
def every_meson(case, ctx):
    meson_decay_chain(case, ctx)
    ctx.is_nontrivial = True
