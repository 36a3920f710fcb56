"""P20: collision integrals equal the phase space integral that defines them."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, Skip, isolated, NoConvergence
from pbt.gens import logf
from pbt import world

TOP = 18.           # last grid point, in units of the temperature
PI = math.pi


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ---- the species: occupation numbers that the exponential interpolation reproduces exactly

def species(st, m):
    return st.fixed_dictionaries({
        'm': m, 'fermion': st.sampled_from([True, True, True, False]), 'eq': st.sampled_from([False, False, True]),
        'c': st.floats(-0.3, 4.).map(lambda x: round(x, 3)), 'theta': st.floats(.6, 1.5).map(lambda x: round(x, 3))})


def spectrum(s, q):
    """Occupation number at momentum q (in units of the temperature)."""
    E = numpy.sqrt(q * q + s['m'] ** 2)
    eta = 1 if s['fermion'] else -1
    c, th = (0., 1.) if s['eq'] else (s['c'] if s['fermion'] else abs(s['c']) + .1, s['theta'])
    with numpy.errstate(over='ignore', divide='ignore'):
        return 1 / (numpy.exp(c + E / th) + eta)


def blocked(s, f):
    return 1 - (1 if s['fermion'] else -1) * f


def functional(kind, sp, sides, f):
    """The products of occupation numbers, also the sum of the absolute values of its terms."""
    def term(of_side, skip):
        r = 1.
        for i in range(len(sp)):
            if i != skip:
                r = r * (f[i] if sides[i] == of_side else blocked(sp[i], f[i]))
        return r
    if kind == 'F_1':
        return term(1, 0), None
    if kind == 'F_creation':
        return term(1, -1), None
    if kind == 'F_decay':
        return -term(-1, 0), None
    if kind == 'F_1_vacuum_decay':
        return f[-1], None
    if kind == 'F_f_vacuum_decay':
        return -1 + 0 * f[-1], None
    A, B = term(-1, 0), term(1, 0)
    if kind == 'F_f':
        return -A - (1 if sp[0]['fermion'] else -1) * B, A + B
    assert kind == 'Full'
    return term(1, -1) - term(-1, -1), term(1, -1) + term(-1, -1)


# ---- phase space, with explicit four-momenta

def gl(n, a=0., b=1.):
    x, w = numpy.polynomial.legendre.leggauss(n)
    return a + (b - a) * (x + 1) / 2, w * (b - a) / 2


def smooth(n):
    """Nodes on [0, 1] for integrands with square roots at both ends."""
    x, w = gl(n, 0, PI / 2)
    return numpy.sin(x) ** 2, w * numpy.sin(2 * x)


def kallen(a, b, c):
    return numpy.maximum(a * a + b * b + c * c - 2 * (a * b + b * c + a * c), 0)


def boost(E, p, P):
    """Four-vectors (E, p) from the rest frame of P to the frame of P (both E, px, py, pz)."""
    M = numpy.sqrt(P[0] ** 2 - P[1] ** 2 - P[2] ** 2 - P[3] ** 2)
    dot = P[1] * p[0] + P[2] * p[1] + P[3] * p[2]
    E2 = (P[0] * E + dot) / M
    k = (E + E2) / (M + P[0])
    return numpy.array([E2, p[0] + P[1] * k, p[1] + P[2] * k, p[2] + P[3] * k])


def pair(P, s, m1, m2, n):
    """Two-particle phase space of total momentum P: weights and the four-momenta."""
    s = s[..., None, None]
    P = [x[..., None, None] for x in P]
    c, wc = gl(n, -1, 1)
    k = n
    phi = (numpy.arange(k) + .5) * PI / k
    c, wc = c[:, None], wc[:, None]
    sn = numpy.sqrt(1 - c * c)
    E1 = (s + m1 ** 2 - m2 ** 2) / (2 * numpy.sqrt(s))
    p = numpy.sqrt(kallen(s, m1 ** 2, m2 ** 2)) / (2 * numpy.sqrt(s))
    v = [p * sn * numpy.cos(phi), p * sn * numpy.sin(phi), p * c * numpy.ones(k)]
    a = boost(E1 * numpy.ones((1, k)), v, P)
    b = numpy.array([P[i] - a[i] for i in range(4)])
    w = p / numpy.sqrt(s) / (16 * PI ** 2) * wc * (2 * PI / k) * numpy.ones(k)
    return w, a, b


def vec(E, p, c):
    """Four-momentum in the x-z plane."""
    return [E, p * numpy.sqrt(numpy.maximum(1 - c * c, 0)), 0 * E, p * c]


def up(v):
    return [x[..., None, None] for x in v]


def dot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


def size(v):
    return numpy.sqrt(v[1] ** 2 + v[2] ** 2 + v[3] ** 2)


def decay_space(q0, m, n):
    """0 -> 1 + 2 + 3."""
    E0 = math.hypot(q0, m[0])
    lo, hi = (m[1] + m[2]) ** 2, (m[0] - m[3]) ** 2
    x, w = smooth(n)
    s = (lo + (hi - lo) * x)[:, None]
    w = ((hi - lo) * w)[:, None]
    c, wc = gl(n, -1, 1)
    p3 = numpy.sqrt(kallen(m[0] ** 2, s, m[3] ** 2)) / (2 * m[0])
    E3 = numpy.sqrt(p3 ** 2 + m[3] ** 2)
    P0 = [numpy.array([[x]]) for x in (E0, 0., 0., q0)]
    v = vec(E3 + 0 * c, p3, c + 0 * p3)
    k3 = boost(v[0], v[1:], P0)
    Q = [P0[i] - k3[i] for i in range(4)]
    w = w * wc * p3 / m[0] / (16 * PI ** 2) * 2 * PI / (2 * PI)
    w2, k1, k2 = pair(Q, s + 0 * c, m[1], m[2], n)
    yield w[..., None, None] * w2, [up(P0), k1, k2, up(k3)]


def pieces(points, top):
    pts = sorted({x for x in points if 0 < x < top} | {0., top})
    return [(a, b) for a, b in zip(pts, pts[1:]) if b - a > 1e-12 * top]


def scattering_space(q0, m, n):
    """0 + 1 -> 2 + 3."""
    E0 = math.hypot(q0, m[0])
    smin = max((m[2] + m[3]) ** 2, (m[0] + m[1]) ** 2)
    W = ((m[2] + m[3]) ** 2 - m[0] ** 2 - m[1] ** 2) / 2
    # momenta of the target at which the threshold enters or leaves the range of angles
    breaks = [1., 3., 7.]
    for sg in (1, -1):
        a, b, c = m[0] ** 2, -2 * sg * W * q0, m[1] ** 2 * E0 ** 2 - W * W
        if a > 0:
            d = b * b - 4 * a * c
            if d >= 0:
                breaks += [(-b + t * math.sqrt(d)) / (2 * a) for t in (1, -1)]
        elif b:
            breaks.append(-c / b)
    # targets that are faster than the last grid point are needed at a high threshold only
    least = math.sqrt(max(max(m[2] + m[3] - E0, 0.) ** 2 - m[1] ** 2, 0.))
    top = max(TOP, 3 * least)
    if least:
        breaks += [least, least + 1, least + 3, least + 7]
    for lo, hi in pieces(breaks, top):
        x, w = smooth(n)
        p = (lo + (hi - lo) * x)[:, None]
        w = ((hi - lo) * w)[:, None]
        E = numpy.sqrt(p * p + m[1] ** 2)
        cmax = numpy.clip((E0 * E - W) / (p * q0), -1, 1)
        t, wt = gl(n)
        c = cmax - (cmax + 1) * (1 - t) ** 2
        wt = (cmax + 1) * 2 * (1 - t) * wt
        s = m[0] ** 2 + m[1] ** 2 + 2 * (E0 * E - p * q0 * c)
        s = numpy.maximum(s, smin)
        if not (s > (m[2] + m[3]) ** 2).any():
            continue
        P0 = [numpy.array([[x]]) for x in (E0, 0., 0., q0)]
        k1 = vec(E + 0 * c, p, c)
        Q = [P0[i] + k1[i] for i in range(4)]
        w = w * wt * p * p / E * 2 * PI / (2 * (2 * PI) ** 3)
        ok = s > (m[2] + m[3]) ** 2 * (1 + 1e-12)
        w = numpy.where(ok, w, 0)
        w2, k2, k3 = pair(Q, s, m[2], m[3], n)
        yield w[..., None, None] * w2, [up(P0), up(k1), k2, k3]


def mother_top(m):
    """Relativistic mothers are left out: see resolved()."""
    return min(TOP, 4 * m)


def resolved(q0, m):
    """Whether the kinematic region fills a good part of the range up to the largest energy of the
    mother: the quadrature of the code overlooks narrow regions."""
    E3, E0 = math.hypot(mother_top(m[3]), m[3]), math.hypot(q0, m[0])
    for a, b in ((1, 2), (2, 1)):
        V = ((m[3] - m[b]) ** 2 - m[0] ** 2 - m[a] ** 2) / 2
        E = E3 - m[b] - E0
        if E <= m[a]:
            return False
        if m[0]:
            p = (q0 * V + E0 * math.sqrt(max(V * V - (m[0] * m[a]) ** 2, 0))) / m[0] ** 2
            if p < .2 * math.sqrt(E * E - m[a] ** 2):
                return False
    return True


def creation_space(q0, m, n):
    """3 -> 0 + 1 + 2 with the momentum of 0 given."""
    TOP = mother_top(m[3])
    E0 = math.hypot(q0, m[0])
    U = (m[3] ** 2 + m[0] ** 2 - (m[1] + m[2]) ** 2) / 2      # largest product of momenta of 0 and 3
    breaks = [1., 3., 7.]
    for sg in (1, -1):
        a, b, c = m[0] ** 2, -2 * sg * U * q0, m[3] ** 2 * E0 ** 2 - U * U
        if a > 0:
            d = b * b - 4 * a * c
            if d >= 0:
                breaks += [(-b + t * math.sqrt(d)) / (2 * a) for t in (1, -1)]
        elif b:
            breaks.append(-c / b)
    for lo, hi in pieces(breaks, TOP):
        x, w = smooth(n)
        p = (lo + (hi - lo) * x)[:, None]
        w = ((hi - lo) * w)[:, None]
        E = numpy.sqrt(p * p + m[3] ** 2)
        cmin = numpy.clip((E0 * E - U) / (p * q0), -1, 1)
        t, wt = gl(n)
        c = cmin + (1 - cmin) * t ** 2
        wt = (1 - cmin) * 2 * t * wt
        s = m[3] ** 2 + m[0] ** 2 - 2 * (E0 * E - p * q0 * c)
        ok = s > (m[1] + m[2]) ** 2 * (1 + 1e-12) + 1e-300
        if not (ok & (cmin < 1)).any():
            continue
        s = numpy.where(ok, s, (m[1] + m[2]) ** 2 + m[3] ** 2 * 1e-6)
        P0 = [numpy.array([[x]]) for x in (E0, 0., 0., q0)]
        k3 = vec(E + 0 * c, p, c)
        Q = [k3[i] - P0[i] for i in range(4)]
        w = numpy.where(ok, w * wt * p * p / E * 2 * PI / (2 * (2 * PI) ** 3), 0)
        Q[0] = numpy.sqrt(s + Q[1] ** 2 + Q[2] ** 2 + Q[3] ** 2)
        w2, k1, k2 = pair(Q, s, m[1], m[2], n)
        yield w[..., None, None] * w2, [up(P0), k1, k2, up(k3)]


SPACE = {'decay': decay_space, 'scattering': scattering_space, 'creation': creation_space}
SIDES = {'decay': (-1, 1, 1, 1), 'creation': (-1, -1, -1, 1), 'scattering': (-1, -1, 1, 1)}


def reference(case, kind, q0, n):
    """The collision integral at one momentum, and the sum of the sizes of its terms."""
    sp, m = case['sp'], [s['m'] for s in case['sp']]
    sides = SIDES[case['type']]
    tot = size_ = 0.
    for w, k in SPACE[case['type']](q0, m, n):
        M2 = 0.
        for K1, K2, (a, b, c, d), K in case['Ms']:
            M2 = M2 + K + (K1 * dot(k[a], k[b]) + K2 * m[a] * m[b]) * dot(k[c], k[d])
        f = [spectrum(s, size(v)) for s, v in zip(sp, k)]
        for i in range(1, 4):
            f[i] = beyond(f[i], sp[i], size(k[i]), case['own'][i])
        F, S = functional(kind, sp, sides, f)
        g = w * M2
        tot += float((g * F).sum())
        size_ += float((abs(g) * (abs(F) if S is None else S)).sum())
    norm = 1 / (2 * math.hypot(q0, m[0]))
    return tot * norm, size_ * norm


def beyond(f, s, q, own):
    """Above the grid the spectra fall as exp(-E / T) with their own temperature."""
    if s['eq'] or not (q > TOP).any():
        return f
    tail = spectrum(s, TOP) * numpy.exp((math.hypot(TOP, s['m']) - numpy.sqrt(q ** 2 + s['m'] ** 2)) / own)
    return numpy.where(q > TOP, tail, f)


def limit(case, kind, q):
    """The reference at low and high resolution, and its scale; at rest, the limit."""
    if q:
        return (reference(case, kind, q, 8)[0],) + reference(case, kind, q, 13)
    at = 1e-3 * max(.1, case['sp'][0]['m'])
    a, b = [(reference(case, kind, x, 8)[0],) + reference(case, kind, x, 13) for x in (at, 2 * at)]
    return tuple(2 * x - y for x, y in zip(a, b))[:2] + (a[2],)


# ---- the reaction in the code

def Grid(points):
    """Points chosen by hand."""
    from common import LinearSpacedGrid
    g = LinearSpacedGrid(MOMENTUM_SAMPLES=len(points), MAX_MOMENTUM=points[-1])
    g.TEMPLATE = points
    g.MIN_MOMENTUM, g.BOUNDS = points[0], (points[0], points[-1])
    return g


def build(case, sides):
    """Parameters and particles in the states of the case."""
    from common import UNITS
    from interactions import IntegralItem
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if case['log'] else ''
    os.environ['MAX_MOMENTUM_MEV'] = '100000'
    os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = '0'
    params = world.params(T=case['T'], m=case['x'], dy=0.05, dx=0.05 * UNITS.MeV)
    params.aT *= case['heat']
    params.update(case['rho'] * params.T ** 4, params.T ** 3)
    # every spectrum is given at its own points
    inner = sorted(case['points'])
    sp = []
    for i, s in enumerate(case['sp']):
        shift = [0, .13, .31, .57][i]
        top = TOP
        if i == 0:
            # fast mothers: the boundaries of the region are lost in rounding errors
            shift, top = 0, max(inner) + 1
            if case['type'] == 'decay':
                top = min(top, 10 * s['m'])
        elif case['type'] == 'creation' and i == 3:
            top = mother_top(s['m'])
        inside = numpy.array([x + shift * (x + .2) for x in inner])
        if inside[-1] >= .95 * top:
            inside *= .9 * top / inside[-1]
        # three massless products of a decay at rest lie on the boundary of the region
        first = 0. if i or case['type'] != 'decay' or len(sides) == 3 or any(x['m'] for x in case['sp'][1:]) else \
            min(.05 * s['m'], .5 * inside[0])
        q = numpy.array([first] + list(inside) + [top])
        with quiet():
            p = world.particle(params, mass=s['m'] * params.T / UNITS.MeV, dof=case['dof'], fermion=s['fermion'],
                               grid=Grid(q * params.aT), Tdec=0. if s['eq'] and i else 1e6 * case['T'],
                               majorana=case['majorana'], name='species %d' % i, symbol='s%d' % i)
            p.update()
        require(p.in_equilibrium == bool(s['eq'] and i), 'equilibrium of species %d', i)
        if not p.in_equilibrium:
            p._distribution = spectrum(dict(s, eq=False), q)
            # the plasma has been heated since its decoupling
            p.aT = case.get('own', [1.] * 4)[i] * params.aT
            p.T = p.aT / params.a
        sp.append(p)
    reaction = tuple(IntegralItem(side=d, specie=p, antiparticle=False, index=i, crossed=False)
                     for i, (p, d) in enumerate(zip(sp, sides)))
    return params, sp, reaction


def after_another_state(inter, params, sp, before, ps):
    """Use the integral in another state of the universe, return to the present one."""
    if not before:
        return
    now = [(x, dict(vars(x))) for x in [params] + sp]
    params.x *= before['x']
    params.aT *= before['aT']
    params.update(params.rho, params.T ** 3)
    with quiet():
        for p, k in zip(sp, before['f']):
            p.update()
            if not p.in_equilibrium:
                p._distribution = k * p._distribution
        inter.initialize()
        inter.integrate(ps, stepsize=1e-30)
    for x, state in now:
        vars(x).clear()
        vars(x).update(state)
    with quiet():
        inter.initialize()


def before_fields(st):
    return st.one_of(st.none(), st.fixed_dictionaries({
        'x': st.one_of(st.just(1.), st.floats(.4, 1.)), 'aT': st.one_of(st.just(1.), st.floats(.7, 1.)), 'f': st.lists(st.floats(0., 1.), min_size=4, max_size=4)}))


def common_fields(st):
    return {
        'before': before_fields(st),
        'own': st.one_of(st.just([1.] * 4), st.lists(st.floats(.6, 1.).map(lambda x: round(x, 3)), min_size=4, max_size=4)),
        'T': logf(st, .05, 500.), 'x': logf(st, .01, 10.), 'heat': st.floats(.9, 1.6),
        'rho': logf(st, 1., 100.), 'log': st.sampled_from([True, True, False]),
        'majorana': st.booleans(), 'dof': st.sampled_from([1, 2, 2, 4, 6]),
        'points': st.lists(logf(st, .1, 20.).map(lambda x: round(x, 4)), min_size=4, max_size=7,
                           unique=True).filter(lambda l: min(b - a for a, b in zip(sorted(l), sorted(l)[1:])) > 1e-3)}


def masses(st, kind):
    """Masses in units of the temperature."""
    light = st.one_of(st.just(0.), st.just(0.), logf(st, .05, 3.))
    if kind == 'scattering':
        two = st.tuples(light, light)
        return st.one_of(
            st.lists(light, min_size=4, max_size=4), st.lists(light, min_size=4, max_size=4),
            # the target, or the projectile, is heavier than the products
            st.tuples(two, light, logf(st, .05, 3.), st.booleans()).map(
                lambda t: [t[1], sum(t[0]) + t[2]][::-1 if t[3] else 1] + list(t[0])),
            # a threshold, also one above the momenta of the grid
            st.tuples(two, st.tuples(st.one_of(light, logf(st, 1., 15.)), logf(st, .5, 15.))).map(
                lambda t: list(t[0]) + list(t[1])),
            st.tuples(two, st.tuples(light, logf(st, 20., 30.)), st.booleans()).map(
                lambda t: list(t[0]) + list(t[1])[::-1 if t[2] else 1]))
    # the heavy one decays into the other three
    # (very close to it the quadrature of the code overlooks the narrow kinematic region)
    heavy = lambda t: max(sum(t[0]) + t[1], sum(t[0]) * t[2])
    return st.tuples(st.lists(light, min_size=3, max_size=3), logf(st, .05, 8.), logf(st, 1.2, 2.)).map(
        lambda t: [heavy(t)] + t[0] if kind == 'decay' else t[0] + [heavy(t)])


KINDS = {'decay': ['Full', 'F_1', 'F_f', 'F_decay', 'F_creation', 'F_f_vacuum_decay'],
         'creation': ['Full', 'F_1', 'F_f', 'F_decay', 'F_creation', 'F_1_vacuum_decay'],
         'scattering': ['Full', 'F_1', 'F_f', 'F_decay', 'F_creation']}


def case_4p(st, kind):
    @st.composite
    def make(draw):
        m = draw(masses(st, kind))
        c = {k: draw(v) for k, v in common_fields(st).items()}
        c['type'] = kind
        c['kind'] = draw(st.sampled_from(KINDS[kind]))
        c['sp'] = [draw(species(st, st.just(x))) for x in m]
        c['sp'][0]['eq'] = False
        for s in c['sp']:
            # the infinite occupation of massless bosons at rest is left out
            s['eq'] = s['eq'] and (s['fermion'] or s['m'] > 0)
        order = st.sampled_from([(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2), (1, 2, 0, 3), (1, 3, 0, 2),
                                 (2, 3, 0, 1)]).map(list)
        K1 = st.floats(.1, 3.).map(lambda x: round(x, 2))
        # the total is positive: the mass terms are small
        K2 = st.one_of(st.just(0.), st.floats(-1, 1).map(lambda x: round(x, 2)))
        c['Ms'] = [[k, k * k2, o, 0.] for k, k2, o in draw(st.lists(st.tuples(K1, K2, order), min_size=1, max_size=3))]
        constant = draw(st.sampled_from(['no', 'no', 'yes', 'mixed']))
        if constant != 'no':
            for M in c['Ms']:
                M[3] = draw(K1) * max(1., max(m) ** 4)
                if constant == 'yes':
                    M[0] = M[1] = 0.
        c['at'] = draw(st.lists(st.integers(0, 6), min_size=2, max_size=2, unique=True))
        return c
    return make()


def compare(case, ctx):
    from common import CONST, UNITS
    from interactions.four_particle import FourParticleIntegral, FourParticleM, CollisionIntegralKind
    params, sp, reaction = build(case, SIDES[case['type']])
    G2 = 32 * CONST.G_F ** 2
    Ms = [FourParticleM(K1=K1 * G2, K2=K2 * G2, K=K * G2 * params.T ** 4, order=tuple(o)) for K1, K2, o, K in case['Ms']]
    for M, (_, _, o, _) in zip(Ms, case['Ms']):
        require(list(M.order) == o, 'order %s', M.order)
    inter = FourParticleIntegral(particle=sp[0], reaction=reaction, Ms=Ms,
                                 kind=getattr(CollisionIntegralKind, case['kind']))
    with quiet():
        inter.initialize()
    ps = sp[0].grid.TEMPLATE
    kinds = ['Full', 'F_f'] if case['kind'] == 'Full' else [case['kind']]
    g = case['dof'] if case['majorana'] else case['dof'] / 2.
    unit = G2 * params.T ** 5 / g / params.H / (1 if case['log'] else params.x)
    expected = {}
    for i in sorted({0, *[1 + a % (len(ps) - 2) for a in case['at']]}):
        q = float(ps[i] / params.aT)
        if q == 0 and case['sp'][0]['m'] == 0 and any(K2 or K for _, K2, _, K in case['Ms']):
            continue
        m = [s['m'] for s in case['sp']]
        if case['type'] == 'creation' and not resolved(q, m):
            ctx.label('narrow region')
            continue
        for kind in kinds:
            rough, want, scale = limit(case, kind, q)
            if abs(rough - want) > 5e-3 * scale:
                ctx.label('reference not accurate')
                continue
            f = 1.
            if kind in ('F_f', 'F_decay', 'F_f_vacuum_decay') and case['kind'] != 'Full':
                f = float(spectrum(dict(case['sp'][0], eq=False), q))
            expected[kind, i] = q, want * f, scale * f, f
    if not expected:
        raise Skip()
    biggest = max([s / f for _, _, s, f in expected.values()] + [reference(case, kinds[-1], .5, 8)[1]])
    if not biggest:
        raise Skip()
    # the absolute accuracy of the code goes with the step
    step = 50 / (biggest * unit) * (1 if case['log'] else params.aT)
    try:
        def calculate():
            after_another_state(inter, params, sp, case['before'], ps)
            return inter.integrate(ps, stepsize=step)
        out = isolated(calculate)
    except NoConvergence:
        ctx.label('no convergence')
        m = [x['m'] for x in case['sp']]
        if case['type'] == 'scattering' and not m[0] and m[1] <= m[2] + m[3]:
            # there is no phase space at rest: the other momenta are to blame
            ps = sp[0].grid.TEMPLATE = numpy.append(.3 * ps[1], ps[1:])
            try:
                isolated(calculate)
            except NoConvergence:
                raise Skip()
            require(False, 'the integral of a massless particle at rest does not converge')
        raise Skip()
    if case['type'] == 'scattering' and not case['sp'][0]['m']:
        ctx.label('massless at rest')
    got = dict(zip(kinds, out if case['kind'] == 'Full' else [out]))
    for (kind, i), (q, want, scale, f) in sorted(expected.items()):
        require(numpy.shape(got[kind]) == numpy.shape(ps), 'shape %s', numpy.shape(got[kind]))
        v = float(got[kind][i]) / unit
        require(abs(v - want) <= (2.5e-2 if q or not case['at'] else .1) * scale + 1e-2 * biggest * f, '%s: %s at p = %.4g T is %r, the phase '
                'space integral is %r (sum of its terms %r)', case['type'], kind, q, v, want, scale)
    nontrivial = any(abs(want) > .05 * biggest * f for _, want, _, f in expected.values())
    ctx.label(case['type'], case['kind'])
    if case['before']:
        ctx.label('used before')
    if any(M[3] for M in case['Ms']):
        ctx.label('constant matrix element')
    ctx.nontrivial(nontrivial)


for _kind in ('decay', 'scattering', 'creation'):
    def _law(case, ctx):
        compare(case, ctx)
    _law.__name__ = 'four_particle_' + _kind
    globals()[_law.__name__] = law(
        'P20', (lambda k: lambda st: case_4p(st, k))(_kind), quick=100 if _kind == 'scattering' else 80, thorough=2000, hang=300,
        rule='random masses, spectra, statistics and up to three matrix elements, at rest and at '
             'two momenta; non-trivial when the integral does not vanish')(_law)


def at_rest(st):
    mass = st.one_of(st.just(0.), logf(st, .1, 2.))
    m = st.tuples(mass, logf(st, .1, 2.), logf(st, .1, 3.), st.booleans()).map(
        lambda t: [0., t[0] + t[1] + t[2]] + ([t[0], t[1]] if t[3] else [t[1], t[0]]))
    return st.tuples(case_4p(st, 'scattering'), m).map(lambda t: rest(*t))


def rest(c, m):
    c['sp'] = [dict(s, m=x, eq=s['eq'] and (s['fermion'] or x > 0)) for s, x in zip(c['sp'], m)]
    c['Ms'] = [[K1 or 1., 0., o, 0.] for K1, K2, o, K in c['Ms']]
    c['at'] = []
    return c


@law('P20', at_rest, quick=40, thorough=1000, hang=300,
     rule='the limit of vanishing momentum of a massless particle that is hit by a heavier one which '
          'turns into two lighter ones; non-trivial when the integral does not vanish')
def massless_at_rest(case, ctx):
    compare(case, ctx)


# ---- three particles

SIDES3 = {'decay': (-1, 1, 1), 'creation': (-1, -1, 1)}


def reference3(case, kind, q0, n=40):
    sp, m = case['sp'], [s['m'] for s in case['sp']]
    sides = SIDES3[case['type']]
    E0 = math.hypot(q0, m[0])
    if case['type'] == 'decay':
        p = math.sqrt(kallen(m[0] ** 2, m[1] ** 2, m[2] ** 2)) / (2 * m[0])
        c, w = gl(n, -1, 1)
        E1 = (E0 * math.hypot(p, m[1]) + q0 * p * c) / m[0]
        E2 = E0 - E1
        w = w / 2 * p / m[0] / (4 * PI) / (2 * E0)
    else:
        if not m[0] and not q0:
            return 0., 0.
        top = math.hypot(TOP, m[2])
        if m[0]:
            # two-particle kinematics: the mother is monochromatic for the product at rest
            p = math.sqrt(kallen(m[0] ** 2, m[1] ** 2, m[2] ** 2)) / (2 * m[0])
            lo, hi = [(E0 * math.hypot(p, m[2]) + sg * q0 * p) / m[0] for sg in (-1, 1)]
        else:
            u = (m[2] ** 2 - m[1] ** 2) / 2 / E0
            lo, hi = (u + m[2] ** 2 / u) / 2, math.inf
        if lo >= top:
            # at rest the code extrapolates the spectrum of the mother
            return (0., 0.) if q0 else (math.nan, math.nan)
        x, w = gl(n, lo, min(hi, top))
        if not q0:
            x, w = numpy.array([lo]), numpy.array([2 * p / m[0]])
            w = w / (16 * PI * E0)
        else:
            w = w / (16 * PI * q0 * E0)
        E2, E1 = x, x - E0
    q = [numpy.array(q0)] + [numpy.sqrt(numpy.maximum(E ** 2 - M * M, 0)) for E, M in zip((E1, E2), m[1:])]
    f = [spectrum(s, v) for s, v in zip(sp, q)]
    for i in (1, 2):
        f[i] = beyond(f[i], sp[i], q[i], case['own'][i])
    F, S = functional(kind, sp, sides, f)
    return float((w * F).sum()), float((w * (abs(F) if S is None else S)).sum())


def case_3p(st):
    @st.composite
    def make(draw):
        kind = draw(st.sampled_from(sorted(SIDES3)))
        light = st.one_of(st.just(0.), logf(st, .05, 5.))
        a, b = draw(light), draw(light)
        h = max(a + b, .05) * (1 + draw(logf(st, .02, 20.)))
        m = [h, a, b] if kind == 'decay' else [a, b, h]
        c = {k: draw(v) for k, v in common_fields(st).items()}
        c['type'] = kind
        c['kind'] = draw(st.sampled_from([k for k in KINDS[kind]]))
        c['sp'] = [draw(species(st, st.just(x))) for x in m]
        c['sp'][0]['eq'] = False
        for s in c['sp']:
            s['eq'] = s['eq'] and (s['fermion'] or s['m'] > 0)
        c['K'] = draw(st.lists(st.floats(.1, 5.), min_size=1, max_size=2))
        return c
    return make()


@law('P20', case_3p, quick=200, thorough=10000, hang=300,
     rule='two-body decays and their inverse with random masses, spectra and statistics, at every '
          'momentum of the grid; non-trivial when the integral does not vanish')
def three_particle(case, ctx):
    from common import UNITS
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    from interactions.four_particle import CollisionIntegralKind
    params, sp, reaction = build(case, SIDES3[case['type']])
    scale_K = UNITS.MeV ** 2
    inter = ThreeParticleIntegral(particle=sp[0], reaction=reaction, Ms=[ThreeParticleM(K=K * scale_K) for K in case['K']],
                                  kind=getattr(CollisionIntegralKind, case['kind']))
    with quiet():
        inter.initialize()
    ps = sp[0].grid.TEMPLATE
    kinds = ['Full', 'F_f'] if case['kind'] == 'Full' else [case['kind']]
    g = case['dof'] if case['majorana'] else case['dof'] / 2.
    unit = sum(case['K']) * scale_K / params.T / g / params.H / (1 if case['log'] else params.x)
    expected = {}
    for i, y in enumerate(ps):
        q = float(y / params.aT)
        for kind in kinds:
            rough, _ = reference3(case, kind, q, 25)
            want, scale = reference3(case, kind, q, 60)
            if not abs(rough - want) <= 2e-3 * scale:
                ctx.label('reference not accurate')
                continue
            f = 1.
            if kind in ('F_f', 'F_decay', 'F_f_vacuum_decay') and case['kind'] != 'Full':
                f = float(spectrum(dict(case['sp'][0], eq=False), q))
            expected[kind, i] = want * f, scale * f, f
    biggest = max([s / f for _, s, f in expected.values()] or [0])
    if not biggest:
        raise Skip()
    step = 50 / (biggest * unit) * (1 if case['log'] else params.aT)
    try:
        def calculate():
            after_another_state(inter, params, sp, case['before'], ps)
            return inter.integrate(ps, stepsize=step)
        out = isolated(calculate)
    except NoConvergence:
        ctx.label('no convergence')
        raise Skip()
    got = dict(zip(kinds, out if case['kind'] == 'Full' else [out]))
    for (kind, i), (want, scale, f) in sorted(expected.items()):
        require(numpy.shape(got[kind]) == numpy.shape(ps), 'shape %s', numpy.shape(got[kind]))
        v = float(got[kind][i]) / unit
        require(abs(v - want) <= 2.5e-2 * scale + 1e-3 * biggest * f, '%s: %s at p = %.4g T is %r, the phase '
                'space integral is %r (sum of its terms %r)', case['type'], kind, ps[i] / params.aT, v, want, scale)
    ctx.label(case['type'], case['kind'])
    if case['before']:
        ctx.label('used before')
    ctx.nontrivial(sum(abs(w) > .05 * biggest * f for w, _, f in expected.values()) > 1)
