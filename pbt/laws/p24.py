"""P24: matrix elements as functions of the momenta."""
import itertools
import math

from pbt.core import law, require, close
from pbt.gens import logf

G_F = 1.166e-5      # GeV^-2


def num(st):
    return st.floats(-4, 4).map(lambda x: round(x, 3))


def element(st):
    return st.fixed_dictionaries({'K1': st.one_of(st.just(0.), num(st)),
                                  'K2': st.one_of(st.just(0.), st.just(0.), num(st)),
                                  'order': st.permutations([0, 1, 2, 3])})


def dots(st):
    return st.fixed_dictionaries({
        'd': st.lists(st.floats(0.1, 5), min_size=6, max_size=6),
        'm': st.lists(st.floats(0.1, 3), min_size=4, max_size=4)})


def evaluate(order, K1, K2, k):
    d = {}
    for v, (i, j) in zip(k['d'], itertools.combinations(range(4), 2)):
        d[i, j] = d[j, i] = v
    i, j, a, b = order
    return K1 * d[i, j] * d[a, b] + K2 * k['m'][i] * k['m'][j] * d[a, b]


def of(M, k, scale=1.):
    return evaluate(M.order, M.K1 / scale, M.K2 / scale, k)


@law('P24', lambda st: st.fixed_dictionaries({
    'a': element(st), 'b': element(st), 'swap': st.sampled_from(['no', 'pairs', 'halves', 'both']),
    'same': st.booleans(), 'k': dots(st), 'x': num(st), 'theta': logf(st, 1e-6, 1),
    'cls': st.sampled_from(['plain', 'weak', 'sterile'])}), quick=800, thorough=15000,
     rule='pairs of matrix elements; non-trivial when they can be added')
def algebra(case, ctx):
    from interactions.four_particle import FourParticleM
    from library.SM import WeakM
    from library.NuMSM import SterileM
    from common import UNITS
    unit = {'plain': 1., 'weak': 32 * (G_F / UNITS.GeV ** 2) ** 2,
            'sterile': 32 * (G_F / UNITS.GeV ** 2) ** 2 * case['theta'] ** 2}[case['cls']]

    def make(e):
        if case['cls'] == 'plain':
            return FourParticleM(**e)
        if case['cls'] == 'weak':
            return WeakM(**e)
        return SterileM(theta=case['theta'], **e)
    k = case['k']
    ea = dict(case['a'], order=tuple(case['a']['order']))
    eb = dict(case['b'], order=tuple(case['b']['order']))
    if case['same']:
        i, j, a, b = ea['order']
        eb['order'] = {'no': (i, j, a, b), 'pairs': (j, i, b, a), 'halves': (a, b, i, j),
                       'both': (b, a, j, i)}[case['swap']]
    A, B = make(ea), make(eb)
    va, vb = evaluate(ea['order'], ea['K1'], ea['K2'], k), evaluate(eb['order'], eb['K1'], eb['K2'], k)
    sc = 30 * (abs(ea['K1']) + abs(ea['K2']) + abs(eb['K1']) + abs(eb['K2'])) + 1e-9
    close(of(A, k, unit), va, 1e-9, 'value of the matrix element', sc)
    close(of(B, k, unit), vb, 1e-9, 'value of the matrix element', sc)
    require(sorted(A.order) == [0, 1, 2, 3], 'order %s', A.order)
    stack = A.stackable(B)
    require(bool(stack) == bool(B.stackable(A)) or not (ea['K2'] == eb['K2'] == 0),
            'adding is not symmetric')
    if stack:
        A += B
        close(of(A, k, unit), va + vb, 1e-9, 'sum of two matrix elements', sc)
        close(of(B, k, unit), vb, 1e-9, 'the second operand', sc)
    if case['same'] and case['swap'] in ('no', 'pairs'):
        require(stack, 'two matrix elements of the same structure can not be added')
    if case['same'] and ea['K2'] == eb['K2'] == 0:
        require(stack, 'two matrix elements of the same structure can not be added')
    base = of(A, k, unit)
    A *= case['x']
    close(of(A, k, unit), base * case['x'], 1e-9, 'multiple of a matrix element', sc * 4)
    require(isinstance(str(A), str), 'text')
    ctx.label('stackable' if stack else 'different')
    ctx.nontrivial(stack)


@law('P24', lambda st: st.lists(st.integers(0, 5), min_size=4, max_size=4), quick=300,
     thorough=1296, rule='orders with and without repeated momenta; non-trivial when repeated')
def repeated_momenta_are_rejected(case, ctx):
    from interactions.four_particle import FourParticleM
    bad = len(set(case)) < 4
    try:
        M = FourParticleM(K1=1., order=tuple(case))
    except Exception:
        require(bad, 'the order %s is refused', case)
        ctx.nontrivial()
        return
    require(not bad, 'the meaningless order %s is accepted', case)
    require({tuple(sorted(M.order[:2])), tuple(sorted(M.order[2:]))} ==
            {tuple(sorted(case[:2])), tuple(sorted(case[2:]))}, 'order %s became %s', case, M.order)
    require(tuple(sorted(M.order[:2])) == tuple(sorted(case[:2])), 'the pairs are exchanged')
    ctx.nontrivial(False)


@law('P24', lambda st: st.fixed_dictionaries({
    'e': element(st), 'perm': st.permutations([0, 1, 2, 3]),
    'crossed': st.lists(st.booleans(), min_size=4, max_size=4), 'k': dots(st)}),
     quick=500, thorough=8000, rule='relabelling of the momenta with any set of crossed fields; '
                                    'non-trivial with one crossed field in the mass term')
def relabelling(case, ctx):
    """Position p holds field perm[p]; the mass term changes sign once per crossed field in it."""
    from interactions import IntegralItem
    from interactions.four_particle import FourParticleM
    e = dict(case['e'], order=tuple(case['e']['order']))
    M = FourParticleM(**e)
    where = {f: p for p, f in enumerate(case['perm'])}
    reaction = [IntegralItem(side=-1 if p < 2 else 1, specie=None, antiparticle=False, index=f,
                             crossed=case['crossed'][f]) for p, f in enumerate(case['perm'])]
    M.apply_order(tuple(where[o] for o in e['order']), reaction)
    i, j = e['order'][:2]
    flip = -1 if case['crossed'][i] != case['crossed'][j] else 1
    want = evaluate([where[o] for o in e['order']], e['K1'], flip * e['K2'], case['k'])
    close(of(M, case['k']), want, 1e-9, 'crossed matrix element', 100)
    ctx.nontrivial(flip == -1 and e['K2'] != 0)


@law('P24', lambda st: st.lists(logf(st, 1e-6, 1e6), min_size=1, max_size=6), quick=200,
     thorough=2000, rule='sums of constant matrix elements')
def three_particle(case, ctx):
    from interactions.three_particle import ThreeParticleM
    M = ThreeParticleM(K=case[0])
    for x in case[1:]:
        N = ThreeParticleM(K=x)
        M += N
        close(N.K, x, 1e-14, 'second operand')
    close(M.K, math.fsum(case), 1e-12, 'sum')
    M *= 2.5
    close(M.K, 2.5 * math.fsum(case), 1e-12, 'multiple')
