"""P23: all crossed reactions of an interaction, each once, with the crossed matrix element."""
import contextlib
import io
import itertools
import math
from collections import Counter

import numpy

from pbt.core import law, require, close, all_close
from pbt.gens import logf
from pbt import world


def interaction_case(st):
    def build(shape):
        n = sum(shape)
        ms = st.lists(st.fixed_dictionaries({
            'K1': st.floats(-4, 4).map(lambda x: round(x, 2)),
            'K2': st.one_of(st.just(0.), st.floats(-4, 4).map(lambda x: round(x, 2))),
            'order': st.permutations(list(range(4)))}), min_size=1, max_size=4)
        return st.fixed_dictionaries({
            'shape': st.just(list(shape)),
            'species': st.lists(st.fixed_dictionaries({
                'm': st.one_of(st.just(0.), logf(st, 0.1, 100)), 'majorana': st.booleans(),
                'Q': st.sampled_from([0, 1, -1, 2]), 'dof': st.integers(1, 4)}),
                min_size=n, max_size=n),
            'which': st.one_of(st.just([0, 1, 2, 3][:n]), st.permutations([0, 1, 2, 3][:n]),
                               st.lists(st.integers(0, 3), min_size=n, max_size=n)),
            'anti': st.lists(st.booleans(), min_size=n, max_size=n),
            'heavy': st.booleans(),
            'Ms': ms if n == 4 else st.lists(st.fixed_dictionaries({
                'K': logf(st, 1e-3, 1e3)}), min_size=1, max_size=2),
            'dots': st.lists(st.floats(0.1, 5), min_size=12, max_size=12)})
    return st.sampled_from([(2, 2), (2, 2), (1, 3), (1, 2), (3, 1), (2, 1)]).flatmap(build)


def build(case):
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleM, FourParticleIntegral
    from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
    params = world.params(T=3.)
    g = world.grid(5, 10.)
    a, b = case['shape']
    n = a + b
    pool = []
    for i, s in enumerate(case['species']):
        m = s['m']
        if case['heavy'] and i == 0:
            m = 1.5 * sum(x['m'] for x in case['species']) + 5.
        pool.append(world.particle(params, mass=m, dof=s['dof'], grid=g, name='species %d' % i,
                                   symbol='s%d' % i, majorana=s['majorana'], Q=s['Q']))
    sp = [pool[w % n] for w in case['which']]
    # an antiparticle flag on a Majorana species is meaningless and never used
    anti = [bool(f and not p.majorana) for f, p in zip(case['anti'], sp)]
    if n == 4:
        Ms = tuple(FourParticleM(K1=M['K1'], K2=M['K2'], order=tuple(M['order']))
                   for M in case['Ms'])
        kind = FourParticleIntegral
    else:
        Ms = tuple(ThreeParticleM(K=M['K']) for M in case['Ms'])
        kind = ThreeParticleIntegral
    make = dict(name='generated', particles=(tuple(sp[:a]), tuple(sp[a:])),
                antiparticles=(tuple(anti[:a]), tuple(anti[a:])), Ms=Ms, integral_type=kind,
                washout_temperature=0.)
    return sp, anti, make, CrossGeneratingInteraction


def expected(case, sp, anti):
    """(first, left, right) species -> list of (positions -> value) contributions, from scratch:
    every way to put the fields on the two sides, every particle on the left as the observed one."""
    a = case['shape'][0]
    n = len(sp)
    side = [-1] * a + [1] * (n - a)
    out = {}
    count = 0
    for size in range(1, n):
        for left in itertools.combinations(range(n), size):
            right = [i for i in range(n) if i not in left]
            crossed = [(i in left) != (side[i] == -1) for i in range(n)]
            flag = [(anti[i] != crossed[i]) and not sp[i].majorana for i in range(n)]
            ml = sum(sp[i].mass for i in left)
            mr = sum(sp[i].mass for i in right)
            if len(left) == 1 and ml <= mr or len(right) == 1 and mr <= ml:
                continue
            for first in left:
                if flag[first]:
                    continue
                count += 1
                rest = [i for i in left if i != first]
                key = (sp[first].name, tuple(sorted(sp[i].name for i in left)),
                       tuple(sorted(sp[i].name for i in right)))
                out.setdefault(key, []).append((first, rest, right, crossed, flag))
    return out, count


def value(order, K1, K2, m, d):
    i, j, k, l = order
    return K1 * d[i][j] * d[k][l] + K2 * m[i] * m[j] * d[k][l]


def arrangements(first, rest, right, names):
    """Original indices at the positions of the integral; identical species are exchangeable."""
    for r in itertools.permutations(rest):
        if [names[i] for i in r] != sorted(names[i] for i in rest):
            continue
        for q in itertools.permutations(right):
            if [names[i] for i in q] != sorted(names[i] for i in right):
                continue
            yield (first,) + r + q


def symmetrised(layout_names, nleft, fn):
    """Average of fn(positions permutation) over exchanges of identical species on one side."""
    n = len(layout_names)
    vals = []
    for r in itertools.permutations(range(1, nleft)):
        for q in itertools.permutations(range(nleft, n)):
            perm = (0,) + r + q
            if [layout_names[i] for i in perm] == list(layout_names):
                vals.append(fn(perm))
    return sum(vals) / len(vals)


@law('P23', interaction_case, quick=600, thorough=12000,
     rule='interactions of three and four fields with repeated, Majorana and heavy species; '
          'non-trivial when some but not all crossings are possible')
def crossings(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        sp, anti, make, cls = build(case)
        inter = cls(**make)
    n = len(sp)
    want, count = expected(case, sp, anti)
    names = [p.name for p in sp]
    got = {}
    for I in inter.integrals:
        left = [x for x in I.reaction if x.side == -1]
        right = [x for x in I.reaction if x.side == 1]
        require(len(left) + len(right) == n and left and right, 'sides of %s', I)
        require(tuple(I.reaction) == tuple(left + right), 'the left side does not come first in %s',
                I)
        require(I.reaction[0].specie is I.particle, 'observed species of %s', I)
        require(not I.reaction[0].antiparticle, 'an integral for an antiparticle: %s', I)
        require(sorted(x.index for x in I.reaction) == list(range(n)), 'fields of %s', I)
        for x in I.reaction:
            require(x.specie is sp[x.index], 'species of field %d', x.index)
            cr = (x.side == -1) != (x.index < case['shape'][0])
            require(bool(x.crossed) == cr, 'field %d of %s crossed: %r', x.index, I, x.crossed)
            flag = (anti[x.index] != cr) and not x.specie.majorana
            require(bool(x.antiparticle) == flag, 'field %d of %s antiparticle: %r', x.index, I,
                    x.antiparticle)
        key = (I.particle.name, tuple(sorted(x.specie.name for x in left)),
               tuple(sorted(x.specie.name for x in right)))
        require(key not in got, 'reaction %s is generated twice', key)
        got[key] = I
        require(isinstance(I, make['integral_type']), 'integral of type %s', type(I))
    require(set(got) == set(want), 'missing reactions %s, impossible reactions %s',
            sorted(set(want) - set(got)), sorted(set(got) - set(want)))
    # the matrix elements
    d = numpy.zeros((n, n))
    it = iter(case['dots'])
    for i, j in itertools.combinations(range(n), 2):
        d[i][j] = d[j][i] = next(it)
    for key, I in got.items():
        if n == 3:
            total = sum(M['K'] for M in case['Ms']) * len(want[key])
            close(sum(M.K for M in I.Ms), total, 1e-9, 'matrix element of %s' % (key,))
            continue
        nl = sum(x.side == -1 for x in I.reaction)
        layout = [x.specie.name for x in I.reaction]
        m = [x.specie.mass for x in I.reaction]

        def code(perm):
            return sum(value([perm[o] for o in M.order], M.K1, M.K2, m, d) for M in I.Ms)
        have = symmetrised(layout, nl, code)
        total, scale = 0., 0.
        for first, rest, right, crossed, flag in want[key]:
            # put the fields where the integral has their species
            pos = {}
            free = {}
            for j, nm in enumerate(layout[:nl]):
                if j:
                    free.setdefault(('L', nm), []).append(j)
            for j, nm in enumerate(layout[nl:], nl):
                free.setdefault(('R', nm), []).append(j)
            pos[first] = 0
            for i in rest:
                pos[i] = free[('L', names[i])].pop(0)
            for i in right:
                pos[i] = free[('R', names[i])].pop(0)

            def ref(perm):
                t = 0.
                for M in case['Ms']:
                    i, j = M['order'][:2]
                    s = (-1 if crossed[i] else 1) * (-1 if crossed[j] else 1)
                    t += value([perm[pos[o]] for o in M['order']], M['K1'], s * M['K2'], m, d)
                return t
            total += symmetrised(layout, nl, ref)
            scale += sum(abs(M['K1']) * 25 + abs(M['K2']) * max(m) ** 2 * 5 for M in case['Ms'])
        close(have, total, 1e-9, 'matrix element of %s' % (key,), scale)
    full = sum(not f for f in anti) and 2 ** n
    ctx.label('shape%s' % case['shape'], 'none' if not want else 'some',
              'identical' if len(set(names)) < n else 'distinct')
    ctx.nontrivial(0 < count and len(want) > 1)


@law('P23', lambda st: st.fixed_dictionaries({
    'c': interaction_case(st), 'kind': st.one_of(st.none(), st.integers(-3, 30))}),
     quick=200, thorough=3000, rule='kinds of collision integrals, valid and not')
def kinds(case, ctx):
    from interactions.four_particle import CollisionIntegralKind as K
    valid = [K.F_creation, K.F_decay, K.F_1, K.F_f, K.F_1_vacuum_decay, K.F_f_vacuum_decay,
             K.Full, K.Full_vacuum_decay]
    k = case['kind']
    with contextlib.redirect_stdout(io.StringIO()):
        sp, anti, make, cls = build(case['c'])
        if k is None:
            inters = [cls(**make), cls(kind=None, **make)]
            want = K.Full
        elif 0 <= k < len(valid):
            inters = [cls(kind=valid[k], **make)]
            want = valid[k]
        else:
            try:
                cls(kind=k + 1000, **make)
            except ValueError:
                ctx.label('rejected')
                return
            require(False, 'the meaningless kind %r is accepted', k + 1000)
    for inter in inters:
        require(inter.kind == want, 'kind of the interaction')
        for I in inter.integrals:
            require(I.kind == want, 'kind of %s: %s', I, I.kind)


@law('P23', interaction_case, quick=200, thorough=3000,
     rule='interactions built twice from the same matrix elements; non-trivial with an integral')
def building_has_no_side_effects(case, ctx):
    """The matrix elements handed in are left alone, and integrals do not share theirs."""
    with contextlib.redirect_stdout(io.StringIO()):
        sp, anti, make, cls = build(case)
        keep = [dict(M.__dict__) for M in make['Ms']]
        one = cls(**make)
        two = cls(**make)
    require([dict(M.__dict__) for M in make['Ms']] == keep, 'the matrix elements are changed')
    require([str(I) for I in one.integrals] == [str(I) for I in two.integrals],
            'a second identical interaction differs')
    ids = [id(M) for x in (one, two) for I in x.integrals for M in I.Ms]
    require(len(ids) == len(set(ids)), 'two integrals share a matrix element')
    require(not set(ids) & set(map(id, make['Ms'])), 'an integral keeps the original')
    ctx.nontrivial(len(one.integrals) > 0)


@law('P23', lambda st: st.fixed_dictionaries({
    'c': st.lists(interaction_case(st), min_size=1, max_size=2),
    'steps': st.lists(st.tuples(
        st.lists(st.integers(0, 4), max_size=2), st.sampled_from(['default', True, False]),
        st.one_of(st.none(), st.lists(st.sampled_from([-2, -1, 0, 1, 2]), min_size=1, max_size=3))), min_size=1, max_size=3)}),
     quick=150, thorough=2500,
     rule='interactions filtered once or repeatedly; non-trivial when some integrals remain and some do not')
def filters(case, ctx):
    """Filtering by species observed (or involved) and type of reaction removes exactly those integrals."""
    from common import utils
    with contextlib.redirect_stdout(io.StringIO()):
        inters = []
        for c in case['c']:
            sp, anti, make, cls = build(c)
            inters.append(cls(**make))
    want = [list(i.integrals) for i in inters]
    some = False
    for names, first, types in case['steps']:
        names = ['species %d' % k for k in names]
        kw = {}
        if first != 'default':
            kw['first_only'] = first
        if types is not None:
            kw['reaction_type'] = types
        back = utils.interaction_filter(names, inters, **kw)
        require(list(map(id, back)) == list(map(id, inters)), 'the interactions returned')
        for k, w in enumerate(want):
            keep = []
            for I in w:
                seen = [item.specie.name for item in I.reaction[:None if first is False else 1]]
                if set(seen) & set(names) or sum(item.side for item in I.reaction) in (types or []):
                    continue
                keep.append(I)
            some = some or 0 < len(keep) < len(w)
            want[k] = keep
            require(list(map(id, inters[k].integrals)) == list(map(id, keep)), 'filter %r, first only: %r, types %r: '
                    '%s are left instead of %s', names, first, types, inters[k].integrals, keep)
    ctx.label('first' if any(s[1] is not False for s in case['steps']) else 'any')
    ctx.nontrivial(some)
