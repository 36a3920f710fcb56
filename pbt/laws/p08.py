"""P08: history tables: every appended record stays readable, in order, and is exported."""
import io
import math

from pbt.core import law, require, close

FINITE = dict(allow_nan=False, allow_infinity=False, width=64)


def num(st):
    return st.one_of(st.integers(-1000, 1000).map(float),
                     st.floats(-1e30, 1e30, **FINITE))


def ops(st, width, maxops):
    row = st.lists(num(st), min_size=width, max_size=width)
    return st.lists(st.one_of(
        st.tuples(st.just('append'), row).map(list),
        st.tuples(st.just('append'), row).map(list),
        st.tuples(st.just('dict'), row).map(list),
        st.tuples(st.just('extend'), st.lists(row, max_size=30)).map(list),
        st.tuples(st.just('truncate'), st.integers(1, 4)).map(list),
        st.tuples(st.just('index'), st.integers(0, 10**6)).map(list),
    ), min_size=1, max_size=maxops)


def gen(st):
    return st.integers(1, 5).flatmap(lambda w: st.fixed_dictionaries({
        'w': st.just(w), 'ops': ops(st, w, 30),
        'units': st.lists(st.one_of(st.just(1.), st.floats(1e-6, 1e6)), min_size=w, max_size=w),
        'named': st.lists(st.sampled_from([None, '', 'MeV', '10^9K']), min_size=w, max_size=w)}))


def run(case, table, width, ctx, wrap, unwrap):
    """Interpret the history on the table and on a list of rows."""
    model = []
    for o in case['ops']:
        if o[0] in ('append', 'dict'):
            table.append(wrap(o))
            model.append(list(o[1]))
        elif o[0] == 'extend':
            table.extend([wrap(['append', r]) for r in o[1]])
            model.extend(list(r) for r in o[1])
        elif o[0] == 'truncate':
            for _ in range(o[1]):
                if not model:
                    break
                table.truncate()
                model.pop()
                ctx.label('truncate')
        elif model:
            i = o[1] % len(model)
            require(unwrap(table[i]) == model[i], 'record %d is %r, appended %r', i,
                    unwrap(table[i]), model[i])
            j = -1 - i
            require(unwrap(table[j]) == model[j], 'record %d is %r, appended %r', j,
                    unwrap(table[j]), model[j])
        require(len(table) == len(model), 'length %d, expected %d', len(table), len(model))
        if model:
            require(unwrap(table[-1]) == model[-1], 'the last record is %r, appended %r',
                    unwrap(table[-1]), model[-1])
    got = [unwrap(r) for r in table.data]
    require(got == model, 'the table holds %r, expected %r', got[:5], model[:5])
    ctx.label('n>=10' if len(model) >= 10 else 'n<10')
    ctx.nontrivial(len(model) >= 10)
    return model


@law('P08', gen, quick=800, thorough=15000, cpp=False,
     rule='histories of append, extend, truncate and index; non-trivial when the table grows past '
          'its initial size')
def distribution_history(case, ctx):
    import numpy
    from common.utils import Dynamic2DArray
    w = case['w']
    header = numpy.array(case['units'])
    t = Dynamic2DArray(header)
    model = run(case, t, w, ctx, lambda o: numpy.array(o[1]), lambda r: [float(x) for x in r])
    for sl in (slice(-5, None), slice(None, 3), slice(None, None, 2)):
        require([[float(x) for x in r] for r in t[sl]] == model[sl], 'slice %r', sl)
    if model:
        require([float(x) for x in t[:, 0]] == [r[0] for r in model], 'column')
        f = io.BytesIO()
        t.savetxt(f)
        text = f.getvalue().decode()
        back = numpy.loadtxt(io.StringIO(text), ndmin=2)
        require(back.tolist() == model, 'the exported table differs from the history')
        head = text.splitlines()[0]
        require(head.startswith('# '), 'no heading')
        for a, b in zip(head[2:].split('\t'), header):
            close(float(a), b, 1e-6, 'heading')


@law('P08', gen, quick=800, thorough=15000, cpp=False,
     rule='histories of append (rows and dictionaries), extend, truncate and index; non-trivial '
          'when the table grows past its initial size')
def parameter_history(case, ctx):
    import numpy
    from common.utils import DynamicRecArray
    w = case['w']
    names = ['c%d' % i if i % 2 else 'c %d->x' % i for i in range(w)]
    t = DynamicRecArray([[n, u, s] for n, u, s in zip(names, case['named'], case['units'])])

    def wrap(o):
        if o[0] == 'dict':
            d = dict(zip(reversed(names), reversed(o[1])))
            d['unrelated'] = 7
            return d
        return tuple(o[1])
    model = run(case, t, w, ctx, wrap, lambda r: [float(r[n]) for n in names])
    for i, n in enumerate(names):
        require([float(x) for x in t[n]] == [r[i] for r in model], 'column %s', n)
        require([float(x) for x in t[n][-5:]] == [r[i] for r in model][-5:], 'tail of %s', n)
    if not model:
        return
    f = io.BytesIO()
    t.savetxt(f)
    text = f.getvalue().decode()
    back = numpy.loadtxt(io.StringIO(text), ndmin=2)
    require(back.shape == (len(model), w), 'exported shape %s', back.shape)
    for r, m in zip(back, model):
        for x, y, u in zip(r, m, case['units']):
            require(x == y / u, 'exported value %r, expected %r', x, y / u)
    head = text.splitlines()[0][2:].split('\t')
    require(head == [n + (', ' + u if u else '') for n, u in zip(names, case['named'])],
            'exported heading %r', head)
    for i in (-1, 0):
        plain = t.row_repr(i).split('\t')
        require(len(plain) == w, 'row %d has %d fields', i, len(plain))
        for x, y, u in zip(plain, model[i], case['units']):
            close(float(x), y / u, 1e-5, 'printed value', 1e-300)
        named = t.row_repr(i, names=True).split('\t')
        require(len(named) == w, 'named row %d has %d fields', i, len(named))
        for text_, n, y, u, un in zip(named, names, model[i], case['units'], case['named']):
            require(text_.startswith(n + ' = '), 'named field %r', text_)
            rest = text_[len(n) + 3:].split(' ')
            close(float(rest[0]), y / u, 1e-2, 'named value', 1e-300)
            require((rest[1:] == [un]) if un else rest[1:] == [], 'unit of the named field %r',
                    text_)


@law('P08', lambda st: st.fixed_dictionaries({'n': st.one_of(st.integers(0, 3000), st.integers(0, 12000)), 'k': st.integers(1, 3)}),
     quick=40, thorough=400, cpp=False, rule='long histories; non-trivial above 1000 records')
def long_history(case, ctx):
    import numpy
    from common.utils import Dynamic2DArray, DynamicRecArray
    a = Dynamic2DArray(numpy.zeros(3))
    r = DynamicRecArray([['x', None, 1.], ['y', 's', 2.]])
    for i in range(case['n']):
        a.append([i, i * i, -i])
        r.append({'y': i * .5, 'x': i})
        if i % 7 == 6:
            for _ in range(case['k']):
                a.truncate()
                r.truncate()
            for j in range(case['k']):
                v = i - case['k'] + 1 + j
                a.append([v, v * v, -v])
                r.append((v, v * .5))
    n = numpy.arange(case['n'], dtype=float)
    require(numpy.array_equal(a.data, numpy.stack([n, n * n, -n], 1)), 'long 2D history')
    require(numpy.array_equal(r['x'], n) and numpy.array_equal(r['y'], n / 2), 'long history')
    ctx.nontrivial(case['n'] > 1000)


@law('P08', lambda st: st.fixed_dictionaries({
    'a': st.lists(num(st), max_size=15), 'b': st.lists(num(st), max_size=15),
    'order': st.lists(st.booleans(), max_size=30)}), quick=200, thorough=2000, cpp=False,
     rule='two tables filled in an interleaved order')
def tables_are_independent(case, ctx):
    import numpy
    from common.utils import Dynamic2DArray, DynamicRecArray
    cols = [['v', None, 1.]]
    t = {0: (DynamicRecArray(cols), Dynamic2DArray([0.]), []),
         1: (DynamicRecArray(cols), Dynamic2DArray([0.]), [])}
    queues = {0: list(case['a']), 1: list(case['b'])}
    for which in case['order'] + [0] * 15 + [1] * 15:
        which = int(which)
        if queues[which]:
            v = queues[which].pop(0)
            row = numpy.array([v])
            t[which][0].append((v,))
            t[which][1].append(row)
            row[:] = 123.            # the table must have kept its own copy
            t[which][2].append(v)
    for k in t:
        require([float(x) for x in t[k][0]['v']] == t[k][2], 'records of table %d', k)
        require([float(x[0]) for x in t[k][1].data] == t[k][2], 'rows of table %d', k)
    ctx.nontrivial(bool(case['a'] and case['b']))
