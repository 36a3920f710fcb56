"""P32: utilities: log tee, throttling, ring buffer, scoped print options, timing, folders."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import time

import numpy

from pbt.core import law, require, close, all_close, Skip
from pbt.gens import logf
from pbt import boot


def text(st):
    short = st.text(st.sampled_from(list(u'abZ09 .#\t\n→δéЖ中')), max_size=12)
    return st.one_of(short, short, short, st.tuples(short, st.integers(1, 4000)).map(lambda t: t[0] * t[1]))


EXCEPTIONS = [KeyError, ZeroDivisionError, ValueError, OSError, RuntimeError, StopIteration, AssertionError,
              TypeError, KeyboardInterrupt, SystemExit, GeneratorExit, FloatingPointError]


@law('P32', lambda st: st.fixed_dictionaries({
    'ops': st.lists(st.tuples(text(st), st.booleans(), st.booleans(), st.booleans()).map(list),
                    max_size=25)}), quick=300, thorough=5000,
     rule='sequences of prints and writes, with either output switched off at random; non-trivial '
          'with text beyond ASCII or an output that is switched off')
def log_tee(case, ctx):
    from common import utils
    folder = tempfile.mkdtemp(prefix='pbt-')
    old = sys.stdout
    terminal = io.StringIO()
    try:
        sys.stdout = terminal
        path = os.path.join(folder, 'log.txt')
        logger = utils.Logger(path)
        want_t, want_f = '', ''
        sys.stdout = logger
        for s, plain, on_t, on_f in case['ops']:
            if plain:
                print(s)
                want_t, want_f = want_t + s + '\n', want_f + s + '\n'
            else:
                logger.write(s, terminal=on_t, log=on_f)
                want_t, want_f = want_t + s * on_t, want_f + s * on_f
            require(terminal.getvalue() == want_t, 'terminal shows %r', terminal.getvalue())
        # everything else is passed on to the terminal
        require(logger.getvalue() == want_t and logger.isatty() is False, 'not the terminal')
        sys.stdout = None
        del logger
        require(sys.stdout is terminal, 'the output is not restored when the log ends')
        with io.open(path, encoding='utf8', newline='') as f:
            got = f.read()
        require(got == want_f, 'file holds %r instead of %r', got, want_f)
    finally:
        sys.stdout = old
        shutil.rmtree(folder)
    ctx.nontrivial(any(not p and not (t and f) or any(ord(c) > 127 for c in s)
                       for s, p, t, f in case['ops']))


@law('P32', lambda st: st.fixed_dictionaries({
    'rate': st.one_of(st.just(0.), logf(st, .01, 100.)),
    'gaps': st.lists(st.floats(0, 2.5).map(lambda x: round(x, 3)), max_size=30)}), quick=300, thorough=5000,
     rule='histories of updates on a controlled clock; non-trivial with both outcomes')
def throttling(case, ctx):
    from common import utils
    now = [1e9]
    saved = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter')}
    seen = []
    try:
        for n in saved:
            setattr(time, n, lambda: now[0])
        t = utils.Throttler(case['rate'])
        require(t.output is True, 'nothing is shown at first')
        last = now[0]
        for g in case['gaps']:
            now[0] += g * (case['rate'] or 1)
            want = not now[0] - last < case['rate']
            got = t.update()
            require(got == want and t.output == want, 'after %r s of %r: %r, %r', now[0] - last,
                    case['rate'], got, t.output)
            if want:
                last = now[0]
            seen.append(want)
    finally:
        for n in saved:
            setattr(time, n, saved[n])
    ctx.nontrivial(len(set(seen)) == 2)


@law('P32', lambda st: st.fixed_dictionaries({
    'length': st.integers(1, 8),
    'data': st.lists(st.one_of(st.integers(-50, 50), st.floats(-5, 5)), max_size=40)}),
     quick=300, thorough=5000, rule='sequences of appended numbers; non-trivial when old ones are dropped')
def ring_buffer(case, ctx):
    from common import utils
    n = case['length']
    d = utils.ring_deque([], n)
    other = utils.ring_deque([], n)
    for i, x in enumerate(case['data']):
        d.append(x)
        require(list(d) == case['data'][:i + 1][-n:], 'after %d items: %r', i + 1, list(d))
        require(d.max == max(case['data'][:i + 1]) and d.min == min(case['data'][:i + 1]),
                'range %r to %r', d.min, d.max)
    require(len(other) == 0, 'buffers share their items')
    ctx.nontrivial(len(case['data']) > n)


@law('P32', lambda st: st.fixed_dictionaries({
    'levels': st.lists(st.fixed_dictionaries({
        'precision': st.integers(1, 12), 'linewidth': st.integers(40, 200),
        'suppress': st.booleans(), 'threshold': st.integers(5, 500)}), min_size=1, max_size=4),
    'error': st.integers(0, len(EXCEPTIONS) - 1),
    'fail': st.integers(-1, 4), 'x': st.floats(-10, 10)}), quick=300, thorough=3000,
     rule='nested print options, left normally or by an exception; non-trivial when nested or failing')
def scoped_print_options(case, ctx):
    from common import utils
    start = numpy.get_printoptions()

    class Planned(EXCEPTIONS[case['error']]):
        pass

    def level(i):
        """Exceptions pass all levels down to level `fail`."""
        if i == len(case['levels']):
            if case['fail'] >= 0:
                raise Planned()
            return
        before = numpy.get_printoptions()
        try:
            with utils.printoptions(**case['levels'][i]):
                now = numpy.get_printoptions()
                require(all(now[k] == v for k, v in case['levels'][i].items()), 'options %r', now)
                require(all(before[k] == now[k] for k in now if k not in case['levels'][i]),
                        'other options change')
                level(i + 1)
        except Planned:
            require(numpy.get_printoptions() == before, 'options are not restored after an exception')
            if i != case['fail']:
                raise
        require(numpy.get_printoptions() == before, 'options are not restored')
    try:
        level(0)
        require(not case['fail'] >= len(case['levels']), 'the exception is swallowed')
    except Planned:
        require(case['fail'] >= len(case['levels']), 'the exception is not caught')
    finally:
        got = numpy.get_printoptions()
        numpy.set_printoptions(**start)
    require(got == start, 'options are not restored in the end')
    ctx.nontrivial(len(case['levels']) > 1 or case['fail'] >= 0)


@law('P32', lambda st: st.fixed_dictionaries({
    'show': st.booleans(), 'call': st.booleans(), 'dt': logf(st, 1e-3, 1e4),
    'fail': st.one_of(st.none(), st.integers(0, len(EXCEPTIONS) - 1)),
    'name': st.text(st.sampled_from(list('abcXYZ 12δ')), min_size=1, max_size=10)}), quick=300, thorough=2000,
     rule='timed blocks that end or fail; non-trivial when shown')
def timing(case, ctx):
    from common import utils
    now = [1e9]
    saved = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter')}
    out = io.StringIO()
    raised = False
    called = []

    class Planned(EXCEPTIONS[case['fail'] or 0]):
        pass

    def name():
        called.append(1)
        return case['name']
    try:
        for n in saved:
            setattr(time, n, lambda: now[0])
        with contextlib.redirect_stdout(out):
            try:
                with utils.benchmark(name if case['call'] else case['name'], show=case['show']):
                    require(not called, 'the name is evaluated before the block')
                    now[0] += case['dt']
                    if case['fail'] is not None:
                        raise Planned('planned')
            except Planned:
                raised = True
    finally:
        for n in saved:
            setattr(time, n, saved[n])
    require(raised == (case['fail'] is not None), 'the exception is swallowed')
    s = out.getvalue()
    if not case['show']:
        require(s == '', 'prints %r', s)
    else:
        m = re.search(r'([0-9.]+) seconds', s)
        require(s.startswith(case['name']) and m, 'prints %r', s)
        require(abs(float(m.group(1)) - case['dt']) <= 6e-4, 'prints %r after %r s', s, case['dt'])
    ctx.nontrivial(case['show'])


@law('P32', lambda st: st.fixed_dictionaries({
    'chunks': st.lists(st.text(st.sampled_from(list('abc')), min_size=1, max_size=3), min_size=1, max_size=4),
    'have': st.integers(0, 4), 'file': st.booleans(), 'twice': st.booleans()}), quick=200, thorough=2000,
     rule='nested folders some of which exist; non-trivial when some have to be created')
def folders(case, ctx):
    from common import utils
    root = tempfile.mkdtemp(prefix='pbt-')
    try:
        have = case['chunks'][:case['have']]
        if have:
            os.makedirs(os.path.join(root, *have))
        keep = os.path.join(root, *(have + ['keep.txt']))
        with open(keep, 'w') as f:
            f.write('contents')
        for k in range(1 + case['twice']):
            if case['file']:
                p = utils.ensure_path(root, *(case['chunks'] + ['data.txt']))
                require(p == os.path.join(root, *(case['chunks'] + ['data.txt'])), 'path %r', p)
                require(not os.path.exists(p), 'the file itself is created')
                d = os.path.dirname(p)
            else:
                d = utils.ensure_dir(root, *case['chunks'])
                require(d == os.path.join(root, *case['chunks']), 'path %r', d)
            require(os.path.isdir(d), 'the folder is missing')
        require(open(keep).read() == 'contents', 'an existing file changed')
    finally:
        shutil.rmtree(root)
    ctx.nontrivial(len(case['chunks']) > case['have'])


@law('P32', lambda st: st.fixed_dictionaries({
    'text': st.sampled_from([None, 'false', 'f', '0', '-1', 'true', 't', '1', 'yes', 'anything', '2']),
    'default': st.sampled_from([None, False, True])}), quick=60, thorough=200,
     rule='texts of a switch and defaults; non-trivial when set')
def switches(case, ctx):
    from common import utils
    name = 'PBT_SWITCH'
    os.environ.pop(name, None)
    if case['text'] is not None:
        os.environ[name] = case['text']
    got = utils.getboolenv(name, case['default'])
    want = bool(case['default']) if case['text'] is None else \
        case['text'] not in ('false', 'f', '0', '-1')
    require(got is want, '%r with default %r: %r', case['text'], case['default'], got)
    require(utils.getenv(name, 'd') == (case['text'] if case['text'] is not None else 'd'), 'getenv')
    ctx.nontrivial(case['text'] is not None)
