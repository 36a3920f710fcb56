"""P15: the files that a run leaves behind."""
import contextlib
import io
import math
import os
import stat
import sys

import numpy

from pbt.core import law, require, close, all_close
from pbt.gens import logf
from pbt import boot, world
from pbt.laws import p14

UNIT = {'aT': 'MeV', 'T': 'MeV', 'x': 'MeV', 't': 's', 'rho': 'MeV^4', 'S': 'MeV^3'}
KAWANO_COLS = ['t', 'x', 'Tg', 'dTg/dt', 'rho_tot', 'H', 'n nue->p e', 'p e->n nue',
               'n->p e nue', 'p e nue->n', 'n e->p nue', 'p nue->n e']


def folder(name):
    return os.path.join(boot.scratch(), name)


def scale(col):
    from common import UNITS
    return {'MeV': UNITS.MeV, 's': UNITS.s, 'MeV^4': UNITS.MeV ** 4, 'MeV^3': UNITS.MeV ** 3,
            None: 1.}[UNIT.get(col)]


def read_table(path):
    with open(path) as f:
        lines = f.read().split('\n')
    require(lines[0].startswith('#'), 'a table without heading: %r', lines[0][:80])
    names = lines[0].lstrip('#').strip().split('\t')
    rows = [[float(v) for v in l.split('\t')] for l in lines[1:] if l]
    require(all(len(r) == len(names) for r in rows), 'ragged table')
    return names, rows


def check_evolution(path, data, n=None):
    names, rows = read_table(path)
    want = [k + (', ' + UNIT[k] if k in UNIT else '') for k in p14.COLS]
    require(names == want, 'heading %r', names)
    if n is not None:
        require(len(rows) == n, '%d records in the file, %d in memory', len(rows), n)
    require(len(rows) <= len(data), 'records out of nowhere')
    for j, k in enumerate(p14.COLS):
        got = [r[j] for r in rows]
        all_close(got, numpy.array(data[k][:len(rows)]) / scale(k), 1e-12, 'column ' + k, 1e-300)
    return len(rows)


def close_logger():
    """The logger keeps the stream that it replaced."""
    out = sys.stdout
    log = getattr(out, 'log', None)
    if log is not None:
        log.close()


@law('P15', lambda st: st.fixed_dictionaries({
    'c': p14.content(st), 'steps': st.integers(0, 22), 'freq': st.integers(1, 9),
    'stale': st.booleans(), 'export': st.sampled_from([True, True, False])}),
     quick=100, thorough=1500, hang=300,
     rule='runs with an output folder and periodic export; non-trivial with at least five steps')
def evolution_file(case, ctx):
    from common import UNITS
    d = folder('out')
    c = case['c']
    if case['stale']:
        os.makedirs(os.path.join(d, 'deep'), exist_ok=True)
        with open(os.path.join(d, 'evolution.txt'), 'w') as f:
            f.write('stale')
        with open(os.path.join(d, 'deep', 'x'), 'w') as f:
            f.write('stale')
    before = sys.stdout
    screen = io.StringIO()
    sys.stdout = screen
    try:
        u, parts, inter = p14.build(c, folder=d)
        require(not os.path.exists(os.path.join(d, 'deep')), 'the old output is kept')
        require(not os.path.exists(os.path.join(d, 'evolution.txt')), 'the old table is kept')
        u.export_freq = case['freq']
        u.evolve(u.params.T * (1 + c['dy']) ** -(case['steps'] - 0.5),
                 **({} if case['export'] else {'export': False}))
        print('marker \u03bd\u2192')
        sys.stdout.log.flush()
        close_logger()
    finally:
        sys.stdout = before
    n = len(u.data)
    path = os.path.join(d, 'evolution.txt')
    if case['export']:
        check_evolution(path, u.data, n)
        require(sorted(os.listdir(d)) == ['evolution.txt', 'log.txt'], 'files: %r',
                sorted(os.listdir(d)))
    elif os.path.exists(path):
        got = check_evolution(path, u.data)
        require(n - got < case['freq'], 'the exported table lags %d records with period %d',
                n - got, case['freq'])
    else:
        require(n < case['freq'] or n == 1, 'no periodic export in %d records', n)
    with open(os.path.join(d, 'log.txt'), encoding='utf8') as f:
        log = f.read()
    require(log == screen.getvalue(), 'the log file and the screen differ')
    require('marker \u03bd\u2192' in log, 'the log is cut')
    for p in parts:
        require(p.name in log, 'the initial states are not logged')
    ctx.label('export' if case['export'] else 'periodic only')
    ctx.nontrivial(n > 5)


@law('P15', lambda st: st.fixed_dictionaries({
    'c': p14.content(st), 'at': st.integers(1, 25), 'freq': st.integers(1, 9)}),
     quick=80, thorough=1500, hang=300,
     rule='runs that crash at a chosen step; non-trivial when a table had been exported')
def crash_leaves_a_prefix(case, ctx):
    """After a crash the exported table is a prefix of the history, at most one period old."""
    d = folder('crash')
    before = sys.stdout
    sys.stdout = io.StringIO()
    try:
        u, parts, inter = p14.build(case['c'], folder=d)
        u.export_freq = case['freq']

        def monitor(uu):
            if len(uu.data) == case['at']:
                raise ZeroDivisionError('crash')
        u.step_monitor = monitor
        try:
            u.evolve(u.params.T * 1e-6)
        except ZeroDivisionError:
            pass
        close_logger()
    finally:
        sys.stdout = before
    n = len(u.data)
    require(n == case['at'], 'number of records')
    path = os.path.join(d, 'evolution.txt')
    if os.path.exists(path):
        got = check_evolution(path, u.data)
        require(n - got < case['freq'], 'the table lags by %d records with period %d', n - got,
                case['freq'])
        ctx.nontrivial()
    else:
        require(n < case['freq'] or n == 1, 'no table after %d records with period %d', n,
                case['freq'])
        ctx.nontrivial(False)


STUB = '''#!/bin/sh
{ echo "STUB OUTPUT"; /bin/cat; echo "INPUT WAS"; /bin/cat "$INPUT"; } > "$OUTPUT"
'''


@law('P15', lambda st: st.fixed_dictionaries({
    'T': st.one_of(logf(st, 0.3, 15.), st.floats(10., 11.)), 'm': st.sampled_from([1., 1., .3, 4.]), 'dy': logf(st, 5e-3, 0.1), 'steps': st.integers(1, 14),
    'log': st.sampled_from([True, True, False]), 'freq': st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20]),
    'file': st.sampled_from([None, 'abc.dat']), 'rate': st.sampled_from([0, 0.01, 1000]), 'folder': st.sampled_from([True, True, False])}),
     quick=60, thorough=800, hang=300,
     rule='runs with nucleon rates across the switch-on temperature; non-trivial when records are '
          'written')
def nucleosynthesis_input(case, ctx):
    """One record per step from 10 MeV on, identical in memory, in kawano.txt and in s4.dat."""
    from common import Params, UNITS
    from evolution import Universe
    d = folder('kawano')
    stub = os.path.join(boot.scratch(), 'stub.sh')
    if not os.path.exists(stub):
        with open(stub, 'w') as f:
            f.write(STUB)
        os.chmod(stub, 0o755)
    os.environ['KAWANO'] = stub
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if case['log'] else ''
    before = sys.stdout
    screen = io.StringIO()
    sys.stdout = screen
    try:
        params = Params(T=case['T'] * UNITS.MeV, dy=case['dy'], m=case['m'] * UNITS.MeV,
                        dx=case['dy'] * case['m'] ** 2 / case['T'] * UNITS.MeV)
        u = Universe(params=params, folder=d if case['folder'] else None,
                     max_log_rate=case['rate'])
        g = world.grid(31, 25. * case['m'])
        ph = world.particle(None, dof=2, fermion=False, name='Photon', symbol='g')
        el = world.particle(None, mass=0.511, dof=4, name='Electron', symbol='e')
        nu = world.particle(None, dof=2, name='Neutrino', symbol='n', grid=g, Tdec=5.)
        u.add_particles([ph, el, nu])
        u.export_freq = case['freq']
        kw = {'datafile': case['file']} if case['file'] else {}
        if case['file']:
            u.init_kawano(electron=el, neutrino=nu, datafile=case['file'])
        else:
            u.init_kawano(electron=el, neutrino=nu)
        err = None
        try:
            u.evolve(u.params.T * (1 + case['dy']) ** -(case['steps'] - 0.5),
                     **({'export': False} if case['file'] and case['folder'] else {}))
        finally:
            if case['folder'] and case['file']:
                u.kawano_log.close()
            if case['folder']:
                sys.stdout.log.flush()
                close_logger()
    finally:
        sys.stdout = before
        if len(u.kawano_data):
            # the state of the last record is still there
            import kawano
            kawano.init_kawano(electron=el, neutrino=nu)
            now = kawano.baryonic_rates(u.params.a)
            for k, r in zip(KAWANO_COLS[6:], now):
                close(u.kawano_data[-1][k], r, 1e-9, 'rate ' + k, 1e-300)
    K = u.kawano_data
    require(list(K.columns) == KAWANO_COLS, 'columns %r', K.columns)
    rows = [i for i in range(1, len(u.data)) if u.data['T'][i] <= 10 * UNITS.MeV]
    require(len(K) == len(rows), '%d records, expected %d', len(K), len(rows))
    K9 = UNITS.MeV / 11.6045
    gcm3 = UNITS.MeV ** 4 / 2.32011575e5
    units = [UNITS.s, UNITS.MeV, K9, K9 / UNITS.s, gcm3, 1 / UNITS.s] + [1.] * 6
    table = []
    for j, i in enumerate(rows):
        rec = K[j]
        T, a, x, aT, rho, frac = (u.data[k][i] for k in ('T', 'a', 'x', 'aT', 'rho', 'fraction'))
        H = math.sqrt(8 * math.pi / 3 * rho) / (1.2209e22 * UNITS.MeV)
        close(rec['t'], u.data['t'][i], 1e-12, 't')
        close(rec['x'], x, 1e-12, 'x')
        close(rec['Tg'], T, 1e-12, 'Tg')
        close(rec['rho_tot'], u.data['rho'][i], 1e-12, 'rho_tot')
        close(rec['H'], H, 1e-9, 'H')
        # dT/dt = (d(aT)/dlna - aT) H / a
        dln = frac if case['log'] else frac * x
        close(rec['dTg/dt'], (dln - aT) * H / a, 1e-9, 'dTg/dt')
        require(rec['dTg/dt'] < 0, 'the temperature rises')
        for k in KAWANO_COLS[6:]:
            require(math.isfinite(rec[k]) and rec[k] >= 0, 'rate %s is %r', k, rec[k])
        table.append([rec[k] / q for k, q in zip(KAWANO_COLS, units)])
    # finite difference of the recorded temperature
    for (i, r0), (k, r1) in zip(zip(rows, table), list(zip(rows, table))[1:]):
        if r1[0] > r0[0]:
            slope = (r1[2] - r0[2]) / (r1[0] - r0[0])
            lo, hi = sorted((r0[3], r1[3]))
            require(lo * (1 + 3 * case['dy']) <= slope <= hi * (1 - 3 * case['dy']),
                    'dT/dt %r is not between the recorded %r and %r', slope, lo, hi)
    if not case['folder']:
        require(not os.path.exists(d) or True, '')
        ctx.label('no folder')
        ctx.nontrivial(bool(rows))
        return
    name = case['file'] or 's4.dat'
    with open(os.path.join(d, name)) as f:
        lines = f.read().split('\n')
    require(lines[0].split('\t') == KAWANO_COLS, 'heading of %s: %r', name, lines[0])
    got = [[float(v) for v in l.split('\t')] for l in lines[1:] if l]
    require(len(got) == len(table), '%d records in %s, expected %d', len(got), name, len(table))
    for g_, w in zip(got, table):
        all_close(g_, w, 1e-6, name, 1e-300)
    if case['file']:
        # nothing but the periodic export has written the tables
        if os.path.exists(os.path.join(d, 'evolution.txt')):
            saved = check_evolution(os.path.join(d, 'evolution.txt'), u.data)
            require(len(u.data) - saved < case['freq'], 'the table lags by %d records with period %d',
                    len(u.data) - saved, case['freq'])
        else:
            saved = 0
            require(len(u.data) < case['freq'] or len(u.data) == 1, 'no table after %d records with period %d',
                    len(u.data), case['freq'])
        expected = sum(i < saved for i in rows)
        path = os.path.join(d, 'kawano.txt')
        if expected:
            require(os.path.exists(path), 'the records of the nucleon rates are not exported')
        if os.path.exists(path):
            names, krows = read_table(path)
            require([n.split(', ')[0] for n in names] == KAWANO_COLS, 'heading of kawano.txt')
            require(len(krows) == expected, '%d records in kawano.txt, %d until the last export', len(krows), expected)
            for g_, w in zip(krows, table):
                all_close(g_, w, 1e-12, 'kawano.txt', 1e-300)
        ctx.label('periodic only')
        ctx.label('%d records exported' % min(expected, 2))
        ctx.nontrivial(bool(rows))
        return
    names, krows = read_table(os.path.join(d, 'kawano.txt'))
    require([n.split(', ')[0] for n in names] == KAWANO_COLS, 'heading of kawano.txt')
    require(len(krows) == len(table), 'records in kawano.txt')
    for g_, w in zip(krows, table):
        all_close(g_, w, 1e-12, 'kawano.txt', 1e-300)
    check_evolution(os.path.join(d, 'evolution.txt'), u.data, len(u.data))
    with open(os.path.join(d, 'kawano_output.dat')) as f:
        out = f.read()
    with open(os.path.join(d, 's4.dat')) as f:
        require(out.endswith('INPUT WAS\n' + f.read()), 'the external program got other input')
    require(out.startswith('STUB OUTPUT\n') and '\n4\n2\n' in out, 'menu commands: %r', out[:60])
    require(out in screen.getvalue(), 'the output of the external program is not reported')
    ctx.label('complete')
    ctx.nontrivial(bool(rows))
