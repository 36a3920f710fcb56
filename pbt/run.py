"""Entry point of every check:  run.py <property> [--tier T] [--law L] [--replay FILE]"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pbt import boot, core                                     # noqa: E402

REPLAYS = os.path.join(boot.VERIF, '.replay')
KNOWN = os.path.join(boot.VERIF, 'known-findings.txt')


def load_laws(prop):
    importlib.import_module('pbt.laws.' + prop.lower())
    return core.LAWS.get(prop, {})


def child(args):
    """Run one law (or one replayed case) in this process and write the report."""
    laws = load_laws(args.property)
    law = laws[args.law]
    os.environ.update(law.env)
    boot.load(law.cpp)
    os.environ.update(law.env)
    core.reset_state()
    runner = core.Runner(law, args.tier, args.seed, args.out)
    if args.replay:
        with open(args.replay) as f:
            case = json.load(f)['case']
        try:
            runner.one(case)
        except BaseException as e:
            if runner.fail is None:
                runner.fail = ('error', case, repr(e), '')
        report = runner.report()
    else:
        report = runner.run()
    with open(args.out + '.tmp', 'w') as f:
        json.dump(report, f)
    os.replace(args.out + '.tmp', args.out)
    sys.stdout.flush()
    os._exit(0)


def spawn(prop, law, tier, seed, out, scratch, replay=None, timeout=800, verbose=False):
    env = boot.clean_env(dict(os.environ))
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['OMP_NUM_THREADS'] = str(law.threads)
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['OMP_WAIT_POLICY'] = 'passive'
    env['PBT_SCRATCH'] = scratch
    env['TMPDIR'] = scratch
    cmd = [boot.python(), '-W', 'ignore', os.path.join(HERE, 'run.py'), prop, '--child', '--law', law.name,
           '--tier', tier, '--seed', str(seed), '--out', out]
    if replay:
        cmd += ['--replay', replay]
    log = open(out + '.log', 'wb')
    p = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=scratch,
                         start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = 'timeout'
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        log.close()
    with open(out + '.log', 'rb') as f:
        text = f.read()[-4000:].decode('utf8', 'replace')
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    rep = {'law': law.name, 'evaluations': 0, 'distinct_nontrivial': 0, 'skipped': 0, 'labels': {},
           'samples': [], 'rule': law.rule, 'known': {}, 'over_budget': 0, 'wall_s': 0,
           'fail': {'kind': 'error', 'case': None, 'message': 'child ended with %s' % rc,
                    'trace': text}}
    if rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL) \
            and os.path.exists(out + '.case'):
        # the process was brought down by the code under test while it worked on this case
        with open(out + '.case') as f:
            case = json.load(f)
        rep['evaluations'] = 1
        rep['distinct_nontrivial'] = 1
        rep['fail'] = {'kind': 'violation', 'case': case,
                       'message': 'the process was killed by signal %d' % -rc, 'trace': text}
    return rep


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2])
    return out


def check(args):
    t0 = time.time()
    prop = args.property
    laws = load_laws(prop)
    if not laws:
        print('no laws for', prop)
        return 2
    if args.law:
        laws = {args.law: laws[args.law]}
    if any(l.cpp for l in laws.values()):
        try:
            boot.build()
        except boot.HarnessError as e:
            print('HARNESS ERROR:', e)
            return 2
    scratch = tempfile.mkdtemp(prefix='pbt-')
    try:
        if args.replay:
            with open(args.replay) as f:
                law = laws[json.load(f)['law']]
            rep = spawn(prop, law, args.tier, args.seed, os.path.join(scratch, 'r'), scratch,
                        replay=args.replay)
            if rep['fail'] is None:
                print('replay: the law holds on this case')
                return 0
            print(rep['fail']['message'])
            print(rep['fail']['trace'])
            if rep['fail']['kind'] == 'violation':
                print('VIOLATION property=%s replay=%s' % (prop, args.replay))
                return 1
            return 2
        total = 840 if args.tier == 'quick' else 6 * 3600
        reports = {}
        lock = threading.Lock()
        queue = sorted(laws.values(), key=lambda l: -l.threads)
        slots = threading.Semaphore(args.jobs)

        def work(law):
            n = min(law.threads, args.jobs)
            rep = spawn(prop, law, args.tier, args.seed, os.path.join(scratch, law.name), scratch,
                        timeout=max(30, total - (time.time() - t0)))
            with lock:
                reports[law.name] = rep
                for _ in range(n):
                    slots.release()

        threads = []
        for law in queue:
            for _ in range(min(law.threads, args.jobs)):
                slots.acquire()
            th = threading.Thread(target=work, args=(law,))
            th.start()
            threads.append(th)
        for th in threads:
            th.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    status = 0
    violations = []
    errors = []
    known = {}
    for name in sorted(reports):
        rep = reports[name]
        print('%-36s %7d cases %7d non-trivial %6.1f s%s' % (
            name, rep['evaluations'], rep['distinct_nontrivial'], rep['wall_s'],
            '  [%d over budget]' % rep['over_budget'] if rep['over_budget'] else ''))
        if args.verbose:
            print('    ', dict(sorted(rep['labels'].items())), 'skipped', rep['skipped'])
        for k, v in rep['known'].items():
            known[k] = known.get(k, 0) + v
        f = rep['fail']
        if f is None:
            continue
        if f['kind'] == 'violation':
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, '%s-%s.json' % (prop, name))
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'law': name, 'case': f['case'],
                           'message': f['message'], 'trace': f['trace']}, fh, indent=1)
            violations.append({'law': name, 'message': f['message'], 'replay': path,
                               'case': f['case']})
            print('  law %s: %s' % (name, f['message']))
            if args.verbose:
                print(f['trace'])
        else:
            errors.append((name, f['message'], f['trace']))

    listed = known_findings(prop)
    for k in sorted(known):
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        else:
            violations.append({'law': '-', 'message': 'unlisted finding: ' + k, 'replay': KNOWN,
                               'case': None})

    samples = []
    for rep in reports.values():
        for c in rep['samples'][:2]:
            samples.append({'law': rep['law'], 'case': c})
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in reports.values()),
            'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in reports.values()),
            'rule': '; '.join('%s: %s' % (n, reports[n]['rule']) for n in sorted(reports)),
            'samples': samples[:24],
            'laws': {n: {k: reports[n][k] for k in ('evaluations', 'distinct_nontrivial',
                                                    'skipped', 'labels', 'wall_s', 'over_budget')}
                     for n in sorted(reports)},
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': ['C++ extensions are built with the stand-ins for pybind11 and GSL in '
                        '/verif/shim (same Makefile and optimisation flags)'],
        'violations': len(violations),
    }
    if not args.law:
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(boot.VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
    for v in violations:
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        status = 1
    if not violations and errors:
        for name, message, trace in errors:
            print('HARNESS ERROR in law %s: %s\n%s' % (name, message, trace))
        status = 2
    if status == 0:
        print('%s: held on %d generated cases (%d non-trivial) in %.1f s' % (
            prop, evidence['coverage']['evaluations'],
            evidence['coverage']['distinct_nontrivial'], time.time() - t0))
    return status


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--law')
    ap.add_argument('--replay', type=os.path.abspath)
    ap.add_argument('--child', action='store_true')
    ap.add_argument('--out')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', '--verbose', action='store_true')
    args = ap.parse_args()
    if args.child:
        child(args)
    return check(args)


if __name__ == '__main__':
    sys.exit(main())
