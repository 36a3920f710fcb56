"""Laws: a generator of JSON-able cases plus an oracle, searched with Hypothesis."""
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback

from pbt import boot

LAWS = {}          # property id -> {law name: Law}


class Violation(AssertionError):
    """The code under test broke the law on this case."""


class Known(Exception):
    """The case hits a listed finding; counted, reported, and not searched further."""


class Skip(Exception):
    """The case is outside the law's domain (counted as trivial)."""


class Hang(BaseException):
    pass


def require(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


def rel(a, b, floor=0.0):
    """Relative difference of two numbers, with an absolute floor for the scale."""
    scale = max(abs(a), abs(b), floor)
    if scale == 0:
        return 0.0
    if math.isinf(scale):
        return 0.0 if a == b else math.inf
    return abs(a - b) / scale


def close(a, b, tol, what, floor=0.0):
    a = float(a)
    b = float(b)
    d = rel(a, b, floor)
    if not d <= tol:      # catches nan
        raise Violation('%s: got %r, expected %r (relative difference %.3g > %.3g)'
                        % (what, a, b, d, tol))


def all_close(a, b, tol, what, floor=0.0):
    import numpy
    a = numpy.asarray(a, dtype=float)
    b = numpy.asarray(b, dtype=float)
    require(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
        close(x, y, tol, '%s [%d]' % (what, i), floor)


class Ctx(object):
    """What one case reports about itself."""

    def __init__(self, tier='quick'):
        self.labels = []
        self.is_nontrivial = None
        self.tier = tier
        self.known = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        self.is_nontrivial = bool(flag) if self.is_nontrivial is None \
            else (self.is_nontrivial or bool(flag))


class Law(object):
    def __init__(self, prop, name, gen, check, quick, thorough, rule, cpp, hang, threads, env,
                 enumerate_):
        self.prop, self.name, self.gen, self.check = prop, name, gen, check
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.cpp, self.hang, self.threads, self.env = cpp, hang, threads, env
        self.enumerate = enumerate_


# The quick tier multiplies the number of cases by the time that a property leaves.
QUICK = dict([(p, 4) for p in ('P02 P03 P04 P05 P06 P07 P09 P10 P24 P26 P27 P29 P31 P32 P33').split()]
             + [(p, 2) for p in 'P08 P11 P12 P13 P14 P15 P16 P17 P18 P20 P22 P23 P25 P28 P30'.split()])


def law(prop, gen, quick=200, thorough=4000, rule='', cpp=True, hang=None, threads=1, env=None,
        enumerate_=False, name=None):
    """Register `check(case, ctx)` as a law of property `prop`.

    `gen(st)` returns a Hypothesis strategy of JSON-able cases, or, with
    enumerate_=True, the complete list of the cases of a finite domain.
    """
    def deco(fn):
        n = name or fn.__name__
        table = LAWS.setdefault(prop, {})
        assert n not in table, n
        cases = max(quick, min(quick * QUICK.get(prop, 1), thorough // 2))
        table[n] = Law(prop, n, gen, fn, cases, thorough, rule, cpp, hang, threads, env or {},
                       enumerate_)
        return fn
    return deco


# --- running one law in this process ------------------------------------------------------

_baseline_env = None


def reset_state():
    """Undo what the code under test keeps in process-wide state between cases."""
    global _baseline_env
    if _baseline_env is None:
        _baseline_env = dict(os.environ)
    else:
        for k in list(os.environ):
            if k not in _baseline_env:
                del os.environ[k]
        for k, v in _baseline_env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v


def classify(exc):
    """'violation' or 'error' for an exception that escaped from a case."""
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, boot.Contained):
        return 'violation'
    if isinstance(exc, (boot.HarnessError, MemoryError, KeyboardInterrupt)):
        return 'error'
    last = None
    for fr in traceback.extract_tb(exc.__traceback__):
        f = os.path.abspath(fr.filename)
        if f.startswith(boot.REPO + os.sep):
            last = 'repo'
        elif f.startswith(boot.VERIF + os.sep) and 'core.py' not in f:
            last = 'verif'
    if last == 'repo':
        return 'violation'
    # the compiled extensions have no Python frames: attribute their errors to them
    if getattr(exc, '__pbt_from_extension__', False):
        return 'violation'
    # the oracle could not digest what it got (a missing column, text instead of a number, ...)
    if isinstance(exc, (ValueError, TypeError, LookupError, ArithmeticError, AttributeError,
                        FileNotFoundError)):
        return 'violation'
    return 'error'


class Runner(object):
    def __init__(self, law_, tier, seed, out):
        self.law, self.tier, self.seed, self.out = law_, tier, seed, out
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0
        self.gave_up = []
        self.known = {}
        self.fail = None
        self.t0 = time.time()
        self.budget = float(os.environ.get('PBT_BUDGET', '0')) or None
        self.over = 0

    def alarm(self, signum, frame):
        raise Hang()

    def one(self, case):
        """Run one case; raises on failure (recorded in self.fail)."""
        reset_state()
        rng = random.getstate()
        import numpy
        npr = numpy.random.get_state()
        stdout, stderr = sys.stdout, sys.stderr
        ctx = Ctx(self.tier)
        text = json.dumps(case, sort_keys=True)
        with open(self.out + '.case', 'w') as f:
            f.write(text)
        if self.law.hang:
            signal.signal(signal.SIGALRM, self.alarm)
            signal.alarm(int(self.law.hang))
        del GAVE_UP[:]
        try:
            if isinstance(case, dict) and 'never converges' in case:
                self.all_give_up(case['never converges'])
            else:
                self.law.check(case, ctx)
        except Skip:
            ctx.is_nontrivial = False
            self.skipped += 1
            if GAVE_UP:
                self.gave_up.append(case)
        except Known as e:
            self.known[str(e)] = self.known.get(str(e), 0) + 1
        except Hang:
            exc = Violation('does not terminate (no result after %d s)' % self.law.hang)
            self.fail = ('violation', case, str(exc), '')
            raise exc
        except (Exception, SystemExit) as e:
            kind = classify(e)
            self.fail = (kind, case, '%s: %s' % (type(e).__name__, e),
                         ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:])
            raise
        finally:
            if self.law.hang:
                signal.alarm(0)
            sys.stdout, sys.stderr = stdout, stderr
            random.setstate(rng)
            numpy.random.set_state(npr)
            reset_state()
        self.evaluations += 1
        for k in ctx.known:
            self.known[k] = self.known.get(k, 0) + 1
        for l in set(ctx.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.is_nontrivial is None or ctx.is_nontrivial:
            h = hashlib.md5(text.encode()).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3 or len(self.distinct) in (25, 100):
                    if len(text) < 1500:
                        self.samples.append(case)

    def all_give_up(self, cases):
        for case in cases:
            del GAVE_UP[:]
            try:
                self.law.check(case, Ctx(self.tier))
            except Skip:
                if GAVE_UP:
                    continue
            return
        raise Violation('the integrator gives up in most cases, %d among them' % len(cases))

    def run(self):
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, strategies as st
        n = self.law.quick if self.tier == 'quick' else self.law.thorough
        scale = float(os.environ.get('PBT_SCALE', '1'))
        n = max(1, int(n * scale))
        try:
            if self.law.enumerate:
                for case in self.law.gen(st):
                    self.one(case)
            else:
                strategy = self.law.gen(st)
                lawseed = int(hashlib.md5(('%s/%s/%s' % (self.seed, self.law.prop, self.law.name))
                                          .encode()).hexdigest()[:8], 16)

                @hypothesis.seed(lawseed)
                @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                          print_blob=False, report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck),
                          phases=(Phase.generate, Phase.shrink))
                @given(strategy)
                def test(case):
                    if self.budget and self.fail is None and time.time() - self.t0 > self.budget:
                        self.over += 1
                        return
                    if self.fail is not None and time.time() - self.tfail > 60:
                        return        # enough shrinking
                    try:
                        self.one(case)
                    except BaseException:
                        if not hasattr(self, 'tfail'):
                            self.tfail = time.time()
                        raise

                test()
                # a few difficult integrals may fail to converge, not most of them
                if len(self.gave_up) >= 8 and len(self.gave_up) > .5 * self.evaluations:
                    self.one({'never converges': self.gave_up[:8]})
        except hypothesis.errors.Unsatisfiable as e:
            self.fail = ('error', None, 'generator: %s' % e, '')
        except BaseException as e:
            if self.fail is None:
                self.fail = ('error', None, '%s: %s' % (type(e).__name__, e),
                             traceback.format_exc()[-6000:])
        return self.report()

    def report(self):
        if self.gave_up:
            self.labels['the integrator gave up'] = len(self.gave_up)
        return {
            'law': self.law.name, 'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct), 'skipped': self.skipped,
            'labels': self.labels, 'samples': self.samples[:5], 'rule': self.law.rule,
            'known': self.known, 'over_budget': self.over,
            'fail': None if self.fail is None else {
                'kind': self.fail[0], 'case': self.fail[1], 'message': self.fail[2],
                'trace': self.fail[3]},
            'wall_s': time.time() - self.t0,
        }


def extension_call(fn, *args, **kwargs):
    """Call a compiled function; an exception it raises belongs to the code under test."""
    try:
        return fn(*args, **kwargs)
    except Exception as e:
        e.__pbt_from_extension__ = True
        raise


GAVE_UP = []          # a note for every call in which the adaptive integrator gave up


class NoConvergence(Exception):
    """The adaptive integrator of the code under test gave up, which it is allowed to do."""


def isolated(fn):
    """fn() in a forked process: the extensions abort when an integral does not converge."""
    import pickle
    import tempfile
    r, w = os.pipe()
    err = tempfile.TemporaryFile()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            signal.alarm(0)
            os.dup2(err.fileno(), 1)
            os.dup2(err.fileno(), 2)
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('exc', classify(e), '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    status = os.waitpid(pid, 0)[1]
    err.seek(0)
    text = err.read().decode('utf8', 'replace')
    err.close()
    if os.WIFSIGNALED(status):
        if 'failed to reach required accuracy' in text and 'nan' not in text:
            GAVE_UP.append(text[-300:])
            raise NoConvergence(text[-300:])
        raise Violation('killed by signal %d: %s' % (os.WTERMSIG(status), text[-300:]))
    if not data:
        raise boot.HarnessError('isolated call ended without a result: %s' % text[-300:])
    out = pickle.loads(data)
    if out[0] == 'ok':
        return out[1]
    if out[1] == 'violation':
        raise Violation(out[2])
    raise boot.HarnessError(out[2])
