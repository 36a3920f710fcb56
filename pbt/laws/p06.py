"""P06: time steppers."""
import math

from pbt.core import law, require, close
from pbt.gens import coeffs, poly, polyint, logf


def deriv(c):
    return [k * v for k, v in enumerate(c)][1:] or [0.]


def sc(c, *xs):
    m = max([1.] + [abs(x) for x in xs])
    return sum(abs(v) * m ** k for k, v in enumerate(c)) * 1e3 + 1e-300


@law('P06', lambda st: st.fixed_dictionaries({
    'order': st.one_of(st.none(), st.integers(1, 5)), 'hist': st.integers(1, 9),
    'cs': st.lists(coeffs(st, 5, 5), min_size=1, max_size=3), 't': st.floats(-2, 2),
    'h': logf(st, 1e-3, 1.), 'array': st.booleans()}), quick=500, thorough=10000, cpp=False,
     rule='polynomial derivatives of the highest degree that the order treats exactly, with '
          'histories of 1-9 values, scalar and vector; non-trivial with order >= 2')
def adams_bashforth(case, ctx):
    import numpy
    from common.integrators import adams_bashforth_correction
    k = case['order'] or min(5, case['hist'])
    n = max(case['hist'], k)
    if case['order'] is None:
        n = case['hist']
    h, t = case['h'], case['t']
    cs = [c[:k] for c in case['cs']]
    fs = []
    for i in range(n):
        ti = t - (n - 1 - i) * h
        v = numpy.array([poly(c, ti) for c in cs])
        fs.append(v if case['array'] else float(v[0]))
    # older values than the order needs must not matter
    for i in range(n - k):
        fs[i] = fs[i] + 1e3
    keep = [numpy.array(f, copy=True) for f in fs]
    got = adams_bashforth_correction(fs, h) if case['order'] is None else \
        adams_bashforth_correction(fs=fs, h=h, order=case['order'])
    got = numpy.atleast_1d(got)
    require(len(fs) == n and all(numpy.array_equal(x, y) for x, y in zip(fs, keep)),
            'the history is modified')
    for j, c in enumerate(cs if case['array'] else cs[:1]):
        close(got[j], polyint(c, t, t + h), 1e-9, 'Adams-Bashforth step of order %d' % k,
              sc(c, t, t + h, t - 9 * h) * h)
    ctx.label('order%d' % k, 'default' if case['order'] is None else 'explicit')
    ctx.nontrivial(k >= 2)


@law('P06', lambda st: st.fixed_dictionaries({
    'order': st.one_of(st.none(), st.integers(1, 5)), 'hist': st.integers(0, 8),
    'cs': st.lists(coeffs(st, 6, 6), min_size=1, max_size=3), 't': st.floats(-2, 2),
    'h': logf(st, 1e-3, 1.), 'B': st.lists(st.floats(-50, 0.4), min_size=3, max_size=3),
    'array': st.booleans()}), quick=500, thorough=10000, cpp=False,
     rule='linear equations y\' = A + B y whose solution is a polynomial of the highest degree '
          'that the order treats exactly; non-trivial with order >= 2')
def adams_moulton(case, ctx):
    import numpy
    from common.integrators import adams_moulton_solver
    k = case['order'] or min(5, case['hist'] + 1)
    n = case['hist'] if case['order'] is None else max(case['hist'], k - 1)
    h, t = case['h'], case['t']
    cs = [c[:k + 1] for c in case['cs']]

    def pack(f):
        v = numpy.array([f(c) for c in cs])
        return v if case['array'] else float(v[0])
    B = numpy.array([min(b, 0.4 / h) for b in case['B'][:len(cs)]])
    t1 = t + h
    y0 = pack(lambda c: poly(c, t))
    A = numpy.array([poly(deriv(c), t1) - b * poly(c, t1) for c, b in zip(cs, B)])
    if not case['array']:
        A, B = float(A[0]), float(B[0])
    fs = [pack(lambda c: poly(deriv(c), t - (n - 1 - i) * h)) for i in range(n)]
    for i in range(n - (k - 1)):
        fs[i] = fs[i] + 1e3
    keep = [numpy.array(f, copy=True) for f in fs]
    kw = {} if case['order'] is None else {'order': case['order']}
    got = numpy.atleast_1d(adams_moulton_solver(y=y0, fs=fs, A=A, B=B, h=h, **kw))
    require(len(fs) == n and all(numpy.array_equal(x, y) for x, y in zip(fs, keep)),
            'the history is modified')
    for j, c in enumerate(cs if case['array'] else cs[:1]):
        close(got[j], poly(c, t1), 1e-8, 'Adams-Moulton step of order %d' % k,
              sc(c, t, t1, t - 9 * h))
    ctx.label('order%d' % k, 'default' if case['order'] is None else 'explicit')
    ctx.nontrivial(k >= 2)


@law('P06', lambda st: st.fixed_dictionaries({
    'y': st.floats(-1e3, 1e3), 'A': st.floats(-1e3, 1e3), 'B': st.floats(-1e6, 0),
    'h': logf(st, 1e-6, 10.), 't': st.floats(-10, 10)}), quick=300, thorough=5000, cpp=False,
     rule='stiff linear equations; non-trivial when |B| h > 1')
def implicit_euler(case, ctx):
    from common.integrators import implicit_euler as step
    y, A, B, h = case['y'], case['A'], case['B'], case['h']
    y1 = step(y, case['t'], A, B, h)
    # backward difference equation
    close(y1 - y, h * (A + B * y1), 1e-8, 'implicit equation',
          abs(y) + abs(y1) + h * (abs(A) + abs(B * y1)) + 1e-300)
    if B < -1e-9:
        # never overshoots the stationary point
        s = -A / B
        lo, hi = min(y, s), max(y, s)
        pad = 1e-9 * (abs(lo) + abs(hi)) + 1e-12
        require(lo - pad <= y1 <= hi + pad, 'step from %r to %r overshoots the equilibrium %r',
                y, y1, s)
    ctx.nontrivial(-B * h > 1)


@law('P06', lambda st: st.fixed_dictionaries({
    'y': st.floats(-5, 5), 't': st.floats(-5, 5), 'h': logf(st, 1e-3, 2.),
    'c': coeffs(st, 1, 3), 'd': coeffs(st, 1, 3)}), quick=300, thorough=5000, cpp=False,
     rule='right-hand sides that depend on time and on the unknown')
def explicit_steps(case, ctx):
    from common.integrators import euler_correction, heun_correction
    y, t, h, c, d = (case[k] for k in 'ythcd')

    def f(t, y):
        return poly(c, t) + poly(d, y)
    e = euler_correction(y, t, f, h)
    k1 = f(t, y)
    scale = (sc(c, t, t + h) + sc(d, y, y + h * k1)) * h
    close(e, h * k1, 1e-12, 'Euler step', scale)
    close(euler_correction(y=y, t=t, f=f, h=h), e, 1e-12, 'Euler step by keywords', scale)
    k2 = f(t + h, y + h * k1)
    close(heun_correction(y, t, f, h), h * (k1 + k2) / 2, 1e-11, 'Heun step', scale)
    # exact for linear right-hand sides in time
    lin = c[:2]
    close(heun_correction(y, t, lambda t, y: poly(lin, t), h), polyint(lin, t, t + h), 1e-9,
          'Heun step of a linear rate', scale)


@law('P06', lambda st: st.fixed_dictionaries({
    'lam': st.floats(-2, -0.2), 'w': st.floats(0.2, 2), 'order': st.integers(1, 5),
    'n': st.sampled_from([40, 60, 80])}), quick=60, thorough=600, cpp=False,
     rule='integration of a driven linear equation with n and 2n steps')
def convergence_order(case, ctx):
    """The error over a fixed time falls with the power of the step given by the order."""
    from common.integrators import adams_bashforth_correction, adams_moulton_solver
    lam, w, k = case['lam'], case['w'], case['order']

    def y(t):
        return math.sin(w * t) + math.exp(lam * t)

    def rate(t):
        return w * math.cos(w * t) + lam * math.exp(lam * t)

    def force(t):
        return rate(t) - lam * y(t)
    errs = {'AB': [], 'AM': []}
    for n in (case['n'], 2 * case['n']):
        h = 2. / n
        for name in errs:
            v = y(0.)
            fs = [rate(-i * h) for i in range(k, 0, -1)]
            if name == 'AB':
                for i in range(n):
                    fs.append(force(i * h) + lam * v)
                    v += adams_bashforth_correction(fs, h, order=k)
            else:
                fs.append(rate(0.))
                for i in range(n):
                    t1 = (i + 1) * h
                    v = adams_moulton_solver(y=v, fs=fs, A=force(t1), B=lam, h=h, order=k)
                    fs.append(force(t1) + lam * v)
            errs[name].append(abs(v - y(2.)))
    for name, (e1, e2) in errs.items():
        require(e1 < 2. * (2. / case['n']) ** k * 10, '%s%d: error %r', name, k, e1)
        require(e2 < 1e-11 or e2 < e1 or e1 < 1e-7, '%s%d: error grows from %r to %r with more '
                'steps', name, k, e1, e2)
