"""P07: statistics and interpolation of distribution functions."""
import bisect
import math

from pbt.core import law, require, close, extension_call
from pbt.gens import logf, coeffs, poly
from pbt import world


def custom_grid(points):
    import numpy
    g = world.grid(len(points) if len(points) > 1 else 2, 1.)
    g.TEMPLATE = numpy.array(points, dtype=float)
    g.MOMENTUM_SAMPLES = len(points)
    g.MIN_MOMENTUM, g.MAX_MOMENTUM = g.TEMPLATE[0], g.TEMPLATE[-1]
    g.BOUNDS = (g.MIN_MOMENTUM, g.MAX_MOMENTUM)
    return g


@law('P07', lambda st: st.fixed_dictionaries({
    'e': st.one_of(logf(st, 1e-6, 600), st.floats(-30, 30)), 'mu': st.floats(-5, 5)}),
     quick=500, thorough=8000, cpp=False, rule='energies over many decades with chemical potential')
def quantum_statistics(case, ctx):
    import numpy
    from common import statistics as S
    e, mu = case['e'], case['mu']
    x = e - mu
    F = S.Fermi(e, mu)
    close(F, 1 / (math.exp(x) + 1), 1e-12, 'Fermi')
    require(0 <= F <= 1, 'Fermi occupation %r', F)
    close(S.Fermi(e), 1 / (math.exp(e) + 1), 1e-12, 'Fermi without chemical potential')
    close(F + S.Fermi(-e, -mu), 1., 1e-12, 'particle-hole symmetry')
    if x > 1e-9:
        B = S.Bose(e, mu)
        close(B, 1 / math.expm1(x), 1e-6, 'Bose')
        require(B >= F, 'bosons are less occupied than fermions')
    if abs(e) > 1e-6:
        close(S.Bose(e), 1 / math.expm1(e), 1e-6, 'Bose without chemical potential')
    require(S.FERMION is S.Fermi and S.BOSON is S.Bose, 'names of the statistics')
    arr = S.FERMION(numpy.array([e, e + 1, e + 2]), mu)
    for k in range(3):
        close(arr[k], 1 / (math.exp(x + k) + 1), 1e-12, 'vectorised Fermi')


def table(st, nmin=3, nmax=12):
    return st.fixed_dictionaries({
        'gaps': st.lists(logf(st, 0.05, 4.), min_size=nmin - 1, max_size=nmax - 1),
        'x0': st.floats(-3, 3),
        'where': st.lists(st.tuples(st.integers(-1, nmax), st.floats(0, 1)).map(list), min_size=1,
                          max_size=6)})


def points(case, n, grid):
    """Queries: exact grid points, interior points, points before and after the grid."""
    out = []
    for i, u in case['where']:
        if u in (0., 1.) or i >= n:
            i = min(max(i, 0), n - 1)
            out.append(grid[i])
        elif i < 0:
            out.append(grid[0] - u)
        elif i == n - 1:
            out.append(grid[-1] + u * 5)
        else:
            out.append(grid[i] + u * (grid[i + 1] - grid[i]))
    return out


@law('P07', lambda st: st.fixed_dictionaries({
    'g': table(st), 'v': coeffs(st, 12, 12), 'uniform': st.booleans(),
    'c': coeffs(st, 3, 3)}), quick=500, thorough=8000, cpp=False,
     rule='tables on uneven and even grids; queries at, between and outside grid points')
def linear_and_cubic_tables(case, ctx):
    import numpy
    from common import linear_interpolation, cubic_interpolation
    gaps = case['g']['gaps']
    if case['uniform']:
        gaps = [gaps[0]] * len(gaps)
    grid = case['g']['x0'] + numpy.concatenate([[0.], numpy.cumsum(gaps)])
    n = len(grid)
    v = numpy.array(case['v'][:n])
    c = case['c']
    keep = v.copy(), grid.copy()
    L, C = linear_interpolation(v, grid), cubic_interpolation(v, grid)
    line = [c[0], c[1]]
    LL, CL = linear_interpolation(poly(line, grid), grid), \
        cubic_interpolation(poly(line, grid), grid)
    CQ = cubic_interpolation(poly(c, grid), grid)
    mag = max(1., abs(v).max())
    for x in points(case['g'], n, grid):
        x = float(x)
        j = bisect.bisect_right(list(grid), x) - 1
        if x in grid:
            k = list(grid).index(x)
            close(L(x), v[k], 1e-12, 'linear table at a grid point', mag)
            close(C(x), v[k], 1e-12, 'cubic table at a grid point', mag)
            ctx.label('node')
            continue
        if j >= n - 1:
            close(L(x), v[-1], 1e-12, 'linear table above the grid', mag)
            close(C(x), v[-1], 1e-12, 'cubic table above the grid', mag)
            ctx.label('above')
            continue
        if j < 0:
            ctx.label('below')
            continue
        u = (x - grid[j]) / (grid[j + 1] - grid[j])
        close(L(x), v[j] * (1 - u) + v[j + 1] * u, 1e-9, 'linear table inside interval %d' % j, mag)
        lm = max(1., abs(poly(line, grid)).max())
        close(LL(x), poly(line, x), 1e-9, 'linear table of a line', lm)
        inner = 0 < j < n - 2
        if not inner:
            close(C(x), v[j] * (1 - u) + v[j + 1] * u, 1e-9, 'cubic table in an edge interval', mag)
        if case['uniform']:
            close(CL(x), poly(line, x), 1e-9, 'cubic table of a line', lm)
            if inner:
                qm = max(1., abs(poly(c, grid)).max())
                close(CQ(x), poly(c, x), 1e-8, 'cubic table of a parabola', qm)
        if inner:
            # continuity at the ends of the interval
            eps = 1e-9 * (grid[j + 1] - grid[j])
            close(C(grid[j] + eps), v[j], 1e-6, 'cubic table next to a grid point', mag)
            close(C(grid[j + 1] - eps), v[j + 1], 1e-6, 'cubic table next to a grid point', mag)
        ctx.label('inner' if inner else 'edge')
    require(numpy.array_equal(keep[0], v) and numpy.array_equal(keep[1], grid),
            'the table is modified')
    ctx.nontrivial('inner' in ctx.labels or 'edge' in ctx.labels)


@law('P07', lambda st: st.fixed_dictionaries({
    'grid': st.lists(st.integers(-50, 400), min_size=1, max_size=40, unique=True).map(sorted),
    'xs': st.lists(st.one_of(st.integers(-60, 410), st.floats(-60, 410)), min_size=1,
                   max_size=10)}), quick=500, thorough=8000,
     rule='sorted grids of 1-40 points; non-trivial with a query inside the grid')
def bracketing(case, ctx):
    import numpy
    import common
    from interactions.four_particle.cpp import integral as four
    from interactions.three_particle.cpp import integral as three
    g = [float(x) for x in case['grid']]
    for x in case['xs']:
        x = float(x)
        if g[-1] < x:
            want = (len(g) - 1, -1)
        elif g[0] > x:
            want = (-1, 0)
        elif x in g:
            want = (g.index(x),) * 2
        else:
            j = bisect.bisect_right(g, x)
            want = (j - 1, j)
            ctx.nontrivial()
        for mod in (four, three):
            got = tuple(extension_call(mod.binary_find, g, x))
            require(got == want, '%s.binary_find(%r) = %r, expected %r', mod.__name__, x, got,
                    want)
        ns = custom_grid(g)
        got = tuple(int(numpy.ravel(i)[0]) for i in common.binary_find(ns, x))
        require(got == want, 'binary_find(%r) = %r, expected %r', x, got, want)
    ctx.nontrivial(False)


def occupation(st):
    return st.fixed_dictionaries({
        'n': st.integers(3, 40), 'top': logf(st, 0.5, 60), 'log': st.booleans(),
        'm': st.one_of(st.just(0.), logf(st, 1e-2, 30)), 'T': logf(st, 0.2, 5),
        'eta': st.sampled_from([1, -1]),
        'ps': st.lists(st.floats(0, 1.6), min_size=1, max_size=6),
        'nodes': st.lists(st.integers(0, 39), min_size=0, max_size=3)})


def setup(case):
    import numpy
    n = case['n']
    if case['log']:
        u = (1.2 ** numpy.arange(n) - 1) / (1.2 ** (n - 1) - 1)
    else:
        u = numpy.arange(n) / (n - 1.)
    grid = case['top'] * u
    ps = [float(case['top'] * p) for p in case['ps']] + [float(grid[i % n]) for i in case['nodes']]
    return grid, ps


def versions(grid, f, m, eta, T, eq):
    """All three implementations of the occupation number at momentum p."""
    import numpy
    import common
    from interactions.four_particle.cpp import integral as four
    from interactions.three_particle.cpp import integral as three
    part = world.particle(mass=1., fermion=eta > 0, grid=custom_grid(grid))
    part.params = common.Params(T=common.UNITS.MeV, dy=0.01)
    part.T = common.UNITS.MeV
    part.decoupling_temperature = 0. if eq else 2 * part.T
    part.aT = T
    part._distribution = numpy.array(f, dtype=float)

    def cpp(mod):
        def call(p):
            out = extension_call(mod.distribution_interpolation, list(grid), list(f), p, m,
                                 eta, T, eq)
            return float(numpy.ravel(out)[0])
        return call

    def py(p):
        with numpy.errstate(all='ignore'):
            return float(numpy.ravel(common.interp(part, p, m))[0])
    return [('four-particle extension', cpp(four)), ('three-particle extension', cpp(three)),
            ('Python', py)]


@law('P07', occupation, quick=400, thorough=8000,
     rule='Fermi and Bose distributions with mass and temperature sampled on linear and '
          'logarithmic grids; non-trivial when queried between or above grid points')
def equilibrium_is_interpolated_exactly(case, ctx):
    import numpy
    grid, ps = setup(case)
    m, T, eta = case['m'], case['T'], case['eta']
    if eta == -1 and m == 0:
        m = 0.1 * T                     # a massless Bose gas diverges at zero momentum

    def f0(p):
        return 1. / (math.exp(min(math.sqrt(p * p + m * m) / T, 700)) + eta)
    f = [f0(p) for p in grid]
    for name, call in versions(grid, f, m, eta, T, False):
        for p in ps:
            got = call(p)
            if p > grid[-1]:
                dE = math.sqrt(p * p + m * m) - math.sqrt(grid[-1] ** 2 + m * m)
                close(got, f[-1] * math.exp(-dE / T), 1e-9, '%s: tail at %r' % (name, p))
                ctx.label('tail')
            else:
                close(got, f0(p), 1e-6, '%s: equilibrium occupation at %r' % (name, p))
                ctx.label('node' if p in grid else 'between')
    # a species in equilibrium is described by its temperature alone
    junk = [0.123] * len(grid)
    for name, call in versions(grid, junk, m, eta, T, True):
        for p in ps:
            close(call(p), f0(p), 1e-9, '%s: species in equilibrium at %r' % (name, p))
    ctx.nontrivial('between' in ctx.labels or 'tail' in ctx.labels)


@law('P07', lambda st: st.fixed_dictionaries({
    'o': occupation(st), 'f': st.lists(st.one_of(logf(st, 1e-12, 0.999), st.just(0.),
                                                 st.just(0.5)), min_size=40, max_size=40),
    'scale': st.floats(0.1, 5)}), quick=500, thorough=10000,
     rule='arbitrary non-negative samples; non-trivial when a query falls between two different '
          'positive samples')
def interpolation_stays_between_neighbours(case, ctx):
    o = case['o']
    grid, ps = setup(o)
    n, m, T, eta = o['n'], o['m'], o['T'], o['eta']
    f = [float(x) for x in case['f'][:n]]
    if eta == -1:
        f = [x * case['scale'] for x in f]
    out = {}
    for name, call in versions(grid, f, m, eta, T, False):
        for p in ps:
            got = call(p)
            out.setdefault(p, []).append(got)
            require(got >= 0 and math.isfinite(got), '%s: occupation %r at %r', name, got, p)
            if p in grid:
                close(got, f[list(grid).index(p)], 1e-14, '%s: at a grid point' % name)
            elif p > grid[-1]:
                require(got <= f[-1] * (1 + 1e-12), '%s: the tail grows', name)
                dE = math.sqrt(p * p + m * m) - math.sqrt(grid[-1] ** 2 + m * m)
                close(got, f[-1] * math.exp(-dE / T), 1e-9, '%s: tail' % name)
            else:
                j = bisect.bisect_right(list(grid), p) - 1
                lo, hi = sorted((f[j], f[j + 1]))
                if lo == 0:
                    close(got, 0., 1e-12, '%s: next to an empty grid point' % name, 1.)
                else:
                    require(lo * (1 - 1e-6) <= got <= hi * (1 + 1e-6), '%s: %r is not between '
                            '%r and %r', name, got, lo, hi)
                    # linear in energy for ln(1/f - eta)
                    E = [math.sqrt(q * q + m * m) for q in (grid[j], p, grid[j + 1])]
                    y0, y1 = (math.log(1 / f[k] - eta) for k in (j, j + 1))
                    y = y0 + (y1 - y0) * (E[1] - E[0]) / (E[2] - E[0])
                    want = 1 / (math.exp(y) + eta)
                    close(got, want, 1e-6, '%s: exponential interpolation' % name)
                    if f[j] != f[j + 1]:
                        ctx.nontrivial()
    for p, vals in out.items():
        for v in vals[1:]:
            close(v, vals[0], 1e-9, 'the implementations differ at %r' % p, 1e-300)
    ctx.nontrivial(False)


@law('P07', lambda st: st.fixed_dictionaries({
    'n': st.integers(2, 20), 'lo': logf(st, 0.1, 10), 'u': st.floats(0, 0.99)}),
     quick=150, thorough=1500, rule='queries below the first grid point')
def below_the_grid_is_an_error(case, ctx):
    grid = [case['lo'] + i for i in range(case['n'])]
    f = [0.3] * case['n']
    for name, call in versions(grid, f, 0.5, 1, 1., False):
        try:
            v = call(case['lo'] * case['u'])
        except (ValueError, RuntimeError):
            continue
        require(False, '%s: a momentum below the grid gives %r', name, v)


@law('P07', lambda st: st.fixed_dictionaries({
    'o': occupation(st), 'dec': st.booleans(), 'scale': logf(st, 0.2, 5)}),
     quick=150, thorough=2500,
     rule='queries through the particle object, in and out of equilibrium')
def particle_distribution(case, ctx):
    """A particle answers with its equilibrium occupation or with its interpolated samples."""
    import numpy
    from common import Params, UNITS, LinearSpacedGrid, statistics as S
    from particles import Particle
    o = case['o']
    grid, ps = setup(o)
    m = max(o['m'], 0.1) if o['eta'] == -1 else o['m']
    params = Params(T=o['T'] * UNITS.MeV, dy=0.01)

    G = LinearSpacedGrid(MOMENTUM_SAMPLES=len(grid), MAX_MOMENTUM=grid[-1] * UNITS.MeV)
    G.TEMPLATE = grid * UNITS.MeV
    Tdec = o['T'] * (2. if case['dec'] else 0.5) * UNITS.MeV
    p = Particle(mass=m * UNITS.MeV, statistics=S.FERMION if o['eta'] == 1 else S.BOSON,
                 decoupling_temperature=Tdec, grid=G, params=params)
    require(bool(p.in_equilibrium) == (not case['dec']), 'equilibrium')
    if case['dec']:
        p._distribution = p._distribution / (1. + case['scale'])
        ref_m = m * UNITS.MeV * p.aT / Tdec
    else:
        ref_m = m * UNITS.MeV * params.a
    ys = numpy.array(ps) * UNITS.MeV
    got = p.distribution(ys)
    require(got.shape == ys.shape, 'shape of the answer')
    for y, g in zip(ys, got):
        one = float(p.distribution(y))
        close(one, g, 1e-12, 'scalar and vector queries', 1e-300)
        if case['dec']:
            want = versions(G.TEMPLATE, p._distribution, ref_m, o['eta'], p.aT, False)[0][1](y)
        else:
            want = 1 / (math.exp(math.sqrt(y * y + ref_m ** 2) / p.aT) + o['eta'])
        close(g, want, 1e-9, 'occupation at %r MeV' % (y / UNITS.MeV), 1e-300)
    ctx.label('decoupled' if case['dec'] else 'equilibrium')
