"""Small universes with real collision integrals."""
import contextlib
import io
import os

import numpy

from pbt import world
from pbt.core import require
from pbt.gens import logf

COLS = ['aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S']
REACTIONS = ('annihilation', 'elastic', 'scattering', 'decay', 'pair decay', 'two-body decay')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def contents(st, sterile=False):
    return st.fixed_dictionaries({
        'T': logf(st, 1.5, 8.), 'dy': logf(st, .01, .08),
        'n': st.integers(5, 8), 'top': st.floats(8., 14.).map(lambda x: round(x, 2)),
        'M': st.floats(2.5, 8.).map(lambda x: round(x, 3)), 'N': st.booleans(),
        'boson': st.floats(.3, 2.).map(lambda x: round(x, 3)),
        'sterile': st.booleans() if sterile else st.just(False),
        'dec': st.lists(st.sampled_from([1e6, 1e6, .99, .93, .85]), min_size=4, max_size=4),
        'constant': st.sampled_from([False, False, True]),
        'f': st.lists(st.floats(.3, 1.).map(lambda x: round(x, 3)), min_size=4, max_size=4),
        'reactions': st.lists(st.tuples(st.sampled_from(REACTIONS), logf(st, .02, 1.)),
                              min_size=1, max_size=2, unique_by=lambda x: x[0])})


def settings(log=True, cut=None):
    os.environ['MAX_MOMENTUM_MEV'] = repr(cut or 100)
    os.environ['LOGARITHMIC_TIMESTEP'] = '1' if log else ''
    os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = '0'


def species(case):
    T, M = case['T'], case['T'] * case['M']
    g = lambda: world.grid(case['n'], case['top'] * 1.)
    dec = [d * T for d in case['dec']]
    photon = world.particle(None, dof=2, fermion=False, name='Photon', symbol='g')
    electron = world.particle(None, mass=.511, dof=4, name='Electron', symbol='e', majorana=False, Q=-1)
    X = world.particle(None, dof=2, name='X', symbol='x', majorana=False, grid=g(), Tdec=dec[0])
    Y = world.particle(None, dof=2, name='Y', symbol='y', majorana=False, grid=g(), Tdec=dec[1])
    N = world.particle(None, mass=M, dof=4, name='Sterile neutrino (Dirac)' if case['sterile'] else 'N',
                       symbol='n', majorana=False, grid=g(), Tdec=dec[2])
    B = world.particle(None, mass=case['boson'] * T, dof=1, fermion=False, name='B', symbol='b', grid=g(), Tdec=dec[3])
    return {'g': photon, 'e': electron, 'x': X, 'y': Y, 'n': N, 'b': B}


def interactions(case, p):
    """The interactions of the case, a new set of objects at every call."""
    from common import CONST, UNITS
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    G2 = 32 * CONST.G_F ** 2
    out = []
    for name, size in case['reactions']:
        k = size * G2 * (5 if 'decay' in name else 1e2)
        Ms = (FourParticleM(K1=k, order=(0, 1, 2, 3)), FourParticleM(K1=.4 * k, K2=.1 * k, order=(0, 2, 1, 3)))
        if case['constant']:
            Ms = (FourParticleM(K=2 * k * (case['T'] * UNITS.MeV) ** 4),)
        kind = FourParticleIntegral
        if name == 'annihilation':
            a, b, s = [('x', 0), ('x', 1)], [('e', 0), ('e', 1)], Ms
        elif name == 'elastic':
            a, b, s = [('x', 0), ('y', 0)], [('x', 0), ('y', 0)], Ms
        elif name == 'scattering':
            a, b, s = [('x', 0), ('e', 0)], [('y', 1), ('e', 1)], Ms
        elif name == 'decay':
            a, b, s = [('n', 0)], [('x', 1), ('e', 0), ('e', 1)], Ms
        elif name == 'pair decay':
            a, b, s = [('n', 0)], [('x', 1), ('y', 0), ('y', 1)], Ms
        else:
            a, b = [('n', 0)], [('y', 1), ('b', 1)]
            s = (ThreeParticleM(K=size * 1e-18 * case['T'] ** 2 * UNITS.MeV ** 2),)
            kind = ThreeParticleIntegral
        out.append(CrossGeneratingInteraction(
            name=name, particles=(tuple(p[x] for x, _ in a), tuple(p[x] for x, _ in b)),
            antiparticles=(tuple(bool(x) for _, x in a), tuple(bool(x) for _, x in b)), Ms=s,
            integral_type=kind))
    return out


def start(case, monitor=None):
    """A universe at its first record."""
    from common import Params, UNITS
    from evolution import Universe
    u = Universe(params=Params(T=case['T'] * UNITS.MeV, dy=case['dy'], dx=case['dy'] / case['T'] * UNITS.MeV),
                 max_log_rate=0)
    p = species(case)
    u.add_particles(list(p.values()))
    u.interactions += interactions(case, p)
    for x, k in zip((p['x'], p['y'], p['n'], p['b']), case['f']):
        if not x.in_equilibrium:
            x._distribution = k * x._distribution
    u.params.init_time(u.total_energy_density())
    u.params.update(u.total_energy_density(), u.total_entropy())
    u.save_params()
    return u, p


def step(u):
    u.make_step()
    u.save()
    u.step += 1


def history(u, p):
    out = {k: numpy.array(u.data[k]) for k in COLS}
    for x in p.values():
        for k in ('a', 't', 'T', 'density', 'energy_density'):
            out[x.name + ' ' + k] = numpy.array(x.data['params'][k])
        out[x.name + ' f'] = numpy.array(x.data['distribution'].data)
        out[x.name + ' I'] = numpy.array(x.data['collision_integral'].data)
    return out


def same(a, b, what, tol=1e-7):
    """Equal histories, up to rounding errors."""
    require(sorted(a) == sorted(b), '%s: different columns', what)
    for k in a:
        require(a[k].shape == b[k].shape, '%s: %s has shapes %r and %r', what, k, a[k].shape, b[k].shape)
        if not a[k].size:
            continue
        scale = tol * numpy.max(numpy.abs(b[k]))
        bad = numpy.isnan(a[k]) != numpy.isnan(b[k])
        bad = bad | (numpy.abs(a[k] - b[k]) > scale)
        require(not bad.any(), '%s: %s differs: %r, %r', what, k, a[k][bad][:4], b[k][bad][:4])
