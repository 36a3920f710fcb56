"""Make the code under test importable from /repo's current working tree.

* puts /repo on sys.path and (last) the directory that holds Hypothesis,
* builds the two C++ extensions out of tree, with the project's own Makefile
  and the offline stand-ins for pybind11 and GSL in /verif/shim,
* maps `interactions.*.cpp.integral` to the freshly built libraries,
* contains destructive calls made by the code under test.
"""
import glob
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
SHIM = os.path.join(VERIF, 'shim')
CACHE = os.path.join(VERIF, '.build')
MODULES = {
    'interactions.four_particle.cpp.integral': 'interactions/four_particle/cpp',
    'interactions.three_particle.cpp.integral': 'interactions/three_particle/cpp',
}
# every environment variable that the code under test reads
CONFIG_VARS = [
    'SPLIT_COLLISION_INTEGRAL', 'FIXED_ORDER_1D_QUADRATURE', 'GAUSS_LEGENDRE_ORDER',
    'GAUSS_LAGUERRE_ORDER', 'LOGARITHMIC_TIMESTEP', 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION',
    'ADAMS_MOULTON_DISTRIBUTION_CORRECTION', 'MOMENTUM_SAMPLES', 'MAX_MOMENTUM_MEV',
    'MAX_SCALE_FACTOR', 'FOUR_PARTICLE_GRID_RESOLUTION', 'NORMAL_HIERARCHY_NEUTRINOS',
    'REGIME_SWITCHING_FACTOR', 'SIMPSONS_INTEGRATION', 'SIMPSONS_NONEQ_PARTICLES',
    'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES',
    'HNL_ENERGY', 'Relativistic_decoupling', 'STERILE_DECAYED', 'KAWANO', 'SHOW_PLOTS',
]


class HarnessError(Exception):
    """Something is wrong with the machinery: an error exit, never a violation."""


def clean_env(env):
    for name in CONFIG_VARS:
        env.pop(name, None)
    return env


def _key(path):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(path, '*.cpp')) + glob.glob(os.path.join(path, '*.h'))
                   + glob.glob(os.path.join(path, 'Makefile')))
    files += sorted(p for p in glob.glob(os.path.join(SHIM, '**'), recursive=True)
                    if os.path.isfile(p))
    for f in files:
        h.update(os.path.basename(f).encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    try:
        with open('/proc/cpuinfo') as fh:
            for line in fh:
                if line.startswith(('model name', 'flags')):
                    h.update(line.encode())
                    if line.startswith('flags'):
                        break
    except OSError:
        pass
    return h.hexdigest()[:24]


def _build_one(rel):
    src = os.path.join(REPO, rel)
    out = os.path.join(CACHE, rel.replace('/', '_') + '-' + _key(src) + '.so')
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix='pbt-build-')
    try:
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if os.path.isfile(p) and not f.endswith(('.so', '.o')):
                shutil.copy2(p, work)
        env = dict(os.environ)
        env.pop('MAKEFLAGS', None)
        cxx = os.path.join(SHIM, 'bin', 'cxx')
        r = subprocess.run(['make', '-C', work, 'COMPILER=' + cxx], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        so = os.path.join(work, 'integral.so')
        if not os.path.exists(so):
            sources = [f for f in ('integral.cpp', 'Ds.cpp')
                       if os.path.exists(os.path.join(work, f))]
            r2 = subprocess.run([cxx, '-fopenmp', '-fPIC', '-shared', '-o', 'integral.so']
                                + sources + ['-O3', '-ffast-math', '-march=native'],
                                cwd=work, env=env, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True)
            if not os.path.exists(so):
                raise HarnessError('C++ extension %s does not build:\n%s\n%s'
                                   % (rel, r.stdout[-3000:], r2.stdout[-3000:]))
        tmp = out + '.%d.tmp' % os.getpid()
        shutil.copy2(so, tmp)
        os.replace(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def build():
    """Build both extensions (in parallel); returns {module name: path}."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        paths = list(ex.map(_build_one, MODULES.values()))
    return dict(zip(MODULES, paths))


class _Finder(object):
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, name, path=None, target=None):
        if name in self.paths:
            return importlib.util.spec_from_file_location(name, self.paths[name])
        return None


SCRATCH = None


def scratch():
    """A directory of this process that is removed by the runner."""
    global SCRATCH
    if SCRATCH is None:
        base = os.environ.get('PBT_SCRATCH')
        if base:
            os.makedirs(base, exist_ok=True)
        SCRATCH = tempfile.mkdtemp(prefix='pbt-', dir=base)
    return SCRATCH


class Contained(Exception):
    """The code under test tried to touch something outside the scratch directory."""


def _contain():
    """shutil.rmtree of the code under test may only reach our own scratch directory."""
    real = shutil.rmtree

    def guarded(path, *args, **kwargs):
        p = os.path.realpath(os.fspath(path))
        root = os.path.realpath(scratch())
        tmp = os.path.realpath(tempfile.gettempdir())
        base = os.path.basename(p)
        if p.startswith(root + os.sep) or (os.path.dirname(p) == tmp and base.startswith('pbt-')):
            return real(path, *args, **kwargs)
        raise Contained('refused to delete %s' % p)

    shutil.rmtree = guarded


def hypothesis_path():
    for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        if os.path.isdir(os.path.join(p, 'hypothesis')):
            return p
    target = os.path.join(CACHE, 'hypothesis')
    if not os.path.isdir(os.path.join(target, 'hypothesis')):
        os.makedirs(target, exist_ok=True)
        subprocess.run([sys.executable, '-m', 'pip', 'install', '--no-index', '-q', '--find-links',
                        '/opt/veriftools/wheels', '--target', target, 'hypothesis'], check=True)
    return target


_loaded = False


def load(need_cpp=True):
    global _loaded
    if _loaded:
        return
    _loaded = True
    sys.dont_write_bytecode = True
    clean_env(os.environ)
    if need_cpp:
        sys.meta_path.insert(0, _Finder(build()))
    sys.path.insert(0, REPO)
    hp = hypothesis_path()
    if hp not in sys.path:
        sys.path.append(hp)
    _contain()


def python():
    for p in ('/opt/venv/bin/python',):
        if os.path.exists(p):
            return p
    return sys.executable
