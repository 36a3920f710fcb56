"""Builders for the objects of the simulation."""
import math

import numpy


def grid(n=41, top=20., log=False, kind=None):
    """A momentum grid with `n` points up to `top` MeV."""
    from common import LinearSpacedGrid, LogSpacedGrid, UNITS
    if log:
        return LogSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=top * UNITS.MeV)
    return LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=top * UNITS.MeV)


def params(T=10., a_T=1., dy=0.02, H=None, **kw):
    from common import Params, UNITS
    p = Params(T=T * UNITS.MeV, m=kw.pop('m', 1.) * UNITS.MeV, dy=dy, **kw)
    return p


def particle(params=None, mass=0., dof=2, fermion=True, Tdec=0., grid=None, name='Particle',
             symbol='p', **kw):
    from common import UNITS, statistics as S
    from particles import Particle
    kw.setdefault('Q', 0)
    kw.setdefault('majorana', True)
    return Particle(mass=mass * UNITS.MeV, dof=dof, name=name, symbol=symbol,
                    statistics=S.FERMION if fermion else S.BOSON,
                    decoupling_temperature=Tdec * UNITS.MeV, params=params,
                    **({'grid': grid} if grid is not None else {}), **kw)


def advance(params, dx, daT=0., rho=None):
    """One expansion step by the relative amount dx, with a change of aT."""
    params.x *= 1 + dx
    params.aT *= 1 + daT
    params.update(params.T ** 4 * 3.5 if rho is None else rho, params.T ** 3)


def fd(E, eta):
    with numpy.errstate(over='ignore'):
        return 1 / (numpy.exp(E) + eta)


def interaction(cls, *args):
    """An interaction of the code with the behaviour of `cls`."""
    from interactions import Interaction
    return type(cls.__name__, (cls, Interaction), {})(*args)


def Stub(kind, value):
    """A collision integral with prescribed values."""
    from interactions.boltzmann import BoltzmannIntegral
    return type('Stub', (Prescribed, BoltzmannIntegral), {})(kind, value)


class Prescribed(object):

    def __init__(self, kind, value):
        self.kind, self.value = kind, value
        self.reaction, self.Ms, self.sides, self.particle, self.grids = (), [], (), None, None
        self.calls = []

    def integrate(self, ps, stepsize=None):
        self.calls.append((numpy.array(ps, copy=True), stepsize))
        v = self.value(ps)
        return v
