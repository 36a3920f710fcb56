"""P33: the semianalytic estimate of nucleosynthesis."""
import contextlib
import io
import math
import os

import numpy

from pbt.core import law, require, close, all_close, Skip
from pbt.gens import logf
from pbt import world

HEAD = ['t', 'x', 'Tg', 'dTg/dt', 'rho', 'H', 'n nue->p e', 'p e->n nue', 'n->p e nue', 'p e nue->n',
        'n e->p nue', 'p nue->n e']


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def rates(r, ratio):
    """Six rates of which those that destroy neutrons exceed the opposite ones by the ratio."""
    n = [x + 1e-3 for x in r[:3]]
    p = [x + 1e-3 for x in r[3:]]
    f = ratio * sum(p) / sum(n)
    return [n[0] * f, p[0], n[1] * f, p[1], n[2] * f, p[2]]


def history(st):
    row = st.fixed_dictionaries({
        'cool': logf(st, .005, .7),
        # ratio of the rates: within, near, or beyond the limits
        'ratio': st.one_of(*[logf(st, .11, 9.)] * 8 + [logf(st, 10.1, 1e3), logf(st, 1e-3, .099)]),
        'rates': st.lists(st.floats(0, 10), min_size=6, max_size=6), 'record': st.sampled_from([True, True, True, False]),
        'zero': st.sampled_from([False] * 5 + [True])})
    return st.fixed_dictionaries({'T': logf(st, .05, 3.), 'slope': logf(st, 1e-6, 1e3), 'rows': st.lists(row, min_size=3, max_size=16)})


def estimate(u):
    return getattr(u, 'BBN_estimates', None)


@law('P33', history, quick=400, thorough=8000,
     rule='histories of temperatures and nucleon rates; non-trivial when an estimate is made and '
          'neutrons decouple and deuterium forms at different steps')
def estimates(case, ctx):
    import semianalytic
    import kawano
    from common import UNITS, utils
    from evolution import Universe
    with quiet():
        u = Universe(params=world.params(T=case['T'], dy=.01))
    u.kawano = kawano
    u.kawano_data = utils.DynamicRecArray([[h, None, 1.] for h in HEAD])
    u.params.update(3.5 * u.params.T ** 4, u.params.T ** 3)
    dec = deu = made = None
    for i, r in enumerate(case['rows']):
        world.advance(u.params, r['cool'])
        if r['record']:
            v = rates(r['rates'], r['ratio'])
            if r['zero']:
                # the decay and its inverse alone
                v[0] = v[4] = v[1] = v[5] = 0.
                v[2] = r['ratio'] * v[3]
            u.kawano_data.append(dict(zip(HEAD, [u.params.t, u.params.x, u.params.T, -case['slope'], u.params.rho,
                                                 u.params.H] + v)))
            last = r['ratio']
        now = {'T': u.params.T, 't': u.params.t}
        if dec is None and len(u.kawano_data) and (last > 10 or last < .1):
            dec = now
        if deu is None and u.params.T <= .065 * UNITS.MeV:
            deu = now
        with quiet():
            semianalytic.step_monitor(u)
        got = estimate(u)
        require((got is not None) == (dec is not None and deu is not None), 'step %d: estimate %r',
                i, got)
        if got is None:
            continue
        if made is None:
            made = got
            dt = deu['t'] - dec['t']
            ratio = math.exp(-1.2933 * UNITS.MeV / dec['T']) * math.exp(-dt / (885.7 * UNITS.s))
            close(got[0], dt, 1e-9, 'decay time of neutrons', 1e-12 * deu['t'])
            close(got[1], ratio, 1e-3 * max(1, 1.3 * UNITS.MeV / dec['T']), 'neutron to proton ratio')
            close(got[2], 2 * got[1] / (1 + got[1]), 1e-9, 'mass fraction of helium')
            require(0 <= got[2] < 1 or got[1] > 1, 'helium %r', got[2])
            # exact dependence on the mass difference
            close(got[1], math.exp(-kawano.q / dec['T'] - dt / (885.7 * UNITS.s)), 1e-9,
                  'neutron to proton ratio')
        else:
            require(got == made, 'the estimate changes later on')
    if made:
        ctx.label('estimate', 'decoupling first' if dec['T'] > deu['T'] else
                  'together' if dec['T'] == deu['T'] else 'deuterium first')
    ctx.nontrivial(made and dec['T'] != deu['T'])
