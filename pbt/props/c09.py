import copy

import numpy as np
from hypothesis import strategies as st

import gen
import sim
from harness import Check, check, close, fail

TECHNIQUE = 'property-based testing: generated buildings and weather, per-step differential against an independent infiltration formula, window-mode invariant, airflow recovered from the vapour balance, metamorphic volume split'
NOTE = 'sampled houses (1-4 rooms), airtightness 0-20, both storey counts, three pressure conditions, one day; airflow to 1e-9 relative'
ASSUMPTIONS = ['a whole number of steps per hour', 'infiltration of a step uses the room temperatures at its start and the outdoor temperature of the step']

SLOPE = {1: 0.022, 2: 0.020}
LOSS = {'balanced': {1: 0.0, 2: 0.0}, 'positive': {1: 0.26, 2: 0.14}, 'negative': {1: 0.28, 2: 0.13}}


def rate(case, mean, to):
    d = np.sqrt(np.abs(mean - to))
    return np.maximum(SLOPE[case['story']] * case['c'] * d - LOSS[case['pressure']][case['story']], 0.0)


def run(case, ctx):
    r = sim.Run(case)
    R, w = r.R, r.window()
    to = r.force('to')
    th0 = r.prev(R['t_r'], 15.0)
    mean = (r.V[:, None] * th0).sum(0) / r.V.sum()
    want = rate(case, mean, to) * sim.col(r.V) / 3600.0
    check(np.all(R['v_reak'] >= 0), 'negative infiltration %g', float(R['v_reak'].min()))
    # (the square root magnifies rounding where both temperatures coincide)
    close(R['v_reak'][:, w:], want[:, w:], 'infiltration', rtol=1e-7, atol=1e-9 + 1e-7 * case['c'] * float(r.V.max()) / 3600.0)
    nat = sim.col([k['nat'] for k in case['rooms']])
    is_open = R['ac_operate'] == 3
    close(R['v_ntrl'], np.where(is_open, nat, 0.0), 'natural ventilation', rtol=1e-12, atol=0)
    # total outdoor air as the humidity of the rooms shows it, where that is well conditioned
    c, g = sim.col([k['mc'] for k in case['rooms']]), sim.col([k['mg'] for k in case['rooms']])
    x, x0 = R['x_r'], r.prev(R['x_r'], sim.X0)
    xo = r.force('xo')
    gain = sim.RHO * sim.col(r.V) / r.dt * (x - x0) - R['q_l_except_hum'] - R['q_hum_l'] + R['q_l_fun'] - R['l_l_c'] / sim.L_WTR
    noise = 1e-13 + 1e-8 * (sim.RHO * sim.col(r.V) / r.dt * np.abs(x) + np.abs(R['q_l_fun']) + np.abs(R['l_l_c']) / sim.L_WTR)
    v = sim.outdoor_air(r)
    d = sim.RHO * v * (xo - x) - gain
    d[:, :w] = 0.0
    ok = np.abs(d) <= noise + 1e-7 * sim.RHO * v * np.abs(xo - x)
    if not np.all(ok):
        i = np.unravel_index(int(np.argmin(ok)), ok.shape)
        fail('room %d step %d: outdoor air %.6g m3/s from infiltration, windows, constant and local ventilation, but the humidity shows %.6g' % (
            i[0], i[1], v[i], gain[i] / sim.RHO / (xo[i[1]] - x[i])))
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.label('%s %d' % (case['pressure'], case['story']))
    ctx.label('windows open', np.any(R['v_ntrl'] > 0))
    ctx.label('windows open and closed', np.any(is_open) and not np.all(is_open))
    ctx.label('no infiltration in some step', np.any(R['v_reak'] == 0) and case['c'] > 0)
    ctx.label('warmer outside', np.any(mean < to))
    ctx.nontrivial(np.any(R['v_reak'] > 0))


@st.composite
def leaky(draw):
    """mild weather and occupied rooms so that windows open and close; airtightness up to 20"""
    c = draw(gen.house(rooms=(1, 4), max_b=2, climate=draw(st.sampled_from(['mild', 'mild', 'any', 'cold', 'hot'])), runup=False))
    c['c'] = draw(gen.num(0.0, 20.0, 0.1))
    for k in c['rooms']:
        k['nat'] = k['V'] * draw(st.sampled_from([5.0, 20.0, 0.7, 0.0])) / 3600.0
    for f in c['f']['rooms']:
        f['dem'] = draw(gen.channel(st.sampled_from([1.0, 1.0, 1.0, 0.0]), periods=(16, 32, 48)))
        if draw(st.booleans()):
            f['vent'] = draw(gen.channel(st.sampled_from([0.0, 0.02, 0.1])))
    return c


@st.composite
def split(draw):
    """two equal rooms without a shared wall: the same house with other volumes of one room only moves by the mean temperature"""
    c = draw(gen.house(rooms=(1, 1), max_b=3))
    return c


def run_split(case, ctx):
    """a house of two identical separate rooms ventilates each like the one-room house"""
    two = copy.deepcopy(case)
    two['rooms'] = [copy.deepcopy(case['rooms'][0]) for _ in (0, 1)]
    for k in two['rooms']:
        k['next'] = [0.0, 0.0]
    two['bounds'] = [dict(copy.deepcopy(b), room=i) for i in (0, 1) for b in case['bounds']]
    two['f']['rooms'] = [copy.deepcopy(case['f']['rooms'][0]) for _ in (0, 1)]
    two['f']['off'] = copy.deepcopy(case['f']['off']) * 2
    a, b = sim.Run(case), sim.Run(two)
    for i in (0, 1):
        close(b.R['v_reak'][i], a.R['v_reak'][0], 'infiltration of room %d of the doubled house' % i, rtol=1e-6, atol=1e-9 + 1e-5 * case['c'] * float(a.V.max()) / 3600.0)
        close(b.R['v_ntrl'][i], a.R['v_ntrl'][0], 'natural ventilation of room %d of the doubled house' % i, rtol=1e-9, atol=0)
    ctx.nontrivial(np.any(a.R['v_reak'] > 0))


CHECKS = [
    Check('airflow', leaky, run, 320, 5000, 'air leaks in at some step'),
    Check('doubled', split, run_split, 40, 600, 'air leaks in at some step'),
]
