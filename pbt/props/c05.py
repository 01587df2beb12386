import copy

import numpy as np
from hypothesis import strategies as st

import gen
import sim
from gen import const
from harness import Check, check, close, fail
from props.c01 import room
from props.c04 import factors

TECHNIQUE = 'property-based testing: generated multi-room houses, per-boundary rear-temperature and surface-equation invariants, steady heat-transfer symmetry'
NOTE = 'sampled houses (1-3 rooms, up to 3 internal walls, partly exposed parts, ground floors) over one day from a known initial state; steady twins over 4 days'
ASSUMPTIONS = ['a whole number of steps per hour', 'response coefficients are those property C04 checks', 'the outdoor-side value of a step acts on the whole step']


def run(case, ctx):
    r = sim.Run(case)
    B, R, n = r.B, r.R, r.n
    bounds, js = case['bounds'], r.room_of
    house = sim.house_dict(case)
    ei0 = r.prev(B['t_e'], 15.0)
    tos = r.force('tos')
    beta = sim.col([k['beta'] for k in case['rooms']])
    sol = B['qisol_s'] / sim.col(r.A)
    hc, hr = B['hic_s'], B['hir_s']
    star = np.dot(r.P, hr * sim.col(r.A) * B['t_s']) / np.dot(r.P, hr * sim.col(r.A))
    for j, b in enumerate(bounds):
        rear = b.get('rear', j)
        htd = b.get('htd', 1.0)
        kin = 1.0 if b['k'] == 'int' else 1.0 - htd
        kout = 0.0 if b['k'] == 'int' else htd
        want = kin * ei0[rear] + kout * tos[j]
        close(B['t_b'][j], want, 'rear temperature of boundary %d (%s)' % (j, b['k']), rtol=1e-9, atol=1e-8)
        # surface equation
        p0, p1, t0, t1, rr = factors(house['boundaries'][j]['spec'], r.dt)
        q = B['qiall_s'][j]
        a, t = np.zeros(len(rr)), np.zeros(len(rr))
        cvl = np.zeros(n)
        for i in range(n):
            a = p1 * (q[i - 1] if i else 0.0) + rr * a
            t = t1 * want[i] + rr * t
            cvl[i] = a.sum() + t.sum()
        base = B['t_s'][j] - p0 * q - cvl - t0 * kout * tos[j]
        right = base - t0 * kin * B['t_e'][rear]
        wrong = None
        if b['k'] == 'int':
            k = js[rear]
            # the rear side computed with the films and area of this boundary instead of the rear boundary's own
            flr = bounds[rear]['fl'] / sum(x['fl'] for x in bounds if x['room'] == k)
            rad = flr * (1.0 - beta[k]) * R['l_s_r'][k] / b['A']
            ei = (hc[j] * R['t_r'][k] + hr[j] * star[k] + sol[rear] + rad) / (hc[j] + hr[j])
            wrong = (base - t0 * kin * ei)[None, :]
        scale = np.abs(B['t_s'][j]) + np.abs(p0 * q) + np.abs(cvl) + np.abs(tos[j]) + np.abs(B['t_e'][rear]) + 1.0
        sim.one_of(scale[None, :], right[None, :], wrong, ctx, 'F4', 'surface temperature of boundary %d (%s) against its rear side' % (j, b['k']),
                   rtol=1e-7, atol=1e-6)
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.nontrivial(any(b['k'] == 'int' or b.get('htd', 1.0) < 1.0 for b in bounds))


@st.composite
def twins(draw):
    """two rooms alike in geometry sharing walls; everything constant, different gains and outdoor sides"""
    shared = draw(st.integers(1, 2))
    V = draw(gen.num(10.0, 60.0, 0.1))
    rooms = [room(V=V, fc=1e3, fg=5.0, mech=draw(st.sampled_from([0.0, 0.01])), nat=0.0, next=[0.0, 0.0], heat='none', cool='none') for i in (0, 1)]
    for k in rooms:
        k.pop('rac')
    hc = draw(st.sampled_from([2.5, 4.4, 0.7]))
    mine = []
    for k in range(draw(st.integers(1, 2))):
        mine.append({'k': draw(st.sampled_from(['op', 'win'])), 'A': draw(gen.num(3.0, 20.0)), 'hc': hc, 'abs': True, 'w': 0.5, 'fl': 1.0,
                     'u': draw(gen.num(0.5, 5.0)), 'ri': 0.11, 'htd': draw(st.sampled_from([1.0, 0.7]))})
    bounds = []
    for i in (0, 1):
        bounds += [dict(m, room=i) for m in mine]
    for k in range(shared):
        ls = gen.tame(draw(st.lists(gen.layer(('gyp', 'air', 'ply', 'wood')), min_size=1, max_size=3)), 0.11, both=True, limit=2e4)
        w = {'k': 'int', 'A': draw(gen.num(3.0, 20.0)), 'hc': hc, 'abs': draw(st.booleans()), 'w': 0.5, 'fl': 1.0, 'ro': 0.11}
        n = len(bounds)
        bounds.append(dict(w, room=0, layers=ls, rear=n + 1))
        bounds.append(dict(w, room=1, layers=[list(x) for x in reversed(ls)], rear=n))
    f = {'To': const(draw(gen.num(-10.0, 30.0, 0.5))), 'rh': const(50.0), 'off': [const(draw(st.sampled_from([0.0, 20.0, -5.0]))) if b['k'] != 'int' else const(0.0) for b in bounds],
         'rooms': [{'q': const(draw(st.sampled_from([0.0, 100.0, 500.0]))), 'x': const(0.0), 'hum': const(0.0), 'dem': const(0.0), 'vent': const(0.0),
                    'sol': const(draw(st.sampled_from([0.0, 50.0, 300.0])))} for i in (0, 1)]}
    return {'story': 1, 'c': 0.0, 'pressure': 'balanced', 'rooms': rooms, 'bounds': bounds, 'f': f, 'days': 4, 'ru': 0, 'rub': 0}


def run_twins(case, ctx):
    r = sim.Run(case)
    q = r.B['qiall_s']
    drift = float(np.max(np.abs(q[:, -1] - q[:, -25])))
    size = float(np.max(np.abs(q[:, -1])))
    ctx.label('still drifting', drift > 1e-3 * size)
    if drift > 1e-3 * size:
        return
    big = 0.0
    for j, b in enumerate(case['bounds']):
        if b['k'] != 'int' or b['rear'] < j:
            continue
        q1, q2 = q[j, -1] * b['A'], q[b['rear'], -1] * b['A']
        atol = (50.0 * drift + 4e-3 * size) * b['A']
        close(q1, -q2, 'heat through internal wall %d in steady conditions, leaving one room and entering the other' % j, rtol=1e-6, atol=atol)
        # and it is the temperature difference of the two sides over the resistance between them
        R = sum(x[0] for x in b['layers']) + b['ro']
        close(q1, (r.B['t_s'][j, -1] - r.B['t_e'][b['rear'], -1]) / R * b['A'], 'steady heat flow of internal wall %d' % j, rtol=1e-6, atol=atol)
        big = max(big, abs(q1) / atol)
    ctx.nontrivial(big > 10.0)


WITNESS_CASE = {
    'story': 1, 'c': 0.0, 'pressure': 'balanced',
    'rooms': [room(next=[0.0, 0.0]), room(next=[0.0, 0.0], heat='none', cool='none')],
    'bounds': [{'k': 'op', 'room': 0, 'A': 40.0, 'hc': 2.5, 'abs': True, 'w': 1.0, 'fl': 1.0, 'u': 2.0, 'ri': 0.11, 'htd': 1.0},
               {'k': 'op', 'room': 1, 'A': 20.0, 'hc': 2.5, 'abs': True, 'w': 1.0, 'fl': 1.0, 'u': 2.0, 'ri': 0.11, 'htd': 1.0},
               {'k': 'int', 'room': 0, 'A': 10.0, 'hc': 0.7, 'abs': True, 'w': 1.0, 'fl': 1.0, 'ro': 0.11, 'layers': [[0.1, 10.0]], 'rear': 3},
               {'k': 'int', 'room': 1, 'A': 10.0, 'hc': 5.0, 'abs': True, 'w': 1.0, 'fl': 1.0, 'ro': 0.11, 'layers': [[0.1, 10.0]], 'rear': 2}],
    'f': {'To': const(5.0), 'rh': const(50.0), 'off': [const(0.0)] * 4,
          'rooms': [{'q': const(500.0 * i), 'x': const(0.0), 'hum': const(0.0), 'dem': const(0.0), 'vent': const(0.0), 'sol': const(0.0)} for i in (0, 1)]},
    'days': 1, 'ru': 0, 'rub': 0}
WITNESS = {'F4': lambda ctx: run(WITNESS_CASE, ctx)}
CHECKS = [
    Check('rear', lambda: gen.house(rooms=(1, 3), max_b=4), run, 220, 3500, 'an internal wall or a partly exposed boundary'),
    Check('internal', lambda: gen.house(rooms=(2, 3), max_b=2), run, 80, 1200, 'as rear'),
    Check('steady_twins', twins, run_twins, 48, 600, 'settled, the flow through an internal wall ten times the tolerance'),
]
