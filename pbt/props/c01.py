import numpy as np

import gen
import sim
from harness import Check, close

TECHNIQUE = 'property-based testing: generated houses and driving histories, per-step heat-balance invariant over the reported history'
NOTE = 'sampled houses (1-3 rooms, up to 5 boundaries per room plus internal walls) over 1-2 days; balance residual to 1e-7 of the largest term'
ASSUMPTIONS = ['a whole number of steps per hour', 'results are read from the returned detailed table']


def run(case, ctx):
    r = sim.Run(case)
    R, dt = r.R, r.dt
    w = r.window()
    V = sim.col(r.V)
    beta = sim.col([x['beta'] for x in case['rooms']])
    to = r.force('to')[None, :]
    c_room = V * sim.RHO_C
    th, th0 = R['t_r'], r.prev(R['t_r'], 15.0)
    n_hum = r.force('hum')

    # occupants
    q_ref = np.minimum(63.0 - 4.0 * (th0 - 24.0), 119.0) * n_hum
    close((R['q_hum_s'] + R['q_hum_l'] * sim.L_WTR)[:, w:], 119.0 * n_hum[:, w:], 'total heat of the occupants')
    close(R['q_hum_s'][:, w:], q_ref[:, w:], 'sensible heat of the occupants')

    # furniture
    c, g = sim.col([x['fc'] for x in case['rooms']]), sim.col([x['fg'] for x in case['rooms']])
    frt, frt0 = R['t_fun'], r.prev(R['t_fun'], 15.0)
    q_sol = 0.5 * r.force('sol')
    close(R['q_s_sol_fun'], q_sol, 'sunlight absorbed by the furniture')
    close(R['q_s_fun'], g * (th - frt), 'heat from air to furniture', rtol=1e-7, atol=1e-7 * (1 + float(np.max(g))))
    lhs = c / dt * (frt - frt0)
    res = lhs - (g * (th - frt) + q_sol)
    scale = c / dt * (np.abs(frt) + 1.0) + g * (np.abs(th) + np.abs(frt)) + q_sol
    sim.one_of(scale[:, w:], res[:, w:], None, ctx, '', 'heat balance of the furniture', rtol=1e-9)

    # room air
    v_out = sim.outdoor_air(r)
    vij = sim.between_rooms(case)
    surf = np.dot(r.P, r.B['qic_s'])
    known = c_room / dt * (th - th0) + surf + R['q_s_fun'] - sim.RHO_C * v_out * (to - th) - R['q_s_except_hum'] - R['q_hum_s'] \
        - R['l_s_c'] - beta * R['l_s_r']
    right = known - sim.RHO_C * (np.dot(vij, th) - vij.sum(1, keepdims=True) * th)
    wrong = known + sim.RHO_C * np.dot(vij, th)
    scale = c_room / dt * (np.abs(th) + np.abs(th0)) + np.dot(r.P, np.abs(r.B['qic_s'])) + np.abs(R['q_s_fun']) \
        + sim.RHO_C * v_out * (np.abs(to) + np.abs(th)) + np.abs(R['l_s_c']) + np.abs(R['l_s_r']) + 1.0
    sim.one_of(scale[:, w:], right[:, w:], wrong[:, w:], ctx, 'F1', 'heat balance of the room air')

    # the parts the balance is made of
    js = r.room_of
    for j in range(r.nj):
        b = case['bounds'][j]
        close(r.B['qic_s'][j], b['A'] * b['hc'] * (th[js[j]] - r.B['t_s'][j]), 'convection of boundary %d' % j, rtol=1e-7, atol=1e-6)
    close(R['q_s_except_hum'], r.force('q'), 'heat of appliances and lighting')
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.label('conditioned', np.any(R['l_s_c'] != 0) or np.any(R['l_s_r'] != 0))
    ctx.label('windows open', np.any(R['v_ntrl'] > 0))
    ctx.label('occupied', np.any(n_hum > 0))
    ctx.nontrivial(np.ptp(th) > 0.5 and np.any(R['v_reak'] > 0) and (np.any(n_hum > 0) or np.any(R['l_s_c'] != 0)))


def witness(ctx):
    run(WITNESS_CASE, ctx)


def room(**kw):
    d = {'V': 60.0, 'nat': 0.08, 'mech': 0.01, 'next': [0.0], 'beta': 0.0, 'fc': 756000.0, 'fg': 166.32, 'mc': 1008.0, 'mg': 1.8144,
         'heat': 'conv', 'cool': 'conv', 'rac': [500.0, 4000.0, 6.0, 11.0]}
    d.update(kw)
    return d


WITNESS_CASE = {
    'story': 1, 'c': 2.0, 'pressure': 'negative',
    'rooms': [room(next=[0.0, 0.02]), room(next=[0.0, 0.0], heat='none', cool='none')],
    'bounds': [{'k': 'ext', 'room': i, 'A': 40.0, 'hc': 2.5, 'abs': True, 'w': 1.0, 'fl': 1.0, 'layers': [[0.3, 50.0], [1.0, 3.0]],
                'ro': 0.11, 'htd': 1.0} for i in (0, 1)],
    'f': {'To': gen.const(5.0), 'rh': gen.const(50.0), 'off': [gen.const(0.0), gen.const(0.0)],
          'rooms': [{'q': gen.const(100.0), 'x': gen.const(1e-5), 'hum': gen.const(1.0), 'dem': gen.const(0.0), 'vent': gen.const(0.0),
                     'sol': gen.const(0.0)} for i in (0, 1)]},
    'days': 1, 'ru': 0, 'rub': 0}
WITNESS = {'F1': witness}


CHECKS = [
    Check('balance', lambda: gen.house(days=(1, 2), runup=True, air=True), run, 200, 3000,
          'room temperature moves by more than 0.5 K, air leaks in, and somebody is there or conditioning runs'),
    Check('single_room', lambda: gen.house(rooms=(1, 1), max_b=4), run, 120, 1500, 'as balance'),
    Check('long', lambda: gen.house(rooms=(1, 2), max_b=3, days=(20, 90), runup=True), run, 16, 160, 'as balance'),
]
