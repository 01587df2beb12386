import numpy as np

import gen
import sim
from harness import Check, close
from props.c01 import WITNESS_CASE

TECHNIQUE = 'property-based testing: generated houses and driving histories, per-step vapour-balance invariant over the reported history'
NOTE = 'sampled houses (1-3 rooms) over 1-2 days, humid and dry climates; balance residual to 1e-7 of the largest term'
ASSUMPTIONS = ['a whole number of steps per hour', 'results are read from the returned detailed table']


def run(case, ctx):
    r = sim.Run(case)
    R, dt, rho = r.R, r.dt, sim.RHO
    w = r.window()
    V = sim.col(r.V)
    x, x0 = R['x_r'], r.prev(R['x_r'], sim.X0)
    xf, xf0 = R['x_fun'], r.prev(R['x_fun'], sim.X0)
    xo = r.force('xo')[None, :]
    c, g = sim.col([k['mc'] for k in case['rooms']]), sim.col([k['mg'] for k in case['rooms']])

    # furnishings
    res = c / dt * (xf - xf0) - g * (x - xf)
    sim.one_of((c / dt * (np.abs(xf) + np.abs(xf0)) + g * (np.abs(x) + np.abs(xf)))[:, w:], res[:, w:], None, ctx, '',
               'moisture balance of the furnishings', rtol=1e-9, atol=1e-15)
    close(R['q_l_fun'], g * (x - xf), 'vapour from air to furnishings', rtol=1e-7, atol=1e-9 * float(np.max(g)))

    # room air
    v_out = sim.outdoor_air(r)
    vij = sim.between_rooms(case)
    known = rho * V / dt * (x - x0) - rho * v_out * (xo - x) - R['q_l_except_hum'] - R['q_hum_l'] + R['q_l_fun'] - R['l_l_c'] / sim.L_WTR
    arriving = rho * np.dot(vij, x)
    right = known - arriving + rho * vij.sum(1, keepdims=True) * x
    wrong = known - arriving
    scale = rho * V / dt * (np.abs(x) + np.abs(x0)) + rho * v_out * (np.abs(xo) + np.abs(x)) + arriving \
        + np.abs(R['q_l_except_hum']) + np.abs(R['q_l_fun']) + np.abs(R['l_l_c']) / sim.L_WTR
    sim.one_of(scale[:, w:], right[:, w:], wrong[:, w:], ctx, 'F2', 'moisture balance of the room air', rtol=1e-7, atol=1e-14)

    # the parts
    close(R['q_l_except_hum'], r.force('x'), 'moisture of appliances')
    th0 = r.prev(R['t_r'], 15.0)
    q = np.minimum(63.0 - 4.0 * (th0 - 24.0), 119.0)
    close(R['q_hum_l'][:, w:], ((119.0 - q) / sim.L_WTR * r.force('hum'))[:, w:], 'moisture of the occupants', atol=1e-13)
    # relative humidity is that of the reported temperature and humidity ratio
    pv = 101325.0 * x / (x + 0.62198)
    close(R['rh_r'], pv / sim.p_vs(R['t_r']) * 100.0, 'relative humidity', rtol=1e-6)
    for lab in gen.shape_of(case):
        ctx.label(lab)
    dry = np.any(R['l_l_c'] < -1.0)
    ctx.label('dehumidified', dry)
    ctx.label('windows open', np.any(R['v_ntrl'] > 0))
    ctx.label('below 0 degrees', np.any(R['t_r'] < 0))
    ctx.nontrivial(np.ptp(x) > 1e-4 and (dry or np.any(R['q_hum_l'] > 0) or np.any(R['q_l_except_hum'] > 0)))


WITNESS = {'F2': lambda ctx: run(WITNESS_CASE, ctx)}
CHECKS = [
    Check('balance', lambda: gen.house(days=(1, 2), runup=True, air=True), run, 160, 2500,
          'humidity moves by more than 0.1 g/kg and there is a moisture source or a wet coil'),
    Check('summer', lambda: gen.house(rooms=(1, 2), climate='hot', air=True, max_b=3), run, 160, 2000, 'as balance'),
]
