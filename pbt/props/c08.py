import numpy as np
from hypothesis import strategies as st

import gen
import sim
from gen import const
from harness import Check, check, close, fail
from props.c01 import room

TECHNIQUE = 'property-based testing: generated cooling seasons, per-step differential of the reported latent load against an independent coil model, sign and idleness invariants'
NOTE = 'sampled houses (1-3 rooms) in warm and humid climates over 1-2 days, and single rooms swept over load, rating and humidity; latent load to 1e-6'
ASSUMPTIONS = ['a whole number of steps per hour', 'the airflow follows the rated line also outside the rated loads (no clamping), and ratings keep it positive', 'rooms without a convective cooler have no coil']

BF = 0.2


def run(case, ctx):
    r = sim.Run(case)
    R, dt, rho = r.R, r.dt, sim.RHO
    w = r.window()
    V, c, g = sim.col(r.V), sim.col([k['mc'] for k in case['rooms']]), sim.col([k['mg'] for k in case['rooms']])
    x0, xf0 = r.prev(R['x_r'], sim.X0), r.prev(R['x_fun'], sim.X0)
    v_out = sim.outdoor_air(r)
    # humidity the room would have without the coil (no air between rooms in this check)
    k = rho * V / dt + rho * v_out + c * g / (c + dt * g)
    x_non = (rho * V / dt * x0 + rho * v_out * r.force('xo') + R['q_l_except_hum'] + R['q_hum_l'] + g * c * xf0 / (c + dt * g)) / k
    q_l = R['l_l_c']
    check(np.all(q_l <= 1e-9), 'the coil adds moisture: latent load %g', float(np.max(q_l)))
    wet = np.zeros_like(q_l, dtype=bool)
    for i, room_ in enumerate(case['rooms']):
        q = -R['l_s_c'][i]
        run_ = (q > 2e-3) & (room_['cool'] == 'conv')
        idle = (q < 0.5e-3) | (room_['cool'] != 'conv')
        check(np.all(q_l[i][idle] == 0), 'room %d: latent load without convective cooling', i)
        ctx.label('idle room')
        ctx.label('heating', np.any(q < -1))
        if not np.any(run_):
            continue
        qmin, qmax, vmin, vmax = room_['rac']
        v = (vmin + (vmax - vmin) * (q - qmin) / (qmax - qmin)) / 60.0
        with np.errstate(all='ignore'):
            te = R['t_r'][i] - q / (1005.0 * 1.2 * v * (1.0 - BF))
            xe = sim.x_of_pv(sim.p_vs(te))
        run_ = run_ & (v > 1e-9)
        run_[:w] = False
        close(np.where(run_, R['x_r'][i], 0), np.where(run_, np.where(q_l[i] == 0, x_non[i], R['x_r'][i]), 0), 'humidity while the coil is dry', rtol=1e-9)
        sure = np.abs(xe - x_non[i]) > 1e-9 + 1e-7 * np.abs(x_non[i])
        wet[i] = run_ & sure & (xe < x_non[i])
        dry = run_ & sure & (xe > x_non[i])
        check(np.all(q_l[i][dry] == 0), 'room %d: water removed by a coil more humid than the room', i)
        want = -sim.L_WTR * rho * v * (1.0 - BF) * (R['x_r'][i] - xe)
        close(q_l[i][wet[i]], want[wet[i]], 'latent load of room %d' % i, rtol=1e-6, atol=1e-4)
        # and the room then has the humidity at which this removal balances
        kk = k[i] + rho * v * (1.0 - BF)
        xw = (k[i] * x_non[i] + rho * v * (1.0 - BF) * xe) / kk
        close(R['x_r'][i][wet[i]], xw[wet[i]], 'humidity of the dehumidified room %d' % i, rtol=1e-8)
        ctx.label('dry coil', np.any(dry))
        ctx.label('wet coil', np.any(wet[i]))
        ctx.label('above the largest rated load', np.any(q[run_] > qmax))
        ctx.label('below the smallest rated load', np.any(q[run_] < qmin))
        ctx.label('frozen coil', np.any(te[wet[i]] < 0))
        ctx.label('wet and dry rooms in one step', len(case['rooms']) > 1 and np.any(wet.any(0) & ~wet.all(0)))
    ctx.nontrivial(np.any(wet))


@st.composite
def single(draw):
    """one or two light rooms swept over load and humidity by gains and outdoor humidity"""
    n = draw(st.integers(1, 2))
    rooms, bounds, fr, off = [], [], [], []
    for i in range(n):
        V = draw(gen.num(15.0, 80.0, 0.1))
        qmax = draw(st.sampled_from([2000.0, 4000.0, 9000.0]))
        vmax = round(qmax * draw(st.sampled_from([0.0012, 0.0016, 0.002, 0.004])), 2)
        qmin = draw(st.sampled_from([200.0, 500.0, 1000.0]))
        vmin = round(vmax * draw(st.sampled_from([0.55, 0.75, 0.9])), 2)
        k = room(V=V, fc=1e5, fg=30.0, mc=draw(st.sampled_from([10.0, 800.0])), mg=draw(st.sampled_from([0.05, 2.0])), next=[0.0] * n,
                 heat='none', cool=draw(st.sampled_from(['conv', 'conv', 'rad', 'none'])), mech=draw(st.sampled_from([0.0, 0.01, 0.05])), nat=0.0)
        k.pop('rac', None)
        if k['cool'] == 'conv':
            k['rac'] = [qmin, qmax, vmin, vmax]
        if k['cool'] == 'rad':
            k['ccap'] = draw(st.sampled_from([200.0, 5000.0]))
        rooms.append(k)
        for m in range(2):
            bounds.append({'k': 'op', 'room': i, 'A': round(V / 2, 2), 'hc': 2.5, 'abs': True, 'w': 1.0, 'fl': 1.0, 'u': draw(gen.num(0.4, 3.0)), 'ri': 0.11, 'htd': 1.0})
            off.append(const(0.0))
        fr.append({'q': draw(gen.channel(gen.num(0.0, 3000.0, 50.0), max_len=8)), 'x': draw(gen.channel(st.sampled_from([0.0, 1e-5, 1e-4, 3e-4]))),
                   'hum': draw(gen.channel(st.sampled_from([0.0, 1.0, 4.0]))), 'dem': draw(gen.channel(st.sampled_from([1.0, 1.0, 0.4, 0.0]), periods=(8, 24, 32))),
                   'vent': const(0.0), 'sol': const(0.0)})
    f = {'To': draw(gen.channel(gen.num(22.0, 38.0, 0.1), lin='any')), 'rh': draw(gen.channel(gen.num(20.0, 98.0, 1.0))), 'off': off, 'rooms': fr}
    return {'story': 1, 'c': 2.0, 'pressure': 'balanced', 'rooms': rooms, 'bounds': bounds, 'f': f, 'days': 1, 'ru': 0, 'rub': 0}


CHECKS = [
    Check('single', single, run, 240, 4000, 'water is removed in some step'),
    Check('houses', lambda: gen.house(climate='hot', max_b=3, days=(1, 2), runup=True), run, 120, 2000, 'as single'),
]
