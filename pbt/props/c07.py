import json

import numpy as np
from hypothesis import strategies as st

import gen
import pmvref
import sim
from harness import Check, check, close, fail, need

TECHNIQUE = 'property-based testing: generated houses and histories, the reported mode sequence checked step by step against a reference state machine and comfort model'
NOTE = 'sampled houses (1-3 rooms) over 1-3 days and all four modes; remarks and coefficients compared exactly, sensation to 1e-7 around the limits'
ASSUMPTIONS = ['a whole number of steps per hour', 'the sensation of a step is that of the air, radiant temperature and humidity at its start', 'metabolic rate 1 met, constant film coefficients']


def run(case, ctx):
    r = sim.Run(case)
    R = r.R
    w = r.window()
    dem = r.force('dem')
    close(R['occupancy'], dem, 'reported demand')
    close(R['hc_hum'], pmvref.HC, 'convective coefficient of the occupant')
    close(R['hr_hum'], pmvref.HR, 'radiative coefficient of the occupant', rtol=1e-9)
    kc = pmvref.HC / (pmvref.HC + pmvref.HR)
    steps, kinds = 0, set()
    for i, room in enumerate(case['rooms']):
        th, mrt, x = (r.prev(R[k], v)[i] for k, v in (('t_r', 15.0), ('mrt', 15.0), ('x_r', sim.X0)))
        mode = R['ac_operate'][i].astype(int)
        ot = kc * th + (1 - kc) * mrt
        p = pmvref.pv(x)
        sens = {c: pmvref.pmv(th, ot, p, c) for c in (1.1, 0.7, 0.3)}
        was = np.concatenate([[pmvref.CLOSE], mode[:-1]])
        for n in range(w, r.n):
            ok = pmvref.next_modes(was[n], dem[i, n], sens[1.1][n], sens[0.7][n], sens[0.3][n])
            if mode[n] not in ok:
                fail('room %d step %d: mode %d after mode %d with demand %g and sensation heavy %.4f middle %.4f light %.4f, the rules give %s' % (
                    i, n, mode[n], was[n], dem[i, n], sens[1.1][n], sens[0.7][n], sens[0.3][n], sorted(ok)))
            kinds.add((was[n], mode[n]))
        for n in range(r.n):
            d = json.loads(R['remarks'][i][n])
            close(need(d, 'pmv_target', 'remarks'), pmvref.TARGET[mode[n]], 'aimed sensation of mode %d' % mode[n])
            close(need(d, 'clo', 'remarks'), pmvref.CLO[mode[n]], 'clothing of mode %d' % mode[n])
            close(need(d, 'v_hum m/s', 'remarks'), pmvref.air_speed(mode[n], room['heat'], room['cool']), 'air speed of mode %d' % mode[n])
    for a, b in kinds:
        ctx.label('%d->%d' % (a, b))
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.nontrivial(len({b for a, b in kinds}) >= 3)


def run_direct(case, ctx):
    """the comfort functions: target and sensation are inverse to each other, the mode table is the documented one"""
    from heat_load_calc.core import ot_target_pmv as otp
    from heat_load_calc.core.operation_mode import OperationMode
    rows = case['rows']
    col = lambda k, t=float: np.array([[t(x[k])] for x in rows])   # noqa: E731
    x, th, mrt, dem = col('x'), col('th'), col('mrt'), col('dem')
    prev = np.array([[OperationMode(x['mode'])] for x in rows])
    rh, rc = col('rh', bool), col('rc', bool)
    hc, hr, mode, tgt, rem = otp.get_ot_target_and_h_hum_with_pmv(
        x_r_is_n=x, operation_mode_is_n_mns=prev, is_radiative_heating_is=rh, is_radiative_cooling_is=rc,
        theta_r_is_n=th, theta_mrt_is_n=mrt, ac_demand_is_n=dem, method='constant')
    seen = set()
    for k, row in enumerate(rows):
        p = pmvref.pv(row['x'])
        kc = pmvref.HC / (pmvref.HC + pmvref.HR)
        ot = kc * row['th'] + (1 - kc) * row['mrt']
        ok = pmvref.next_modes(row['mode'], row['dem'], *[pmvref.pmv(row['th'], ot, p, c) for c in (1.1, 0.7, 0.3)])
        m = int(mode[k, 0])
        check(m in ok, 'mode %d after %d, the rules give %s', m, row['mode'], sorted(ok))
        if m in (1, 2):
            close(tgt[k, 0], pmvref.target(p, m), 'target of mode %d' % m, rtol=1e-7, atol=1e-6)
        seen.add((row['mode'], m))
        close(rem[k]['v_hum m/s'], pmvref.air_speed(m, 'rad' if row['rh'] else '', 'rad' if row['rc'] else ''), 'air speed')
    for a, b in seen:
        ctx.label('%d->%d' % (a, b))
    ctx.nontrivial(len(seen) > 1)


def run_converged(case, ctx):
    """the same with film coefficients of the clothing surface instead of constant ones"""
    from heat_load_calc.core import ot_target_pmv as otp
    from heat_load_calc.core.operation_mode import OperationMode
    rows = case['rows']
    col = lambda k, t=float: np.array([[t(x[k])] for x in rows])   # noqa: E731
    hc, hr, mode, tgt, rem = otp.get_ot_target_and_h_hum_with_pmv(
        x_r_is_n=col('x'), operation_mode_is_n_mns=np.array([[OperationMode(x['mode'])] for x in rows]), is_radiative_heating_is=col('rh', bool),
        is_radiative_cooling_is=col('rc', bool), theta_r_is_n=col('th'), theta_mrt_is_n=col('mrt'), ac_demand_is_n=col('dem'))
    kinds = set()
    for k, row in enumerate(rows):
        p, eq = pmvref.pv(row['x']), ('rad' if row['rh'] else '', 'rad' if row['rc'] else '')
        v = pmvref.air_speed(row['mode'], *eq)
        sens = []
        for clo in (1.1, 0.7, 0.3):
            a, b = pmvref.film(row['th'], row['mrt'], clo, v)
            sens.append(pmvref.pmv(row['th'], (a * row['th'] + b * row['mrt']) / (a + b), p, clo, a + b))
        ok = pmvref.next_modes(row['mode'], row['dem'], *sens, eps=1e-5)
        m = int(mode[k, 0])
        check(m in ok, 'mode %d after %d, the rules give %s for sensations %s', m, row['mode'], sorted(ok), sens)
        v = pmvref.air_speed(m, *eq)
        close(rem[k]['v_hum m/s'], v, 'air speed')
        a, b = pmvref.film(row['th'], row['mrt'], pmvref.CLO[m], v)
        close(hc[k, 0], a, 'convective film coefficient of the occupant', rtol=1e-4, atol=1e-3)
        close(hr[k, 0], b, 'radiative film coefficient of the occupant', rtol=1e-6)
        if m in (1, 2):
            h = hc[k, 0] + hr[k, 0]
            close(pmvref.pmv(tgt[k, 0], tgt[k, 0], p, pmvref.CLO[m], h), pmvref.TARGET[m], 'sensation at the target of mode %d' % m, rtol=0, atol=1e-6)
        kinds.add('still air' if a > 12.1 * v ** .5 else 'moving air')
    for a in kinds:
        ctx.label(a)
    ctx.nontrivial(len(rows) > 1)


def rows():
    row = st.fixed_dictionaries({
        'x': gen.num(0.0, 0.03, 0.0001), 'th': gen.num(5.0, 40.0, 0.1), 'mrt': gen.num(5.0, 40.0, 0.1),
        'dem': st.sampled_from([0.0, 1.0, 0.3, 1.0, 0.01]), 'mode': st.sampled_from([1, 2, 3, 4]), 'rh': st.booleans(), 'rc': st.booleans()})
    near = st.fixed_dictionaries({
        'x': gen.num(0.004, 0.015, 0.0001), 'th': gen.num(17.0, 31.0, 0.05), 'mrt': gen.num(17.0, 31.0, 0.05),
        'dem': st.just(1.0), 'mode': st.sampled_from([1, 2, 3, 4]), 'rh': st.booleans(), 'rc': st.booleans()})
    return st.fixed_dictionaries({'rows': st.lists(st.one_of(row, near), min_size=1, max_size=8)})


CHECKS = [
    Check('modes', lambda: gen.house(days=(1, 2), runup=True, max_b=3), run, 160, 2500, 'three different modes are reached'),
    Check('mild', lambda: gen.house(days=(1, 2), climate='mild', max_b=3, rooms=(1, 2)), run, 120, 2000, 'as modes'),
    Check('direct', rows, run_direct, 1500, 40000, 'rooms with two different transitions'),
    Check('converged', rows, run_converged, 1200, 30000, 'several rooms at once'),
]
