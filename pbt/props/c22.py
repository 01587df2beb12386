import math

import numpy as np
from hypothesis import strategies as st

from harness import Check, check, close, finite, quiet

TECHNIQUE = 'property-based testing: generated air states against an independently written saturation formula, round trips, vectorised/scalar agreement, monotonicity on generated pairs; PMV against an independent bisection of the clothing heat balance and the published table'
NOTE = 'temperatures -60..100 C, pressures up to the saturation pressure, PMV -10..45 C, 0-2.5 clo, 0.8-4 met, 0-1.5 m/s'
ASSUMPTIONS = ['arrays of temperatures are floating point', 'vapour pressure stays below air pressure',
               'the two functions between humidity ratio and vapour pressure use 0.622 and 0.62198, so a round trip is exact only to 4e-5']

P = 101325.0
WATER = (-6096.9385, 21.2409642, -2.711193e-2, 1.673952e-5, 2.433502)
ICE = (-6024.5282, 29.32707, 1.0613863e-2, -1.3198825e-5, -0.49382577)
# ISO 7730 table D.1: ta, tr, v, rh, met, clo, PMV
TABLE = [(22.0, 22.0, 0.1, 60, 1.2, 0.5, -0.75), (27.0, 27.0, 0.1, 60, 1.2, 0.5, 0.77), (27.0, 27.0, 0.3, 60, 1.2, 0.5, 0.44),
         (23.5, 25.5, 0.1, 60, 1.2, 0.5, -0.01), (23.5, 25.5, 0.3, 60, 1.2, 0.5, -0.55), (19.0, 19.0, 0.1, 40, 1.2, 1.0, -0.60),
         (23.5, 23.5, 0.3, 40, 1.2, 1.0, 0.12), (23.0, 21.0, 0.1, 40, 1.2, 1.0, 0.05),
         (23.0, 21.0, 0.3, 40, 1.2, 1.0, -0.16), (22.0, 22.0, 0.1, 60, 1.6, 0.5, 0.05), (27.0, 27.0, 0.1, 60, 1.6, 0.5, 1.17),
         (27.0, 27.0, 0.3, 60, 1.6, 0.5, 0.95)]


def sat(t, coef):
    a, b, c, d, e = coef
    k = t + 273.15
    return math.exp(a / k + b + c * k + d * k * k + e * math.log(k))


def pvs(t):
    return sat(t, WATER if t >= 0 else ICE)


def run_air(case, ctx):
    from heat_load_calc.external import psychrometrics as m
    ts = np.array(case['t'], dtype=float)
    want = np.array([pvs(t) for t in ts])
    with quiet():
        one = np.array([m.get_p_vs(float(t)) for t in ts])
        vec, vec2 = m.get_p_vs_is(ts.copy()), m.get_p_vs_is2(ts.copy())
    for name, got in (('scalar', one), ('vectorised', vec), ('array', vec2)):
        check(np.shape(got) == ts.shape, 'saturation pressure (%s) has shape %s', name, np.shape(got))
        close(got, want, 'saturation pressure (%s)' % name, rtol=1e-10, atol=0)
    if ts.size % 2 == 0:
        two = m.get_p_vs_is2(ts.reshape(2, -1).copy())
        close(two, want.reshape(2, -1), 'saturation pressure (array of two dimensions)', rtol=1e-10, atol=0)
    o = np.argsort(ts)
    gap = np.diff(ts[o]) > 1e-6
    check(bool(np.all(np.diff(vec2[o])[gap] > 0)), 'saturation pressure does not rise with temperature')
    close(m.get_f(), P, 'air pressure', rtol=1e-12)
    # humidity of air at those temperatures
    rh = np.array(case['rh'][:len(ts)] + [50.0] * (len(ts) - len(case['rh'])))
    pv = np.minimum(want, 0.9 * P) * rh / 100.0
    x = np.array([m.get_x(float(p)) for p in pv])
    close(x, 0.622 * pv / (P - pv), 'humidity ratio', rtol=1e-12, atol=0)
    close(m.get_x(pv.copy()), x, 'humidity ratio of an array', rtol=1e-12, atol=0)
    back = m.get_p_v_r_is_n(x.copy())
    close(back, P * x / (x + 0.62198), 'vapour pressure', rtol=1e-12, atol=0)
    close(back, pv, 'vapour pressure after a round trip', rtol=4e-5, atol=1e-12)
    h = m.get_h(pv.copy(), want.copy())
    close(h, pv / want * 100.0, 'relative humidity', rtol=1e-12, atol=0)
    o = np.argsort(pv)
    gap = np.diff(pv[o]) > 1e-6 * pv[o][1:] + 1e-100
    check(bool(np.all(np.diff(x[o])[gap] > 0)) and bool(np.all(np.diff(back[o])[gap] > 0)), 'humidity ratio and vapour pressure do not rise together')
    check(bool(np.all(x >= 0) and np.all(h >= 0)), 'negative humidity')
    ctx.label('ice', bool(np.any(ts < 0)))
    ctx.label('water', bool(np.any(ts >= 0)))
    ctx.label('dry', bool(np.any(pv == 0)))
    ctx.nontrivial(bool(np.any(ts < 0) and np.any(ts >= 0) and np.any(pv > 0)))


def balance(ta, tr, v, icl, m, w):
    """clothing surface temperature, by bisection of its heat balance"""
    fcl = 1.0 + 1.29 * icl if icl <= 0.078 else 1.05 + 0.645 * icl
    skin = 35.7 - 0.028 * (m - w)

    def hc(t):
        return max(12.1 * math.sqrt(v), 2.38 * abs(t - ta) ** 0.25)

    def lost(t):
        return 3.96e-8 * fcl * ((t + 273.0) ** 4 - (tr + 273.0) ** 4) + fcl * hc(t) * (t - ta)

    lo, hi = -150.0, 200.0
    for _ in range(100):
        mid = 0.5 * (lo + hi)
        if skin - icl * lost(mid) - mid > 0:
            lo = mid
        else:
            hi = mid
    t = 0.5 * (lo + hi)
    return t, fcl, hc(t), lost(t), skin


def pmv_of(ta, tr, v, rh, met, clo, work):
    m, w = met * 58.15, work * 58.15
    pa = rh / 100.0 * sat(ta, WATER)
    t, fcl, hc, lost, skin = balance(ta, tr, v, clo * 0.155, m, w)
    loss = 3.05e-3 * (5733.0 - 6.99 * (m - w) - pa) + max(0.0, 0.42 * (m - w - 58.15)) + 1.7e-5 * m * (5867.0 - pa) + 0.0014 * m * (34.0 - ta)
    return (0.303 * math.exp(-0.036 * m) + 0.028) * (m - w - loss - lost)


def call(c):
    from heat_load_calc.external import iso7730
    ta, tr, v, rh, met, clo, work = c
    with quiet():
        return iso7730.get_pmv_ppd(met_value=met, p_eff=work, t_a=ta, t_r_bar=tr, clo_value=clo, v_ar=v, rh=rh)


def ppd_of(p):
    return 100.0 - 95.0 * math.exp(-0.03353 * p ** 4 - 0.2179 * p ** 2)


def run_pmv(case, ctx):
    from heat_load_calc.external import iso7730
    c = tuple(case['state'])
    ta, tr, v, rh, met, clo, work = c
    pmv, ppd = call(c)
    finite([pmv, ppd], 'PMV and PPD')
    close(pmv, pmv_of(*c), 'PMV', rtol=1e-6, atol=2e-5)
    close(ppd, ppd_of(pmv), 'PPD', rtol=1e-9, atol=1e-9)
    check(5.0 - 1e-9 <= ppd <= 100.0 + 1e-9, 'PPD %s is outside 5..100', ppd)
    # the pieces
    m, w, icl = met * 58.15, work * 58.15, clo * 0.155
    t, fcl, hc, lost, skin = balance(ta, tr, v, icl, m, w)
    close(iso7730.get_f_cl(icl), fcl, 'clothing area factor', rtol=1e-12)
    close(iso7730.get_skin_temperature(m, w), skin, 'skin temperature', rtol=1e-12)
    tt = t + case['off']
    close(iso7730.get_h_c(ta, tt, v), max(12.1 * math.sqrt(v), 2.38 * abs(tt - ta) ** 0.25), 'convective coefficient', rtol=1e-12)
    p_s, dp = iso7730.saturated_vapor_pressure_SONNTAG('water', ta + 273.15)
    close(p_s, sat(ta, WATER), 'saturation pressure over water', rtol=1e-10)
    for status, coef in (('water', WATER), ('ice', ICE)):
        p_s, dp = iso7730.saturated_vapor_pressure_SONNTAG(status, ta + 273.15)
        close(p_s, sat(ta, coef), 'saturation pressure over ' + status, rtol=1e-10)
        close(dp, (sat(ta + 1e-3, coef) - sat(ta - 1e-3, coef)) / 2e-3, 'its derivative over ' + status, rtol=1e-5)
    close(iso7730.get_p_a(rh, ta), rh / 100.0 * sat(ta, WATER), 'vapour pressure of the air', rtol=1e-10)
    # sensation grows with
    d = case['step']
    for what, other in (('air temperature', (ta + d, tr, v, rh, met, clo, work)), ('radiant temperature', (ta, tr + d, v, rh, met, clo, work)),
                        ('humidity', (ta, tr, v, min(100.0, rh + 10 * d), met, clo, work))):
        check(call(other)[0] >= pmv - 1e-5, 'PMV falls from %.6f when %s rises', pmv, what)
    # (the area factor of the standard steps down by 0.0003 at 0.078 m2K/W)
    more = call((ta, tr, v, rh, met, clo + d / 10, work))[0]
    if max(ta, tr) < skin:
        check(more >= pmv - 1e-5, 'PMV falls from %.6f to %.6f with more clothing in surroundings below skin temperature', pmv, more)
    ctx.label('naked', clo == 0)
    ctx.label('hot', min(ta, tr) > skin)
    ctx.label('still air', 12.1 * math.sqrt(v) < hc)
    ctx.label('external work', work > 0)
    ctx.nontrivial(clo > 0 and ta != tr and rh > 0)


def run_table(case, ctx):
    ta, tr, v, rh, met, clo, want = TABLE[case['row']]
    pmv, _ = call((ta, tr, v, float(rh), met, clo, 0.0))
    # the published table is computed with (t+273) and a rough vapour pressure and is given to a tenth or so
    close(pmv, want, 'PMV of row %d of the table of ISO 7730' % (case['row'] + 1), rtol=0, atol=0.1)
    ctx.nontrivial()


def air_cases():
    t = st.one_of(st.floats(-60, 100), st.floats(-5, 5), st.sampled_from([0.0, -1e-9, 1e-9, -0.0, 100.0, -60.0, 20.0]))
    return st.fixed_dictionaries({'t': st.lists(t, min_size=1, max_size=30),
                                  'rh': st.lists(st.one_of(st.floats(0, 100), st.sampled_from([0.0, 100.0])), max_size=30)})


def pmv_cases():
    t = st.one_of(st.floats(-10, 45), st.floats(18, 30))
    return st.fixed_dictionaries({
        'state': st.tuples(t, t, st.one_of(st.floats(0, 1.5), st.sampled_from([0.0, 0.1])), st.one_of(st.floats(0, 100), st.sampled_from([0.0, 100.0])),
                           st.floats(0.8, 4.0), st.one_of(st.floats(0, 2.5), st.sampled_from([0.0, 0.078 / 0.155])), st.one_of(st.just(0.0), st.floats(0, 0.5))).map(list),
        'off': st.floats(-5, 5), 'step': st.floats(0.01, 5)})


def table_cases():
    return st.fixed_dictionaries({'row': st.integers(0, len(TABLE) - 1)})


CHECKS = [
    Check('air', air_cases, run_air, 4000, 60000, 'temperatures on both sides of freezing and some vapour'),
    Check('pmv', pmv_cases, run_pmv, 4000, 60000, 'clothed, radiant and air temperature differ, some vapour'),
    Check('table', table_cases, run_table, 40, 40, 'every row', fixed=[{'row': i} for i in range(len(TABLE))]),
]
