import numpy as np
from hypothesis import strategies as st

from harness import Check, check, close, finite, quiet

TECHNIQUE = 'property-based testing: generated floor areas and capacities against the published regression written independently, plus ordering and monotonicity invariants on generated pairs and array/scalar agreement'
NOTE = 'floor areas 0-200 m2 (below 4 m2 only the regression itself, where the standard gives no meaning to the ratings)'
ASSUMPTIONS = ['rated capacities handed to the airflow regression are positive']


def run_area(case, ctx):
    from heat_load_calc.external import rac
    a = np.array(case['area'], dtype=float)
    with quiet():
        qh, qc = rac.get_q_rtd(a.copy())
        xh, xc = rac.get_q_max(qh.copy(), qc.copy())
        vmax = rac.get_v_max(qc.copy())
        vmin = rac.get_v_min(vmax.copy())
    wc = np.minimum(190.5 * a + 45.6, 5600.0)
    close(qc, wc, 'rated cooling capacity', rtol=1e-12)
    close(qh, 1.2090 * wc - 85.1, 'rated heating capacity', rtol=1e-12)
    wx = np.maximum(0.8462 * wc + 1205.9, wc)
    close(xc, wx, 'maximum cooling capacity', rtol=1e-12)
    close(xh, np.maximum(1.7597 * wx - 413.7, 1.2090 * wc - 85.1), 'maximum heating capacity', rtol=1e-12)
    close(vmax, 11.076 * (wc / 1000.0) ** 0.3432, 'maximum airflow', rtol=1e-12)
    close(vmin, 0.55 * vmax, 'minimum airflow', rtol=1e-12)
    finite([qh, qc, xh, xc, vmax, vmin], 'ratings')
    check(bool(np.all(qc <= 5600.0)), 'rated cooling capacity above its cap')
    check(bool(np.all(xc >= qc) and np.all(xh >= qh)), 'maximum below rated capacity')
    check(bool(np.all(vmin < vmax)), 'minimum airflow not below the maximum')
    o = np.argsort(a)
    for name, v in (('rated cooling', qc), ('rated heating', qh), ('maximum cooling', xc), ('maximum heating', xh), ('airflow', vmax), ('minimum airflow', vmin)):
        check(bool(np.all(np.diff(np.asarray(v)[o]) >= -1e-9)), '%s falls with floor area', name)
    for i in range(min(3, len(a))):
        s = rac.get_q_rtd(float(a[i]))
        close(s, [qh[i], qc[i]], 'ratings of a single room', rtol=1e-12)
        close(rac.get_q_max(*s), [xh[i], xc[i]], 'maximum of a single room', rtol=1e-12)
        close(rac.get_v_max(s[1]), vmax[i], 'airflow of a single room', rtol=1e-12)
    for q in (rac.get_q_min_h(), rac.get_q_min_c()):
        close(q, 500.0, 'minimum capacity')
    ctx.label('capped', bool(np.any(qc == 5600.0)))
    ctx.nontrivial(bool(np.any(qc < 5600.0) and np.any(qc == 5600.0)))


def run_capacity(case, ctx):
    """capacities as a user states them, not tied to a floor area"""
    from heat_load_calc.external import rac
    qh, qc = np.array(case['qh'], dtype=float), np.array([q for q in case['qc']], dtype=float)
    n = min(len(qh), len(qc))
    qh, qc = qh[:n], qc[:n]
    xh, xc = rac.get_q_max(qh.copy(), qc.copy())
    close(xc, np.maximum(0.8462 * qc + 1205.9, qc), 'maximum cooling capacity', rtol=1e-12)
    close(xh, np.maximum(1.7597 * np.asarray(xc) - 413.7, qh), 'maximum heating capacity', rtol=1e-12)
    check(bool(np.all(xc >= qc) and np.all(xh >= qh)), 'maximum below rated capacity')
    vmax = rac.get_v_max(qc.copy())
    close(vmax, 11.076 * (qc / 1000.0) ** 0.3432, 'maximum airflow', rtol=1e-12)
    close(rac.get_v_min(vmax), 0.55 * np.asarray(vmax), 'minimum airflow', rtol=1e-12)
    ctx.label('rated cooling is the maximum', bool(np.any(xc == qc)))
    ctx.label('rated heating is the maximum', bool(np.any(xh == qh)))
    ctx.nontrivial(bool(np.any(xc == qc) and np.any(xh == qh)))


def area_cases():
    a = st.one_of(st.floats(0, 200), st.floats(4, 40), st.sampled_from([0.0, 29.157, 6.0, 30.0]))
    return st.fixed_dictionaries({'area': st.lists(a, min_size=1, max_size=12)})


def capacity_cases():
    c = st.one_of(st.floats(100, 40000), st.floats(1000, 9000))
    return st.fixed_dictionaries({'qh': st.lists(c, min_size=1, max_size=10), 'qc': st.lists(c, min_size=1, max_size=10)})


CHECKS = [
    Check('area', area_cases, run_area, 4000, 60000, 'rooms both below and above the cap'),
    Check('capacity', capacity_cases, run_capacity, 4000, 60000, 'the rated value is the larger one in some room, for cooling and heating'),
]
