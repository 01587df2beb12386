"""Turns a small JSON case into an input folder of the simulation core, runs it, reads the result.

A case holds rooms, boundaries, and one 'channel' per driving series: {'p': steps per value,
'v': [values], 'lin': interpolate}.  'sph' is the number of steps per hour (4 if absent).  Nothing here is random: a case is a pure function of its JSON."""
import json
import os

import numpy as np

from harness import Violation, need, quiet, scratch

RHO_C = 1005.0 * 1.2
RHO = 1.2
L_WTR = 2501000.0
SIGMA = 5.67e-8


def per_hour(case):
    return case.get('sph', 4)


def per_day(case):
    return 24 * per_hour(case)


def per_year(case):
    return 8760 * per_hour(case)


def span(case):
    """length of the runs, as the arguments of the core"""
    kw = dict(n_d_main=case['days'], n_d_run_up=case['ru'], n_d_run_up_build=case['rub'])
    if 'sph' in case:
        kw['n_step_hourly'] = case['sph']
    return kw


def series(ch, n0, n1, n_year):
    """values of a channel at steps n0..n1-1 (negative steps count back from the year's end)"""
    n = np.arange(n0, n1)
    n = np.where(n < 0, n + n_year, n)
    v = np.asarray(ch['v'], dtype=float)
    k = n // ch['p']
    a = v[k % len(v)]
    if ch.get('lin'):
        b = v[(k + 1) % len(v)]
        fr = (n % ch['p']) / ch['p']
        a = a + (b - a) * fr
    return a


def year(ch, case):
    """full-year array: the used days carry the channel, the rest is constant"""
    ny, day = per_year(case), per_day(case)
    out = np.full(ny, float(ch['v'][0]))
    n = min(ny, (case['days'] + 1) * day)
    out[:n] = series(ch, 0, n, ny)
    if case['ru']:
        m = min(ny, case['ru'] * day)
        out[ny - m:] = series(ch, -m, 0, ny)
    return out


def p_vs(theta):
    """saturation vapour pressure over water (>= 0) or ice, Pa (Sonntag)"""
    th = np.asarray(theta, dtype=float)
    t = th + 273.15
    w = np.exp(-6096.9385 / t + 21.2409642 - 0.02711193 * t + 0.00001673952 * t ** 2 + 2.433502 * np.log(t))
    i = np.exp(-6024.5282 / t + 29.32707 + 0.010613863 * t - 0.000013198825 * t ** 2 - 0.49382577 * np.log(t))
    return np.where(th >= 0.0, w, i)


def x_of_pv(p):
    return 0.622 * p / (101325.0 - p)


def layers(ls):
    return [{'name': 'l%d' % k, 'thermal_resistance': r, 'thermal_capacity': c} for k, (r, c) in enumerate(ls)]


def bound_dict(j, b, case, flr, w):
    k = b['k']
    d = {'id': j, 'name': 'b%d' % (j // 2), 'sub_name': '', 'is_ground': 'true' if k == 'gnd' else 'false',
         'connected_space_id': b['room'], 'area': b['A'], 'h_i': b['hc'] + 5.0, 'h_c': b['hc'], 'flr': flr,
         'is_solar_absorbed': 'True' if b['abs'] else 'False', 'f_mrt_hum': w}
    if k == 'int':
        d['k_outside'] = 0.0
        d['k_inside'] = {'id': b['rear'], 'coef': 1.0}
    else:
        htd = b.get('htd', 1.0)
        d['k_outside'] = htd
        d['k_inside'] = {'id': j, 'coef': 1.0 - htd} if htd < 1.0 else None
    if k in ('ext', 'int'):
        d['spec'] = {'method': 'layers', 'boundary_type': 'internal' if k == 'int' else 'external_general_part',
                     'layers': layers(b['layers']), 'outside_heat_transfer_resistance': b['ro']}
    elif k == 'gnd':
        d['spec'] = {'method': 'layers_ground', 'boundary_type': 'ground', 'layers': layers(b['layers'])}
    else:
        d['spec'] = {'method': 'u_value',
                     'boundary_type': 'external_transparent_part' if k == 'win' else 'external_opaque_part',
                     'u_value': b['u'], 'inside_heat_transfer_resistance': b['ri']}
    return d


def house_dict(case):
    rooms, bounds = case['rooms'], case['bounds']
    nb = len(bounds)
    flr, w = [0.0] * nb, [0.0] * nb
    for i, r in enumerate(rooms):
        js = [j for j in range(nb) if bounds[j]['room'] == i]
        sw = sum(bounds[j]['w'] for j in js)
        sf = sum(bounds[j]['fl'] for j in js)
        for j in js:
            w[j] = bounds[j]['w'] / sw
            flr[j] = bounds[j]['fl'] / sf
    spaces = []
    for i, r in enumerate(rooms):
        cv = {'installed': r['cool'] == 'conv'}
        if r.get('rac'):
            cv.update(zip(('q_min', 'q_max', 'v_min', 'v_max'), r['rac']))
        hr = {'installed': r['heat'] == 'rad'}
        if r['heat'] == 'rad':
            hr['max_capacity'] = r['hcap']
        cr = {'installed': r['cool'] == 'rad'}
        if r['cool'] == 'rad':
            cr['max_capacity'] = r['ccap']
        spaces.append({
            'id': i, 'name': 'room%d' % (i // 2), 'volume': r['V'], 'beta': r['beta'],
            'ventilation': {'mechanical': r['mech'], 'next_spaces': r['next'], 'natural': r['nat']},
            'furniture': {'heat_capacity': r['fc'], 'heat_cond': r['fg'],
                          'moisture_capacity': r['mc'], 'moisture_cond': r['mg']},
            'equipment': {'heating': {'radiative': hr, 'convective': {'installed': r['heat'] == 'conv'}},
                          'cooling': {'radiative': cr, 'convective': cv}}})
    return {'building': {'infiltration_method': 'balance_residential', 'story': case['story'],
                         'c_value': case['c'], 'inside_pressure': case['pressure']},
            'spaces': spaces,
            'boundaries': [bound_dict(j, b, case, flr[j], w[j]) for j, b in enumerate(bounds)]}


ROOM_FILES = (('vent', 'mid_data_local_vent'), ('q', 'mid_data_heat_generation'), ('x', 'mid_data_moisture_generation'),
              ('hum', 'mid_data_occupants'), ('dem', 'mid_data_ac_demand'), ('sol', 'mid_data_q_trs_sol'))


class Forcing:
    def __init__(self, case):
        f = case['f']
        self.to = year(f['To'], case)
        rh = year(f['rh'], case)
        self.xo = np.round(x_of_pv(p_vs(self.to) * rh / 100.0), 9)
        for key, _ in ROOM_FILES:
            setattr(self, key, np.array([year(r[key], case) for r in f['rooms']]))
        off = np.array([year(o, case) for o in f['off']])
        self.tos = np.array([(self.to.mean() if b['k'] == 'gnd' else 0.0 * self.to if b['k'] == 'int' else self.to) + o
                             for b, o in zip(case['bounds'], off)])

    def mutated(self, fn):
        fn(self)
        return self


def _write_table(path, a):
    """[k, steps of the year] -> csv without header; runs of equal rows are written once and repeated"""
    t = np.ascontiguousarray(a.T)
    change = np.flatnonzero(np.any(t[1:] != t[:-1], axis=1)) + 1
    starts = np.concatenate([[0], change, [t.shape[0]]])
    with open(path, 'w') as fh:
        for s, e in zip(starts[:-1], starts[1:]):
            fh.write((','.join(map(repr, t[s].tolist())) + '\n') * int(e - s))


def write_inputs(d, house, fc):
    with open(os.path.join(d, 'mid_data_house.json'), 'w') as fh:
        json.dump(house, fh)
    for key, name in ROOM_FILES:
        _write_table(os.path.join(d, name + '.csv'), getattr(fc, key))
    _write_table(os.path.join(d, 'mid_data_theta_o_sol.csv'), fc.tos)
    body = np.stack([fc.to, fc.xo]).T
    change = np.flatnonzero(np.any(body[1:] != body[:-1], axis=1)) + 1
    starts = np.concatenate([[0], change, [body.shape[0]]])
    with open(os.path.join(d, 'weather.csv'), 'w') as fh:
        fh.write(',temperature,absolute humidity,normal direct solar radiation,horizontal sky solar radiation,'
                 'outward radiation,sun altitude,sun azimuth\n')
        for s, e in zip(starts[:-1], starts[1:]):
            fh.write(('t,' + ','.join(map(repr, body[s].tolist())) + ',0.0,0.0,0.0,0.0,0.0\n') * int(e - s))


def calc(d, **kw):
    from heat_load_calc.core import core
    with quiet():
        return core.calc(input_data_dir=d, **kw)


class Run:
    """Results of one simulation with the inputs beside them, [room, step] and [boundary, step]."""

    def __init__(self, case, fc=None, house=None, keep=None):
        self.case = case
        self.house = house or house_dict(case)
        self.fc = fc or Forcing(case)
        self.n = case['days'] * per_day(case)
        self.dt = 3600.0 / per_hour(case)
        with scratch() as d:
            write_inputs(d, self.house, self.fc)
            self.before = digest(d) if keep else None
            self.ds, self.dd = calc(d, **span(case))
            self.after = digest(d) if keep else None
        self.load(self.dd)

    def col(self, name):
        c = need(self.dd, name, 'the detailed table')
        return np.asarray(c.values if hasattr(c, 'values') else c)

    def load(self, dd):
        case = self.case
        self.ni, self.nj = len(case['rooms']), len(case['bounds'])
        self.room_of = np.array([b['room'] for b in case['bounds']])
        if len(dd) != self.n:
            raise Violation('the detailed table has %d rows for %d days' % (len(dd), case['days']))
        R = {}
        for c in ('ac_operate', 'occupancy', 'hc_hum', 'hr_hum', 't_r', 'rh_r', 'x_r', 'mrt', 'ot', 'q_sol_t', 'q_s_except_hum',
                  'q_l_except_hum', 'q_hum_s', 'q_hum_l', 'l_s_c', 'l_s_r', 'l_l_c', 't_fun', 'q_s_fun', 'q_s_sol_fun',
                  'x_fun', 'q_l_fun', 'v_reak', 'v_ntrl'):
            a = np.array([np.asarray(self.col('rm%d_%s' % (i, c)), dtype=float) for i in range(self.ni)])
            if not np.all(np.isfinite(a)):
                raise Violation('column %s of the detailed table holds a value that is not finite' % c)
            R[c] = a
        R['remarks'] = [list(self.col('rm%d_remarks' % i)) for i in range(self.ni)]
        B = {}
        cnt = [0] * self.ni
        self.local = []
        for j, b in enumerate(case['bounds']):
            self.local.append(cnt[b['room']])
            cnt[b['room']] += 1
        for c in ('t_s', 't_e', 't_b', 'hir_s', 'qir_s', 'hic_s', 'qic_s', 'qisol_s', 'qiall_s'):
            B[c] = np.array([np.asarray(self.col('rm%d_b%d_%s' % (b['room'], self.local[j], c)), dtype=float)
                             for j, b in enumerate(case['bounds'])])
            if not np.all(np.isfinite(B[c])):
                raise Violation('column %s of the detailed table holds a value that is not finite' % c)
        self.R, self.B = R, B
        self.A = np.array([b['A'] for b in case['bounds']])
        self.V = np.array([r['V'] for r in case['rooms']])
        self.P = np.array([[1.0 if b['room'] == i else 0.0 for b in case['bounds']] for i in range(self.ni)])

    # --- series beginning with the state before the first step
    def prev(self, a, init):
        """state at the start of each step, [.., n]; only valid when the run began at step 0"""
        a = np.asarray(a)
        return np.concatenate([np.full((a.shape[0], 1), init), a[:, :-1]], axis=1)

    @property
    def from_start(self):
        return self.case['rub'] == 0

    def window(self):
        """index of the first step whose previous state is known"""
        return 0 if self.from_start else 1

    def force(self, name):
        return getattr(self.fc, name)[..., :self.n]


X0 = float(x_of_pv(p_vs(20.0) * 0.4))


def digest(d):
    import hashlib
    return {n: hashlib.sha1(open(os.path.join(d, n), 'rb').read()).hexdigest() for n in sorted(os.listdir(d))}


# --- reference relations used by several properties ---------------------------------------------
def outdoor_air(run):
    """reported and scheduled air from outside, m3/s [room, step]"""
    mech = np.array([[r['mech']] for r in run.case['rooms']])
    return run.R['v_reak'] + run.R['v_ntrl'] + mech + run.force('vent')


def between_rooms(case):
    """[i, j] air coming into room i from room j, m3/s"""
    return np.array([r['next'] for r in case['rooms']], dtype=float)


def one_of(residual_scale, right, wrong, ctx, fid, what, rtol=1e-7, atol=1e-7):
    """right: residual of the property.  wrong: residual of the listed finding's exact signature (or None)."""
    from harness import fail
    tol = atol + rtol * residual_scale
    if np.all(np.abs(right) <= tol):
        return
    i = np.unravel_index(int(np.argmax(np.abs(right) - tol)), right.shape)
    msg = '%s: off by %.6g at %s (terms of size %.6g)' % (what, right[i], tuple(int(k) for k in i), residual_scale[i])
    if wrong is not None and np.all(np.abs(wrong) <= tol):
        ctx.known(fid, msg)
        return
    fail(msg)


def col(v):
    return np.asarray(v, dtype=float).reshape(-1, 1)
