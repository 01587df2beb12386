import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

import hgen
from harness import Check, Violation, check, close, finite, fail, need, quiet, rejects, scratch

TECHNIQUE = 'property-based testing: generated house descriptions with every kind of boundary and equipment; an independent translation is compared item by item, prepared houses are simulated for a day, and generated invalid variants of valid descriptions must be refused'
NOTE = '1-3 rooms, up to 16 boundaries in arbitrary order; every room has floor and other boundaries; 14 kinds of invalidity'
ASSUMPTIONS = ['boundary identifiers are the positions in the list', 'every room has a floor and at least one other boundary', 'the kind underfloor has no published schedule and is only translated, not simulated']


def truth(v, what):
    if isinstance(v, bool):
        return v
    if isinstance(v, str) and v.lower() in ('true', 'false'):
        return v.lower() == 'true'
    fail('%s is %r' % (what, v))


def layers_of(s):
    return [(l['thermal_resistance'], l['thermal_capacity']) for l in s]


def judge(d, h):
    rooms, bs = d['rooms'], d['boundaries']
    b = need(h, 'building')
    for k in ('story', 'c_value', 'inside_pressure'):
        check(need(b, k) == d['building'][k], 'building item %s is %r instead of %r', k, b[k], d['building'][k])
    check(need(b, 'infiltration_method') == 'balance_residential', 'infiltration method %r', b['infiltration_method'])
    sp = need(h, 'spaces')
    check(len(sp) == len(rooms), '%d rooms became %d', len(rooms), len(sp))
    for i, (r, s) in enumerate(zip(rooms, sp)):
        w = 'room %d: ' % i
        check(need(s, 'id') == i and need(s, 'name') == r['name'], w + 'identifier or name changed')
        V = r['volume']
        close(need(s, 'volume'), V, w + 'volume')
        close(need(s, 'beta'), 0.0, w + 'beta')
        v = need(s, 'ventilation')
        close(need(v, 'mechanical'), r['vent'] / 3600.0, w + 'mechanical ventilation', atol=1e-12)
        close(need(v, 'natural'), V * r['natural_vent_time'] / 3600.0, w + 'natural ventilation', atol=1e-12)
        want = [sum(x['volume'] for x in r['next_vent'] if x['upstream_room_id'] == m) / 3600.0 for m in range(len(rooms))]
        close(need(v, 'next_spaces'), want, w + 'air from other rooms', atol=1e-12)
        f = need(s, 'furniture')
        close(need(f, 'heat_capacity'), 12.6 * 1000.0 * V, w + 'furniture heat capacity')
        close(need(f, 'heat_cond'), 0.00022 * 12600.0 * V, w + 'furniture heat conductance')
        close(need(f, 'moisture_capacity'), 16.8 * V, w + 'furniture moisture capacity')
        close(need(f, 'moisture_cond'), 0.0018 * 16.8 * V, w + 'furniture moisture conductance')
        e = need(s, 'equipment')
        for mode in ('heating', 'cooling'):
            q = r[mode + '_equipment']
            m = need(e, mode)
            for sort, key in (('convective', 'convective'), ('radiative', 'radiative')):
                check(truth(need(need(m, sort), 'installed'), w + mode) == (q['equipment_type'] == key), w + '%s %s installed wrongly', sort, mode)
            if q['equipment_type'] == 'radiative':
                close(need(m['radiative'], 'max_capacity'), q['radiative']['max_capacity'] * q['radiative']['area'], w + 'radiant %s capacity' % mode)
            if q['equipment_type'] == 'convective' and mode == 'cooling':
                for k in ('q_min', 'q_max', 'v_min', 'v_max'):
                    close(need(m['convective'], k), q['convective'][k], w + '%s of the %s' % (k, mode))
    hb = need(h, 'boundaries')
    check(len(hb) == len(bs), '%d boundaries became %d', len(bs), len(hb))
    for j, (x, y) in enumerate(zip(bs, hb)):
        w = 'boundary %d (%s): ' % (j, x['boundary_type'])
        k = x['boundary_type']
        check(need(y, 'id') == j and need(y, 'name') == x['name'], w + 'identifier or name changed')
        check(need(y, 'connected_space_id') == x['connected_room_id'], w + 'belongs to room %s', y['connected_space_id'])
        check(truth(need(y, 'is_ground'), w) == (k == 'ground'), w + 'ground flag')
        check(truth(need(y, 'is_solar_absorbed'), w) == x['is_solar_absorbed_inside'], w + 'solar absorption flag')
        close(need(y, 'area'), x['area'], w + 'area')
        close(need(y, 'h_i'), 1.0 / x['inside_heat_transfer_resistance'], w + 'inside film coefficient')
        close(need(y, 'h_c'), x['h_c'], w + 'convective coefficient')
        ko, ki = need(y, 'k_outside'), need(y, 'k_inside')
        if k in hgen.EXT:
            close(ko, x['temp_dif_coef'], w + 'weight of the outside')
            if x['temp_dif_coef'] < 1.0:
                check(ki is not None and need(ki, 'id') == j, w + 'inside weight refers to %s', ki)
                close(ki['coef'], 1.0 - x['temp_dif_coef'], w + 'weight of the inside')
            else:
                check(ki is None or abs(ki['coef']) < 1e-12, w + 'inside weight %s', ki)
        elif k == 'internal':
            close(ko, 0.0, w + 'weight of the outside')
            check(ki is not None and need(ki, 'id') == x['rear_surface_boundary_id'], w + 'rear surface is %s instead of %s', ki, x['rear_surface_boundary_id'])
            close(ki['coef'], 1.0, w + 'weight of the rear surface')
        s = need(y, 'spec')
        check(need(s, 'boundary_type') == k, w + 'kind changed to %s', s['boundary_type'])
        if k in ('external_general_part', 'internal', 'ground'):
            check(need(s, 'method') == ('layers_ground' if k == 'ground' else 'layers'), w + 'method %s', s['method'])
            close(layers_of(need(s, 'layers')), layers_of(x['layers']), w + 'layers')
            if k != 'ground':
                close(need(s, 'outside_heat_transfer_resistance'), x['outside_heat_transfer_resistance'], w + 'outside film')
        else:
            check(need(s, 'method') == 'u_value', w + 'method %s', s['method'])
            close(need(s, 'u_value'), x['u_value'], w + 'U-value')
            close(need(s, 'inside_heat_transfer_resistance'), x['inside_heat_transfer_resistance'], w + 'inside film')
    for i, r in enumerate(rooms):
        js = [j for j, x in enumerate(bs) if x['connected_room_id'] == i]
        fl = sum(bs[j]['area'] for j in js if bs[j]['is_floor'])
        no = sum(bs[j]['area'] for j in js if not bs[j]['is_floor'])
        radiant = 'radiative' in (r['heating_equipment']['equipment_type'], r['cooling_equipment']['equipment_type'])
        got_m = np.array([need(hb[j], 'f_mrt_hum') for j in js], dtype=float)
        got_f = np.array([need(hb[j], 'flr') for j in js], dtype=float)
        close(got_m.sum(), 1.0, 'room %d: sum of the occupant view factors' % i)
        close(got_m, [(0.45 * bs[j]['area'] / fl if bs[j]['is_floor'] else 0.55 * bs[j]['area'] / no) for j in js], 'room %d: occupant view factors' % i)
        if radiant:
            close(got_f.sum(), 1.0, 'room %d: sum of the radiant heat shares' % i)
        close(got_f, [(bs[j]['area'] / fl if bs[j]['is_floor'] and radiant else 0.0) for j in js], 'room %d: radiant heat shares' % i)


def run_translate(case, ctx):
    d = case['d']
    p = hgen.Prepared(d, case['w'], only_house=not case['full'])
    judge(d, p.house)
    kinds = {b['boundary_type'] for b in d['boundaries']}
    eq = {r[m]['equipment_type'] for r in d['rooms'] for m in ('heating_equipment', 'cooling_equipment')}
    for k in sorted(kinds | eq):
        ctx.label(k)
    ctx.label('air between rooms', any(r['next_vent'] for r in d['rooms']))
    ctx.label('%d rooms' % len(d['rooms']))
    ctx.label('all files', case['full'])
    ctx.nontrivial(len(kinds) >= 3)


def translate_cases():
    return st.fixed_dictionaries({'d': hgen.desc(extra=(0, 10)), 'w': hgen.weather(1, 2), 'full': st.sampled_from([False, False, False, True])})


def run_simulate(case, ctx):
    from heat_load_calc.core import core
    d = case['d']
    with scratch() as out:
        hgen.Prepared(d, case['w'], keep=out)
        hgen.write_weather(out, case['w'])
        with quiet():
            ds, dd = core.calc(input_data_dir=out, n_d_main=1, n_d_run_up=1, n_d_run_up_build=1)
    check(len(dd) == 96, 'the detailed table has %d rows', len(dd))
    for i, r in enumerate(d['rooms']):
        for c in ('t_r', 'x_r', 'ot', 'l_s_c', 'l_s_r', 'l_l_c'):
            v = finite(np.asarray(need(dd, 'rm%d_%s' % (i, c), 'the detailed table'), dtype=float), 'room %d %s' % (i, c))
        conv, rad = np.asarray(dd['rm%d_l_s_c' % i]), np.asarray(dd['rm%d_l_s_r' % i])
        he, ce = r['heating_equipment'], r['cooling_equipment']
        # heat comes, and goes, only the way the equipment provides
        hr = he['radiative']['max_capacity'] * he['radiative']['area'] if he['equipment_type'] == 'radiative' else 0.0
        cr = ce['radiative']['max_capacity'] * ce['radiative']['area'] if ce['equipment_type'] == 'radiative' else 0.0
        check(float(rad.max()) <= hr + 1e-6 * (1 + hr), 'room %d (%s heating): radiant heating %.6g W of %.6g', i, he['equipment_type'], rad.max(), hr)
        check(float(-rad.min()) <= cr + 1e-6 * (1 + cr), 'room %d (%s cooling): radiant cooling %.6g W of %.6g', i, ce['equipment_type'], -rad.min(), cr)
        ctx.label('%s heating' % he['equipment_type'])
        ctx.label('%s cooling' % ce['equipment_type'])
    ctx.nontrivial(True)


def simulate_cases():
    w = st.fixed_dictionaries({'instants': st.lists(hgen.instant(), min_size=1, max_size=6), 'seed': st.integers(0, 999)})
    return st.fixed_dictionaries({'d': hgen.desc(vents=False, extra=(0, 4)), 'w': w})


WRONG = {
    'room kind': lambda d, k: d['rooms'][k % len(d['rooms'])].update(room_type=['kitchen', '', 'Main_occupant_room', None][k % 4]),
    'no principal room': lambda d, k: [r.update(room_type='underfloor') for r in d['rooms'] if r['room_type'] == 'main_occupant_room'],
    'two principal rooms': lambda d, k: add_room(d, 'main_occupant_room'),
    'two secondary rooms': lambda d, k: twice(d, ['other_occupant_room', 'non_occupant_room', 'underfloor'][k % 3]),
    'room ids not from zero': lambda d, k: [r.update(id=r['id'] + 1 + k % 5) for r in d['rooms']],
    'room ids with a gap': lambda d, k: add_room(d, 'underfloor').update(id=len(d['rooms']) + k % 3),
    'room id twice': lambda d, k: add_room(d, 'underfloor').update(id=k % (len(d['rooms']) - 1)),
    'number of storeys': lambda d, k: d['building'].update(story=[0, 3, -1, 'two', None][k % 5]),
    'inside pressure': lambda d, k: d['building'].update(inside_pressure=['Positive', '', 'neutral', None][k % 4]),
    'heating equipment': lambda d, k: d['rooms'][k % len(d['rooms'])]['heating_equipment'].update(equipment_type=['floor_heating', '', 'Convective'][k % 3]),
    'cooling equipment': lambda d, k: d['rooms'][k % len(d['rooms'])]['cooling_equipment'].update(equipment_type=['fan', '', 'Radiative'][k % 3]),
    'boundary kind': lambda d, k: d['boundaries'][k % len(d['boundaries'])].update(boundary_type=['wall', '', 'external', 'Ground'][k % 4]),
    'direction': lambda d, k: lit(d, k).update(direction=['north', '', 'N', 'up', 'horizontal'][k % 5]),
    'item left out': lambda d, k: leave_out(d, k),
}


def add_room(d, kind):
    """one more room, complete with a floor and another boundary"""
    i = len(d['rooms'])
    d['rooms'].append(dict(copy.deepcopy(d['rooms'][0]), id=i, name=kind, room_type=kind, next_vent=[]))
    for k, fl in enumerate((True, False)):
        b = copy.deepcopy(next(x for x in d['boundaries'] if x['boundary_type'] != 'internal'))
        b.update(id=len(d['boundaries']), name='u%d' % k, connected_room_id=i, is_floor=fl, is_solar_absorbed_inside=True)
        d['boundaries'].append(b)
    return d['rooms'][-1]


def twice(d, kind):
    while sum(r['room_type'] == kind for r in d['rooms']) < 2:
        add_room(d, kind)


def lit(d, k):
    b = d['boundaries'][k % len(d['boundaries'])]
    if b['boundary_type'] not in hgen.EXT:
        b = next((x for x in d['boundaries'] if x['boundary_type'] in hgen.EXT))
    b['is_sun_striked_outside'] = True
    return b


def leave_out(d, k):
    group = [d['building'], d['rooms'][k % len(d['rooms'])], d['boundaries'][k % len(d['boundaries'])]][k % 3]
    keys = {0: ['story', 'c_value', 'inside_pressure'],
            1: ['id', 'room_type', 'volume', 'vent', 'next_vent', 'natural_vent_time', 'heating_equipment', 'cooling_equipment'],
            2: ['id', 'connected_room_id', 'boundary_type', 'area', 'is_floor', 'is_solar_absorbed_inside', 'inside_heat_transfer_resistance', 'h_c']}[k % 3]
    del group[keys[k // 3 % len(keys)]]


def run_reject(case, ctx):
    from heat_load_calc.initializer import initializer
    names = sorted(WRONG)
    with scratch() as inp, scratch() as out:
        hgen.write_weather(inp, {'instants': [[0.1, 0.1, 1.0, 1.0, 1.0, 1.0]], 'seed': 1})
        for m, k in enumerate(case['k']):
            what = names[(case['start'] + m) % len(names)]
            d = copy.deepcopy(case['d'])
            WRONG[what](d, k)
            rejects(lambda: initializer.make_house_for_test(d=d, input_data_dir=inp, output_data_dir=out), 'a house with wrong %s (%d)' % (what, k))
            ctx.label(what)
    ctx.nontrivial(True)


def reject_cases():
    return st.fixed_dictionaries({'d': hgen.desc(extra=(0, 2)), 'start': st.integers(0, len(WRONG) - 1),
                                  'k': st.lists(st.integers(0, 59), min_size=6, max_size=8)})


def run_under(case, ctx):
    """a house with a crawl space is translated like any other"""
    d = copy.deepcopy(case['d'])
    add_room(d, 'underfloor')['floor_area'] = 0.0
    judge(d, hgen.Prepared(d, case['w'], only_house=True).house)
    ctx.nontrivial(True)


CHECKS = [
    Check('translate', translate_cases, run_translate, 240, 3000, 'at least three kinds of boundary'),
    Check('under', lambda: st.fixed_dictionaries({'d': hgen.desc(extra=(0, 2)), 'w': hgen.weather(1, 1)}), run_under, 24, 300, 'every case: a house with a crawl space'),
    Check('simulate', simulate_cases, run_simulate, 48, 700, 'every case: prepared and simulated for one day after one day of run-up'),
    Check('reject', reject_cases, run_reject, 120, 1500, 'every case: 6-8 invalid variants of a generated description'),
]
