import json
import math
import os

import numpy as np
from hypothesis import strategies as st

import boot
import hgen
from harness import Check, check, close, finite, is_close, need, quiet, rejects

TECHNIQUE = 'property-based testing: generated lists of rooms and floor areas; oracle is the published schedule table (docs) compiled independently per calendar day and interpolated by household size; order and scaling relations; whole files compared at house level'
NOTE = 'all 35,040 quarter hours per case; one listed finding (cooking heat and vapour exchanged) is recognised by its exact amount'
ASSUMPTIONS = ['rooms are named after their kind, the three kinds for which schedules are published', 'docs/住宅スケジュール/schedules.json is the published table']

_pub = {}


def published():
    if not _pub:
        with open(os.path.join(boot.REPO, 'docs', '住宅スケジュール', 'schedules.json'), encoding='utf-8') as f:
            _pub.update(json.load(f))
    return _pub


def residents(area):
    return min(4.0, max(1.0, area / 30.0))


def expected(kind, n_p):
    """item -> 35,040 values for a household of n_p persons"""
    key = ('e', kind, n_p)
    p = published()
    lo = min(3, int(math.floor(n_p)))
    hi = lo + 1
    fr = n_p - lo
    out = {}
    for item in ('number_of_people', 'heat_generation_appliances', 'heat_generation_lighting', 'heat_generation_cooking',
                 'vapor_generation_cooking', 'local_vent_amount', 'is_temp_limit_set'):
        day = {t: (1 - fr) * np.array(p['daily_schedule'][str(lo)][kind][t][item], dtype=float)
               + fr * np.array(p['daily_schedule'][str(hi)][kind][t][item], dtype=float) for t in set(p['calendar'])}
        out[item] = np.concatenate([day[t] for t in p['calendar']])
    return out


def judge(kinds, areas, n_p, got, what, ctx):
    """got: heat, moist, vent, hum, dem, each [room, 35040]"""
    heat, moist, vent, hum, dem = (finite(g, '%s %s' % (what, k)) for g, k in zip(got, ('heat', 'moisture', 'ventilation', 'occupancy', 'demand')))
    for a, k in ((heat, 'heat'), (moist, 'moisture'), (vent, 'ventilation'), (hum, 'occupancy'), (dem, 'demand')):
        check(a.shape == (len(kinds), hgen.N), '%s: %s has shape %s', what, k, a.shape)
        check(float(a.min()) >= 0.0, '%s: %s is negative', what, k)
    check(float(dem.max()) <= 1.0 + 1e-9, '%s: demand beyond one', what)
    if len(set(kinds)) == len(kinds):
        check(float(hum.sum(0).max()) <= n_p + 1e-9, '%s: %.6g occupants, but %.6g residents', what, hum.sum(0).max(), n_p)
    for i, k in enumerate(kinds):
        e = expected(k, n_p)
        w = '%s, room %d (%s)' % (what, i, k)
        close(vent[i], e['local_vent_amount'] / 3600.0, w + ': local ventilation', atol=1e-10)
        close(hum[i], e['number_of_people'], w + ': occupancy')
        close(dem[i], e['is_temp_limit_set'], w + ': conditioning demand')
        base = e['heat_generation_appliances'] + e['heat_generation_lighting'] * areas[i]
        ck, vp = e['heat_generation_cooking'], e['vapor_generation_cooking']
        if is_close(heat[i], base + ck, atol=1e-7) and is_close(moist[i], vp / 3.6e6, atol=1e-13):
            continue
        if is_close(heat[i], base + vp, atol=1e-7) and is_close(moist[i], ck / 3.6e6, atol=1e-13):
            ctx.known('F8', w + ': the heat of cooking and its vapour are exchanged')
            continue
        close(heat[i], base + ck, w + ': internal heat', atol=1e-7)
        close(moist[i], vp / 3.6e6, w + ': internal moisture', atol=1e-13)


def compiled(n_p, kinds, areas):
    from heat_load_calc.initializer import schedule_loader
    with quiet():
        return [np.asarray(x) for x in schedule_loader.get_compiled_schedules(n_p=n_p, room_name_is=list(kinds), a_floor_is=np.array(areas, dtype=float))]


def split(r):
    q, x, v, n, a = r
    return q, x, v, n, a


def run_rooms(case, ctx):
    from heat_load_calc.initializer import residents_number
    kinds, areas = case['kinds'], case['areas'][:len(case['kinds'])]
    total = float(np.sum(areas)) if case['n_p'] is None else None
    if total is not None:
        n_p = residents_number.get_total_number_of_residents(a_floor_total=total)
        close(n_p, residents(total), 'number of residents for %.6g m2' % total)
    else:
        n_p = case['n_p']
    r = compiled(n_p, kinds, areas)
    judge(kinds, areas, n_p, r, 'household of %.6g' % n_p, ctx)
    order = case['order'][:]
    order = [k for k in order if k < len(kinds)]
    s = compiled(n_p, [kinds[k] for k in order], [areas[k] for k in order])
    for a, b, k in zip(r, s, ('heat', 'moisture', 'ventilation', 'occupancy', 'demand')):
        check(np.array_equal(a[order], b), '%s depends on the order in which rooms are listed', k)
    ctx.label('whole household', float(n_p).is_integer())
    ctx.label('%d rooms' % len(kinds))
    ctx.label('smallest or largest household', n_p in (1.0, 4.0))
    ctx.nontrivial(not float(n_p).is_integer())


def areas():
    return st.one_of(hgen.size(0.5, 400), st.sampled_from([10.0, 15.0, 20.0, 30.0, 40.0, 60.0, 120.0]))


def rooms_cases():
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(hgen.KINDS), min_size=1, max_size=4), 'areas': st.lists(areas(), min_size=4, max_size=4),
        'n_p': st.one_of(st.none(), st.none(), st.floats(1.0, 4.0), st.sampled_from([1.0, 2.0, 3.0, 4.0, 1.999999, 2.000001, 3.999999])),
        'order': st.permutations([0, 1, 2, 3]).map(list)})


def run_residents(case, ctx):
    from heat_load_calc.initializer import residents_number as m
    a, b = case['a'], case['a'] + case['more']
    x, y = m.get_total_number_of_residents(a_floor_total=a), m.get_total_number_of_residents(a_floor_total=b)
    close(x, residents(a), 'residents of %.9g m2' % a)
    check(1.0 <= x <= 4.0, 'residents out of range: %s', x)
    check(y >= x - 1e-12, 'fewer residents on more floor')
    check(y - x <= case['more'] / 30.0 + 1e-9, 'the number of residents jumps between %.9g and %.9g m2', a, b)
    ctx.nontrivial(1.0 < x < 4.0)


def residents_cases():
    return st.fixed_dictionaries({'a': st.one_of(hgen.size(0.1, 1000), st.floats(25, 125), st.sampled_from([29.999999, 30.0, 60.0, 90.0, 119.999999, 120.0, 120.000001])),
                                  'more': st.one_of(st.floats(0, 1e-6), st.floats(0, 100))})


def run_reject(case, ctx):
    if case['what'] == 'size':
        rejects(lambda: compiled(case['n_p'], ['main_occupant_room'], [20.0]), 'a household of %s' % case['n_p'])
    else:
        rejects(lambda: compiled(2.5, ['main_occupant_room', case['name']], [20.0, 20.0]), 'a room of kind %r' % case['name'])
    ctx.nontrivial(True)


def reject_cases():
    return st.fixed_dictionaries({'what': st.sampled_from(['size', 'name']), 'n_p': st.one_of(st.floats(-5, 0.999), st.floats(4.001, 100)),
                                  'name': st.sampled_from(['', 'kitchen', 'Main_occupant_room', 'unknown', 'bath'])})


def run_house(case, ctx):
    d = case['d']
    for r, a in zip(d['rooms'], case['areas']):
        r['floor_area'] = a
    p = hgen.Prepared(d, case['w'])
    kinds, a = [r['room_type'] for r in d['rooms']], [r['floor_area'] for r in d['rooms']]
    judge(kinds, a, residents(float(np.sum(a))), (p.heat, p.moist, p.vent, p.hum, p.dem), 'prepared files of a house of %.6g m2' % np.sum(a), ctx)
    ctx.label('%d rooms' % len(kinds))
    ctx.nontrivial(True)


def house_cases():
    return st.fixed_dictionaries({'d': hgen.desc(vents=False, extra=(0, 1)), 'areas': st.lists(areas(), min_size=3, max_size=3), 'w': hgen.weather(1, 2)})


def witness(ctx):
    run_rooms({'kinds': ['main_occupant_room'], 'areas': [60.0] * 4, 'n_p': 2.0, 'order': [0, 1, 2, 3]}, ctx)


WITNESS = {'F8': witness}
CHECKS = [
    Check('rooms', rooms_cases, run_rooms, 400, 6000, 'the household is between two published sizes'),
    Check('residents', residents_cases, run_residents, 1200, 20000, 'between the smallest and largest household'),
    Check('house', house_cases, run_house, 48, 600, 'every case: prepared files of a house compared in full'),
    Check('reject', reject_cases, run_reject, 80, 400, 'every case: undefined household or kind of room'),
]
