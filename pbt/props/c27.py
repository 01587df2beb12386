import math

from hypothesis import strategies as st

from harness import Check, check, close, finite, need, quiet, rejects

TECHNIQUE = 'property-based testing: generated house requests against an independent closed-form geometry (rectangular storeys of given area and shape factor) and closure invariants over the area table and over the list of parts built from it'
NOTE = 'floor areas 20-500 m2, opening ratios 0-30 %, every insulation layout, envelope areas around the default and unreachably small; non-negativity is required where the storeys hold the entrance, the bathroom and the doors'
ASSUMPTIONS = ['positive floor area', 'window and wall areas may come out negative when the requested opening ratio is smaller than the doors or larger than a wall (no request of the program itself does so)']

LAYOUTS = [('detached', 'floor', 'floor'), ('detached', 'floor', 'base'), ('detached', 'floor', 'not_exist'), ('detached', 'base', None),
           ('detached', 'base', 'base'), ('attached', None, None)]
SIDES = 4


def model(house, fl, bath, a_f_total, r_open, a_env):
    """closed form of the model house"""
    det = house == 'detached'
    m = {}
    a_f = [a_f_total / 1.77, a_f_total * .77 / 1.77] if det else [a_f_total]
    h = [2.9, 2.7] if det else [2.8]
    base_all = det and fl == 'base'
    bath_base = base_all or (det and bath == 'base')
    e_ms, e_os = (1.365, 1.82) if det else (1.0, 1.0)
    b_ms, b_os = (1.82, 1.82) if det else (2.1, 1.365)
    m['a_f'] = a_f
    m['a_evp_roof'] = a_f[0]
    ef_e = e_ms * e_os if det else 0.0
    ef_b = b_ms * b_os if bath_base else 0.0
    m['a_evp_ef_etrc'], m['a_evp_ef_bath'] = ef_e, ef_b
    m['a_evp_f_etrc'] = 0.0 if det else e_ms * e_os
    m['a_evp_f_bath'] = 0.0 if bath_base else b_ms * b_os
    m['a_evp_ef_total'] = a_f[0] if base_all else ef_e + ef_b
    m['a_evp_ef_other'] = m['a_evp_ef_total'] - ef_e - ef_b
    m['a_evp_f_total'] = a_f[0] - m['a_evp_ef_total']
    m['a_evp_f_other'] = m['a_evp_f_total'] - m['a_evp_f_etrc'] - m['a_evp_f_bath']
    # base lengths, heights
    le = [0.0, e_os, e_ms, 0.0] if det else [0.0] * 4
    lb = [0.0, b_os, b_ms, 0.0] if bath_base else [0.0] * 4
    le_in = sum(le) if det and not base_all else 0.0
    lb_in = sum(lb) if bath_base and not base_all else 0.0
    he, hb, ho = .18, .5, .5
    # walls: perimeter 4 sqrt(A) f_s
    ratio = 1.08 / 1.04
    fixed = a_f[0] * 2 + (sum(le) + le_in) * he + (sum(lb) + lb_in) * hb
    if a_env is None:
        f_s = [1.08, 1.04] if det else [1.048215]
        m['reach'] = None
    else:
        def env_of(f):                               # envelope area for the shape factor of the top storey
            per = [4 * math.sqrt(a_f[0]) * (f * ratio if det else f)] + ([4 * math.sqrt(a_f[1]) * f] if det else [])
            w = sum(p * hh for p, hh in zip(per, h))
            return fixed + w + ((per[0] - sum(le) - sum(lb)) * ho if base_all else 0.0)
        e1, e2 = env_of(1.0), env_of(2.0)
        f = 1 + (a_env - e1) / (e2 - e1)             # affine in f
        m['reach'] = f >= 1.0
        m['margin'] = f - 1.0
        f = max(f, 1.0)
        f_s = [f * ratio, f] if det else [f]
    m['f_s'] = f_s
    m['l_prm'] = [4 * math.sqrt(a) * f for a, f in zip(a_f, f_s)]
    long_, short = [], []
    for p, a in zip(m['l_prm'], a_f):                # sides of a rectangle of perimeter p and area a
        s = p / 2
        d = math.sqrt(max(s * s - 4 * a, 0.0))
        long_.append((s + d) / 2)
        short.append((s - d) / 2)
    m['l_ms'], m['l_os'] = (long_, short) if det else (short, long_)
    lo = [m['l_ms'][0] - le[0] - lb[0], m['l_os'][0] - le[1] - lb[1], m['l_ms'][0] - le[2] - lb[2], m['l_os'][0] - le[3] - lb[3]] if base_all else [0.0] * 4
    m['l_base_etrc_outside'], m['l_base_bath_outside'], m['l_base_other_outside'] = le, lb, lo
    m['l_base_etrc_inside'], m['l_base_bath_inside'], m['l_base_other_inside'] = le_in, lb_in, 0.0
    m['l_base_total_outside'] = [x + y + z for x, y, z in zip(le, lb, lo)]
    m['l_base_total_inside'] = le_in + lb_in
    m['a_evp_base_total_outside'] = [x * he + y * hb + z * ho for x, y, z in zip(le, lb, lo)]
    m['a_evp_base_total_inside'] = le_in * he + lb_in * hb
    m['a_evp_srf'] = [[l * hh for l, hh in zip(s, h)] for s in (m['l_ms'], m['l_os'], m['l_ms'], m['l_os'])]
    not_base = 2 * a_f[0] + sum(sum(s) for s in m['a_evp_srf'])
    m['a_evp_total_not_base'] = not_base
    m['a_evp_total'] = not_base + sum(m['a_evp_base_total_outside']) + m['a_evp_base_total_inside']
    m['a_evp_open_total'] = not_base * r_open
    doors = [0.0, 1.89, 1.62, 0.0] if det else [0.0, 0.0, 1.755, 0.0]
    m['a_evp_door'] = doors
    m['a_evp_window_total'] = not_base * r_open - sum(doors)
    share = (.6862, .0721, .1097, .1320) if det else (.6330, .1517, .2153, 0.0)
    m['a_evp_window'] = [m['a_evp_window_total'] * s for s in share]
    m['a_evp_wall'] = [sum(s) - w - d for s, w, d in zip(m['a_evp_srf'], m['a_evp_window'], doors)]
    return m


def run_shape(case, ctx):
    from heat_load_calc.convert import model_house as mh
    house, fl, bath = case['layout']
    want = model(house, fl, bath, case['a_f'], case['r_open'], case['a_env'])
    with quiet():
        d = mh.calc_area(house_type=house, a_f_total=case['a_f'], r_open=case['r_open'], floor_ins_type=fl, bath_ins_type=bath, a_env_input=case['a_env'])
    tight = case['a_env'] is not None and abs(want['margin']) < 1e-6      # rectangle nearly square: sides are ill-conditioned
    for k, v in want.items():
        if k in ('reach', 'margin'):
            continue
        close(need(d, k, 'area table'), v, k, rtol=1e-4 if tight else 1e-8, atol=1e-3 if tight else 1e-7)
    finite([x for k, v in d.items() if isinstance(v, float) for x in [v]], 'area table')
    # closure, from the table itself
    close(sum(d['a_f']), case['a_f'], 'floor areas of the storeys')
    close(d['a_evp_f_total'] + d['a_evp_ef_total'], d['a_f'][0], 'floors and earth floors')
    for i in range(SIDES):
        close(d['a_evp_wall'][i] + d['a_evp_window'][i] + d['a_evp_door'][i], sum(d['a_evp_srf'][i]), 'wall, window and door of side %d' % i, atol=1e-7)
    parts = d['a_evp_roof'] + d['a_evp_f_total'] + d['a_evp_ef_total'] + sum(d['a_evp_wall']) + sum(d['a_evp_window']) + sum(d['a_evp_door']) \
        + sum(d['a_evp_base_total_outside']) + d['a_evp_base_total_inside']
    close(parts, d['a_evp_total'], 'sum of all parts')
    if case['a_env'] is not None:
        if want['reach']:
            close(d['a_evp_total'], case['a_env'], 'requested envelope area')
        else:
            check(d['a_evp_total'] >= case['a_env'] - 1e-6, 'smallest envelope %r is below the unreachable request %r', d['a_evp_total'], case['a_env'])
    for i, (p, a) in enumerate(zip(d['l_prm'], d['a_f'])):
        close(2 * (d['l_ms'][i] + d['l_os'][i]), p, 'perimeter of storey %d' % i)
        if not tight:
            close(d['l_ms'][i] * d['l_os'][i], a, 'area of storey %d' % i, rtol=1e-7)
        check((d['l_ms'][i] >= d['l_os'][i] - 1e-9) == (house == 'detached') or abs(d['l_ms'][i] - d['l_os'][i]) < 1e-6, 'main side of storey %d has the wrong length', i)
    # parts are never negative for requests the storeys can hold
    holds = (min(d['l_ms'][0], d['l_os'][0]) > 3.7 and d['a_f'][0] > 8 and want['a_evp_window_total'] >= 0 and
             all(w + dd <= sum(s) for w, dd, s in zip(want['a_evp_window'], want['a_evp_door'], want['a_evp_srf'])))
    if holds:
        for k, v in d.items():
            if k.startswith(('a_', 'l_')):
                for x in (v if isinstance(v, (list, tuple)) else [v]):
                    for y in (x if isinstance(x, (list, tuple)) else [x]):
                        check(y >= -1e-9, '%s has the negative item %r', k, y)
    run_parts(d, house, fl, ctx)
    ctx.label('%s %s %s' % tuple(case['layout']))
    ctx.label('envelope given', case['a_env'] is not None)
    ctx.label('envelope unreachable', want['reach'] is False)
    ctx.label('all non-negative', holds)
    ctx.nontrivial(case['a_env'] is not None and bool(want['reach']) and holds)


FACING = {'sw': 0, 'nw': 1, 'ne': 2, 'se': 3}


def run_parts(d, house, fl, ctx):
    from heat_load_calc.convert import model_house as mh
    with quiet():
        gps, ws, ds, eps, ecs = mh.get_model_house_no_spec(**d)
    close(sum(p.area for k in (gps, ws, ds, ecs) for p in k), d['a_evp_total'], 'areas of the listed parts')
    close(sum(p.length for p in eps), sum(d['l_base_total_outside']) + d['l_base_total_inside'], 'lengths of the listed foundations')
    names = [p.name for k in (gps, ws, ds, ecs, eps) for p in k]
    check(len(set(names)) == len(names), 'part names repeat: %s', names)

    def by(parts, pick):
        return sum(p.area for p in parts if pick(p))
    if house == 'detached':
        for compass, i in FACING.items():
            close(by(ws, lambda p: p.direction.value == compass), d['a_evp_window'][i], 'windows facing ' + compass)
            close(by(ds, lambda p: p.direction.value == compass), d['a_evp_door'][i], 'doors facing ' + compass)
            close(by(gps, lambda p: p.direction.value == compass), d['a_evp_wall'][i] + d['a_evp_base_total_outside'][i], 'walls and foundations facing ' + compass, atol=1e-7)
        for p in [q for q in gps if q.direction.value in FACING] + ws + ds:
            check(p.next_space.value == 'outdoor', '%s faces %s', p.name, p.next_space.value)
        close(by(gps, lambda p: p.direction.value == 'top'), d['a_evp_roof'], 'roof')
        close(by(gps, lambda p: p.general_part_type.value == 'floor'), d['a_evp_f_total'], 'floor above the crawl space')
        close(sum(p.area for p in ecs), d['a_evp_ef_total'], 'earth floor')
        close(sum(p.length for p in eps if p.next_space.value == 'outdoor'), sum(d['l_base_total_outside']), 'outer foundation length')
        close(by(gps, lambda p: p.next_space.value == 'open_underfloor' and p.general_part_type.value == 'wall'), d['a_evp_base_total_inside'], 'inner foundation')
        close(sum(p.length for p in eps if p.next_space.value == 'open_underfloor'), d['l_base_total_inside'], 'inner foundation length')
    else:
        close(by(gps, lambda p: p.direction.value == 'sw') , d['a_evp_wall'][0], 'wall facing sw')
        close(by(gps, lambda p: p.direction.value == 'nw'), d['a_evp_wall'][1], 'wall facing nw')
        close(by(gps, lambda p: p.next_space.value == 'open_space'), d['a_evp_wall'][2], 'wall to the corridor')
        close(by(gps, lambda p: p.general_part_type.value == 'boundary_wall'), d['a_evp_wall'][3], 'wall to the neighbour')
        close(by(ws, lambda p: p.direction.value == 'sw'), d['a_evp_window'][0], 'window facing sw')
        close(by(ws, lambda p: p.direction.value == 'nw'), d['a_evp_window'][1], 'window facing nw')
        close(by(ws, lambda p: p.next_space.value == 'open_space'), d['a_evp_window'][2], 'window to the corridor')
        close(by(gps, lambda p: p.general_part_type.value == 'upward_boundary_floor'), d['a_evp_roof'], 'ceiling to the neighbour')
        close(by(gps, lambda p: p.general_part_type.value == 'downward_boundary_floor'), d['a_evp_f_total'], 'floor to the neighbour')
        check(not eps and not ecs, 'a flat has earth floors or foundations')
        check(all(p.next_space.value == 'air_conditioned' for p in gps if 'boundary' in p.general_part_type.value), 'a boundary part does not face a conditioned dwelling')


def run_reject(case, ctx):
    from heat_load_calc.convert import model_house as mh
    base = dict(house_type='detached', a_f_total=case['a_f'], r_open=0.1, floor_ins_type='floor', bath_ins_type='base')
    kind = case['kind']
    bad = dict(base, **{'house': {'house_type': case['junk']}, 'floor': {'floor_ins_type': case['junk']}, 'bath': {'bath_ins_type': case['junk']},
                        'no_bath': {'bath_ins_type': None}, 'no_floor': {'floor_ins_type': None}}[kind])
    rejects(lambda: mh.calc_area(**bad), 'model house %s' % bad)
    with quiet():
        good = mh.calc_area(**base)
    # tables that do not belong to the house type are refused when the parts are listed
    d = dict(good)
    if case['table'] == 'attached':
        d['house_type'] = 'attached'
    elif case['table'] == 'base':
        d['floor_ins_type'] = 'base'
    elif case['table'] == 'door':
        d['a_evp_door'] = (1.0,) + tuple(d['a_evp_door'][1:])
    else:
        d['a_evp_base_total_outside'] = tuple(d['a_evp_base_total_outside'][:3]) + (1.0,)
    rejects(lambda: mh.get_model_house_no_spec(**d), 'parts of an inconsistent table (%s)' % case['table'])
    ctx.label(kind)
    ctx.label('table ' + case['table'])
    ctx.nontrivial()


def shapes():
    def env(t):
        (layout, a_f, r_open, mode, k) = t
        r = lambda x: float('%.9g' % x)
        a_f, r_open = r(a_f), r(r_open)
        a_env = None
        if mode != 'none':
            d = model(layout[0], layout[1], layout[2], a_f, r_open, None)['a_evp_total']
            a_env = r(d * k if mode == 'near' else d * (0.2 + 0.7 * (k - .9)))
        return {'layout': list(layout), 'a_f': a_f, 'r_open': r_open, 'a_env': a_env}
    return st.tuples(st.sampled_from(LAYOUTS), st.one_of(st.floats(60, 250), st.floats(20, 500)), st.one_of(st.floats(.03, .2), st.floats(0, .3)),
                     st.sampled_from(['none', 'near', 'near', 'near', 'small']), st.one_of(st.floats(0.98, 1.6), st.floats(.98, 1.05), st.floats(.9, 1))).map(env)


def rejected():
    return st.fixed_dictionaries({'a_f': st.floats(40, 300), 'kind': st.sampled_from(['house', 'floor', 'bath', 'no_bath', 'no_floor']),
                                  'junk': st.one_of(st.sampled_from(['Detached', '', 'none', 'ground', 'exist']), st.text('abcdef_', min_size=1, max_size=8)),
                                  'table': st.sampled_from(['attached', 'base', 'door', 'foundation'])}).filter(lambda c: c['junk'] not in ('base', 'floor'))


CHECKS = [
    Check('shape', shapes, run_shape, 3000, 50000, 'a reachable envelope area was requested and every part is non-negative'),
    Check('reject', rejected, run_reject, 400, 5000, 'every case'),
]
