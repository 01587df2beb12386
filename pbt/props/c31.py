import copy
import itertools

from hypothesis import strategies as st

import eesgen as G
import eesref as R
from harness import Check, check, close, quiet, rejects

TECHNIQUE = 'property-based testing: generated floor areas, air change rates, part lists and glazings; oracles are conservation of volume, air, area and length over rooms, an independent transcription of the glazing and direction tables, and linearity relations'
NOTE = 'any division of a house into rooms incl. absent ones, up to 8 parts of each kind, every glazing, frame and shade, all regions'
ASSUMPTIONS = ['the assembly of the complete simulation input (make_rooms) is unfinished in the code and not covered; its building blocks are']

ROOM = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor')


def run_rooms(case, ctx):
    from heat_load_calc.convert import convert_lv4_to_h_hlc as t
    mr, o, nr, n = case['mr'], case['or'], case['nr'], case['n']
    a_a = mr + o + nr
    ecs = case['ecs']
    uf = t.get_a_uf(copy.deepcopy(ecs))
    close(uf, sum(e['area'] for e in ecs if e['space_type'] == 'underfloor'), 'floor area of the crawl space')
    args = dict(a_a=a_a, a_mr=mr, a_or=o, a_nr=nr, a_uf=uf, n=n, v_nv_mr=case['nv'][0], v_nv_or=case['nv'][1])
    if mr <= 0:
        rejects(lambda: t.make_initial_rooms(**args), 'a house without a main room')
        ctx.label('no main room')
        return
    rooms = t.make_initial_rooms(**args)
    check(len(rooms) == 4, 'not four rooms: %d', len(rooms))
    for k, (r, a) in enumerate(zip(rooms, (mr, o, nr, uf))):
        if a <= 0:
            check(r is None, 'a %s without floor area', ROOM[k])
            continue
        check(r is not None, 'the %s of %r m2 is missing', ROOM[k], a)
        check(r['name'] == ROOM[k] and r['room_type'] == ROOM[k], 'room %d is called %r / %r', k, r['name'], r['room_type'])
        close(r['volume'], a * (0.4 if k == 3 else 2.4), 'volume of the %s' % ROOM[k], rtol=1e-12)
        close(r['natural_vent_time'], case['nv'][k] if k < 2 else 0.0, 'natural ventilation of the %s' % ROOM[k])
        check(r['boundaries'] == [], 'boundaries before any was added')
    total = a_a * 2.4 * n * 1.1
    fresh = [r['vent'] if r else 0.0 for r in rooms]
    close(sum(fresh), total, 'outdoor air of all rooms', rtol=1e-9, atol=1e-12)
    close(fresh[0] * o, fresh[1] * mr, 'outdoor air in proportion to the floor area', rtol=1e-9, atol=1e-9)
    check(fresh[2] == 0.0 and fresh[3] == 0.0, 'outdoor air of non-occupant rooms: %s', fresh[2:])
    for k in (0, 1, 3):
        check(rooms[k] is None or rooms[k]['next_vent'] == [], 'air from other rooms into the %s', ROOM[k])
    if rooms[2]:
        close(sum(v['volume'] for v in rooms[2]['next_vent']), total, 'air passed on to the non-occupant room', rtol=1e-9, atol=1e-12)
        check(len(rooms[2]['next_vent']) == 1 + (o > 0), 'air paths into the non-occupant room: %s', rooms[2]['next_vent'])
        for v in rooms[2]['next_vent']:
            k = 0 if v['upstream_room_name'].startswith('main') else 1
            close(v['volume'], fresh[k], 'air from the %s' % ROOM[k])
    twice = t.make_initial_rooms(**dict(args, n=2 * n))
    close([r['vent'] if r else 0.0 for r in twice], [2 * v for v in fresh], 'outdoor air at twice the air change rate', rtol=1e-9, atol=1e-12)
    ctx.label('no other room', o <= 0)
    ctx.label('no non-occupant room', nr <= 0)
    ctx.label('crawl space', uf > 0)
    ctx.nontrivial(o > 0 and nr > 0 and uf > 0)


def room_cases():
    area = st.one_of(st.just(0.0), G.f9(1, 80), G.f9(1, 80))
    return st.fixed_dictionaries({
        'mr': st.one_of(G.f9(1, 80), G.f9(1, 80), G.f9(1, 80), st.sampled_from([0.0, -3.0])), 'or': area, 'nr': area, 'n': st.one_of(st.just(0.5), st.floats(0, 3).map(lambda v: round(v, 4))),
        'nv': st.lists(st.sampled_from([0.0, 5.0, 20.0, 7.5]), min_size=2, max_size=2),
        'ecs': st.lists(st.fixed_dictionaries({'area': G.f9(0, 40), 'space_type': st.sampled_from(ROOM + ('underfloor', 'underfloor'))}), max_size=4)})


# solar gain factor of glazing: bare, with paper screen, with outside blind
GLASS = {'3WgG': (.54, .34, .12), '3WsG': (.33, .22, .08), '3LgG': (.59, .37, .14), '3LsG': (.37, .25, .10), '2LgG': (.64, .38, .15), '2LsG': (.40, .26, .11)}
GLASS.update({k: (.79, .38, .17) for k in ('2FAheatreflect1', '2FAheatreflect2', '2FAheatreflect3', '2FAheatabsorb2', '2FAmulti', '2FAsingle')})
GLASS.update({k: (.88, .38, .19) for k in ('Theatreflect1', 'Theatreflect2', 'Theatreflect3', 'Theatabsorb2', 'Tsingle')})
FRAME = {'WoodOrResin': .72, 'Steel': .8}
SHADE = ('None', 'Shoji', 'ExtarnalBlind')
ALL_GLASS = [{'frame': f, 'glass': g, 'shade': s} for f, g, s in itertools.product(sorted(FRAME), sorted(GLASS), SHADE)]


def run_glass(case, ctx):
    from heat_load_calc.convert import convert_lv4_to_h_hlc as t
    one = lambda w: GLASS[w['glass']][SHADE.index(w['shade'])] * FRAME[w['frame']]      # noqa: E731
    a, b = case['inner'], case['outer']
    close(t.get_eta_from_specification(a['frame'], a['glass'], a['shade']), one(a), 'gain factor of a window', rtol=1e-12)
    spec = lambda w, where: {'TypeFrame' + where: w['frame'], 'TypeGlass' + where: w['glass'], 'TypeShade' + where: w['shade']}    # noqa: E731
    close(t.get_eta(dict(spec(a, ''), EtaInputMethod='InputSpecification', TypeWindow='Single')), one(a), 'gain factor of a single window', rtol=1e-12)
    f = .72 if a['frame'] == b['frame'] == 'WoodOrResin' else .8
    double = dict(dict(spec(a, 'Inside'), **spec(b, 'Outside')), EtaInputMethod='InputSpecification', TypeWindow='Double')
    close(t.get_eta(double), one(a) * one(b) * 1.06 / f, 'gain factor of a double window', rtol=1e-12)
    x, y = case['value']
    close(t.get_eta({'EtaInputMethod': 'InputValue', 'TypeWindow': 'Single', 'Eta': x}), x, 'given gain factor', rtol=1e-12)
    close(t.get_eta(dict(double, EtaInputMethod='InputValue', EtaInside=x, EtaOutside=y)), x * y * 1.06 / f, 'given gain factors of a double window', rtol=1e-12)
    for k in ('EtaInputMethod', 'TypeGlassInside', 'TypeFrameOutside', 'TypeShadeInside'):
        rejects(lambda: t.get_eta(dict(double, **{k: 'unheard of'})), 'a window with an unknown %s' % k)
    ctx.label('different frames', a['frame'] != b['frame'])
    ctx.nontrivial(a != b)


def glass_cases():
    w = st.sampled_from(ALL_GLASS)
    v = st.floats(0, 1).map(lambda z: round(z, 6))
    return st.fixed_dictionaries({'inner': w, 'outer': w, 'value': st.tuples(v, v)})


COMPASS = {'S': 0, 'SW': 45, 'W': 90, 'NW': 135, 'N': 180, 'NE': -135, 'E': -90, 'SE': -45}
SPACE = {'ClosedSpace': 'closed_space', 'OpenBackFloor': 'open_underfloor', 'ResidenceSpace': 'air_conditioned', 'ClosedBackFloor': 'closed_underfloor'}
FACING = ['Top'] + list(COMPASS) + ['Bottom']


def skin(region, space, direction):
    """what a part of the envelope borders on"""
    where = direction if space == 'Outdoor' else space
    if where in SPACE:
        return {'name': direction, 'Type': 'DeltaTCoeff', 'TempDifferFactor': R.h(SPACE[where], region)}
    return {'name': direction, 'Type': 'Outdoor', 'DirectionAngle': COMPASS.get(where), 'InclinationAngle': {'Top': 0, 'Bottom': 180}.get(where, 90), 'GroundReflectRate': 0.1}


def orient(d):
    return 'Downward' if d == 'Top' else 'Upward' if d in ('Bottom', 'OpenBackFloor', 'ClosedBackFloor') else 'Vertical'


INNER = {'InnerCeiling': 'Downward', 'InnerWall': 'Vertical', 'InnerFloor': 'Upward', 'GroundFloor': 'Upward'}


def run_parts(case, ctx):
    """every part goes to its own room, once, whole, and nothing else happens to the rooms"""
    from heat_load_calc.convert import convert_lv4_to_h_hlc as t
    region = case['region']
    rooms = [{'room_type': r, 'Surface': [], 'EarthfloorPerimeter': [], 'mark': k} for k, r in enumerate(case['rooms'])]
    src = copy.deepcopy(case)
    with quiet():
        got = t.integrate_doors_to_rooms(region, case['doors'], rooms)
        got = t.integrate_earthfloorperimeters_to_rooms(region, case['perimeters'], got)
        got = t.integrate_earthfloors_to_rooms(region, case['floors'], got)
        got = t.integrate_innerwalls_to_rooms(region, case['inner'], got)
        got = t.integrate_equipments_to_rooms(case['area'][0], case['area'][1], {'is': 'main'}, {'is': 'other'}, got)
    check(case == src, 'the part lists were changed')
    check([r['room_type'] for r in got] == case['rooms'] and [r['mark'] for r in got] == list(range(len(got))), 'rooms were lost, added or reordered')
    names = []
    for r in got:
        kind = r['room_type']
        s = list(r['Surface'])
        doors = [x for x in case['doors'] if x['space'] == kind]
        for x, y in zip(doors, s[:len(doors)]):
            check(y['area'] == x['area'] and y['Window']['Uw'] == x['U'], 'door of %r m2, U %r became %r', x['area'], x['U'], y)
            close([y['Window']['Eta'], y['Window']['SolarTrans']], [0.034 * x['U']] * 2, 'gain factor of a door', rtol=1e-12)
            close([y['Window']['OutHeatTrans'], y['Window']['InHeatTrans']], [25.0, 1 / .11], 'film coefficients of a door')
            check(y['boundary'] == skin(region, x['nextspace'], x['direction']), 'door to %s %s borders on %s', x['nextspace'], x['direction'], y['boundary'])
            check(y['direction'] == orient(x['direction']) and y['floor'] == (x['direction'] == 'Bottom'), 'door facing %s: %s', x['direction'], y)
            check((y['skin'], y['unsteady'], y['flr']) == (True, False, 0), 'door: skin %s, unsteady %s, share of floor radiation %s', y['skin'], y['unsteady'], y['flr'])
            check((y['sunbreak'] != {}) == x['IsSunshadeInput'], 'overhang of a door: %s', y['sunbreak'])
            if x['IsSunshadeInput']:
                check((y['sunbreak']['D'], y['sunbreak']['hi'], y['sunbreak']['WH']) == (x['Z'], x['Y1'], x['Y2']), 'overhang of a door: %s', y['sunbreak'])
        s = s[len(doors):]
        floors = [x for x in case['floors'] if x['space'] == kind]
        for x, y in zip(floors, s):
            check(y['area'] == x['area'] and y['floor'] is True and y['boundary'] == 'AnnualAverage' and y['IsSoil'] is True, 'earth floor became %r', y)
            check((y['skin'], y['unsteady'], y['flr']) == (True, True, 0), 'earth floor: skin %s, unsteady %s, share of floor radiation %s', y['skin'], y['unsteady'], y['flr'])
            close(y['Wall']['InHeatTrans'], 1 / .15, 'film coefficient of an earth floor')
            close(sum(l['thick'] / l['cond'] for l in y['Wall']['Layers']), .15 / 1.6 + 3.0, 'resistance below an earth floor')
        s = s[len(floors):]
        inner = [x for x in case['inner'] if x['space'] == kind]
        check(len(s) == len(inner), '%d surfaces of the %s, %d expected', len(r['Surface']), kind, len(doors) + len(floors) + len(inner))
        for x, y in zip(inner, s):
            check(y['area'] == x['area'] and y['Wall']['Layers'] == x['Layers'] and y['boundary']['room_type'] == x['nextspace'], 'inner part became %r', y)
            check((y['skin'], y['unsteady'], y['flr']) == (False, True, 0), 'inner part: skin %s, unsteady %s, share of floor radiation %s', y['skin'], y['unsteady'], y['flr'])
            check(y['floor'] == (x['type'] in ('GroundFloor', 'InnerFloor')), 'inner part %s a floor: %r', x['type'], y['floor'])
            want = INNER[x['type']] if kind != 'underfloor' else 'Downward' if x['type'] == 'GroundFloor' else None
            check(y['direction'] == want, 'inner part %s of the %s faces %r', x['type'], kind, y['direction'])
            ri, ro = {'wall': (.11, .11), 'floor': (.15, .15), 'ceiling': (.09, .09)}[x['general_part']]
            close([y['Wall']['InHeatTrans'], y['Wall']['OutHeatTrans']], [1 / ri, 1 / ro], 'film coefficients of an inner part')
        pers = [x for x in case['perimeters'] if x['space'] == kind]
        check(len(pers) == len(r['EarthfloorPerimeter']), '%d perimeters of the %s, %d expected', len(r['EarthfloorPerimeter']), kind, len(pers))
        for x, y in zip(pers, r['EarthfloorPerimeter']):
            check(y['LinearHeatTrans'] == x['psi'] and y['LinearHeatTransLength'] == x['length'], 'perimeter became %r', y)
            want = skin(region, 'Outdoor', x['direction'] if x['nextspace'] == 'Outdoor' else x['nextspace'])
            check(y['boundary'] == {k: v for k, v in want.items() if k in ('name', 'Type', 'TempDifferFactor')}, 'perimeter borders on %s', y['boundary'])
        names += [y['name'] for y in r['Surface']] + [y['name'] for y in r['EarthfloorPerimeter']]
        want = {'main_occupant_room': ('main', case['area'][0]), 'other_occupant_room': ('other', case['area'][1])}.get(kind)
        if want and want[1] > 0:
            check(r.get('equipment') == {'is': want[0]}, 'equipment of the %s: %s', kind, r.get('equipment'))
        else:
            check('equipment' not in r, 'equipment in the %s', kind)
    if len(set(case['rooms'])) == len(case['rooms']):
        check(len(set(names)) == len(names), 'parts of the same name: %s', sorted(n for n in names if names.count(n) > 1))
    for f in FACING:
        check(t.get_directionangle_from_direction(f) == COMPASS.get(f), 'azimuth of %s', f)
        check(t.get_tempdifferentfactor_from_direction(region, f) == 1.0, 'temperature coefficient of %s', f)
    for f, space in SPACE.items():
        close(t.get_tempdifferentfactor_from_direction(region, f), R.h(space, region), 'temperature coefficient of %s' % f)
    for fn in (t.get_direction, t.get_directionangle_from_direction, t.get_inclinationangle_from_direction, t.get_direction_from_direction_for_outer_skin):
        rejects(lambda: fn('Nowhere'), 'an unknown direction')
    rejects(lambda: t.get_tempdifferentfactor_from_direction(9, 'ClosedSpace'), 'an unknown region')
    ctx.label('several rooms with parts', sum(bool(r['Surface']) for r in got) > 1)
    ctx.nontrivial(len(names) > 2 and sum(bool(r['Surface']) for r in got) > 1)


def part_cases():
    lists = lambda d, n=4: st.lists(st.fixed_dictionaries(d), max_size=n)      # noqa: E731
    room = st.sampled_from(ROOM)
    space = st.one_of(st.just('Outdoor'), st.sampled_from(sorted(SPACE)))
    face = st.sampled_from(FACING)
    return st.fixed_dictionaries({
        'region': st.integers(1, 8), 'rooms': st.permutations(ROOM).flatmap(lambda r: st.integers(1, 4).map(lambda k: list(r)[:k])),
        'doors': lists({'space': room, 'U': G.f9(.5, 6), 'area': G.f9(.1, 10), 'nextspace': space, 'direction': face, 'IsSunshadeInput': st.booleans(),
                        'Z': G.f9(.1, 2), 'Y1': G.f9(0, 1), 'Y2': G.f9(.5, 3)}),
        'perimeters': lists({'space': room, 'psi': G.f9(.1, 2), 'length': G.f9(.1, 30), 'nextspace': space, 'direction': face}),
        'floors': lists({'space': room, 'area': G.f9(.1, 50)}, 3),
        'inner': lists({'space': room, 'general_part': st.sampled_from(['wall', 'floor', 'ceiling']), 'next_space': st.just('air_conditioned'),
                        'type': st.sampled_from(sorted(INNER)), 'nextspace': room, 'area': G.f9(.1, 50),
                        'Layers': st.lists(st.fixed_dictionaries({'name': st.just('x'), 'thick': G.f9(.01, .2)}), max_size=2)}),
        'area': st.lists(st.one_of(G.f9(1, 50), st.just(0.0)), min_size=2, max_size=2)})


def run_leak(case, ctx):
    from heat_load_calc.initializer import estimate_c_value as e
    u, k = case['u'], case['k']
    for name, a in (('rc', 4.16), ('src', 4.16), ('wooden', 8.28), ('steel', 8.28)):
        s = e.Structure(name)
        close(e.estimate_c_value(u, s), a * u, 'C value of a %s house' % name, rtol=1e-12)
        close(e.estimate_c_value(k * u, s), k * e.estimate_c_value(u, s), 'C value in proportion to UA', rtol=1e-12)
    rejects(lambda: e.estimate_c_value(u, 'straw'), 'an unknown structure')
    rejects(lambda: e.Structure('straw'), 'an unknown structure')
    ctx.nontrivial(u > 0)


CHECKS = [
    Check('rooms', room_cases, run_rooms, 2000, 30000, 'other and non-occupant rooms and a crawl space'),
    Check('glass', glass_cases, run_glass, 1500, 20000, 'two different windows', fixed=[{'inner': a, 'outer': b, 'value': [.3, .5]} for a, b in zip(ALL_GLASS, ALL_GLASS[7:] + ALL_GLASS[:7])]),
    Check('parts', part_cases, run_parts, 1500, 20000, 'more than two parts in more than one room'),
    Check('leak', lambda: st.fixed_dictionaries({'u': st.floats(0, 5).map(lambda v: round(v, 6)), 'k': st.floats(0, 4).map(lambda v: round(v, 6))}), run_leak, 200, 2000, 'a UA above zero'),
]
