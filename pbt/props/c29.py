import copy

from hypothesis import strategies as st

import eesgen as G
import eesref as R
from harness import Check, check, close, need, rejects

TECHNIQUE = 'property-based testing: generated descriptions of every kind of part, section, layer and sunshade, round trip through the classes (write back equal, read again same values), generated corruptions that must be rejected, and conversion to simulation boundaries against conservation of area, U-value, heat capacity and adjacency'
NOTE = 'sections of 1-4 layers with a resistance, added transmittance up to what leaves the layers a positive resistance'
ASSUMPTIONS = ['layers with a resistance larger than zero', 'an added transmittance that leaves the layers a positive resistance']

CLASSES = {'gp': ('GeneralPart', 'make_general_part'), 'w': ('Window', 'make_window'), 'd': ('Door', 'make_door'),
           'ep': ('EarthfloorPerimeter', 'make_earthfloor_perimeter'), 'ec': ('EarthfloorCenter', 'make_earthfloor_center'),
           'hb': ('Heatbridge', 'make_heatbridge'), 'if': ('InnerFloor', 'make_inner_floor'), 'iw': ('InnerWall', 'make_inner_wall')}
ROOM_ID = {'main_occupant_room': 0, 'other_occupant_room': 1, 'non_occupant_room': 2, 'underfloor': 3}
FILMS = {'roof': (.09, .04), 'ceiling': (.09, .09), 'wall': (.11, .04), 'floor': (.15, .15), 'boundary_wall': (.11, .11),
         'upward_boundary_floor': (.09, .09), 'downward_boundary_floor': (.15, .15)}
# default constructions, from the room outwards: thickness, volumetric heat, conductivity; INS is insulation of fitting thickness
GYP, PLY12, PLY24, CONC, INS = (.0095, 830., .221), (.012, 720., .16), (.024, 720., .16), (.12, 2000., 1.6), None
DEFAULT = {
    'light': {'roof': [GYP, INS], 'ceiling': [GYP, INS], 'wall': [GYP, INS, PLY12], 'floor': [PLY24, INS], 'boundary_wall': [GYP, INS, GYP],
              'upward_boundary_floor': [GYP, INS, PLY24], 'downward_boundary_floor': [PLY24, INS, GYP]},
    'heavy': {'roof': [GYP, INS, CONC], 'ceiling': [GYP, INS, CONC], 'wall': [GYP, INS, CONC], 'floor': [PLY24, INS, CONC], 'boundary_wall': [GYP, INS, GYP],
              'upward_boundary_floor': [GYP, CONC, INS, PLY24], 'downward_boundary_floor': [PLY24, INS, CONC, GYP]}}


def make(kind, d):
    from heat_load_calc.convert import ees_house as e
    cls, fn = CLASSES[kind]
    return getattr(getattr(e, cls), fn)(d)


def facts(kind, p):
    """what a part answers about itself"""
    out = {'name': p.name}
    for k in ('area', 'length', 'direction', 'next_space', 'space_type', 'general_part_type', 'next_spaces', 'directions',
              'upper_space_type', 'lower_space_type', 'space_type_1', 'space_type_2'):
        if hasattr(p, k):
            out[k] = getattr(p, k)
    if kind in ('gp', 'w', 'd'):
        out['u'], out['q'] = p.get_u(), p.get_q(region=6)
    if kind == 'gp':
        s = p.general_part_spec
        out.update(ri=s.r_srf_in, re=s.r_srf_ex)
    if kind == 'w':
        s = p.window_spec
        out.update(h=s.eta_d_h, c=s.eta_d_c, glass=s.glass_type, flame=s.flame_type)
    if kind in ('ep', 'hb'):
        out.update(psi=p.get_psi())
    return out


def plain(v):
    return v.value if hasattr(v, 'value') else [plain(x) for x in v] if isinstance(v, list) else v


def run_round(case, ctx):
    kind, d = case['kind'], case['part']
    given = copy.deepcopy(d)
    p = make(kind, d)
    check(d == given, 'reading a description changes it')
    f = facts(kind, p)
    for k in ('name', 'area', 'length', 'direction', 'next_space', 'space_type', 'general_part_type', 'next_spaces', 'directions',
              'upper_space_type', 'lower_space_type', 'space_type_1', 'space_type_2'):
        if k in d:
            check(plain(need(f, k, 'part')) == d[k], '%s read as %r from %r', k, plain(f[k]), d[k])
    out = p.get_as_dict()
    check(out == given, 'written back as %s, read from %s', out, given)
    again = make(kind, copy.deepcopy(out))
    check(facts(kind, again) == f, 'read again with other values: %s, %s', facts(kind, again), f)
    check(again.get_as_dict() == given, 'written a second time as %s', again.get_as_dict())
    # the same through the lists of parts
    from heat_load_calc.convert import ees_house as e
    cls, fn = CLASSES[kind]
    many = getattr(getattr(e, cls), fn + 's')([d, given])
    check([x.get_as_dict() for x in many] == [given, given], 'a list of parts is not written back as read')
    ctx.label(kind)
    if kind == 'gp':
        ctx.label(d['spec']['structure'])
    if kind in ('w', 'gp', 'd'):
        ctx.label('sunshade ' + (d['sunshade'].get('input') or 'undefined'))
    ctx.nontrivial(kind in ('gp', 'w', 'if', 'iw', 'hb') or d.get('area', d.get('length', 0)) > 0)


def spots(kind, d):
    """every place holding an enumerated value"""
    out = []
    if kind in ('gp', 'w', 'd', 'ep'):
        out += [('next_space',), ('space_type',)]
    if kind in ('gp', 'w', 'd'):
        out.append(('direction',))
        if d['sunshade']['is_defined']:
            out.append(('sunshade', 'input'))
    if kind == 'gp':
        out += [('general_part_type',), ('spec', 'structure')]
        for i, s in enumerate(d['spec'].get('parts', [])):
            out += [('spec', 'parts', i, 'layers', j, 'heat_resistance_input_method') for j in range(len(s['layers']))]
    if kind == 'w':
        out += [('spec', 'glass_type'), ('spec', 'flame_type')]
    if kind == 'hb':
        out += [('space_type',)] + [('next_spaces', i) for i in range(len(d['next_spaces']))]
    if kind in ('if', 'iw'):
        out += [('spec', 'layers', j, 'heat_resistance_input_method') for j in range(len(d['spec']['layers']))]
    return out


def put(d, path, v):
    d = copy.deepcopy(d)
    x = d
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v
    return d


def drop(d, path):
    d = copy.deepcopy(d)
    x = d
    for k in path[:-1]:
        x = x[k]
    del x[path[-1]]
    return d


def run_reject(case, ctx):
    kind, d = case['kind'], case['part']
    where = spots(kind, d)
    path = where[case['at'] % len(where)]
    rejects(lambda: make(kind, put(d, path, case['junk'])), '%r at %s' % (case['junk'], path))
    if kind in ('gp', 'w', 'd'):
        # a value every part needs, missing
        keys = ['name', 'area', 'next_space', 'direction', 'space_type', 'sunshade', 'spec']
        k = keys[case['at'] % len(keys)]
        rejects(lambda: make(kind, drop(d, (k,))), 'a part without %s' % k)
    if kind == 'gp' and 'parts' in d['spec']:
        off = case['off']
        i = case['at'] % len(d['spec']['parts'])
        bad = put(d, ('spec', 'parts', i, 'part_area_ratio'), d['spec']['parts'][i]['part_area_ratio'] + off)
        if abs(off) > 2e-6:
            rejects(lambda: make(kind, bad), 'sections adding up to 1%+.3g' % off)
            ctx.label('sections off by much', abs(off) > 1e-3)
            ctx.label('sections off by little', abs(off) <= 1e-3)
        elif abs(off) < 5e-8:
            make(kind, bad)
            ctx.label('rounding of sections accepted')
    ctx.label('/'.join(str(x) for x in path if isinstance(x, str)))
    ctx.nontrivial()


def shading(kind, sun):
    """the simulation's sunshade description"""
    if not sun['is_defined'] or sun['input'] == 'not_exist' or (kind != 'w' and sun['input'] == 'not_input'):
        return {'existence': False}
    if sun['input'] == 'not_input':
        return {'existence': True, 'input_method': 'default'}
    if sun['input'] == 'simple':
        return dict({k: sun[k] for k in ('depth', 'd_h', 'd_e')}, existence=True, input_method='simple')
    return dict({k: sun[k] for k in G.BOX}, existence=True, input_method='detailed')


def run_boundary(case, ctx):
    kind, d, region = case['kind'], case['part'], case['region']
    p = make(kind, d)
    if d['space_type'] == 'undefined':
        rejects(lambda: p.make_initializer_dict(region=region, **({'u_add': 0.0} if kind == 'gp' else {})), 'a boundary of a part whose room is not known')
        ctx.label('room unknown')
        return
    spec = d['spec']
    if kind == 'gp':
        films, us, steel, target = sections(d)
        u_add = case['u_add'] * max(min(1 / sum(films) - u for u in us) - steel, 0.0)
        bs = p.make_initializer_dict(u_add=u_add, region=region)
        check(len(bs) == len(us), '%d boundaries of %d sections', len(bs), len(us))
        close(sum(need(b, 'area', 'boundary') for b in bs), d['area'], 'total area of the boundaries of a part', rtol=2e-6)
        total = 0.0
        for b, u, (ratio, layers) in zip(bs, us, target):
            close(b['area'], d['area'] * ratio, 'area of a section', rtol=1e-9)
            ri, re = need(b, 'inside_heat_transfer_resistance', 'boundary'), need(b, 'outside_heat_transfer_resistance', 'boundary')
            close([ri, re], films, 'film resistances')
            ls = need(b, 'layers', 'boundary')
            check(len(ls) == len(layers), '%d layers, expected %d', len(ls), len(layers))
            r = sum(need(x, 'thermal_resistance', 'layer') for x in ls)
            close(1 / (ri + r + re), u + u_add + steel, 'U-value of a section with heat bridges', rtol=1e-7)
            total += b['area'] / (ri + r + re)
            for x, (lr, lc) in zip(ls, layers):
                close(need(x, 'thermal_capacity', 'layer'), lc, 'heat capacity of a layer', rtol=1e-9)
            # the reduction is spread in proportion over the layers
            whole = sum(lr for lr, _ in layers)
            close([x['thermal_resistance'] for x in ls], [lr / whole * r for lr, _ in layers], 'resistances of the layers', rtol=1e-7, atol=1e-9)
        if sum(x for x, _ in target) == 1.0:
            close(total, d['area'] * (sum(x * u for (x, _), u in zip(target, us)) + u_add + steel), 'heat loss of the part', rtol=1e-7)
        if spec['structure'] == 'other':
            bare = 1 / (sum(films) + sum(lr for (lr, _), k in zip(target[0][1], DEFAULT[spec['weight']][d['general_part_type']]) if k is not INS))
            close(us[0], min(spec['u_value_other'], bare), 'U-value of the default construction', rtol=1e-9)
            ctx.label('bare default construction', us[0] < spec['u_value_other'] * (1 - 1e-9))
        names = [need(b, 'name', 'boundary') for b in bs]
        check(len(set(names)) == len(names), 'boundaries share a name: %s', names)
        check(all(n.startswith(d['name']) for n in names), 'names %s do not tell the part %s', names, d['name'])
        ctx.label(spec['structure'])
    else:
        bs = [p.make_initializer_dict(region=region)]
        close(need(bs[0], 'area', 'boundary'), d['area'], 'area')
        check(bs[0]['name'] == d['name'], 'name %r of %r', bs[0]['name'], d['name'])
        close(need(bs[0], 'u_value', 'boundary'), spec['u_value'], 'U-value')
        check(bs[0]['inside_heat_transfer_resistance'] + bs[0]['outside_heat_transfer_resistance'] < 1 / 6.5 + .05, 'film resistances of an opening')
        if kind == 'w':
            close([need(bs[0], 'eta_d_h_value', 'boundary'), need(bs[0], 'eta_d_c_value', 'boundary')], [spec['eta_d_h_value'], spec['eta_d_c_value']], 'gain factors of a window')
            check(need(bs[0], 'incident_angle_characteristics', 'boundary') == spec['glass_type'], 'glazing %r of %r', bs[0]['incident_angle_characteristics'], spec['glass_type'])
    for b in bs:
        check(need(b, 'boundary_type', 'boundary') == {'gp': 'external_general_part', 'w': 'external_transparent_part', 'd': 'external_opaque_part'}[kind], 'boundary type %r', b['boundary_type'])
        check(need(b, 'connected_room_id', 'boundary') == ROOM_ID[d['space_type']], 'room %r of %r', b['connected_room_id'], d['space_type'])
        out = d['next_space'] == 'outdoor'
        check(need(b, 'is_sun_striked_outside', 'boundary') is out, 'sun on a part facing %s: %r', d['next_space'], b['is_sun_striked_outside'])
        if out:
            check(need(b, 'direction', 'boundary') == d['direction'], 'direction %r of %r', b['direction'], d['direction'])
        close(need(b, 'temp_dif_coef', 'boundary'), R.h(d['next_space'], region), 'coefficient of the adjacent space')
        floor = kind == 'gp' and d['general_part_type'] in ('floor', 'downward_boundary_floor')
        check(need(b, 'is_solar_absorbed_inside', 'boundary') is floor, 'sun absorbed by a %s: %r', d.get('general_part_type', kind), b['is_solar_absorbed_inside'])
        check(need(b, 'solar_shading_part', 'boundary') == shading(kind, d['sunshade']), 'sunshade %s of %s', b['solar_shading_part'], d['sunshade'])
        close(need(b, 'outside_emissivity', 'boundary'), .9, 'emissivity')
        if kind != 'w':
            close(need(b, 'outside_solar_absorption', 'boundary'), .8, 'absorption')
    # asking does not change the part
    check(p.get_as_dict() == d, 'making boundaries changes the part')
    ctx.label(kind + (' outdoors' if out else ' elsewhere'))
    ctx.nontrivial(d['area'] > 0 and (kind != 'gp' or u_add > 0))


def sections(d):
    """film resistances, U-value per section, correction for steel, [(area ratio, [(resistance, capacity)])]"""
    s = d['spec']
    if s['structure'] != 'other':
        films = (s['r_srf_in'], s['r_srf_ex'])
        target = [(x['part_area_ratio'], [(R.layer_r(l), l['thickness'] * l['volumetric_specific_heat']) for l in x['layers']]) for x in s['parts']]
        steel = s.get('u_r_value_steel', 0.0)
    else:
        films = FILMS[d['general_part_type']]
        kinds = DEFAULT[s['weight']][d['general_part_type']]
        fixed = sum(k[0] / k[2] for k in kinds if k is not INS)
        ins = max(1 / s['u_value_other'] - sum(films) - fixed, 0.0)
        target = [(1.0, [(ins, ins * .045 * 13.0) if k is INS else (k[0] / k[2], k[0] * k[1]) for k in kinds])]
        steel = 0.0
    us = [1 / (sum(films) + sum(r for r, _ in ls)) for _, ls in target]
    return films, us, steel, target


@st.composite
def inner(draw, kind):
    d = {'name': kind, 'area': draw(G.areas()), 'spec': {'layers': draw(G.layers(1, 4))}}
    a, b = draw(G.pick(*G.ROOMS)), draw(G.pick(*G.ROOMS))
    d.update({'upper_space_type': a, 'lower_space_type': b} if kind == 'if' else {'space_type_1': a, 'space_type_2': b})
    return d


@st.composite
def part_cases(draw, kinds, rooms=tuple(G.ROOMS) + ('undefined',)):
    k = draw(G.pick(*kinds))
    room = draw(G.pick(*rooms))
    maker = {'gp': G.general_part, 'w': G.window, 'd': G.door, 'ep': G.perimeter, 'ec': G.center, 'hb': G.bridge}.get(k)
    return {'kind': k, 'part': draw(maker(room=room) if maker else inner(k))}


@st.composite
def with_extra(draw, base, **extra):
    c = draw(base)
    c.update({k: draw(v) for k, v in extra.items()})
    return c


JUNK = st.one_of(st.sampled_from(['', 'none', 'Wall', 'outdoors', 'NORTH', 'concrete', None, 7]), st.text('qxzj', min_size=1, max_size=5))
OFF = st.one_of(st.sampled_from([.1, -.1, .01, -.01, 1e-3, -1e-3, 1e-5, -1e-5, 3e-6, -3e-6, 1e-8, -1e-8, 1.0]), st.floats(.001, .9), st.floats(-.9, -.001))

CHECKS = [
    Check('round', lambda: part_cases(('gp', 'gp', 'gp', 'w', 'w', 'd', 'ep', 'ec', 'hb', 'if', 'iw')), run_round, 3000, 40000, 'a part with size'),
    Check('reject', lambda: with_extra(part_cases(('gp', 'gp', 'w', 'd', 'ep', 'hb', 'if', 'iw')), at=st.integers(0, 40), junk=JUNK, off=OFF), run_reject, 2000, 20000, 'every case'),
    Check('boundary', lambda: with_extra(part_cases(('gp', 'gp', 'w', 'd'), tuple(G.ROOMS) * 4 + ('undefined',)), region=st.integers(1, 8), u_add=st.one_of(st.just(0.0), st.floats(.001, .9))), run_boundary, 3000, 40000,
          'a part with size (general parts: with an added transmittance)'),
]
