"""Generators of building part descriptions (the dictionaries the convert package reads and writes)."""
from hypothesis import strategies as st

import eesref as R

TYPES = ['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']
ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor']
ALL_DIRECTIONS = R.DIRECTIONS + R.NOWHERE


def f9(lo, hi):
    return st.floats(lo, hi).map(lambda x: float('%.9g' % x) if abs(x) > 1e-6 else 0.0)


def pick(*options):
    return st.sampled_from(options)


def areas(lo=0.0):
    return st.one_of(f9(1, 60), f9(lo, 300), pick(10.0, 1.0, max(lo, 0.0)))


@st.composite
def layer(draw, i=0):
    d = {'name': draw(pick('gypsum', 'wool', 'plywood', 'concrete')) + str(i), 'thickness': draw(f9(0.003, 0.3)), 'volumetric_specific_heat': draw(st.one_of(f9(1, 2000), st.just(0.0)))}
    if draw(st.booleans()):
        d.update(heat_resistance_input_method='conductivity', thermal_conductivity=draw(f9(0.02, 2.5)))
    else:
        d.update(heat_resistance_input_method='resistance', thermal_resistance=draw(f9(0.02, 4)))
    return d


@st.composite
def layers(draw, lo=1, hi=4):
    return [draw(layer(i)) for i in range(draw(st.integers(lo, hi)))]


@st.composite
def ratios(draw):
    n = draw(st.integers(1, 3))
    if n == 1:
        return [1.0]
    w = [draw(st.integers(1, 20)) for _ in range(n)]
    r = [round(x / sum(w), 6) for x in w]
    r[-1] = round(1.0 - sum(r[:-1]), 9)
    return r


@st.composite
def spec(draw, structures=('wood', 'rc', 'steel', 'other')):
    s = draw(pick(*structures))
    if s == 'other':
        return {'structure': 'other', 'u_value_other': draw(st.one_of(f9(.1, 2), f9(.05, 6))), 'weight': draw(pick('light', 'heavy'))}
    d = {'structure': s}
    if s == 'steel':
        d['u_r_value_steel'] = draw(f9(0, 0.5))
    d['r_srf_in'], d['r_srf_ex'] = draw(pick(.09, .11, .15, .12)), draw(pick(.04, .09, .11, .15))
    d['parts'] = [{'name': 'part%d' % i, 'part_area_ratio': r, 'layers': draw(layers())} for i, r in enumerate(draw(ratios()))]
    return d


BOX = ['x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns']


@st.composite
def box(draw):
    return {k: draw(f9(0, 3)) for k in BOX}


@st.composite
def shade_opaque(draw, next_space='outdoor', computable=False):
    if next_space != 'outdoor':
        return {'is_defined': False}
    if computable or draw(st.integers(0, 2)):
        return {'is_defined': True, 'input': 'not_input'}
    return dict(draw(box()), is_defined=True, input='complex')


@st.composite
def shade_window(draw, next_space='outdoor', computable=False):
    if next_space != 'outdoor':
        return draw(pick({'is_defined': False}, {'is_defined': True, 'input': 'simple', 'depth': .3, 'd_h': 1.0, 'd_e': 0.0}))
    kinds = ['not_input', 'simple', 'simple'] + ([] if computable else ['not_exist', 'complex'])
    k = draw(pick(*kinds))
    d = {'is_defined': True, 'input': k}
    if k == 'simple':
        d.update(depth=draw(f9(.05, 3)), d_h=draw(f9(0, 3)), d_e=draw(f9(0, 2)))
    elif k == 'complex':
        d.update(draw(box()))
    return d


def direction_for(draw, next_space):
    if next_space == 'outdoor':
        return draw(pick(*R.DIRECTIONS))
    return draw(pick(*(R.NOWHERE + R.COMPASS[:2])))


@st.composite
def general_part(draw, i=0, room='undefined', computable=False, structures=('wood', 'rc', 'steel', 'other'), low=0.0):
    ns = draw(st.one_of(pick('outdoor'), pick(*R.SPACES)))
    return {'name': 'gp%d' % i, 'general_part_type': draw(pick(*TYPES)), 'next_space': ns, 'direction': direction_for(draw, ns),
            'area': draw(areas(low)), 'space_type': room, 'spec': draw(spec(structures)), 'sunshade': draw(shade_opaque(ns, computable))}


@st.composite
def window(draw, i=0, room='undefined', computable=False, low=0.0):
    ns = draw(st.one_of(pick('outdoor'), pick(*R.SPACES)))
    return {'name': 'w%d' % i, 'next_space': ns, 'direction': direction_for(draw, ns), 'area': draw(areas(low)), 'space_type': room,
            'sunshade': draw(shade_window(ns, computable)),
            'spec': {'u_value': draw(f9(.8, 6.5)), 'eta_d_h_value': draw(f9(0, .88)), 'eta_d_c_value': draw(f9(0, .88)),
                     'glass_type': draw(pick('single', 'double', 'triple_and_more', 'unknown')),
                     'flame_type': draw(pick('wood', 'resin', 'metal', 'wood_and_metal', 'resin_and_metal', 'unknown'))}}


@st.composite
def door(draw, i=0, room='undefined', computable=False, low=0.0):
    ns = draw(st.one_of(pick('outdoor'), pick(*R.SPACES)))
    return {'name': 'd%d' % i, 'next_space': ns, 'direction': direction_for(draw, ns), 'area': draw(areas(low)), 'space_type': room,
            'sunshade': draw(shade_opaque(ns, computable)), 'spec': {'u_value': draw(f9(.8, 6.5))}}


@st.composite
def perimeter(draw, i=0, room='undefined'):
    return {'name': 'ep%d' % i, 'next_space': draw(pick('outdoor', 'open_underfloor', 'closed_underfloor', 'open_space')), 'length': draw(f9(0, 40)),
            'space_type': room, 'spec': {'psi_value': draw(f9(.1, 2))}}


@st.composite
def center(draw, i=0, room='undefined'):
    return {'name': 'ec%d' % i, 'area': draw(areas()), 'space_type': room, 'spec': {'layers': draw(layers(0, 2))}}


@st.composite
def bridge(draw, i=0, room='undefined'):
    n = draw(st.integers(1, 3))
    spaces = [draw(st.one_of(pick('outdoor'), pick(*R.SPACES))) for _ in range(n)]
    return {'name': 'hb%d' % i, 'next_spaces': spaces, 'directions': [direction_for(draw, s) for s in spaces], 'length': draw(f9(0, 40)),
            'space_type': room, 'spec': {'psi_value': draw(f9(0, 1.5))}}


KINDS = {'general_parts': general_part, 'windows': window, 'doors': door, 'earthfloor_perimeters': perimeter, 'earthfloor_centers': center, 'heat_bridges': bridge}
AREAL = ('general_parts', 'windows', 'doors')


@st.composite
def envelope(draw, rooms=None, computable=False, most=4, least=0):
    """whole-house description (rooms None) or one with rooms"""
    env = {}
    for k, maker in KINDS.items():
        n = draw(st.integers(least if k in AREAL else 0, most if k == 'general_parts' else 3))
        out = []
        for i in range(n):
            kw = {'computable': computable} if k in AREAL else {}
            room = 'undefined' if rooms is None else draw(pick(*rooms))
            out.append(draw(maker(i=i, room=room, **kw)))
        env[k] = out
    return env


@st.composite
def division(draw):
    """floor areas of a house: three rooms, or without other or non-occupant rooms"""
    kind = draw(pick('three', 'three', 'three', 'no_non', 'no_other', 'main'))
    r1 = lambda lo, hi: round(draw(st.floats(lo, hi)), 1)
    a_mr = max(r1(5, 60), .1)
    a_or = 0.0 if kind in ('no_other', 'main') else max(r1(5, 80), .1)
    a_nr = 0.0 if kind in ('no_non', 'main') else max(r1(1, 80), .1)
    # the total as a user writes it: decimal digits, not the float sum
    return {'main_occupant_room_floor_area': a_mr, 'other_occupant_room_floor_area': a_or, 'total_floor_area': round(a_mr + a_or + a_nr, 1)}
