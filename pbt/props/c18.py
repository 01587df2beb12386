import numpy as np
from hypothesis import strategies as st

import hgen
from harness import Check, check, close, finite, is_close, need, quiet, rejects
from props.c16 import NAMES, normal_of

TECHNIQUE = 'property-based testing: generated windows and houses over generated yearly weather; oracle is an independent ray-geometry model with the angular characteristics of the standard; conservation over rooms, scaling and order relations'
NOTE = 'window level thousands of cases, house level 1-3 rooms and up to 14 boundaries over 35,040 instants; one listed finding (beam lost by windows without an eave) is recognised by its exact amount'
ASSUMPTIONS = ['radiation levels non-negative', 'the angular polynomials are those of the documented calculation (they exceed 1 by at most 0.6 %)']


def tau(c, kind):
    t = c * (2.552 + c * (1.364 + c * (-11.388 + c * (13.617 - 5.146 * c))))
    if kind == 'single':
        return t
    r = 1.0 + c * (-5.189 + c * (12.392 + c * (-16.593 + c * (11.851 - 3.461 * c))))
    den = 1.0 - r * r
    return np.where(c > 1e-15, t * t / np.where(den == 0, 1.0, den), 0.0)


DIFFUSE = {'single': 0.900, 'multiple': 0.832}


def sun_vec(w):
    return np.stack([np.cos(w['h']) * np.cos(w['a']), np.cos(w['h']) * np.sin(w['a']), np.sin(w['h'])], -1)


def incident(b, w):
    """beam, sky, ground radiation on the boundary's outside and the cosine of incidence"""
    n = normal_of(b['direction'])
    c = np.clip(sun_vec(w) @ n, 0.0, None)
    f = (1.0 + n[2]) / 2.0
    hor = np.where(w['h'] > 0, np.sin(w['h']), 0.0) * w['dn'] + w['sky']
    return w['dn'] * c, w['sky'] * f, 0.1 * (1 - f) * hor, c


def eave_shadow(b, w):
    p = b['solar_shading_part']
    if not p['existence']:
        return np.zeros(len(w['h'])), 0.0
    n = normal_of(b['direction'])
    s = sun_vec(w)
    out = s @ n
    with np.errstate(all='ignore'):
        y = p['depth'] * s[:, 2] / out - p['d_e']
    f = np.where((s[:, 2] > 0) & (out > 0), np.clip(y / p['d_h'], 0, 1), 0.0)
    top, bot = p['d_e'], p['d_e'] + p['d_h']
    sky = (bot + np.hypot(top, p['depth']) - top - np.hypot(bot, p['depth'])) / (2 * p['d_h'])
    return f, sky


def gain(b, w):
    """(gain of the boundary, the part the listed finding takes away)"""
    if b['boundary_type'] != 'external_transparent_part' or not b['is_sun_striked_outside']:
        z = np.zeros(len(w['h']))
        return z, z
    d, k, r, c = incident(b, w)
    f, fs = eave_shadow(b, w)
    g = b['incident_angle_characteristics']
    s = b['area'] * b['eta_value']
    beam = s * (1 - f) * tau(c, g) * d
    lost = beam if not b['solar_shading_part']['existence'] else 0.0 * beam
    return beam + s * DIFFUSE[g] * ((1 - fs) * k + r), lost


def simple(b, w):
    from heat_load_calc.initializer import boundary_simple
    with quiet():
        return boundary_simple.get_boundary_simple(theta_o_ns=w['to'].copy(), i_dn_ns=w['dn'].copy(), i_sky_ns=w['sky'].copy(), r_n_ns=w['rn'].copy(),
                                                   a_sun_ns=w['a'].copy(), h_sun_ns=w['h'].copy(), b=b)


def short(case):
    p = np.array(case['instants'], dtype=float)
    return dict(zip(('h', 'a', 'dn', 'sky', 'rn', 'to'), p.T))


def compare(got, want, lost, what, ctx):
    """equal to want, or short of it by exactly what the listed finding loses"""
    finite(got, what)
    scale = 1e-9 * (1 + np.abs(want).max())
    if is_close(got, want, atol=scale + 1e-6):
        return
    if is_close(got, want - lost, atol=scale + 1e-6):
        ctx.known('F7', '%s lacks the beam of windows without an eave' % what)
        return
    close(got, want, what, atol=scale + 1e-6)


def run_window(case, ctx):
    b, w = case['b'], short(case)
    q = np.asarray(simple(b, w).q_trs_sol, dtype=float)
    want, lost = gain(b, w)
    check(q.shape == want.shape or not b['is_sun_striked_outside'], 'the gain has shape %s', q.shape)
    if not b['is_sun_striked_outside']:
        check(not np.any(q), 'a window the sun does not reach transmits %s', q[:4])
        ctx.label('not lit')
        return
    compare(q, want, lost, 'solar gain of a window facing %s' % b['direction'], ctx)
    check(bool(np.all(q >= -1e-7)), 'the solar gain is negative: %s', q.min())
    d, k, r, c = incident(b, w)
    check(bool(np.all(q <= b['area'] * b['eta_value'] * (d + k + r) * 1.006 + 1e-6)), 'more is transmitted than falls in times the gain factor')
    t = case['factor']
    for key in ('area', 'eta_value'):
        close(simple(dict(b, **{key: b[key] * t}), w).q_trs_sol, t * q, 'solar gain with %s times %.4g' % (key, t), atol=1e-6)
    close(simple(b, dict(w, dn=w['dn'] * t, sky=w['sky'] * t)).q_trs_sol, t * q, 'solar gain at %.4g times the radiation' % t, atol=1e-6)
    ctx.label(b['incident_angle_characteristics'])
    ctx.label('eave', b['solar_shading_part']['existence'])
    f, _ = eave_shadow(b, w)
    ctx.label('partly shaded', bool(np.any((f > 0) & (f < 1) & (d > 1))))
    ctx.nontrivial(bool(np.any(d > 1)))


def window_cases():
    return st.fixed_dictionaries({'b': hgen.boundary('external_transparent_part', 0, 'w').map(lambda b: dict(b, id=0)),
                                  'instants': st.lists(hgen.instant(), min_size=1, max_size=24), 'factor': st.floats(0.1, 3)})


def run_other(case, ctx):
    """boundaries that let no light through"""
    b = dict(case['b'], id=0)
    if b['boundary_type'] == 'internal':
        b.update(rear_surface_boundary_id=1, next_room_type='non_occupant_room', layers=hgen.named([[0.1, 10.0]]), outside_heat_transfer_resistance=0.11)
    w = hgen.arrays(case['w'])
    q = np.asarray(simple(b, w).q_trs_sol, dtype=float)
    check(q.shape == (hgen.N,) and not np.any(q), 'a boundary of kind %s transmits sunlight', b['boundary_type'])
    ctx.label(b['boundary_type'])
    ctx.nontrivial(True)


def other_cases():
    kinds = ['external_general_part', 'external_opaque_part', 'internal', 'ground']
    return st.fixed_dictionaries({'b': st.sampled_from(kinds).flatmap(lambda k: hgen.boundary(k, 0, 'x')), 'w': hgen.weather()})


def run_house(case, ctx):
    p = hgen.Prepared(case['d'], case['w'])
    n = len(case['d']['rooms'])
    windows = 0
    for i in range(n):
        want, lost = np.zeros(hgen.N), np.zeros(hgen.N)
        for b in case['d']['boundaries']:
            if b['connected_room_id'] == i:
                g, l = gain(b, p.w)
                want, lost = want + g, lost + l
                windows += bool(np.any(g))
        compare(p.sol[i], want, lost, 'solar gain of room %d' % i, ctx)
    ctx.label('rooms %d' % n)
    ctx.label('several windows', windows > 1)
    ctx.label('windows in several rooms', sum(np.any(p.sol[i]) for i in range(n)) > 1)
    ctx.nontrivial(windows > 0)


def house_cases():
    return st.fixed_dictionaries({'d': hgen.desc(vents=False, always_window=True, extra=(2, 8)), 'w': hgen.weather()})


def run_reject(case, ctx):
    b, w = dict(case['b'], is_sun_striked_outside=True), short(case)
    b.setdefault('direction', 's')
    if case['what'] == 'glass':
        b['incident_angle_characteristics'] = case['text']
    else:
        b['boundary_type'] = case['text']
    rejects(lambda: simple(b, w), 'a window with %s %r' % (case['what'], case['text']))
    ctx.nontrivial(True)


def reject_cases():
    return st.fixed_dictionaries({'b': hgen.boundary('external_transparent_part', 0, 'w').map(lambda b: dict(b, id=0)),
                                  'instants': st.lists(hgen.instant(), min_size=1, max_size=3), 'what': st.sampled_from(['glass', 'kind']),
                                  'text': st.sampled_from(['', 'double', 'triple', 'window', 'Single', 'external'])})


def witness(ctx):
    b = {'id': 0, 'name': 'w', 'connected_room_id': 0, 'boundary_type': 'external_transparent_part', 'area': 2.0, 'is_floor': False,
         'is_solar_absorbed_inside': False, 'inside_heat_transfer_resistance': 0.11, 'h_c': 2.5, 'solar_shading_part': {'existence': False},
         'is_sun_striked_outside': True, 'temp_dif_coef': 1.0, 'direction': 's', 'outside_heat_transfer_resistance': 0.04, 'outside_emissivity': 0.9,
         'u_value': 4.65, 'incident_angle_characteristics': 'multiple', 'eta_value': 0.8}
    run_window({'b': b, 'instants': [[0.5, 0.1, 500.0, 100.0, 50.0, 10.0]], 'factor': 2.0}, ctx)


WITNESS = {'F7': witness}
CHECKS = [
    Check('window', window_cases, run_window, 2400, 40000, 'beam sunlight falls on the window'),
    Check('other', other_cases, run_other, 200, 2000, 'every case: a boundary that must not transmit'),
    Check('house', house_cases, run_house, 96, 1200, 'at least one window lets sunlight in'),
    Check('reject', reject_cases, run_reject, 100, 500, 'every case: unknown glazing or kind'),
]
