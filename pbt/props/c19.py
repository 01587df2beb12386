import numpy as np
from hypothesis import strategies as st

import hgen
from harness import Check, check, close, finite
from props.c16 import NAMES, normal_of
from props.c18 import incident, short, simple

TECHNIQUE = 'property-based testing: generated boundaries and houses over generated yearly weather; oracle is an independent radiation geometry and surface balance; linearity in absorptance, emissivity and film resistance, listing order checked at house level'
NOTE = 'boundary level thousands of cases, house level 1-3 rooms and up to 16 boundaries over 35,040 instants'
ASSUMPTIONS = ['outside shading by eaves does not enter the outdoor-side temperature of opaque boundaries (documented calculation)']


def expected(b, w):
    k = b['boundary_type']
    if k == 'internal':
        return np.zeros(len(w['to']))
    if k == 'ground':
        return np.full(len(w['to']), w['to'].mean())
    if not b['is_sun_striked_outside']:
        return w['to']
    f = (1.0 + normal_of(b['direction'])[2]) / 2.0
    net = -b['outside_emissivity'] * f * w['rn']
    if k != 'external_transparent_part':
        d, s, r, _ = incident(b, w)
        net = net + b['outside_solar_absorption'] * (d + s + r)
    return w['to'] + net * b['outside_heat_transfer_resistance']


def run_boundary(case, ctx):
    b = dict(case['b'], id=0)
    k = b['boundary_type']
    if k == 'internal':
        b.update(rear_surface_boundary_id=1, next_room_type='non_occupant_room', layers=hgen.named([[0.1, 10.0]]), outside_heat_transfer_resistance=0.11)
    w = short(case)
    if k in ('internal', 'ground'):
        w = hgen.arrays({'instants': case['instants'], 'seed': case['seed']})
    t = np.asarray(simple(b, w).theta_o_sol, dtype=float)
    want = expected(b, w)
    finite(t, 'outdoor-side temperature')
    close(t, want, 'outdoor-side temperature of a boundary of kind %s facing %s' % (k, b.get('direction')), atol=1e-7)
    if k in hgen.EXT:
        g = case['factor']
        d0 = t - w['to']
        for key in ('outside_heat_transfer_resistance',):
            close(np.asarray(simple(dict(b, **{key: b[key] * g}), w).theta_o_sol) - w['to'], d0 * g,
                  'excess over the air at %.4g times the film resistance' % g, atol=1e-7)
        close(np.asarray(simple(b, dict(w, to=w['to'] + 7.0)).theta_o_sol), t + 7.0, 'outdoor-side temperature in air 7 K warmer', atol=1e-7)
        if b['is_sun_striked_outside'] and k != 'external_transparent_part':
            black = np.asarray(simple(dict(b, outside_solar_absorption=1.0), w).theta_o_sol)
            white = np.asarray(simple(dict(b, outside_solar_absorption=0.0), w).theta_o_sol)
            check(bool(np.all(black >= white - 1e-7)), 'a black surface is colder than a white one')
            check(bool(np.all(white <= w['to'] + 1e-7)), 'a white surface is warmer than the air')
            ctx.nontrivial(bool(np.any(black > white + 1e-3)))
        else:
            ctx.nontrivial(b['is_sun_striked_outside'] and b['outside_emissivity'] > 0)
        ctx.label('lit' if b['is_sun_striked_outside'] else 'not lit')
    ctx.label(k)


def boundary_cases():
    pick = st.sampled_from(hgen.EXT * 8 + ['internal', 'ground'])
    return st.fixed_dictionaries({'b': pick.flatmap(lambda k: hgen.boundary(k, 0, 'x')), 'instants': st.lists(hgen.instant(), min_size=1, max_size=24),
                                  'seed': st.integers(0, 1000), 'factor': st.floats(0.1, 3)})


def run_house(case, ctx):
    p = hgen.Prepared(case['d'], case['w'])
    for j, b in enumerate(case['d']['boundaries']):
        close(p.tos[j], expected(b, p.w), 'outdoor-side temperature of boundary %d (%s) of the house' % (j, b['boundary_type']), atol=1e-7)
    kinds = {(b['boundary_type'], b.get('is_sun_striked_outside')) for b in case['d']['boundaries']}
    for k in hgen.ALL_KINDS:
        ctx.label(k, any(x[0] == k for x in kinds))
    ctx.nontrivial(len(kinds) >= 3)


def house_cases():
    return st.fixed_dictionaries({'d': hgen.desc(vents=False, extra=(2, 10)), 'w': hgen.weather()})


CHECKS = [
    Check('boundary', boundary_cases, run_boundary, 2400, 40000, 'sun or sky changes the temperature'),
    Check('house', house_cases, run_house, 96, 1200, 'at least three kinds of boundary in one house'),
]
