"""House descriptions (the input of the initializer) and yearly weather files, and running the
preparation on them.  A case is plain JSON; everything is a pure function of it."""
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

import gen
from harness import check, finite, need, quiet, scratch

N = 35040
KINDS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']
EXT = ['external_general_part', 'external_transparent_part', 'external_opaque_part']
ALL_KINDS = EXT + ['internal', 'ground']
VERTICAL = ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se']
FILES = {'vent': 'mid_data_local_vent', 'heat': 'mid_data_heat_generation', 'moist': 'mid_data_moisture_generation',
         'hum': 'mid_data_occupants', 'dem': 'mid_data_ac_demand', 'sol': 'mid_data_q_trs_sol', 'tos': 'mid_data_theta_o_sol'}


# ------------------------------------------------------------------ weather

def instant():
    h = st.one_of(st.floats(-1.4, 1.5), st.floats(0.02, 1.3))
    a = st.one_of(st.floats(-3.14, 3.14), st.sampled_from([0.0, math.pi / 2, -math.pi / 4, 3.0]))
    return st.tuples(h, a, st.floats(0, 1000), st.floats(0, 500), st.floats(0, 150), st.floats(-25, 40)).map(list)


def weather(lo=1, hi=12):
    return st.fixed_dictionaries({'instants': st.lists(instant(), min_size=lo, max_size=hi), 'seed': st.integers(0, 2 ** 16)})


def arrays(w):
    """h, a, i_dn, i_sky, r_n, temperature over the year: the listed instants, then random ones"""
    rng = np.random.default_rng(w['seed'])
    p = np.empty((N, 6))
    p[:, 0] = rng.uniform(-1.3, 1.5, N)
    p[:, 1] = rng.uniform(-math.pi, math.pi, N)
    p[:, 2] = rng.uniform(0, 1000, N)
    p[:, 3] = rng.uniform(0, 500, N)
    p[:, 4] = rng.uniform(0, 150, N)
    p[:, 5] = rng.uniform(-25, 40, N)
    k = len(w['instants'])
    p[:k] = w['instants']
    return dict(zip(('h', 'a', 'dn', 'sky', 'rn', 'to'), p.T.copy()))


def write_weather(d, w):
    import pandas as pd
    x = arrays(w)
    t = pd.DataFrame(index=pd.date_range('1/1/1989', periods=N, freq='15min'))
    t['temperature'] = x['to']
    t['absolute humidity'] = 0.005
    t['normal direct solar radiation'] = x['dn']
    t['horizontal sky solar radiation'] = x['sky']
    t['outward radiation'] = x['rn']
    t['sun altitude'] = x['h']
    t['sun azimuth'] = x['a']
    t.to_csv(os.path.join(d, 'weather.csv'), encoding='utf-8')
    return x


# ------------------------------------------------------------------ description

def r2(x):
    return float('%.4g' % x)


def size(lo, hi):
    return st.floats(math.log(lo), math.log(hi)).map(lambda v: r2(math.exp(v)))


@st.composite
def shading(draw):
    if draw(st.booleans()):
        return {'existence': False}
    return {'existence': True, 'input_method': 'simple', 'depth': r2(draw(st.floats(0.1, 3))), 'd_h': r2(draw(st.floats(0.2, 3))),
            'd_e': r2(draw(st.floats(0, 1)))}


@st.composite
def boundary(draw, kind, room, name, direction=None):
    b = {'name': name, 'connected_room_id': room, 'boundary_type': kind, 'area': draw(size(0.2, 60)),
         'is_floor': False, 'is_solar_absorbed_inside': draw(st.booleans()),
         'inside_heat_transfer_resistance': draw(st.sampled_from([0.11, 0.09, 0.15])), 'h_c': draw(st.sampled_from([2.5, 5.0, 0.7, 1.0])),
         'solar_shading_part': {'existence': False}}
    if kind in EXT:
        b['is_sun_striked_outside'] = draw(st.sampled_from([True, True, False]))
        b['temp_dif_coef'] = draw(st.sampled_from([1.0, 1.0, 0.7, 0.15, 0.05, 0.0]))
        if b['is_sun_striked_outside']:
            b['direction'] = direction or draw(st.sampled_from(VERTICAL + ['top', 'bottom']))
            if b['direction'] in VERTICAL:
                b['solar_shading_part'] = draw(shading())
        elif draw(st.booleans()):
            b['direction'] = draw(st.sampled_from(VERTICAL))
            b['solar_shading_part'] = draw(shading())
        b['outside_heat_transfer_resistance'] = draw(st.sampled_from([0.04, 0.11, 0.09, 0.15]))
        b['outside_emissivity'] = draw(st.sampled_from([0.9, 0.0, 1.0, 0.5]))
        if kind != 'external_transparent_part':
            b['outside_solar_absorption'] = draw(st.sampled_from([0.8, 0.0, 1.0, 0.3]))
    if kind == 'external_general_part':
        b['layers'] = named(draw(gen.wall_layers('ext', b['outside_heat_transfer_resistance'])))
    elif kind == 'ground':
        b['layers'] = named(draw(gen.wall_layers('gnd', 0.0)))
        if draw(st.booleans()):
            b['is_sun_striked_outside'] = False
    elif kind != 'internal':
        b['u_value'] = r2(draw(st.floats(0.5, 6.5)))
    if kind == 'external_transparent_part':
        b['incident_angle_characteristics'] = draw(st.sampled_from(['single', 'multiple']))
        b['eta_value'] = r2(draw(st.floats(0.05, 0.95)))
    return b


def named(ls):
    return [{'name': 'm%d' % k, 'thermal_resistance': r, 'thermal_capacity': c} for k, (r, c) in enumerate(ls)]


@st.composite
def equipment(draw, floor_area):
    k = draw(st.sampled_from(['convective', 'radiative', 'not_installed']))
    e = {'equipment_type': k}
    if k == 'convective':
        q = r2(draw(st.floats(1500, 9000)))
        v = r2(q * draw(st.sampled_from([0.0016, 0.002, 0.003])))
        e['convective'] = {'q_min': draw(st.sampled_from([300.0, 500.0])), 'q_max': q, 'v_min': r2(0.55 * v), 'v_max': v}
    elif k == 'radiative':
        e['radiative'] = {'max_capacity': r2(draw(st.floats(20, 200))), 'area': r2(floor_area * draw(st.sampled_from([0.3, 0.6, 1.0])))}
    return e


@st.composite
def desc(draw, rooms=(1, 3), extra=(0, 6), vents=True, always_window=False):
    kinds = ['main_occupant_room'] + draw(st.lists(st.sampled_from(KINDS[1:]), unique=True, min_size=rooms[0] - 1, max_size=rooms[1] - 1))
    kinds = list(draw(st.permutations(kinds)))
    n = len(kinds)
    rs = []
    for i, k in enumerate(kinds):
        fa = draw(size(3, 150))
        nv = []
        if vents and n > 1:
            for _ in range(draw(st.integers(0, 2))):
                nv.append({'upstream_room_id': draw(st.sampled_from([m for m in range(n) if m != i])), 'volume': r2(draw(st.floats(1, 100)))})
        rs.append({'id': i, 'name': k, 'room_type': k, 'floor_area': fa, 'volume': r2(fa * draw(st.floats(2, 3.5))),
                   'vent': r2(draw(st.floats(0, 200))), 'natural_vent_time': draw(st.sampled_from([5.0, 0.0, 10.0, 20.0])),
                   'next_vent': nv, 'cooling_equipment': draw(equipment(fa)), 'heating_equipment': draw(equipment(fa))})
    bs = []
    for i in range(n):
        f = draw(boundary(draw(st.sampled_from(['ground', 'external_general_part', 'external_opaque_part'])), i, 'floor'))
        f.update(is_floor=True, is_solar_absorbed_inside=True)
        bs.append((f, None))
        bs.append((draw(boundary(draw(st.sampled_from(EXT)) if not always_window else EXT[1], i, 'w')), None))
    for _ in range(draw(st.integers(*extra))):
        i = draw(st.integers(0, n - 1))
        k = draw(st.sampled_from(EXT + ['external_transparent_part', 'internal', 'internal', 'internal', 'ground']))
        if k == 'internal':
            if n == 1:
                continue
            m = draw(st.sampled_from([x for x in range(n) if x != i]))
            a = draw(boundary('internal', i, 'int'))
            z = draw(boundary('internal', m, 'int'))
            z['area'] = a['area']
            ls = draw(gen.wall_layers('int', 0.11))
            for b, o, l in ((a, z, ls), (z, a, ls[::-1])):
                b['layers'] = named(l)
                b['outside_heat_transfer_resistance'] = o['inside_heat_transfer_resistance']
                b['next_room_type'] = kinds[o['connected_room_id']]
                if draw(st.booleans()):
                    b['is_sun_striked_outside'] = False
            if draw(st.booleans()):
                a['is_floor'] = True
            tag = len(bs)
            bs += [(a, tag), (z, tag)]
        else:
            b = draw(boundary(k, i, 'x'))
            b['is_floor'] = draw(st.sampled_from([False, False, False, True]))
            bs.append((b, None))
    bs = list(draw(st.permutations(bs)))
    alike = draw(st.sampled_from([1, 1, 3, 50]))          # boundaries may bear the same name
    where = {}
    for j, (b, tag) in enumerate(bs):
        b['id'] = j
        b['name'] = '%s%d' % (b['name'], j // alike)
        if tag is not None:
            where.setdefault(tag, []).append(j)
    for p, q in where.values():
        bs[p][0]['rear_surface_boundary_id'], bs[q][0]['rear_surface_boundary_id'] = q, p
    return {'common': {'region': 6}, 'building': {'story': draw(st.sampled_from([1, 2])), 'c_value': draw(st.sampled_from([2.0, 0.5, 5.0, 0.0])),
                                                  'inside_pressure': draw(st.sampled_from(['positive', 'negative', 'balanced']))},
            'rooms': rs, 'boundaries': [b for b, _ in bs]}


# ------------------------------------------------------------------ running the preparation

def read_csv(path):
    import pandas as pd
    return pd.read_csv(path, header=None).values.astype(float)


class Prepared:
    """what make_house wrote for a description"""

    def __init__(self, d, w, keep=None, only_house=False):
        from heat_load_calc.initializer import initializer
        self.d = d
        before = json.dumps(d, sort_keys=True)
        with scratch() as inp, scratch() as out:
            self.w = write_weather(inp, w)
            if keep:
                out = keep
            with quiet():
                (initializer.make_house_for_test if only_house else initializer.make_house)(d=d, input_data_dir=inp, output_data_dir=out)
            check(json.dumps(d, sort_keys=True) == before, 'the description handed over was changed by its translation')
            with open(os.path.join(out, 'mid_data_house.json'), encoding='utf-8') as f:
                self.house = json.load(f)
            if only_house:
                return
            for k, f in FILES.items():
                p = os.path.join(out, f + '.csv')
                check(os.path.exists(p), '%s.csv was not written', f)
                v = read_csv(p)
                want = len(d['boundaries'] if k == 'tos' else d['rooms'])
                check(v.shape == (N, want), '%s.csv has %s rows and columns instead of %s', f, v.shape, (N, want))
                setattr(self, k, finite(v.T, f))
