import copy
import math

from hypothesis import strategies as st

import eesgen as G
import eesref as R
from harness import Check, check, close, need, quiet, rejects

TECHNIQUE = 'property-based testing: generated house descriptions with rooms against an independent model of the internal floor and wall areas, area-balance invariants, unchanged envelope parts, and a tabulated film-resistance oracle over every part kind and adjacent space'
NOTE = 'up to 4 parts of each kind over four rooms, divisions into three rooms, without other or without non-occupant rooms; decimal floor areas as users write them'
ASSUMPTIONS = ['main room larger than zero, rooms not larger than the house']
MR, OR, NR, UF = G.ROOMS
SHORT = {MR: 'main', OR: 'other', NR: 'non', UF: 'underfloor'}


def room_areas(common):
    m, o, t = (common[k] for k in ('main_occupant_room_floor_area', 'other_occupant_room_floor_area', 'total_floor_area'))
    n = t - m - o
    return {MR: m, OR: o, NR: n if n > 1e-6 else 0.0}


def model(common, env):
    """internal floors {(upper, lower): area} and walls {(room, room): area}"""
    a = room_areas(common)
    skin = [p for k in ('general_parts', 'windows', 'doors') for p in env[k]]
    down = {r: sum(p['area'] for p in skin if p['space_type'] == r and p['direction'] in ('bottom', 'downward')) for r in a}
    side = {r: sum(p['area'] for p in skin if p['space_type'] == r and (p['direction'] in R.COMPASS or p['direction'] == 'horizontal')) for r in a}
    earth = {r: sum(p['area'] for p in env['earthfloor_centers'] if p['space_type'] == r) for r in G.ROOMS}
    upper = {r: max(0.0, a[r] - down[r] - earth[r]) for r in a}       # floor of the room lying over another space
    total = sum(upper.values())
    floors, rest = {}, {}
    for r in a:
        floors[r, UF] = earth[UF] * upper[r] / total if total > 0 else 0.0
        rest[r] = max(0.0, upper[r] - floors[r, UF])
    for r in a:
        others = [s for s in a if s != r and a[s] > 0]
        for s in others:
            if a[r] > 0:
                floors[r, s] = rest[r] / len(others)
    w = {r: max(0.0, 4 * (1.2 if r == MR else 1.4) * 2.8 * math.sqrt(a[r]) - side[r]) for r in a}
    live = [r for r in a if a[r] > 0]
    walls = {}
    if len(live) == 2:
        walls[tuple(live)] = sum(w[r] for r in live) / 2
    elif len(live) == 3:
        for x, y, z in ((MR, OR, NR), (MR, NR, OR), (OR, NR, MR)):
            walls[x, y] = max(0.0, (w[x] + w[y] - w[z]) / 2)
    return floors, walls, upper, w, earth


PLY = {'thickness': .024, 'c': 720.0, 'r': .024 / .16}
GPB = {'thickness': .0125, 'c': 830.0, 'r': .0125 / .22}
AIR = {'c': 0.0, 'r': .09}


def same_layers(got, want, what):
    check(len(got) == len(want), '%s has %d layers', what, len(got))
    for g, w in zip(got, want):
        close(R.layer_r(g), w['r'], 'resistance of a layer of ' + what)
        close(g['volumetric_specific_heat'] * g['thickness'], w['c'] * w.get('thickness', 0.0), 'heat capacity of a layer of ' + what)


def run_inner(case, ctx):
    from heat_load_calc.convert import convert_lv3_to_lv4 as t
    common, env = case['common'], case['env']
    kept = copy.deepcopy([common, env])
    with quiet():
        out = t.convert_spec(common, env)
    check([common, env] == kept, 'the description given was changed by the conversion')
    for k in G.KINDS:
        check(need(out, k, 'converted description') == env[k], '%s changed', k)
    floors, walls, upper, w, earth = model(common, env)
    got_f, got_w = {}, {}
    for p in need(out, 'inner_floors', 'converted description'):
        key = (p['upper_space_type'], p['lower_space_type'])
        check(key not in got_f, 'internal floor %s listed twice', key)
        check(p['area'] > 0.0, 'internal floor %s has area %r', key, p['area'])
        check(p['name'] == 'inner_floor_%s_to_%s' % (SHORT[key[0]], SHORT[key[1]]), 'internal floor %s is named %s', key, p['name'])
        got_f[key] = p['area']
        same_layers(p['spec']['layers'], [PLY], 'an internal floor')
    for p in need(out, 'inner_walls', 'converted description'):
        key = (p['space_type_1'], p['space_type_2'])
        check(key not in got_w and key[0] != key[1], 'internal wall %s listed twice or within one room', key)
        check(p['area'] > 0.0, 'internal wall %s has area %r', key, p['area'])
        check(p['name'] == 'inner_wall_%s_to_%s' % (SHORT[key[0]], SHORT[key[1]]), 'internal wall %s is named %s', key, p['name'])
        got_w[key] = p['area']
        same_layers(p['spec']['layers'], [GPB, AIR, GPB], 'an internal wall')
    for what, got, want in (('floor', got_f, floors), ('wall', got_w, walls)):
        for key in set(got) | set(want):
            close(got.get(key, 0.0), want.get(key, 0.0), 'internal %s %s' % (what, key), rtol=1e-7, atol=1e-7)
    # balances
    for r, u in upper.items():
        mine = sum(v for k, v in got_f.items() if k[0] == r)
        if u >= floors[r, UF] and len([x for x in room_areas(common).values() if x > 0]) > 1 and room_areas(common)[r] > 0:
            close(mine, u, 'internal floors over %s' % r, rtol=1e-7, atol=1e-6)
    if sum(upper.values()) > 0:
        close(sum(v for k, v in got_f.items() if k[1] == UF), earth[UF], 'internal floor over the crawl space', rtol=1e-7, atol=1e-6)
    if len(got_w) == 3:
        for r, v in w.items():
            close(sum(x for k, x in got_w.items() if r in k), v, 'internal walls of %s' % r, rtol=1e-7, atol=1e-6)
    a = room_areas(common)
    for key in list(got_f) + list(got_w):
        for r in key:
            check(r == UF or a[r] > 0 or got_f.get(key, 0) < 1e-6, 'internal part %s touches a room without area', key)
    ctx.label('no non-occupant room', a[NR] == 0)
    ctx.label('no other room', a[OR] == 0)
    ctx.label('three internal walls', len(got_w) == 3)
    ctx.label('over crawl space', earth[UF] > 0)
    ctx.nontrivial(len(got_f) >= 3 and len(got_w) >= 1)


def run_chain(case, ctx):
    """indices -> whole house -> rooms -> internal parts, as the program chains them"""
    from heat_load_calc.convert import convert_indices_to_lv2_info as t1
    from heat_load_calc.convert import convert_lv2_to_lv3 as t2
    from heat_load_calc.convert import convert_lv3_to_lv4 as t3
    c = dict(case['common'], region=case['region'], house_type=case['house'])
    total = c['total_floor_area']
    a_env = (2.2 * total + (65 if case['house'] == 'detached' else 85)) * case['k']
    with quiet():
        lv2 = t1.convert_spec({'common': c, 'envelope': {'total_area': a_env, 'indices': {'u_a': case['u_a'], 'eta_a_h': 2.8, 'eta_a_c': 1.4}}})
        lv3 = t2.convert_spec(c, lv2)
        lv4 = t3.convert_spec(c, lv3)
    for k in ('general_parts', 'windows', 'doors', 'earthfloor_centers'):
        close(sum(p['area'] for p in lv4[k]), sum(p['area'] for p in lv2[k]), 'area of %s along the chain' % k, rtol=1e-9)
    close(sum(p['length'] for p in lv4['earthfloor_perimeters']), sum(p['length'] for p in lv2['earthfloor_perimeters']), 'foundation length along the chain')
    close([x for x in R.indices(lv4, case['region']) if x is not None], [x for x in R.indices(lv2, case['region']) if x is not None], 'indices along the chain')
    floors, walls, *_ = model(c, lv3)
    for name, key, want in (('inner_floors', ('upper_space_type', 'lower_space_type'), floors), ('inner_walls', ('space_type_1', 'space_type_2'), walls)):
        got = {tuple(p[k] for k in key): p['area'] for p in lv4[name]}
        for k in set(got) | set(want):
            close(got.get(k, 0.0), want.get(k, 0.0), '%s %s' % (name, k), rtol=1e-7, atol=1e-7)
    ctx.label(case['house'])
    ctx.nontrivial(len(lv4['inner_floors']) > 2)


def run_main_room(case, ctx):
    from heat_load_calc.convert import convert_lv3_to_lv4 as t
    env = {k: [] for k in G.KINDS}
    common = {'main_occupant_room_floor_area': case['a'], 'other_occupant_room_floor_area': case['o'], 'total_floor_area': case['o'] + 30.0}
    rejects(lambda: t.convert_spec(common, env), 'a house with a main room of %r m2' % case['a'])
    ctx.nontrivial()


def film(part, space):
    """inside and outside film resistance, None where the combination is not allowed"""
    if part in ('boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor'):
        if space != 'air_conditioned':
            return None
        r = {'boundary_wall': .11, 'upward_boundary_floor': .09, 'downward_boundary_floor': .15}[part]
        return r, r
    r = {'roof': .09, 'ceiling': .09, 'wall': .11, 'floor': .15}[part]
    if space != 'outdoor':
        return r, r
    return None if part == 'ceiling' else (r, .04)


def run_film(case, ctx):
    from heat_load_calc.convert import a_06_common_items as t
    part, space = case['part'], case['space']
    want = film(part, space) if part in G.TYPES else None
    if want is None:
        rejects(lambda: t.get_r_surf(part, space), 'film resistance of a %s to %s' % (part, space))
        ctx.label('refused')
    else:
        close(t.get_r_surf(part, space), want, 'film resistances of a %s to %s' % (part, space))
        ctx.label('given')
    ctx.nontrivial(want is not None)


def run_round(case, ctx):
    from heat_load_calc.convert.general_functions import round_num
    x, d = case['n'] / 10.0 ** (case['d'] + 2), case['d']
    got = round_num(x, d)
    scaled = got * 10 ** d
    check(abs(scaled - round(scaled)) < 1e-6 * max(1.0, abs(scaled)), '%r is not rounded to %d digits: %r', x, d, got)
    check(abs(got - x) <= 0.5 * 10.0 ** -d * (1 + 1e-9) + 1e-12, '%r rounds to %r', x, got)
    close(round_num(-x, d), -got, 'rounding of the opposite number', atol=1e-12)
    rest = abs(case['n']) % 100
    if rest not in (49, 50, 51):
        want = math.copysign((abs(case['n']) // 100 + (1 if rest > 50 else 0)) / 10.0 ** d, case['n'])
        close(got, want, 'rounding of %r' % x, atol=1e-9)
    elif rest == 50 and case['n'] % 8 == 0 and d == 0:
        close(abs(got), abs(case['n']) // 100 + 1, 'rounding half away from zero of %r' % x)
    ctx.nontrivial(rest > 50)


def inner_cases():
    return st.fixed_dictionaries({'common': G.division(), 'env': G.envelope(rooms=G.ROOMS[:3] * 3 + [UF], most=4).flatmap(crawl)})


def crawl(env):
    return st.one_of(st.just(env), st.floats(1, 60).map(lambda a: dict(env, earthfloor_centers=env['earthfloor_centers'] + [
        {'name': 'crawl', 'area': round(a, 2), 'space_type': UF, 'spec': {'layers': []}}])))


def chain_cases():
    d = G.division().filter(lambda c: c['total_floor_area'] >= 50)
    return st.fixed_dictionaries({'common': d, 'region': st.integers(1, 8), 'house': st.sampled_from(['detached', 'attached']), 'k': G.f9(1.0, 1.3), 'u_a': G.f9(.2, 2)})


CHECKS = [
    Check('inner', inner_cases, run_inner, 1500, 20000, 'at least three internal floors and one internal wall'),
    Check('chain', chain_cases, run_chain, 600, 8000, 'more than two internal floors'),
    Check('main_room', lambda: st.fixed_dictionaries({'a': st.one_of(st.just(0.0), G.f9(-20, 0)), 'o': G.f9(0, 50)}), run_main_room, 60, 500, 'every case'),
    Check('film', lambda: st.fixed_dictionaries({'part': st.sampled_from(G.TYPES + ['attic', '']), 'space': st.sampled_from(R.SPACES)}), run_film, 300, 600, 'an allowed combination'),
    Check('round', lambda: st.fixed_dictionaries({'n': st.one_of(st.integers(-10**6, 10**6), st.integers(-999, 999).map(lambda i: i * 100 + (50 if i >= 0 else -50))), 'd': st.integers(0, 4)}), run_round, 1500, 20000, 'a number that rounds away from zero'),
]
