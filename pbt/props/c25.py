import copy

from hypothesis import strategies as st

import eesgen as G
import eesref as R
from harness import Check, check, close, need, quiet

TECHNIQUE = 'property-based testing: generated whole-house descriptions and floor divisions; conservation of area and length, share by floor area, and unchanged properties per part, plus unchanged house indices (metamorphic)'
NOTE = 'up to 4 parts of each kind, every structure, adjacency and sunshade kind, divisions into three rooms, without other or without non-occupant rooms'
ASSUMPTIONS = ['main room larger than zero, rooms not larger than the house']
SUFFIX = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']


def shares(common):
    m, o, t = (common[k] for k in ('main_occupant_room_floor_area', 'other_occupant_room_floor_area', 'total_floor_area'))
    return [m / t, o / t, max(round(t - m - o, 6), 0.0) / t]


def run_split(case, ctx):
    from heat_load_calc.convert import convert_lv2_to_lv3 as t
    common, env = case['common'], case['env']
    kept = copy.deepcopy([common, env])
    with quiet():
        out = t.convert_spec(common, env)
    check([common, env] == kept, 'the description given was changed by the conversion')
    sh = shares(common)
    for k, size in (('general_parts', 'area'), ('windows', 'area'), ('doors', 'area'), ('heat_bridges', 'length')):
        got = need(out, k, 'converted description')
        check(len(got) == 3 * len(env[k]), '%d %s became %d', len(env[k]), k, len(got))
        check(len({p['name'] for p in got}) == len(got), 'names of %s repeat', k)
        for part in env[k]:
            mine = [p for p in got if p['name'].startswith(part['name'] + '_')]
            check(len(mine) == 3 and [p['space_type'] for p in mine] == SUFFIX, '%s is not split over the three rooms: %s', part['name'], [p['space_type'] for p in mine])
            close(sum(p[size] for p in mine), part[size], '%s of %s over the rooms' % (size, part['name']), rtol=1e-9, atol=1e-9)
            for p, s in zip(mine, sh):
                close(p[size], part[size] * s, '%s of %s' % (size, p['name']), rtol=1e-9, atol=1e-9)
                check(p[size] >= 0.0, '%s of %s is negative: %r', size, p['name'], p[size])
                if s == 0.0:
                    check(p[size] == 0.0, 'a room without area gets %r of %s', p[size], part['name'])
                for key, v in part.items():
                    if key not in ('name', size, 'space_type'):
                        check(need(p, key, p['name']) == v, '%s of %s changed from %r to %r', key, part['name'], v, p[key])
                check(set(p) == set(part), 'items of %s changed: %s', part['name'], sorted(set(p) ^ set(part)))
    for k in ('earthfloor_perimeters', 'earthfloor_centers'):
        got = need(out, k, 'converted description')
        check([dict(p, space_type=None) for p in got] == [dict(p, space_type=None) for p in env[k]], '%s changed', k)
        check(all(p['space_type'] == 'underfloor' for p in got), '%s not in the crawl space', k)
    if env['general_parts'] or env['windows']:
        for region in (case['region'],):
            a = sum(p['area'] for k in ('general_parts', 'windows', 'doors', 'earthfloor_centers') for p in env[k])
            if a > 0.01 and case['computable']:
                close([x for x in R.indices(out, region) if x is not None], [x for x in R.indices(env, region) if x is not None], 'house indices', rtol=1e-9)
                ctx.label('indices compared')
    ctx.label('no non-occupant room', sh[2] == 0.0)
    ctx.label('no other room', sh[1] == 0.0)
    ctx.nontrivial(sum(len(env[k]) for k in ('general_parts', 'windows', 'doors', 'heat_bridges')) >= 3 and min(sh[:2]) > 0)


def run_share(case, ctx):
    """the division itself, at any proportion"""
    from heat_load_calc.convert import convert_lv2_to_lv3 as t
    m, o, n = case['m'], case['o'], case['n']
    total = m + o + n
    for name, fn, kw in (('area', t.get_separated_areas, 'a_evlp'), ('length', t.get_separated_lengths, 'l_evlp')):
        got = fn(**{kw: case['x'], 'a_f_mr': m, 'a_f_or': o, 'a_f_total': total})
        close(got, [case['x'] * s / total for s in (m, o, n)], 'division of a %s' % name, rtol=1e-7, atol=1e-7)
        close(sum(got), case['x'], 'sum of a divided %s' % name, rtol=1e-7, atol=1e-9)
        check(min(got) >= 0.0, 'negative share %s of a %s', got, name)
    ctx.nontrivial(min(m, o, n) > 0 and case['x'] > 0)


def cases():
    return st.booleans().flatmap(lambda c: st.fixed_dictionaries({'common': G.division(), 'env': G.envelope(computable=c, most=4), 'region': st.integers(1, 8), 'computable': st.just(c)}))


def share_cases():
    a = st.one_of(st.just(0.0), G.f9(.5, 100))
    return st.fixed_dictionaries({'m': G.f9(.5, 100), 'o': a, 'n': a, 'x': st.one_of(st.just(0.0), G.f9(0, 500))})


CHECKS = [
    Check('split', cases, run_split, 1500, 20000, 'at least three parts divided over main and other rooms'),
    Check('share', share_cases, run_share, 1500, 20000, 'three rooms with area and a part with size'),
]
