from hypothesis import strategies as st

import eesgen as G
import eesref as R
from harness import Check, check, close, quiet, rejects

TECHNIQUE = 'property-based testing: generated parts of every kind, structure, adjacency, direction, region and season against an independent implementation of the standard formulas and tables, plus metamorphic relations (scaling with area, added layers lower the U-value, splitting a section changes nothing) and house indices as sums'
NOTE = 'sections of 1-4 layers, 1-3 sections; overhangs in detail are excluded from gains (the code documents them as not implemented)'
ASSUMPTIONS = ['positive film resistances; directions without a direction factor only for parts not facing outdoors']
SEASONS = ['heating', 'cooling']


def build(kind, d):
    from heat_load_calc.convert import ees_house as e
    return {'gp': e.GeneralPart.make_general_part, 'w': e.Window.make_window, 'd': e.Door.make_door,
            'ep': e.EarthfloorPerimeter.make_earthfloor_perimeter, 'hb': e.Heatbridge.make_heatbridge}[kind](d)


def run_part(case, ctx):
    kind, d, region = case['kind'], case['part'], case['region']
    p = build(kind, d)
    if kind == 'gp':
        u = R.u_general(d['spec'])
        close(p.get_u(), u, 'U-value', rtol=1e-9)
        close(p.get_q(region=region), R.q_areal(d, u, region), 'heat loss', rtol=1e-9)
        close(p.get_eta(), 0.034 * u, 'gain factor', rtol=1e-9)
        lo, hi = (min, max)
        if d['spec']['structure'] in ('wood', 'rc'):
            us = [v for _, v in R.u_sections(d['spec'])]
            check(lo(us) * (1 - 1e-6) <= p.get_u() <= hi(us) * (1 + 1e-6), 'U-value %r outside the sections %s', p.get_u(), us)
        ctx.label(d['spec']['structure'])
    elif kind in ('w', 'd'):
        close(p.get_u(), d['spec']['u_value'], 'U-value')
        close(p.get_q(region=region), R.q_areal(d, d['spec']['u_value'], region), 'heat loss', rtol=1e-9)
        if kind == 'd':
            close(p.get_eta(), 0.034 * d['spec']['u_value'], 'gain factor of a door')
        else:
            for s, k in zip(SEASONS, ('eta_d_h_value', 'eta_d_c_value')):
                close(p.get_eta_d(season=s), d['spec'][k], 'gain factor of a window for ' + s)
    elif kind == 'ep':
        close(p.get_psi(), d['spec']['psi_value'], 'linear transmittance')
        close(p.get_q(region=region), d['length'] * d['spec']['psi_value'] * R.h(d['next_space'], region), 'heat loss', rtol=1e-9)
        ctx.nontrivial(d['length'] > 0)
        return
    else:
        h = [R.h(s, region) for s in d['next_spaces']]
        close(p.get_psi(), d['spec']['psi_value'], 'linear transmittance')
        close(p.get_q(region=region), d['length'] * d['spec']['psi_value'] * sum(h) / len(h), 'heat loss of a heat bridge', rtol=1e-9)
        close(p.get_eta(), 0.034 * d['spec']['psi_value'], 'gain factor of a heat bridge')
        for s in SEASONS:
            nus = [R.nu(x, region, s) if n == 'outdoor' else 0.0 for n, x in zip(d['next_spaces'], d['directions'])]
            if None in nus:
                rejects(lambda: p.get_m(region=region, season=s), 'gain of a heat bridge in region 8 for heating')
            else:
                close(p.get_m(region=region, season=s), d['length'] * 0.034 * d['spec']['psi_value'] * sum(nus) / len(nus), 'gain of a heat bridge for ' + s, rtol=1e-9)
        ctx.nontrivial(d['length'] > 0 and len(h) > 1)
        return

    close(p.get_h(region=region), R.h(d['next_space'], region), 'coefficient of the adjacent space')
    for s in SEASONS:
        if d['next_space'] != 'outdoor':
            check(p.get_m(region=region, season=s) == 0.0, 'gain %r for %s of a part not facing outdoors', p.get_m(region=region, season=s), s)
            close(p.get_nu(region=region, season=s), 0.0, 'direction factor of a part not facing outdoors')
            ctx.label('not outdoors')
        elif s == 'heating' and region == 8:
            rejects(lambda: p.get_m(region=region, season=s), 'heating gain in region 8')
            ctx.label('undefined season refused')
        else:
            close(p.get_nu(region=region, season=s), R.nu(d['direction'], region, s), 'direction factor')
            want = R.m_window(d, region, s) if kind == 'w' else R.m_opaque(d, R.u_general(d['spec']) if kind == 'gp' else d['spec']['u_value'], region, s)
            close(p.get_m(region=region, season=s), want, 'gain for ' + s, rtol=1e-9)
            check(p.get_m(region=region, season=s) >= 0.0, 'negative gain')
    ctx.label(kind)
    ctx.nontrivial(d['next_space'] == 'outdoor' and d['area'] > 0)


def run_relations(case, ctx):
    d, region = case['part'], case['region']
    p = build('gp', d)
    u, q = p.get_u(), p.get_q(region=region)
    k = case['k']
    close(build('gp', dict(d, area=d['area'] * k)).get_q(region=region), q * k, 'heat loss of a part %r times as large' % k, rtol=1e-9)
    parts = d['spec']['parts']
    # one more layer in one section: a lower U-value (same with a higher resistance)
    extra = {'name': 'extra', 'heat_resistance_input_method': 'resistance', 'thickness': .01, 'volumetric_specific_heat': 10.0, 'thermal_resistance': case['r']}
    more = [dict(parts[0], layers=parts[0]['layers'] + [extra])] + parts[1:]
    u2 = build('gp', dict(d, spec=dict(d['spec'], parts=more))).get_u()
    check(u2 < u, 'U-value %r does not fall when a layer is added (%r)', u, u2)
    # the order of layers and of sections does not matter
    back = [dict(x, layers=x['layers'][::-1]) for x in parts[::-1]]
    close(build('gp', dict(d, spec=dict(d['spec'], parts=back))).get_u(), u, 'U-value with layers and sections listed backwards', rtol=1e-9)
    # a section split in two equal halves
    half = parts[0]['part_area_ratio'] / 2
    split = [dict(parts[0], part_area_ratio=half, name='a'), dict(parts[0], part_area_ratio=half, name='b')] + parts[1:]
    close(build('gp', dict(d, spec=dict(d['spec'], parts=split))).get_u(), u, 'U-value with one section split', rtol=1e-9)
    ctx.nontrivial(len(parts) > 1 and q > 0)


def run_house(case, ctx):
    from heat_load_calc.convert import check_ua_a_eta_a as cue
    env, region = case['env'], case['region']
    area = sum(p['area'] for k in ('general_parts', 'windows', 'doors', 'earthfloor_centers') for p in env[k])
    if area < .01:
        return
    with quiet():
        u, h, c = cue.check_u_a_and_eta_a(region=region, model_house_envelope=env)
    want = R.indices(env, region)
    close(u, want[0], 'UA', rtol=1e-9)
    close(c, want[2], 'etaAC', rtol=1e-9)
    if region == 8:
        check(h is None, 'heating gain index %r in region 8', h)
    else:
        close(h, want[1], 'etaAH', rtol=1e-9)
    # listing order does not matter
    with quiet():
        u2, h2, c2 = cue.check_u_a_and_eta_a(region=region, model_house_envelope={k: v[::-1] for k, v in env.items()})
    close([u2, c2], [u, c], 'indices with the parts listed backwards', rtol=1e-9)
    ctx.label('region 8', region == 8)
    ctx.nontrivial(sum(len(v) for v in env.values()) >= 4)


def run_layer(case, ctx):
    from heat_load_calc.convert import ees_house as e
    l = e.Layer.make_layer(case)
    close(l.r, R.layer_r(case), 'resistance of a layer', rtol=1e-12)
    close(l.c, case['thickness'] * case['volumetric_specific_heat'], 'heat capacity of a layer', rtol=1e-12)
    ctx.label(case['heat_resistance_input_method'])
    ctx.nontrivial()


def part_cases():
    kinds = {'gp': G.general_part(computable=True), 'w': G.window(computable=True), 'd': G.door(computable=True), 'ep': G.perimeter(), 'hb': G.bridge()}
    return st.sampled_from(['gp', 'gp', 'w', 'w', 'd', 'ep', 'hb']).flatmap(
        lambda k: st.fixed_dictionaries({'kind': st.just(k), 'part': kinds[k], 'region': st.integers(1, 8)}))


def relation_cases():
    return st.fixed_dictionaries({'part': G.general_part(structures=('wood', 'rc', 'steel'), computable=True), 'region': st.integers(1, 8), 'k': G.f9(.1, 5), 'r': G.f9(.05, 3)})


CHECKS = [
    Check('part', part_cases, run_part, 4000, 60000, 'a part with size facing outdoors (a bridge between several spaces)'),
    Check('relations', relation_cases, run_relations, 1200, 15000, 'several sections and a heat loss'),
    Check('house', lambda: st.fixed_dictionaries({'env': G.envelope(computable=True, most=4), 'region': st.integers(1, 8)}), run_house, 1000, 15000, 'a house of at least four parts'),
    Check('layer', G.layer, run_layer, 600, 6000, 'every case'),
]
