from hypothesis import strategies as st

import eesgen as G
import eesref as R
from harness import Check, check, close, quiet, rejects

TECHNIQUE = 'property-based testing: generated overhangs, directions, regions and seasons against the published simplified formulas written independently, bounds and monotonicity between generated pairs, and a transcription of the published factor tables for every combination'
NOTE = 'overhang depths 0.01-10 m, distances 0-20 m; the detailed method and windows without an overhang are documented by the code as not implemented and must be refused, not guessed'
ASSUMPTIONS = ['overhang depth larger than zero, distances not negative']
SEASONS = ['heating', 'cooling']


def make(d):
    from heat_load_calc.convert import factor_f
    return factor_f.SunshadeTransient.make_sunshade_transient(d)


def direction(name):
    from heat_load_calc.external.factor_nu import Direction
    return Direction(name)


def run_simple(case, ctx):
    d, region, season = case['shade'], case['region'], case['season']
    s, x = make(d), direction(case['direction'])
    want = R.f_simple(d['depth'], d['d_h'], d['d_e'], case['direction'], region, season)
    if want is None:
        rejects(lambda: s.get_f(region, season, x), 'overhang correction for %s in region %d, %s' % (season, region, case['direction']))
        ctx.label('refused')
        return
    got = s.get_f(region, season, x)
    close(got, want, 'overhang correction', rtol=1e-12)
    cap = .72 if season == 'heating' else .93
    if case['direction'] in R.COMPASS:
        check(0.0 < got <= cap, 'correction %r outside 0..%r', got, cap)
        ctx.label('at the cap', got == cap)
        ctx.label('below the cap', got < cap)
        # never grows with depth, never falls with the distance below or above the window
        for change, sign in (({'depth': d['depth'] * (1 + case['k'])}, -1), ({'d_h': d['d_h'] + case['k']}, 1), ({'d_e': d['d_e'] + case['k']}, 1)):
            other = make(dict(d, **change)).get_f(region, season, x)
            check(sign * (other - got) >= -1e-12, 'correction goes from %r to %r when %s', got, other, change)
        # only proportions matter
        k = 1 + case['k']
        close(make(dict(d, depth=d['depth'] * k, d_h=d['d_h'] * k, d_e=d['d_e'] * k)).get_f(region, season, x), got, 'correction of a scaled overhang', rtol=1e-9)
        ctx.nontrivial(got < cap)
    else:
        close(got, 1.0 if case['direction'] == 'top' else 0.0, 'correction of a horizontal surface')


def run_other(case, ctx):
    """every other kind of sunshade"""
    from heat_load_calc.convert import factor_f
    region, season, x = case['region'], case['season'], direction(case['direction'])
    defined = not (season == 'heating' and region == 8)
    s = make({'is_defined': True, 'input': 'not_input'})
    if defined:
        close(s.get_f(region, season, x), .51 if season == 'heating' else .93, 'default correction of a window')
    else:
        rejects(lambda: s.get_f(region, season, x), 'default correction in region 8 for heating')
    undefined = make({'is_defined': False})
    rejects(lambda: undefined.get_f(region, season, x), 'correction of a window without sunshade information')
    op = factor_f.SunshadeOpaque.make_sunshade_opaque
    close(op({'is_defined': True, 'input': 'not_input'}).get_f_sh(region, season, x), 1.0, 'correction of a wall without a described overhang')
    nope = op({'is_defined': False})
    rejects(lambda: nope.get_f_sh(region, season, x), 'correction of a wall without sunshade information')
    for kind, kinds in (('not_exist', (NotImplementedError,)), ('complex', (NotImplementedError,))):
        t = make(dict(case['box'], is_defined=True, input=kind))
        rejects(lambda: t.get_f(region, season, x), 'correction of the kind %s, which is not implemented' % kind, kinds)
    o = op(dict(case['box'], is_defined=True, input='complex'))
    rejects(lambda: o.get_f_sh(region, season, x), 'detailed correction of a wall, which is not implemented', (NotImplementedError,))
    for what, fn in (('window', make), ('wall', op)):
        rejects(lambda: fn({'is_defined': True, 'input': case['junk']}), 'unknown sunshade %r of a %s' % (case['junk'], what))
    rejects(lambda: s.get_f(region, case['junk'], x), 'correction for the season %r' % case['junk'])
    ctx.label('defined', defined)
    ctx.nontrivial(defined)


def run_tables(case, ctx):
    from heat_load_calc.external.factor_h import NextSpace
    from heat_load_calc.external.factor_nu import Direction
    region, season = case['region'], case['season']
    n = 0
    for name in G.ALL_DIRECTIONS:
        x, want = Direction(name), R.nu(name, region, season)
        if want is None:
            rejects(lambda: x.get_nu(region=region, season=season), 'direction factor of %s in region %d for %s' % (name, region, season))
        else:
            close(x.get_nu(region=region, season=season), want, 'direction factor of %s' % name, rtol=1e-12)
            n += 1
        check(x.is_horizontal() == (name in R.COMPASS or name == 'horizontal'), 'is %s a sideways direction', name)
    for name in R.SPACES:
        close(NextSpace(name).get_h(region=region), R.h(name, region), 'coefficient of %s' % name, rtol=1e-12)
        check(NextSpace(name).get_is_sun_striked_outside() == (name == 'outdoor'), 'does the sun reach a part facing %s', name)
    for bad in (0, 9, -1, case['bad']):
        if bad not in R.REGIONS:
            rejects(lambda: NextSpace('air_conditioned').get_h(region=bad), 'coefficient in region %r' % bad)
            rejects(lambda: Direction('s').get_nu(region=bad, season='cooling'), 'direction factor in region %r' % bad)
    rejects(lambda: Direction(case['junk']), 'direction %r' % case['junk'])
    rejects(lambda: NextSpace(case['junk']), 'adjacent space %r' % case['junk'])
    rejects(lambda: Direction('s').get_nu(region=region if region != 8 else 1, season=case['junk']), 'direction factor for the season %r' % case['junk'])
    ctx.label('region %d %s' % (region, season))
    ctx.nontrivial(n > 0)


JUNK = st.one_of(st.sampled_from(['', 'North', 'summer', 'simpl', 'detailed', 'none']), st.text('abcxyz_', min_size=1, max_size=6)).filter(
    lambda s: s not in ('simple', 'complex') and s not in G.ALL_DIRECTIONS)
WHERE = {'region': st.one_of(st.integers(1, 8), st.just(8)), 'season': st.sampled_from(SEASONS), 'direction': st.sampled_from(G.ALL_DIRECTIONS + R.COMPASS)}


def simple_cases():
    depth = st.one_of(G.f9(.05, 3), G.f9(.01, 10))
    dist = st.one_of(G.f9(0, 3), G.f9(0, 20), st.just(0.0))
    shade = st.fixed_dictionaries({'is_defined': st.just(True), 'input': st.just('simple'), 'depth': depth, 'd_h': dist, 'd_e': dist})
    return st.fixed_dictionaries(dict(WHERE, shade=shade, k=G.f9(.01, 3)))


CHECKS = [
    Check('simple', simple_cases, run_simple, 4000, 80000, 'a sideways direction and a correction below its cap'),
    Check('other', lambda: st.fixed_dictionaries(dict(WHERE, box=G.box(), junk=JUNK)), run_other, 800, 8000, 'a defined season'),
    Check('tables', lambda: st.fixed_dictionaries({'region': st.integers(1, 8), 'season': st.sampled_from(SEASONS), 'junk': JUNK, 'bad': st.integers(-5, 30)}), run_tables, 400, 3000, 'at least one defined direction factor',
          fixed=[{'region': r, 'season': s, 'junk': 'x', 'bad': 99} for r in R.REGIONS for s in SEASONS]),
]
