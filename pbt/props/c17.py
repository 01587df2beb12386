import math

import numpy as np
from hypothesis import strategies as st

from harness import Check, check, close, finite, quiet, rejects
from props.c16 import NAMES, normal_of, sun, INSTANT

TECHNIQUE = 'property-based testing: generated eaves, windows and suns; oracles are ray casting from points of the window, numerical integration of the view factor, and monotonicity relations; boundaries that have no shade are generated in every kind'
NOTE = 'vertical windows facing the eight compass directions under an infinitely wide horizontal eave; one listed finding (boundaries without an eave count as fully shaded for the beam) is recognised by its exact signature'
ASSUMPTIONS = ['the detailed input method is documented as not implemented and is not generated']

VERTICAL = [n for n in NAMES if NAMES[n][0] is not None]
EXTERNAL = ['external_general_part', 'external_transparent_part', 'external_opaque_part']


def shade_of(b):
    from heat_load_calc.initializer import solar_shading
    with quiet():
        return solar_shading.SolarShading.create(b=b)


def boundary(kind, sunlit, direction, part):
    b = {'id': 0, 'name': 'x', 'boundary_type': kind, 'direction': direction, 'solar_shading_part': part}
    if kind in EXTERNAL or sunlit is not None:
        b['is_sun_striked_outside'] = sunlit
    return b


def eave(e):
    return {'existence': True, 'input_method': 'simple', 'depth': e[0], 'd_h': e[1], 'd_e': e[2]}


def beam(shade, h, a):
    h0, a0 = h.copy(), a.copy()
    with quiet():
        f = np.asarray(shade.get_f_ss_d_j_ns(h, a), dtype=float)
    check(np.array_equal(h, h0) and np.array_equal(a, a0, equal_nan=True), 'the sun series were changed by the shading')
    check(f.shape == h.shape, 'the shaded fraction has shape %s for %d instants', f.shape, len(h))
    finite(f, 'shaded fraction')
    check(bool(np.all((f >= 0) & (f <= 1))), 'the shaded fraction leaves 0..1: %s', f)
    return f


def cast(e, n, s, h, pts=400):
    """share of the window's points whose ray to the sun meets the eave"""
    depth, d_h, d_e = e
    out = s @ n
    y = d_e + d_h * (np.arange(pts) + 0.5) / pts         # below the eave
    f = np.zeros(len(s))
    for k in range(len(s)):
        if s[k, 2] <= 0 or out[k] <= 0:
            continue
        f[k] = np.mean(y * out[k] / s[k, 2] < depth)
    return f


def hidden_sky(e):
    """view factor window to eave: mean over the window of half (1 - sine of the elevation of the edge)"""
    depth, d_h, d_e = e
    x, w = np.polynomial.legendre.leggauss(60)
    # split to resolve the corner near the eave
    cuts = [0.0] + [d_h * 4.0 ** -k for k in range(8, -1, -1)]
    total = 0.0
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        y = d_e + lo + (x + 1) / 2 * (hi - lo)
        total += np.sum(w * 0.5 * (1 - y / np.hypot(y, depth))) * (hi - lo) / 2
    return total / d_h


def run_eave(case, ctx):
    e = case['eave']
    h, a, s = sun(case)
    n = normal_of(case['direction'])
    shade = shade_of(boundary(case['kind'], True, case['direction'], eave(e)))
    f = beam(shade, h, a)
    over = np.isnan(a)
    out = s @ n
    ok = ~over & (np.abs(out) > 1e-9)                    # grazing light: no sun on the window anyway
    c = cast(e, n, s, h)
    bad = ok & (np.abs(f - c) > 1.5 / 400)
    if bad.any():
        i = int(bad.argmax())
        check(False, 'eave %s facing %s, sun %.6g up %.6g: shaded fraction %.6g, by ray casting %.4g', e, case['direction'], math.degrees(h[i]), math.degrees(a[i]), f[i], c[i])
    with np.errstate(all='ignore'):
        y = e[0] * s[:, 2] / out - e[2]
    exact = np.where((s[:, 2] > 0) & (out > 0), np.clip(y / e[1], 0, 1), 0.0)
    close(f[ok], exact[ok], 'shaded fraction under eave %s facing %s' % (e, case['direction']), atol=1e-6)
    sky = float(shade.get_f_ss_s_j())
    close(sky, hidden_sky(e), 'share of the sky hidden by eave %s' % e, rtol=1e-5, atol=1e-6)
    check(0 <= sky <= 0.5 + 1e-12, 'the hidden share of the sky is %s', sky)
    # monotone
    k = case['more']
    deeper = shade_of(boundary(case['kind'], True, case['direction'], eave([e[0] * k, e[1], e[2]])))
    lower = shade_of(boundary(case['kind'], True, case['direction'], eave([e[0], e[1], e[2] + (k - 1)])))
    check(bool(np.all(beam(deeper, h, a) >= f - 1e-9)), 'a deeper eave shades less')
    check(bool(np.all(beam(lower, h, a) <= f + 1e-9)), 'a window further below the eave is shaded more')
    check(deeper.get_f_ss_s_j() >= sky - 1e-12 and lower.get_f_ss_s_j() <= sky + 1e-12, 'hidden sky does not follow depth and distance')
    # only proportions count
    same = shade_of(boundary(case['kind'], True, case['direction'], eave([x * k for x in e])))
    close(beam(same, h, a)[ok], f[ok], 'shaded fraction of a scaled window', atol=1e-9)
    close(same.get_f_ss_s_j(), sky, 'hidden sky of a scaled window', atol=1e-9)
    ctx.label('partly', bool(np.any((f > 0) & (f < 1))))
    ctx.label('full', bool(np.any(f == 1)))
    ctx.label('none', bool(np.any(f == 0)))
    ctx.label('zenith', bool(over.any()))
    ctx.nontrivial(bool(np.any((f > 0) & (f < 1))))


def run_none(case, ctx):
    h, a, s = sun(case)
    part = {'existence': False} if case['kind'] in EXTERNAL and case['sunlit'] else case['part']
    sh = shade_of(boundary(case['kind'], case['sunlit'], case['direction'], part))
    f = beam(sh, h, a)
    check(float(sh.get_f_ss_s_j()) == 0.0, 'sky is hidden from a boundary without an eave')
    if np.any(f != 0):
        if np.all(f == 1.0):
            ctx.known('F6', 'a boundary without an eave is fully shaded from the beam')
        else:
            check(False, 'a boundary without an eave is shaded: %s', f)
    ctx.label(case['kind'])
    ctx.label('sunlit' if case['sunlit'] else 'not sunlit')
    ctx.nontrivial(True)


def witness(ctx):
    run_none({'kind': 'external_transparent_part', 'sunlit': True, 'direction': 's', 'part': {'existence': False},
              'sun': [[0.5, 0.1, 500.0, 100.0, 50.0]]}, ctx)


def run_reject(case, ctx):
    what = case['what']
    part = eave([1.0, 1.0, 0.1])
    b = boundary('external_transparent_part', True, 's', part)
    if what == 'method':
        part['input_method'] = case['text']
    elif what == 'kind':
        b['boundary_type'] = case['text']
    elif what == 'direction':
        b['direction'] = case['text']
    else:
        del part[what]
    rejects(lambda: shade_of(b), 'an eave description with wrong or missing %s' % what)
    ctx.nontrivial(True)


LEN = st.one_of(st.floats(0.05, 4.0), st.sampled_from([0.5, 1.0, 2.0]))
NEAR = st.builds(lambda d, h, x: [h, a_of(d, x), 500.0, 100.0, 50.0], st.sampled_from(VERTICAL), st.floats(0.05, 1.5), st.floats(-1.5, 1.5))


def a_of(d, x):
    n = normal_of(d)
    return math.atan2(n[1], n[0]) + x


def eave_cases():
    return st.sampled_from(VERTICAL).flatmap(lambda d: st.fixed_dictionaries({
        'direction': st.just(d),
        'eave': st.tuples(LEN, LEN, st.one_of(st.floats(0, 2), st.just(0.0))).map(list),
        'kind': st.sampled_from(EXTERNAL), 'more': st.floats(1.0, 5.0),
        'sun': st.lists(st.one_of(INSTANT, st.builds(lambda h, x: [h, a_of(d, x), 500.0, 100.0, 50.0], st.floats(0.02, 1.5), st.floats(-1.5, 1.5))),
                        min_size=1, max_size=20)}))


def none_cases():
    return st.one_of(
        st.fixed_dictionaries({'kind': st.sampled_from(EXTERNAL), 'sunlit': st.booleans(), 'direction': st.sampled_from(sorted(NAMES)),
                               'part': st.just(eave([1.0, 1.0, 0.1])), 'sun': st.lists(INSTANT, min_size=1, max_size=8)}),
        st.fixed_dictionaries({'kind': st.sampled_from(['internal', 'ground']), 'sunlit': st.sampled_from([None, False]), 'direction': st.just('s'),
                               'part': st.sampled_from([eave([1.0, 1.0, 0.1]), {'existence': False}]), 'sun': st.lists(INSTANT, min_size=1, max_size=8)}))


def reject_cases():
    return st.fixed_dictionaries({'what': st.sampled_from(['method', 'kind', 'direction', 'existence', 'input_method', 'depth', 'd_h', 'd_e']),
                                  'text': st.sampled_from(['', 'wide', 'SIMPLE', 'external', 'inner', 'south'])})


WITNESS = {'F6': witness}
CHECKS = [
    Check('eave', eave_cases, run_eave, 2400, 40000, 'the window is partly shaded at some instant',
          fixed=[{'direction': 's', 'eave': [1.0, 1.0, 0.1], 'kind': 'external_transparent_part', 'more': 2.0, 'sun': [[math.pi / 2, None, 500.0, 1.0, 1.0]]}]),
    Check('none', none_cases, run_none, 800, 8000, 'every case: a boundary that has no shade'),
    Check('reject', reject_cases, run_reject, 80, 400, 'every case: an invalid description'),
]
