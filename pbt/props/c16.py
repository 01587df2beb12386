import math

import numpy as np
from hypothesis import strategies as st

import gen
from harness import Check, check, close, finite, is_close, quiet, rejects

TECHNIQUE = 'property-based testing: generated sun positions, radiation levels, tilts and orientation names; the oracle is vector geometry (dot product of sun and surface normal), plus metamorphic relations (rotation about the vertical, linearity, opposite faces, closure of the view factors)'
NOTE = 'sun anywhere on the sphere including zenith, horizon and on the surface normal; series of 1-40 instants'
ASSUMPTIONS = ['outgoing radiation and sunlight are non-negative']

# name -> compass bearing (clockwise from north), tilt
NAMES = {'n': (0, 90), 'ne': (45, 90), 'e': (90, 90), 'se': (135, 90), 's': (180, 90), 'sw': (225, 90), 'w': (270, 90),
         'nw': (315, 90), 'top': (None, 0), 'bottom': (None, 180)}


def mod():
    from heat_load_calc.initializer import inclined_surface_solar_radiation as m
    return m


def normal_of(name):
    """(south, west, up)"""
    bearing, tilt = NAMES[name]
    if bearing is None:
        return np.array([0.0, 0.0, 1.0 if tilt == 0 else -1.0])
    b = math.radians(bearing)
    return np.array([-math.cos(b), -math.sin(b), 0.0])


def normal(alpha, beta):
    return np.array([math.sin(beta) * math.cos(alpha), math.sin(beta) * math.sin(alpha), math.cos(beta)])


def sun(case):
    h = np.array([p[0] for p in case['sun']], dtype=float)
    a = np.array([p[1] if p[1] is not None else math.nan for p in case['sun']], dtype=float)
    z = np.where(np.isnan(a), 0.0, a)
    s = np.stack([np.cos(h) * np.cos(z), np.cos(h) * np.sin(z), np.sin(h)], -1)
    return h, a, s


def levels(case):
    return (np.array([p[k] for p in case['sun']], dtype=float) for k in (2, 3, 4))


def oracle(n, up, h, s, i_dn, i_sky, r_n):
    cos = np.clip(s @ n, 0.0, None)
    f_sky = (1.0 + up) / 2.0
    hor = np.where(h > 0.0, np.sin(h), 0.0) * i_dn + i_sky
    return i_dn * cos, f_sky * i_sky, (1.0 - f_sky) * 0.1 * hor, f_sky * r_n, cos


def compare(alpha, beta, n, case, what):
    m = mod()
    h, a, s = sun(case)
    i_dn, i_sky, r_n = levels(case)
    want = oracle(n, math.cos(beta), h, s, i_dn, i_sky, r_n)
    with quiet():
        d, k, r = m.get_i_is_j_ns(i_dn_ns=i_dn.copy(), i_sky_ns=i_sky.copy(), h_sun_ns=h.copy(), a_sun_ns=a.copy(), w_alpha_j=alpha, w_beta_j=beta)
        rn = m.get_r_n_is_j_ns(r_n_ns=r_n.copy(), w_beta_j=beta)
        th = m.get_theta_aoi_j_n(h_sun_ns=h.copy(), a_sun_ns=a.copy(), w_alpha_j=alpha, w_beta_j=beta)
    for name, got, w in (('beam', d, want[0]), ('sky', k, want[1]), ('ground', r, want[2]), ('outgoing', rn, want[3])):
        finite(got, '%s radiation on %s' % (name, what))
        check(np.asarray(got).shape == h.shape, '%s radiation has shape %s for %s instants', name, np.asarray(got).shape, h.shape)
        close(got, w, '%s radiation on %s' % (name, what), rtol=1e-9, atol=1e-7)
        check(bool(np.all(np.asarray(got) >= -1e-9)), '%s radiation on %s is negative', name, what)
    finite(th, 'angle of incidence on %s' % what)
    close(np.cos(th), want[4], 'cosine of the angle of incidence on %s' % what, rtol=0, atol=1e-12)
    check(bool(np.all(th <= math.pi / 2 + 1e-12)), 'an angle of incidence beyond 90 degrees is passed on')
    return want


def classify(ctx, h, a, cos):
    ctx.label('zenith', bool(np.any(np.isnan(a))))
    ctx.label('below horizon', bool(np.any(h < 0)))
    ctx.label('sun behind', bool(np.any(cos == 0)))
    ctx.label('on the normal', bool(np.any(cos > 1 - 1e-15)))
    ctx.nontrivial(bool(np.any((cos > 0) & (cos < 1))))


def run_names(case, ctx):
    from heat_load_calc.initializer import external_boundaries_direction as ebd
    h, a, s = sun(case)
    i_dn, i_sky, _ = levels(case)
    out = {}
    for name in NAMES:
        al, be = ebd.get_w_alpha_j_w_beta_j(direction_j=name)
        check(abs(math.degrees(be) - NAMES[name][1]) < 1e-9, 'tilt of %s is %s degrees', name, math.degrees(be))
        out[name] = compare(al, be, normal_of(name), case, name)
        classify(ctx, h, a, out[name][4])
    # the beam seen by three perpendicular pairs of faces is the whole beam
    got = {}
    for name in ('s', 'n', 'e', 'w', 'se', 'nw', 'sw', 'ne', 'top', 'bottom'):
        al, be = ebd.get_w_alpha_j_w_beta_j(direction_j=name)
        with quiet():
            got[name] = mod().get_i_is_j_ns(i_dn_ns=i_dn, i_sky_ns=i_sky, h_sun_ns=h, a_sun_ns=a, w_alpha_j=al, w_beta_j=be)[0]
    for p, q in (('sn', 'ew'),):
        both = (got['s'] - got['n']) ** 2 + (got['e'] - got['w']) ** 2 + (got['top'] - got['bottom']) ** 2
        close(np.sqrt(both), i_dn, 'beam put together from the six faces', rtol=1e-9, atol=1e-6)
    both = (got['se'] - got['nw']) ** 2 + (got['sw'] - got['ne']) ** 2 + (got['top'] - got['bottom']) ** 2
    close(np.sqrt(both), i_dn, 'beam put together from the diagonal faces', rtol=1e-9, atol=1e-6)
    rejects(lambda: ebd.get_w_alpha_j_w_beta_j(direction_j=case['bad']), 'the direction name %r' % case['bad'])


def run_tilt(case, ctx):
    al, be = math.radians(case['azimuth']), math.radians(case['tilt'])
    h, a, s = sun(case)
    if case['aim']:                        # put the sun exactly on the normal
        up = math.pi / 2 - be
        if up > -math.pi / 2:
            case = dict(case, sun=[[up, al] + case['sun'][0][2:]] + case['sun'][1:])
            h, a, s = sun(case)
    want = compare(al, be, normal(al, be), case, 'a surface facing %.6g tilted %.6g' % (case['azimuth'], case['tilt']))
    classify(ctx, h, a, want[4])
    # turning sun and surface together changes nothing
    m = mod()
    i_dn, i_sky, r_n = levels(case)
    t = math.radians(case['turn'])
    with quiet():
        x = m.get_i_is_j_ns(i_dn_ns=i_dn, i_sky_ns=i_sky, h_sun_ns=h, a_sun_ns=a, w_alpha_j=al, w_beta_j=be)
        y = m.get_i_is_j_ns(i_dn_ns=i_dn, i_sky_ns=i_sky, h_sun_ns=h, a_sun_ns=a + t, w_alpha_j=al + t, w_beta_j=be)
        z = m.get_i_is_j_ns(i_dn_ns=i_dn * 3.0, i_sky_ns=i_sky * 3.0, h_sun_ns=h, a_sun_ns=a, w_alpha_j=al, w_beta_j=be)
    for name, p, q, u in zip(('beam', 'sky', 'ground'), x, y, z):
        close(p, q, '%s radiation when sun and surface are turned by %.4g degrees' % (name, case['turn']), atol=1e-6)
        close(3.0 * np.asarray(p), u, '%s radiation at three times the level' % name, atol=1e-6)


H = st.one_of(st.floats(-math.pi / 2, math.pi / 2), st.floats(0, 1.3), st.sampled_from([0.0, 1e-9, -1e-9, 0.5]))
A = st.one_of(st.floats(-math.pi, math.pi), st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 4, -math.pi / 4, 3 * math.pi / 4]))
DN = st.one_of(st.floats(0, 1200), st.sampled_from([0.0, 800.0]))
INSTANT = st.one_of(
    st.tuples(H, A, DN, st.floats(0, 700), st.floats(0, 200)),
    st.tuples(st.just(math.pi / 2), st.none(), DN, st.floats(0, 700), st.floats(0, 200))).map(list)
SUN = st.one_of(st.lists(INSTANT, min_size=1, max_size=40), st.lists(INSTANT, min_size=1, max_size=3))


def names_cases():
    return st.fixed_dictionaries({'sun': SUN, 'bad': st.sampled_from(['', 'S', 'south', 'horizontal', 'up', 'nnw', 'down', 'x'])})


def tilt_cases():
    return st.fixed_dictionaries({
        'sun': SUN, 'azimuth': st.one_of(st.floats(-180, 180), st.sampled_from([0.0, 45.0, -45.0, 90.0, 135.0])),
        'tilt': st.one_of(st.floats(0, 180), st.sampled_from([0.0, 30.0, 90.0, 180.0])), 'aim': st.booleans(), 'turn': st.floats(-180, 180)})


CHECKS = [
    Check('names', names_cases, run_names, 1200, 20000, 'the sun lights at least one face obliquely',
          fixed=[{'sun': [[0.0, math.pi / 4, 500.0, 100.0, 50.0]], 'bad': 'x'}, {'sun': [[math.pi / 2, None, 500.0, 100.0, 50.0]], 'bad': 'x'}]),
    Check('tilt', tilt_cases, run_tilt, 2400, 40000, 'the sun lights the surface obliquely at some instant'),
]
