import math

import numpy as np
from hypothesis import strategies as st

import sunref
from harness import Check, check, close, finite, quiet

TECHNIQUE = 'property-based testing: generated places and instants; oracles are an independent almanac (tolerance 0.4 degrees), the formula of the standard in an independent vector form (1e-6 degrees), and metamorphic relations between places, hours and intervals'
NOTE = 'latitudes 18-50 and longitudes 118-158, all instants of the reference year; whole-year bounds per case'
ASSUMPTIONS = ['reference year 1989, the declination is that of the day as in the standard', 'Japan Standard Time, meridian 135 degrees east']

STEP = {'1h': 60, '30m': 30, '15m': 15}


def calc(lat, lon, interval):
    from heat_load_calc.weather import solar_position
    with quiet():
        h, a = solar_position.calc_solar_position(phi_loc=math.radians(lat), lambda_loc=math.radians(lon), interval=interval)
    return np.asarray(h), np.asarray(a)


def vec(h, a):
    return np.stack([np.cos(h) * np.cos(a), np.cos(h) * np.sin(a), np.sin(h)], -1)


def base(lat, lon, interval):
    h, a = calc(lat, lon, interval)
    n = 365 * 1440 // STEP[interval]
    check(h.shape == (n,) and a.shape == (n,), 'shapes %s %s for interval %s', h.shape, a.shape, interval)
    finite(h, 'sun altitude')
    check(bool(np.all(np.abs(h) <= math.pi / 2)), 'the altitude leaves its bounds')
    over = h >= math.pi / 2
    finite(a[~over], 'sun azimuth (the sun is not overhead)')
    check(bool(np.all(np.abs(a[~over]) <= math.pi + 1e-12)), 'the azimuth leaves (-180, 180]')
    return h, a, over


def run_place(case, ctx):
    lat, lon, interval = case['lat'], case['lon'], case['interval']
    h, a, over = base(lat, lon, interval)
    step = STEP[interval]
    s = vec(h, np.where(over, 0.0, a))
    for k in case['instants']:
        i = k * 15 // step
        day, hour = i * step // 1440 + 1, (i * step % 1440) / 60.0
        v = tuple(s[i])
        g = sunref.angle(v, sunref.standard(lat, lon, day, hour))
        check(g < 1e-6, 'day %d, %.2f h at %.4f N %.4f E: %.6f degrees off the formula of the standard', day, hour, lat, lon, g)
        g = sunref.angle(v, sunref.almanac(lat, lon, day, hour))
        check(g < 0.4, 'day %d, %.2f h at %.4f N %.4f E: %.3f degrees off the almanac', day, hour, lat, lon, g)
        ctx.label('up' if h[i] > 0 else 'down')
    # the sun moves westwards at 15 degrees an hour round the pole: per day, its distance from the pole is constant
    pole = np.array([-math.cos(math.radians(lat)), 0.0, math.sin(math.radians(lat))])
    dec = (s @ pole).reshape(365, -1)
    check(float(np.ptp(dec, axis=1).max()) < 1e-9, 'the declination changes within a day')
    d = np.degrees(np.arcsin(dec[:, 0]))
    check(abs(d.max() - 23.44) < 0.02 and abs(d.min() + 23.44) < 0.02, 'declination ranges %.3f to %.3f', d.min(), d.max())
    check(170 <= int(d.argmax()) <= 174 and (int(d.argmin()) >= 352 or int(d.argmin()) <= 1), 'solstices on days %d and %d', d.argmax() + 1, d.argmin() + 1)
    # noon: highest within half a step of the moment it stands due south (north of the tropic)
    if lat > 24:
        top = h.reshape(365, -1).argmax(1)
        at = s.reshape(365, -1, 3)[np.arange(365), top]
        half = math.radians(15) * step / 60.0 * 0.5
        check(bool(np.all(np.abs(at[:, 1]) <= math.sin(half) * 1.02 + 1e-6)) and bool(np.all(at[:, 0] > 0)), 'the sun is not due south when highest')
        am = (a < -1e-9).reshape(365, -1)
        per = 24 * 60 // step
        check(bool(np.all(am[:, per * 8 // 24:per * 10 // 24])) and not bool(np.any(am[:, per * 14 // 24:per * 16 // 24])),
              'the azimuth is not negative in the morning and positive in the afternoon')
    ctx.label(interval)
    ctx.label('tropics', lat < 23.5)
    ctx.nontrivial(True)


LAT = st.one_of(st.floats(18, 50), st.floats(20, 46), st.sampled_from([20.0, 23.4393, 24.0, 35.0, 45.5]))
LON = st.one_of(st.floats(118, 158), st.sampled_from([122.0, 135.0, 154.0]))


def place_cases():
    return st.fixed_dictionaries({'lat': LAT, 'lon': LON, 'interval': st.sampled_from(['15m', '30m', '1h']),
                                  'instants': st.lists(st.integers(0, 35039), min_size=10, max_size=40)})


def run_relate(case, ctx):
    """intervals agree at common instants; 15 degrees of longitude are one hour"""
    lat, lon = case['lat'], case['lon']
    full = vec(*calc(lat, lon, '15m'))
    for iv, k in (('30m', 2), ('1h', 4)):
        close(vec(*calc(lat, lon, iv)), full[::k], 'direction to the sun, %s against 15m' % iv, atol=1e-9)
    q = case['quarters']
    east = vec(*calc(lat, lon + q * 3.75, '15m')).reshape(365, 96, 3)
    here = full.reshape(365, 96, 3)
    if q > 0:
        close(east[:, :96 - q], here[:, q:], 'direction %d quarter hours later further west' % q, atol=1e-9)
    # moving along the meridian keeps the component to the west
    other = vec(*calc(case['lat2'], lon, '15m'))
    close(other[:, 1], full[:, 1], 'west component of the direction at another latitude', atol=1e-9)
    ctx.nontrivial(q > 0)


def relate_cases():
    return st.fixed_dictionaries({'lat': st.floats(20, 48), 'lat2': st.floats(20, 48), 'lon': st.floats(120, 150), 'quarters': st.integers(0, 3)})


def run_overhead(case, ctx):
    """places where the sun stands exactly, or nearly, overhead at one of the instants"""
    day, q = case['day'], case['quarter']
    # aim: latitude = declination, longitude such that the hour angle is zero, from the code's own series
    h, a = calc(30.0, 135.0, '15m')
    i = (day - 1) * 96 + q
    s = vec(h[i], a[i])
    pole = np.array([-math.cos(math.radians(30.0)), 0.0, math.sin(math.radians(30.0))])
    mer = np.array([math.sin(math.radians(30.0)), 0.0, math.cos(math.radians(30.0))])
    lat = math.degrees(math.asin(float(s @ pole)))
    om = math.degrees(math.atan2(float(s[1]), float(s @ mer)))
    for dl, dm in [(0.0, 0.0)] + case['off']:
        hh, aa, over = base(lat + dl, 135.0 - om + dm, '15m')
        g = 90.0 - math.degrees(hh[i])
        check(g < 1e-4 + math.hypot(dl, dm) * 1.01, 'the sun should be within %.3g degrees of the zenith, is %.5f', math.hypot(dl, dm), g)
        ctx.label('exactly overhead', bool(over[i]))
        ctx.label('defined', not bool(over[i]))
    ctx.nontrivial(True)


def overhead_cases():
    tiny = st.tuples(st.sampled_from([0.0, 1e-14, -1e-13, 1e-9, 1e-7, -1e-5]), st.sampled_from([0.0, 1e-13, -1e-12, 1e-8, 1e-5]))
    return st.fixed_dictionaries({'day': st.integers(130, 215), 'quarter': st.integers(40, 55), 'off': st.lists(tiny.map(list), max_size=3)})


CHECKS = [
    Check('place', place_cases, run_place, 240, 3000, 'every case: a place, an interval and 10-40 instants against two oracles'),
    Check('relate', relate_cases, run_relate, 120, 1200, 'longitudes a whole number of quarter hours apart'),
    Check('overhead', overhead_cases, run_overhead, 240, 3000, 'every case: the sun at or near the zenith',
          fixed=[{'day': 210, 'quarter': 49, 'off': []}, {'day': 130, 'quarter': 51, 'off': []}, {'day': 212, 'quarter': 45, 'off': []}]),
]
