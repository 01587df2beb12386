import csv
import glob
import math
import os

import numpy as np
from hypothesis import strategies as st

import boot
import sunref
from harness import Check, check, close, fail, finite, need, rejects, scratch

TECHNIQUE = 'property-based testing: every region and interval, generated instants; oracle is the regional source table read independently, interpolated by hand, plus an independent sun position; the written file is parsed and compared'
NOTE = 'all 24 combinations of region and interval over the whole year, spot instants generated'
ASSUMPTIONS = ['the source tables in weather/expanded_amedas are the regional data']

CITY = {1: ('北見', 43.82, 143.91), 2: ('岩見沢', 43.21, 141.79), 3: ('盛岡', 39.70, 141.17), 4: ('長野', 36.66, 138.20),
        5: ('宇都宮', 36.55, 139.87), 6: ('岡山', 34.66, 133.92), 7: ('宮崎', 31.94, 131.42), 8: ('那覇', 26.21, 127.685)}
STEP = {'1h': 60, '30m': 30, '15m': 15}
COLS = ['temperature', 'absolute humidity', 'normal direct solar radiation', 'horizontal sky solar radiation',
        'outward radiation', 'sun altitude', 'sun azimuth']
# our column -> (heading of the source, factor)
SOURCE = {'temperature': ('外気温度', 1.0), 'absolute humidity': ('絶対湿度', 0.001),
          'normal direct solar radiation': ('法線面直達日射', 1.0), 'horizontal sky solar radiation': ('水平面天空日射', 1.0),
          'outward radiation': ('夜間放射量', 1.0)}
_src = {}


def source(region):
    """{column: value at hour k of the year, k = 1..8760} read by heading and by the labels of the rows"""
    if region not in _src:
        for path in glob.glob(os.path.join(boot.PKG, 'weather', 'expanded_amedas', '*.csv')):
            with open(path, encoding='utf-8-sig', newline='') as f:
                rows = list(csv.reader(f))
            if rows[1][0] != CITY[region][0]:
                continue
            head = rows[0]
            t = {c: {} for c in SOURCE}
            day, last = 0, None
            for r in rows[2:]:
                if r[0] != last:
                    day, last = day + 1, r[0]
                k = (day - 1) * 24 + int(r[1])
                for c, (h, f) in SOURCE.items():
                    t[c][k] = float(r[head.index(h)]) * f
            for c in t:
                check(sorted(t[c]) == list(range(1, 8761)), 'the source table of region %d has no complete year', region)
                t[c] = np.array([t[c][k] for k in range(1, 8761)])
            _src[region] = t
            break
        else:
            fail('no source table for region %d' % region)
    return _src[region]


def make(region, interval, d=None):
    from heat_load_calc.weather import weather
    from harness import quiet
    with quiet():
        if d is None:
            return weather.make_weather(region=region, interval=interval)
        return weather.make_weather(region=region, output_data_dir=d, csv_output=True, interval=interval)


def run_table(case, ctx):
    region, interval = case['region'], case['interval']
    step = STEP[interval]
    n = 365 * 24 * 60 // step
    with scratch() as d:
        w = make(region, interval, d if case['csv'] else None)
        files = os.listdir(d)
        if case['csv']:
            check(files == ['weather.csv'], 'weather.csv expected, found %s', files)
            with open(os.path.join(d, 'weather.csv'), encoding='utf-8', newline='') as f:
                body = list(csv.reader(f))
    check(list(w.columns) == COLS, 'the columns are %s', list(w.columns))
    check(len(w) == n, 'the table has %d rows for interval %s', len(w), interval)
    minutes = ((w.index - w.index[0]).total_seconds().values / 60).round(6)
    check(str(w.index[0]) == '1989-01-01 00:00:00', 'the series starts at %s', w.index[0])
    check(bool(np.all(minutes == np.arange(n) * step)), 'the instants are not %d minutes apart', step)
    src = source(region)
    hours = np.arange(n) * step / 60.0
    for c in SOURCE:
        # hour 0 is the last hour of the year
        known = np.concatenate([src[c][-1:], src[c]])
        want = np.interp(hours, np.arange(8761), known)
        close(finite(w[c].values, c), want, '%s, region %d, interval %s' % (c, region, interval), rtol=1e-9, atol=1e-9)
        if c != 'temperature':
            check(w[c].values.min() >= -1e-12, '%s is negative', c)
    if case['csv']:
        check(body[0][1:] == COLS, 'columns of the file: %s', body[0])
        check(len(body) == n + 1, 'the file has %d rows', len(body) - 1)
        check([r[0] for r in body[1:]] == [str(t) for t in w.index], 'the instants of the file differ from those of the table')
        cells = np.array([[float(x) if x else math.nan for x in r[1:]] for r in body[1:]])
        for m, c in enumerate(COLS):
            a, b = cells[:, m], w[c].values
            check(bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)))), 'column %s of the file differs from the table', c)
    lat, lon = CITY[region][1:]
    for k in case['instants']:
        i = k * 15 // step                                # k counts quarter hours
        m = i * step
        day, hour = m // 1440 + 1, (m % 1440) / 60.0
        h, a = float(w['sun altitude'].iloc[i]), float(w['sun azimuth'].iloc[i])
        s = sunref.to_vector(h, a)
        g = sunref.angle(s, sunref.standard(lat, lon, day, hour))
        check(g < 1e-5, 'the sun at %s is %.4f degrees off its place for the latitude and longitude of region %d', w.index[i], g, region)
        g = sunref.angle(s, sunref.almanac(lat, lon, day, hour))
        check(g < 0.4, 'the sun at %s is %.3f degrees off the almanac', w.index[i], g)
        ctx.label('sun up' if h > 0 else 'sun down')
    # beam sunlight only around the time the sun is up
    up = w['sun altitude'].values > -0.02
    pad = max(1, 60 // step)
    near = np.convolve(up.astype(float), np.ones(2 * pad + 1), 'same') > 0
    dark = ~near
    check(float(w['normal direct solar radiation'].values[dark].max()) <= 1e-9, 'beam sunlight at night in region %d', region)
    ctx.label(interval)
    ctx.label('file', case['csv'])
    ctx.nontrivial(True)


def table_cases():
    return st.fixed_dictionaries({
        'region': st.integers(1, 8), 'interval': st.sampled_from(['1h', '30m', '15m']), 'csv': st.booleans(),
        'instants': st.lists(st.integers(0, 35039), min_size=8, max_size=24)})


def run_nested(case, ctx):
    """finer series contain the coarser ones; the two ways of asking agree; order of calls does not matter"""
    region = case['region']
    tabs = {}
    for iv in case['order']:
        tabs[iv] = make(region, iv)
    for fine, coarse in (('15m', '30m'), ('15m', '1h'), ('30m', '1h')):
        a = tabs[fine].iloc[::STEP[coarse] // STEP[fine]]
        b = tabs[coarse]
        check(list(a.index) == list(b.index), '%s instants are not among the %s ones', coarse, fine)
        for c in COLS:
            x, y = a[c].values, b[c].values
            if c == 'sun azimuth':
                x, y = np.exp(1j * x) * np.cos(a['sun altitude'].values), np.exp(1j * y) * np.cos(b['sun altitude'].values)
                x, y = np.c_[x.real, x.imag], np.c_[y.real, y.imag]
            close(x, y, '%s of the %s series against the %s series, region %d' % (c, fine, coarse, region), atol=1e-9)
    ctx.nontrivial(True)


def nested_cases():
    return st.fixed_dictionaries({'region': st.integers(1, 8), 'order': st.permutations(['1h', '30m', '15m']).map(list)})


def run_reject(case, ctx):
    rejects(lambda: make(case['region'], case['interval']), 'region %r with interval %r' % (case['region'], case['interval']))
    ctx.nontrivial(True)


def reject_cases():
    bad_region = st.one_of(st.integers(-100, 0), st.integers(9, 1000))
    bad_interval = st.sampled_from(['', '15', '10m', '15min', '2h', '60m', '1H ', 'h'])
    return st.one_of(
        st.fixed_dictionaries({'region': bad_region, 'interval': st.sampled_from(['1h', '30m', '15m'])}),
        st.fixed_dictionaries({'region': st.integers(1, 8), 'interval': bad_interval}))


ALL = [{'region': r, 'interval': i, 'csv': r % 2 == 0, 'instants': [0, 1, 52, 17000, 35039]} for r in range(1, 9) for i in ('1h', '30m', '15m')]
CHECKS = [
    Check('table', table_cases, run_table, 160, 900, 'every case: whole year of one region and interval against the source', fixed=ALL),
    Check('nested', nested_cases, run_nested, 48, 300, 'every case: three intervals of one region compared'),
    Check('reject', reject_cases, run_reject, 60, 300, 'every case: an undefined region or interval'),
]
