import copy

import numpy as np
from hypothesis import strategies as st

import gen
import sim
from harness import Check, check, close, fail, quiet, rejects, scratch
from props.c04 import factors
from props.c11 import BND, ROOM, same

TECHNIQUE = 'property-based testing: metamorphic relations over generated houses and forcings (longer run, changed future, rolled year), ground run-up against an independent recursion'
NOTE = 'sampled houses of 1-3 rooms, 1-3 main days, 0-4 run-up days, ground run-up up to 20 days; prefixes bit-identical, rolled years and ground state to 1e-8'
ASSUMPTIONS = ['a whole number of steps per hour', 'the yearly mean outdoor temperature may enter through ground floors']


def rows(r):
    return r.dd


def identical(a, b, n, what):
    """first n rows of two detailed tables"""
    check(list(a.columns) == list(b.columns), '%s: the columns differ', what)
    for c in a.columns:
        x, y = np.asarray(a[c])[:n], np.asarray(b[c])[:n]
        ok = np.array_equal(x, y) if x.dtype.kind != 'f' else np.array_equal(x, y, equal_nan=True)
        if not ok:
            k = int(np.argmin(x == y))
            fail('%s: column %s differs at step %d: %s and %s' % (what, c, k, x[k], y[k]))


def run_length(case, ctx):
    c, longer = case['house'], case['longer']
    a = sim.Run(c)
    c2 = dict(copy.deepcopy(c), days=c['days'] + longer)
    b = sim.Run(c2, fc=long_forcing(c, c2))
    for r, cc in ((a, c), (b, c2)):
        n = cc['days'] * sim.per_day(cc)
        check(len(r.dd) == n, '%d rows for %d days', len(r.dd), cc['days'])
        check(len(r.ds) == cc['days'] * 24, '%d hourly rows for %d days', len(r.ds), cc['days'])
        ix = r.dd.index
        check(str(ix[0])[5:19] in ('01-01 00:00:00', '01-01'), 'the table begins at %s', ix[0])
        step = np.diff(np.asarray(ix.values, dtype='datetime64[s]').astype('int64'))
        check(np.all(step == 3600 // sim.per_hour(cc)), 'steps of %s seconds with %d per hour', sorted(set(step.tolist())), sim.per_hour(cc))
        hs = np.diff(np.asarray(r.ds.index.values, dtype='datetime64[s]').astype('int64'))
        check(np.all(hs == 3600) and r.ds.index[0] == ix[0], 'the hourly table does not run hourly from the same start')
    identical(a.dd, b.dd, a.n, 'a longer run')
    identical(a.ds, b.ds, c['days'] * 24, 'hourly table of a longer run')
    for lab in gen.shape_of(c):
        ctx.label(lab)
    ctx.label('run-up', c['rub'] > 0)
    ctx.nontrivial(True)


def long_forcing(c, c2):
    """the forcing of the longer case for both"""
    f1, f2 = sim.Forcing(c), sim.Forcing(c2)
    # beyond the first days the two series may differ, which must not matter; the yearly mean must not
    if any(b['k'] == 'gnd' for b in c['bounds']):
        f2.to = f1.to
        f2.tos = f1.tos
    return f2


def run_future(case, ctx):
    c = case['house']
    day = sim.per_day(c)
    k = case['step'] % (c['days'] * day - 1)
    a_fc, b_fc = sim.Forcing(c), sim.Forcing(c)
    end = sim.per_year(c) - c['ru'] * day
    gnd = any(b['k'] == 'gnd' for b in c['bounds'])
    s = slice(k + 1, end)
    d = case['delta']
    if not gnd:
        b_fc.to[s] += d
    else:                                        # same yearly mean
        m = min(end, c['days'] * day + 500)
        b_fc.to[k + 1:m] += d
        far = slice(m, end)
        b_fc.to[far] -= d * (m - k - 1) / (end - m)
    b_fc.xo[s] = b_fc.xo[s] * 0.7 + 0.0005
    size = np.array([[r['V']] for r in c['rooms']])
    b_fc.q[:, s] += 4.0 * size
    b_fc.x[:, s] += 1e-7 * size
    b_fc.hum[:, s] += 0.01 * size
    b_fc.dem[:, s] = 1.0 - b_fc.dem[:, s]
    b_fc.vent[:, s] += 0.01
    b_fc.sol[:, s] += 2.0 * size
    for j, b in enumerate(c['bounds']):
        if b['k'] not in ('gnd', 'int'):
            b_fc.tos[j, s] += d
    a, b = sim.Run(c, fc=a_fc), sim.Run(c, fc=b_fc)
    if not gnd:
        identical(a.dd, b.dd, k + 1, 'another future after step %d' % k)
    else:
        for col in ROOM:
            close(b.R[col][:, :k + 1], a.R[col][:, :k + 1], 'another future after step %d, column %s' % (k, col), rtol=1e-8, atol=1e-6 if col.startswith('l_') else 1e-9)
        for col in BND:
            close(b.B[col][:, :k + 1], a.B[col][:, :k + 1], 'another future after step %d, column %s' % (k, col), rtol=1e-8, atol=1e-7)
    ctx.label('ground', gnd)
    ctx.label('run-up', c['ru'] > 0)
    ctx.nontrivial(np.any(np.abs(a.R['t_r'][:, k + 1:] - b.R['t_r'][:, k + 1:]) > 1e-3))


def run_unused(case, ctx):
    """the part of the year that is neither run nor run up to does not matter; without ground floors nor do the days before the building run-up"""
    c = case['house']
    gnd = any(b['k'] == 'gnd' for b in c['bounds'])
    a_fc, b_fc = sim.Forcing(c), sim.Forcing(c)
    day = sim.per_day(c)
    lo, hi = c['days'] * day, sim.per_year(c) - (c['ru'] if gnd else c['rub']) * day
    for k, dv in (('xo', 1e-3), ('q', 500.0), ('x', 1e-4), ('hum', 2.0), ('vent', 0.1), ('sol', 700.0)):
        getattr(b_fc, k)[..., lo:hi] += dv
    b_fc.dem[:, lo:hi] = 1.0
    for j, b in enumerate(c['bounds']):
        if b['k'] not in ('gnd', 'int'):
            b_fc.tos[j, lo:hi] -= 20.0
    if not gnd:
        b_fc.to[lo:hi] -= 25.0
    c2 = dict(copy.deepcopy(c))
    if not gnd:
        c2['ru'] = c['ru'] + case['more']
    a, b = sim.Run(c, fc=a_fc), sim.Run(c2, fc=b_fc)
    identical(a.dd, b.dd, lo, 'other values in the unused part of the year')
    # while the last building run-up day does matter
    if c['rub']:
        b_fc = sim.Forcing(c)
        b_fc.q[:, -day:] += 12.0 * a.V[:, None]
        b_fc.x[:, -day:] += 5e-7 * a.V[:, None]                            # a conditioned room may hide heat, not the vapour in its furnishings
        b = sim.Run(c, fc=b_fc)
        check(any(np.any(b.R[k][:, 0] != a.R[k][:, 0]) for k in ('t_r', 't_fun', 'l_s_c')) or np.any(np.abs(b.R['x_fun'][:, 0] - a.R['x_fun'][:, 0]) > 1e-9),
              'the last day of the run-up has no influence')
    ctx.label('ground', gnd)
    ctx.label('building run-up', c['rub'] > 0)
    ctx.label('ground run-up beside it', c['ru'] > c['rub'])
    ctx.nontrivial(True)


def run_rolled(case, ctx):
    c, k = case['house'], case['up']
    day = sim.per_day(c)
    a_case = dict(copy.deepcopy(c), ru=k, rub=k)
    fc = sim.Forcing(a_case)
    a = sim.Run(a_case, fc=fc)
    b_case = dict(copy.deepcopy(c), ru=0, rub=0, days=c['days'] + k)
    rolled = sim.Forcing(a_case)
    for name in ('to', 'xo', 'tos') + tuple(x for x, _ in sim.ROOM_FILES):
        setattr(rolled, name, np.roll(getattr(rolled, name), k * day, axis=-1))
    b = sim.Run(b_case, fc=rolled)
    cut = copy.copy(b)
    cut.R = {n: v[:, k * day:] for n, v in b.R.items() if n != 'remarks'}
    cut.B = {n: v[:, k * day:] for n, v in b.B.items()}
    same(a, cut, range(a.ni), range(a.nj), 'run-up of %d days against running those days' % k, rtol=1e-8)
    for lab in gen.shape_of(c):
        ctx.label(lab)
    ctx.nontrivial(np.any(a.R['ac_operate'] != 4) or np.ptp(a.R['t_r']) > 1.0)


def run_ground(case, ctx):
    c = dict(copy.deepcopy(case['house']), ru=case['up'], rub=0)
    fc = sim.Forcing(c)
    r = sim.Run(c, fc=fc)
    house = sim.house_dict(c)
    up = case['up'] * sim.per_day(c)
    ave = float(np.mean(fc.to))
    moved = 0.0
    for j, b in enumerate(c['bounds']):
        if b['k'] != 'gnd':
            continue
        p0, p1, t0, t1, rr = factors(house['boundaries'][j]['spec'], r.dt)
        h = float(r.B['hic_s'][j, 0] + r.B['hir_s'][j, 0])
        a, q = np.zeros(len(rr)), 0.0
        t = np.zeros(len(rr))
        for n in range(sim.per_year(c) - up, sim.per_year(c)):
            a = p1 * q + rr * a
            s = (p0 * h * fc.to[n] + a.sum() + ave) / (1.0 + p0 * h)
            q = h * (fc.to[n] - s)
            t = t1 * ave / (1.0 - rr)
        moved = max(moved, abs(q))
        qs = r.B['qiall_s'][j]
        for n in range(r.n):
            a = p1 * q + rr * a
            t = t1 * fc.tos[j, n] + rr * t
            q = qs[n]
            want = p0 * q + a.sum() + t.sum() + t0 * fc.tos[j, n]
            close(r.B['t_s'][j, n], want, 'floor on ground %d after %d days of ground run-up, step %d' % (j, case['up'], n), rtol=1e-8, atol=1e-6)
    for lab in gen.shape_of(c):
        ctx.label(lab)
    ctx.nontrivial(moved > 0.1)


def run_still(case, ctx):
    """a constant climate at the initial temperature: after ground run-up nothing moves"""
    c = copy.deepcopy(case)
    for k in c['f']['rooms']:
        for s in ('q', 'x', 'hum', 'dem', 'sol'):
            k[s] = gen.const(0.0)
    c['f']['off'] = [gen.const(0.0) for _ in c['bounds']]
    c['f']['To'] = gen.const(15.0)
    c['bounds'] = [dict(b) for b in c['bounds']]
    for b in c['bounds']:                        # only instant walls beside the ground
        if b['k'] == 'ext':
            b['k'], b['u'], b['ri'] = 'op', 1.5, 0.11
    r = sim.Run(c)
    close(r.R['t_r'], 15.0, 'air in a still climate after ground run-up', rtol=0, atol=1e-6)
    close(r.B['t_s'], 15.0, 'surfaces in a still climate after ground run-up', rtol=0, atol=1e-6)
    ctx.nontrivial(any(b['k'] == 'gnd' for b in c['bounds']))


def run_reject(case, ctx):
    ru, rub, d = case['ru'], case['ru'] + case['extra'], case['days']
    c = case['house']
    with scratch() as f:
        sim.write_inputs(f, sim.house_dict(c), sim.Forcing(c))
        rejects(lambda: sim.calc(f, **sim.span(dict(c, days=d, ru=ru, rub=rub))), 'a building run-up of %d days in a run-up of %d' % (rub, ru))
    ctx.nontrivial(True)


def houses(**kw):
    return gen.house(rooms=(1, 3), max_b=3, **kw)


def grounded(**kw):
    return gen.house(rooms=(1, 2), max_b=2, kinds=['gnd', 'gnd', 'ext', 'op'], **kw)


fd = st.fixed_dictionaries
CHECKS = [
    Check('length', lambda: fd({'house': houses(runup=True), 'longer': st.integers(1, 3)}), run_length, 48, 700, 'all'),
    Check('future', lambda: fd({'house': houses(days=(1, 2), runup=True), 'step': st.integers(0, 400), 'delta': st.sampled_from([5.0, -8.0])}), run_future, 64, 1000,
          'the later steps do change'),
    Check('unused', lambda: fd({'house': houses(runup=True), 'more': st.integers(0, 2)}), run_unused, 40, 600, 'all'),
    Check('rolled', lambda: fd({'house': houses(air=True), 'up': st.integers(1, 3)}), run_rolled, 56, 900, 'conditioning runs or temperatures move'),
    Check('ground', lambda: fd({'house': grounded(), 'up': st.integers(1, 20)}), run_ground, 48, 700, 'the run-up left a heat flow above 0.1 W/m2 in the ground'),
    Check('still', lambda: grounded(runup=False, people=False, internal=False).map(lambda c: dict(c, ru=3)), run_still, 24, 300, 'there is a ground floor'),
    Check('reject', lambda: fd({'house': gen.house(rooms=(1, 1), max_b=1), 'ru': st.integers(0, 5), 'extra': st.integers(1, 400), 'days': st.integers(1, 2)}), run_reject, 8, 60, 'all'),
]
