import csv
import math
import os

import numpy as np
from hypothesis import strategies as st

import gen
import sim
from harness import Check, check, close, fail, need, scratch
from props.c11 import BND, ROOM

TECHNIQUE = 'property-based testing: generated houses; the hourly table recomputed from the detailed one, files parsed and compared with the returned tables, reported inputs compared with the forcing, runs with and without files compared'
NOTE = 'sampled houses of 1-4 rooms over 1-2 days; aggregation within half a unit of the rounding, files to the last digit'
ASSUMPTIONS = ['a whole number of steps per hour', 'hourly values may be rounded to 0.01 K, 1e-4 kg/kg, 1 W and 0.01 kg/kg outdoors']

HOURLY = {'t_r': ('mean', 0.005), 'x_r': ('mean', 0.00005), 'ot': ('mean', 0.005), 'l_s_c': ('sum', 0.5), 'l_s_r': ('sum', 0.5), 'l_l_c': ('sum', 0.5)}


def aggregate(a, how, k):
    a = np.asarray(a, dtype=float).reshape(-1, k)
    return a.mean(1) if how == 'mean' else a.sum(1)


def parse(path):
    with open(path, encoding='cp932', newline='') as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def cell(got, want):
    """does the text of a cell denote the value"""
    if isinstance(want, str):
        return got == want
    try:
        w = float(want)
    except (TypeError, ValueError):
        return got == str(want)
    if math.isnan(w):
        return got in ('', 'nan')
    return float(got) == w


def file_equals(path, table, what):
    check(os.path.exists(path), 'no %s was written', what)
    head, body = parse(path)
    check(head[1:] == [str(c) for c in table.columns], '%s: the columns differ from the returned table', what)
    check(len(body) == len(table), '%s: %d rows, the returned table has %d', what, len(body), len(table))
    for k, row in enumerate(body):
        check(row[0] == str(table.index[k]), '%s: row %d is labelled %s instead of %s', what, k, row[0], table.index[k])
    for m, c in enumerate(table.columns):
        col = list(table[c])
        for k in range(len(col)):
            v = col[k]
            if hasattr(v, 'name') and hasattr(v, 'value') and not isinstance(v, (int, float)):
                v = str(v)
            if not cell(body[k][m + 1], v):
                fail('%s: column %s row %d holds %s, the returned table %s' % (what, c, k, body[k][m + 1], col[k]))


def run(case, ctx):
    c = case['house']
    fc = sim.Forcing(c)
    house = sim.house_dict(c)
    kw = sim.span(c)
    with scratch() as d, scratch() as out:
        sim.write_inputs(d, house, fc)
        s0, t0 = sim.calc(d, **kw)
        before = set(os.listdir(d))
        s1, t1 = sim.calc(d, output_data_dir=out, show_simple_result=case['simple'], show_detail_result=case['detail'], **kw)
        check(set(os.listdir(d)) == before, 'files appeared in the input folder')
        want = ({'result_digest.csv'} if case['simple'] else set()) | ({'result_detail.csv'} if case['detail'] else set())
        check(set(os.listdir(out)) == want, 'files written: %s, asked for: %s', sorted(os.listdir(out)), sorted(want))
        if case['simple']:
            file_equals(os.path.join(out, 'result_digest.csv'), s1, 'result_digest.csv')
        if case['detail']:
            file_equals(os.path.join(out, 'result_detail.csv'), t1, 'result_detail.csv')
    for x, y, name in ((s0, s1, 'hourly'), (t0, t1, 'detailed')):
        check(list(x.columns) == list(y.columns), 'the %s table has other columns when files are written', name)
        for col in x.columns:
            u, v = np.asarray(x[col]), np.asarray(y[col])
            check(np.array_equal(u, v) or (u.dtype.kind == 'f' and np.array_equal(u, v, equal_nan=True)),
                  'column %s of the %s table differs when files are written', col, name)
    judge(c, fc, s1, t1, ctx)
    ctx.label('files: %s%s' % ('digest ' if case['simple'] else '', 'detail' if case['detail'] else ''))


def judge(c, fc, s1, t1, ctx):
    sph = sim.per_hour(c)
    n = c['days'] * 24 * sph
    ni = len(c['rooms'])
    # hourly values
    close(s1['out_temp'], aggregate(t1['out_temp'], 'mean', sph), 'hourly outdoor temperature', rtol=0, atol=0.0050001)
    close(s1['out_abs_humid'], aggregate(t1['out_abs_humid'], 'mean', sph), 'hourly outdoor humidity', rtol=0, atol=0.0050001)
    for i in range(ni):
        for k, (how, half) in HOURLY.items():
            name = 'rm%d_%s' % (i, k)
            close(need(s1, name, 'the hourly table'), aggregate(t1[name], how, sph), 'hourly %s' % name, rtol=1e-12, atol=half * 1.0001)
        name = 'rm%d_ac_operate' % i
        check([int(v) for v in need(s1, name, 'the hourly table')] == [int(v) for v in list(t1[name])[::sph]], 'hourly mode of room %d is not the mode at the hour', i)
    # reported inputs and constants of each step
    close(t1['out_temp'], fc.to[:n], 'reported outdoor temperature', rtol=1e-12)
    close(t1['out_abs_humid'], fc.xo[:n], 'reported outdoor humidity', rtol=1e-12, atol=1e-15)
    share = [0.0] * ni
    for i in range(ni):
        for col, a in (('occupancy', fc.dem[i]), ('q_sol_t', fc.sol[i]), ('q_s_except_hum', fc.q[i]), ('q_l_except_hum', fc.x[i]),
                       ('q_s_sol_fun', 0.5 * fc.sol[i])):
            close(need(t1, 'rm%d_%s' % (i, col), 'the detailed table'), a[:n], 'reported %s of room %d' % (col, i), rtol=1e-12, atol=1e-15)
    seen = [0] * ni
    for j, b in enumerate(c['bounds']):
        name = 'rm%d_b%d_' % (b['room'], seen[b['room']])
        seen[b['room']] += 1
        for k in BND:
            need(t1, name + k, 'the detailed table')
        close(t1[name + 'hic_s'], b['hc'], 'reported convective coefficient of boundary %d' % j, rtol=1e-12)
        q = (np.asarray(t1[name + 'qic_s']) + np.asarray(t1[name + 'qir_s']) + np.asarray(t1[name + 'qisol_s'])) / b['A']
        if c['rooms'][b['room']]['heat'] != 'rad' and c['rooms'][b['room']]['cool'] != 'rad':
            close(t1[name + 'qiall_s'], q, 'total of the reported parts of the heat into boundary %d' % j, rtol=1e-7, atol=1e-6)
        close(np.asarray(t1[name + 'qic_s']), b['hc'] * b['A'] * (np.asarray(t1['rm%d_t_r' % b['room']]) - np.asarray(t1[name + 't_s'])),
              'convective part of boundary %d' % j, rtol=1e-9, atol=1e-7)
    cols = [str(x) for x in t1.columns]
    check(len(cols) == len(set(cols)), 'a column appears twice')
    stray = [x for x in cols if x.startswith('rm') and '_b' in x and int(x.split('_b')[1].split('_')[0]) >= seen[int(x[2:].split('_')[0])]]
    check(not stray, 'columns of boundaries that do not exist: %s', stray[:3])
    check(not [x for x in cols if x.startswith('rm') and int(x[2:].split('_')[0]) >= ni], 'columns of rooms that do not exist')
    for lab in gen.shape_of(c):
        ctx.label(lab)
    ctx.label('mode changes within an hour', any(len(set(int(v) for v in list(t1['rm%d_ac_operate' % i])[h * sph:(h + 1) * sph])) > 1 for i in range(ni) for h in range(n // sph)))
    ctx.nontrivial(any(np.ptp(np.asarray(t1['rm%d_t_r' % i])) > 0.5 for i in range(ni)))


def run_year(c, ctx):
    """the whole year, to its last step"""
    fc = sim.Forcing(c)
    with scratch() as d:
        sim.write_inputs(d, sim.house_dict(c), fc)
        s, t = sim.calc(d, **sim.span(c))
    check(len(t) == c['days'] * sim.per_day(c) and len(s) == c['days'] * 24, 'tables of %d and %d rows for %d days', len(t), len(s), c['days'])
    judge(c, fc, s, t, ctx)


CHECKS = [
    Check('tables', lambda: st.fixed_dictionaries({'house': gen.house(rooms=(1, 4), max_b=3, days=(1, 2), runup=True), 'simple': st.booleans(), 'detail': st.sampled_from([True, True, False])}),
          run, 144, 2000, 'some room temperature moves by more than 0.5 K'),
    Check('year', lambda: gen.house(rooms=(1, 2), max_b=2, days=(365, 365), runup=True), run_year, 8, 60, 'as tables'),
]
