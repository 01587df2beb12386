import copy
import itertools
import os
import re

import numpy as np
from hypothesis import strategies as st

import gen
import hgen
import sim
from harness import Check, check, close, fail, scratch

TECHNIQUE = 'property-based testing: metamorphic relations over generated houses (renumbered rooms, reordered boundaries, repeated runs, extra files, an added separate room)'
NOTE = 'sampled houses of 1-4 rooms over 1-2 days; permuted results to 1e-7 relative, repeated runs bit-identical'
ASSUMPTIONS = ['a whole number of steps per hour', 'permuted sums may differ by rounding']

ROOM = ('ac_operate', 'occupancy', 'hc_hum', 'hr_hum', 't_r', 'rh_r', 'x_r', 'mrt', 'ot', 'q_sol_t', 'q_s_except_hum', 'q_l_except_hum', 'q_hum_s',
        'q_hum_l', 'l_s_c', 'l_s_r', 'l_l_c', 't_fun', 'q_s_fun', 'q_s_sol_fun', 'x_fun', 'q_l_fun', 'v_reak', 'v_ntrl')
BND = ('t_s', 't_e', 't_b', 'hir_s', 'qir_s', 'hic_s', 'qic_s', 'qisol_s', 'qiall_s')


def permute(case, pr, pb):
    """pr[i]: new number of room i; pb: new listing order of the boundaries (old numbers)"""
    c = copy.deepcopy(case)
    n = len(pr)
    inv = [pr.index(k) for k in range(n)]
    new = {old: k for k, old in enumerate(pb)}
    c['rooms'] = [c['rooms'][inv[k]] for k in range(n)]
    for r in c['rooms']:
        r['next'] = [r['next'][inv[k]] for k in range(n)]
    c['f']['rooms'] = [c['f']['rooms'][inv[k]] for k in range(n)]
    c['bounds'] = [c['bounds'][old] for old in pb]
    for b in c['bounds']:
        b['room'] = pr[b['room']]
        if 'rear' in b:
            b['rear'] = new[b['rear']]
    c['f']['off'] = [c['f']['off'][old] for old in pb]
    return c


def same(a, b, rooms, bnds, what, rtol=1e-7):
    """a's room i is b's room rooms[i], and so for boundaries"""
    for k in ROOM:
        x = a.R[k]
        y = b.R[k][list(rooms)]
        s = float(np.max(np.abs(x))) + 1e-9
        if k in ('l_s_c', 'l_s_r', 'l_l_c'):
            s += 1e3
        close(y, x, '%s: column %s of the rooms' % (what, k), rtol=rtol, atol=rtol * s)
    for k in BND:
        x = a.B[k]
        y = b.B[k][list(bnds)]
        close(y, x, '%s: column %s of the boundaries' % (what, k), rtol=rtol, atol=rtol * (float(np.max(np.abs(x))) + 1.0))


def run_order(case, ctx):
    c, pr, pb = case['house'], case['rooms'], case['bounds']
    a, b = sim.Run(c), sim.Run(permute(c, pr, pb))
    new = {old: k for k, old in enumerate(pb)}
    same(a, b, pr, [new[j] for j in range(len(pb))], 'renumbered')
    for lab in gen.shape_of(c):
        ctx.label(lab)
    ctx.label('rooms renumbered', pr != sorted(pr))
    ctx.label('conditioned', np.any(a.R['l_s_c'] != 0))
    ctx.nontrivial(pr != sorted(pr) or pb != sorted(pb))


@st.composite
def orders(draw):
    c = draw(gen.house(rooms=(2, 4), max_b=3, air=True, runup=True))
    if draw(st.booleans()):                                # capacities of every size at work
        c = draw(gen.house(rooms=(2, 3), max_b=2, alike=True, climate=draw(st.sampled_from(['hot', 'cold']))))
        for f in c['f']['rooms']:
            f['dem'] = gen.const(1.0)
    return {'house': c, 'rooms': draw(st.permutations(range(len(c['rooms'])))), 'bounds': draw(st.permutations(range(len(c['bounds']))))}


def tables(d, case, out=None, **kw):
    return sim.calc(d, **sim.span(case), **kw)


def run_repeat(case, ctx):
    a, c = case['first'], case['second']
    with scratch() as d1, scratch() as d2:
        sim.write_inputs(d1, sim.house_dict(a), sim.Forcing(a))
        for k in range(3):                        # unrelated files
            open(os.path.join(d2, ('result_detail.csv', 'mid_data_old.csv', 'notes.txt')[k]), 'w').write('1,2\nx,y\n')
        sim.write_inputs(d2, sim.house_dict(a), sim.Forcing(a))
        with scratch() as d3:
            sim.write_inputs(d3, sim.house_dict(c), sim.Forcing(c))
            before = [sim.digest(x) for x in (d1, d2, d3)]
            s1, t1 = tables(d1, a)
            tables(d3, c)
            s2, t2 = tables(d2, a)
            for x, y in zip((d1, d2, d3), before):
                z = sim.digest(x)
                check({k: z.get(k) for k in y} == y, 'a run changed its input folder: %s', sorted(k for k in y if y[k] != z.get(k)))
                check(set(z) == set(y), 'a run without output folder left files: %s', sorted(set(z) - set(y)))
    for x, y, name in ((s1, s2, 'hourly'), (t1, t2, 'detailed')):
        check(list(x.columns) == list(y.columns) and len(x) == len(y), 'the %s table of the repeated run has another shape', name)
        for col in x.columns:
            u, v = np.asarray(x[col]), np.asarray(y[col])
            same_ = np.array_equal(u, v) or (u.dtype.kind == 'f' and np.array_equal(u, v, equal_nan=True))
            check(same_, 'column %s of the %s table differs between two runs of the same input', col, name)
    ctx.label('another house between the runs', True)
    for lab in gen.shape_of(a):
        ctx.label(lab)
    ctx.nontrivial(True)


def repeats():
    return st.fixed_dictionaries({'first': gen.house(rooms=(1, 3), max_b=3, air=True, runup=True), 'second': gen.house(rooms=(1, 3), max_b=2)})


def run_separate(case, ctx):
    """adding a room that shares nothing with the others (and no leakage) changes nothing for them"""
    c, e = case['house'], case['extra']
    n, m = len(c['rooms']), len(e['rooms'])
    both = copy.deepcopy(c)
    first = case['in_front']
    k0, k1 = (m, 0) if first else (0, n)                  # number of the first old / first added room
    R, F, B, O = [None] * (n + m), [None] * (n + m), [], []
    for i in range(n):
        R[k0 + i], F[k0 + i] = dict(c['rooms'][i], next=_wide(c['rooms'][i]['next'], n + m, k0)), c['f']['rooms'][i]
    for i in range(m):
        R[k1 + i], F[k1 + i] = dict(e['rooms'][i], next=_wide(e['rooms'][i]['next'], n + m, k1)), e['f']['rooms'][i]
    own = [dict(b, room=b['room'] + k0) for b in c['bounds']]
    add = [dict(b, room=b['room'] + k1) for b in e['bounds']]
    s0, s1 = (len(add), 0) if first else (0, len(own))
    own = [dict(b, rear=b['rear'] + s0) if 'rear' in b else b for b in own]
    add = [dict(b, rear=b['rear'] + s1) if 'rear' in b else b for b in add]
    B = add + own if first else own + add
    O = e['f']['off'] + c['f']['off'] if first else c['f']['off'] + e['f']['off']
    both.update(rooms=R, bounds=B)
    both['f'].update(rooms=F, off=O)
    a, b = sim.Run(c), sim.Run(both)
    same(a, b, [k0 + i for i in range(n)], [s0 + j for j in range(len(own))], 'with a separate room added')
    for lab in gen.shape_of(both):
        ctx.label(lab)
    ctx.label('added in front', first)
    ctx.nontrivial(True)


def _wide(nx, n, at):
    out = [0.0] * n
    out[at:at + len(nx)] = nx
    return out


@st.composite
def separate(draw):
    c = draw(gen.house(rooms=(1, 2), max_b=3, air=True))
    c['c'] = 0.0
    e = draw(gen.house(rooms=(1, 2), max_b=2, air=True))
    return {'house': c, 'extra': e, 'in_front': draw(st.booleans())}


def renumber(d, pr, pb):
    """a house description with its rooms and boundaries listed in another order; pr[i]: new number of
    room i, pb: the old numbers of the boundaries in their new order"""
    e = copy.deepcopy(d)
    new = {old: k for k, old in enumerate(pb)}
    rooms = [None] * len(pr)
    for i, r in enumerate(e['rooms']):
        rooms[pr[i]] = r
        r['id'] = pr[i]
        for v in r['next_vent']:
            v['upstream_room_id'] = pr[v['upstream_room_id']]
    e['rooms'] = rooms
    e['boundaries'] = [e['boundaries'][old] for old in pb]
    for k, b in enumerate(e['boundaries']):
        b['id'] = k
        b['connected_room_id'] = pr[b['connected_room_id']]
        if 'rear_surface_boundary_id' in b:
            b['rear_surface_boundary_id'] = new[b['rear_surface_boundary_id']]
    return e


def numbered(d):
    """boundary: its room and its number within the room, in listing order"""
    count, out = {}, {}
    for j, b in enumerate(d['boundaries']):
        i = b['connected_room_id']
        out[j] = (i, count.get(i, 0))
        count[i] = out[j][1] + 1
    return out


def whole(d, w):
    """prepare the house and run it for a day"""
    with scratch() as out:
        p = hgen.Prepared(d, w, keep=out)
        hgen.write_weather(out, w)
        return p, sim.calc(out, n_d_main=1, n_d_run_up=2, n_d_run_up_build=1)[1]


def run_prepared(case, ctx):
    d, pr, pb = case['d'], case['rooms'], case['bounds']
    new = {old: k for k, old in enumerate(pb)}
    pa, ta = whole(d, case['w'])
    pz, tz = whole(renumber(d, pr, pb), case['w'])
    for k in hgen.FILES:
        to = [new[j] for j in range(len(pb))] if k == 'tos' else list(pr)
        close(getattr(pz, k)[to], getattr(pa, k), 'renumbered: the prepared %s' % hgen.FILES[k], rtol=1e-9, atol=1e-9)
    e = renumber(d, pr, pb)
    local, back = numbered(d), {jl: j for j, jl in numbered(e).items()}
    local = {jl: new[j] for j, jl in local.items()}
    back = {j: jl for jl, j in back.items()}              # new number of a boundary: its room and number there
    seen = set()
    # air hotter or colder than any moist air (a store room that is all window) has no vapour pressure: rows before that count
    far = np.any([np.abs(np.nan_to_num(np.asarray(ta[c], dtype=float), nan=1e9) - 30.0) > 120.0 for c in ta.columns if re.fullmatch(r'rm\d+_t_r', c)], axis=0)
    rows = int(np.argmax(far)) if far.any() else len(ta)
    ctx.label('air out of range', bool(far.any()))
    for col in ta.columns:
        m = re.fullmatch(r'rm(\d+)_(?:b(\d+)_)?(.+)', col)
        if not m:
            continue
        i, what = int(m.group(1)), m.group(3)
        if m.group(2) is None:
            other = 'rm%d_%s' % (pr[i], what)
        else:
            other = 'rm%d_b%d_%s' % (back[local[i, int(m.group(2))]] + (what,))
        check(other in tz.columns, 'the renumbered house reports no %s', other)
        seen.add(other)
        x, y = np.asarray(ta[col])[:rows], np.asarray(tz[other])[:rows]
        if x.dtype.kind not in 'fi':
            check(list(x) == list(y), 'renumbered: column %s (%s)', other, col)
            continue
        s = max(1e3 if what in ('l_s_c', 'l_s_r', 'l_l_c') else 1.0, float(np.max(np.abs(x), initial=0.0)))
        close(y, x, 'renumbered house description: column %s (%s)' % (other, col), rtol=1e-7, atol=1e-7 * s)
    ctx.label('three rooms', len(pr) == 3)
    ctx.label('internal wall', any('rear_surface_boundary_id' in b for b in d['boundaries']))
    ctx.label('rooms renumbered', pr != sorted(pr))
    ctx.nontrivial(pr != sorted(pr) and len(seen) > 20 and rows > 24)


@st.composite
def prepared(draw):
    d = draw(hgen.desc(rooms=(2, 3), vents=False, extra=(0, 4)))
    n = len(d['rooms'])
    orders_ = [list(p) for p in itertools.permutations(range(n)) if list(p) != list(range(n))]
    return {'d': d, 'w': draw(hgen.weather(1, 4)), 'rooms': draw(st.sampled_from(orders_)),
            'bounds': list(draw(st.permutations(range(len(d['boundaries'])))))}


CHECKS = [
    Check('order', orders, run_order, 104, 1600, 'the order of rooms or boundaries really changes'),
    Check('repeat', repeats, run_repeat, 48, 600, 'all: two runs of a generated house, another house between them'),
    Check('separate', separate, run_separate, 64, 1000, 'all: a generated separate room is added'),
    Check('prepared', prepared, run_prepared, 32, 500, 'the rooms are really renumbered, house descriptions prepared and run for a day'),
]
