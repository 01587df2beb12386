import copy

import numpy as np
from hypothesis import strategies as st

import gen
import sim
from gen import const
from harness import Check, check, close, fail
from props.c04 import factors

TECHNIQUE = 'property-based testing: generated houses under constant forcing against an independent steady-state network; superposition of generated time-varying forcings as a metamorphic relation'
NOTE = 'sampled houses of 1-3 rooms; settled state after 20 days within what the remaining daily drift can still add up to; superposition exact to 1e-7 at every step'
ASSUMPTIONS = ['a whole number of steps per hour', 'airflows constant for superposition (no leakage, windows or conditioning)', 'ground floors settle over decades and are covered by superposition only']


def resistance(b):
    return 1.0 / b['u'] - b['ri'] if b['k'] in ('op', 'win') else sum(x[0] for x in b['layers']) + b['ro']


def network(case, r, v, heat=None):
    """steady air, surface and equivalent temperatures; heat: additional heat to each room's air, W"""
    ni, nj = r.ni, r.nj
    A, hc, hr, js = r.A, r.B['hic_s'][:, -1], r.B['hir_s'][:, -1], r.room_of
    tos, to = r.force('tos')[:, -1], float(r.force('to')[-1])
    sol = 0.5 * r.force('sol')[:, -1]
    ab = np.array([1.0 if b['abs'] else 0.0 for b in case['bounds']])
    star = r.P * (hr * A) / np.dot(r.P, hr * A)[:, None]       # room -> weights of its surfaces
    N = ni + 3 * nj                                            # air, surface, flux, equivalent
    M, y = np.zeros((N, N)), np.zeros(N)
    T, S, Q, E = 0, ni, ni + nj, ni + 2 * nj
    for i in range(ni):
        M[i, T + i] = sim.RHO_C * v[i]
        y[i] = sim.RHO_C * v[i] * to + r.R['q_s_except_hum'][i, -1] + r.R['q_hum_s'][i, -1] + sol[i] + (0.0 if heat is None else heat[i])
        for j in range(nj):
            if js[j] == i:
                M[i, T + i] += hc[j] * A[j]
                M[i, S + j] -= hc[j] * A[j]
    for j, b in enumerate(case['bounds']):
        i, k = js[j], ni + j
        qs = sol[i] * ab[j] / float(np.dot(r.P[i], ab * A))
        # flux
        M[k, Q + j], M[k, T + i], M[k, S + j], y[k] = 1.0, -hc[j], hc[j] + hr[j], qs
        M[k, S:S + nj] -= hr[j] * star[i]
        # conduction
        k += nj
        R = resistance(b)
        M[k, S + j], M[k, Q + j] = 1.0, -R
        if b['k'] == 'int':
            M[k, E + b['rear']] -= 1.0
        else:
            htd = b.get('htd', 1.0)
            M[k, E + j] -= 1.0 - htd
            y[k] = htd * tos[j]
        # equivalent temperature
        k += nj
        M[k, E + j], M[k, S + j], M[k, Q + j] = 1.0, -1.0, -1.0 / (hc[j] + hr[j])
    s = np.linalg.solve(M, y)
    return s[:ni], s[S:S + nj], s[Q:Q + nj]


def unsettled(case, r, v, th):
    """how far the network can be from the reported state, per degree of daily drift: all capacity of the house is taken
    into the rooms (days in which the slowest change fades), and what people give off still follows the temperature"""
    cap = sim.RHO_C * r.V + np.array([k['fc'] for k in case['rooms']])
    for j, b in enumerate(case['bounds']):
        cap[r.room_of[j]] += 1000.0 * r.A[j] * sum(x[1] for x in b.get('layers', []))
    rise = np.array([network(case, r, v, heat=np.eye(r.ni)[k])[0] - th for k in range(r.ni)])
    days = float(np.max(np.dot(cap, np.abs(rise)))) / 86400.0
    people = float(np.max(np.dot(4.0 * r.force('hum')[:, -1], np.abs(rise))))
    return max(20.0, (2.0 + 1.5 * days) * (1.0 + people))


def run_steady(case, ctx):
    r = sim.Run(case)
    v = sim.outdoor_air(r)[:, -1]
    th, ts, q = network(case, r, v)
    R, B = r.R, r.B
    drift = max(float(np.max(np.abs(a[:, -1] - a[:, 1 - sim.per_day(case)]))) for a in (R['t_r'], B['t_s'], R['t_fun']))
    spread = float(np.max(np.abs(th - 15.0)))
    for lab in gen.shape_of(case):
        ctx.label(lab)
    tol = unsettled(case, r, v, th) * drift + 1e-4
    ctx.label('not settled', tol > 0.05 + 0.02 * spread)
    if tol > 0.05 + 0.02 * spread:
        return
    close(R['t_r'][:, -1], th, 'settled air temperature', rtol=0, atol=tol)
    close(B['t_s'][:, -1], ts, 'settled surface temperature', rtol=0, atol=tol)
    close(B['qiall_s'][:, -1], q, 'settled heat into surfaces', rtol=0, atol=tol * 12.0)
    g = np.array([k['fg'] for k in case['rooms']])
    close(R['t_fun'][:, -1], th + 0.5 * r.force('sol')[:, -1] / g, 'settled furniture temperature', rtol=1e-4, atol=tol)
    # energy over the whole house: gains leave through the envelope and with the air
    A = r.A
    outer = np.array([b['k'] != 'int' for b in case['bounds']])
    gains = float(np.sum(R['q_s_except_hum'][:, -1] + R['q_hum_s'][:, -1] + r.force('sol')[:, -1]))
    out = float(np.sum((B['qiall_s'][:, -1] * A)[outer])) + float(np.sum(sim.RHO_C * v * (R['t_r'][:, -1] - r.force('to')[-1])))
    close(out, gains, 'heat leaving the settled house against its gains', rtol=1e-6, atol=tol * 12.0 * float(A.sum()))
    gen_ = R['q_l_except_hum'][:, -1] + R['q_hum_l'][:, -1]
    ok = v > 1e-9
    if np.any(ok):
        x = R['x_r'][:, -1]
        xd = np.abs(x - R['x_r'][:, 1 - sim.per_day(case)])
        tau = (sim.RHO * r.V + np.array([k['mc'] for k in case['rooms']])) / (sim.RHO * np.maximum(v, 1e-12)) + \
            np.array([k['mc'] / k['mg'] for k in case['rooms']])
        ok &= xd * (tau / 86400.0 + 1.0) < 5e-5
        want = r.force('xo')[-1] + gen_ / (sim.RHO * np.maximum(v, 1e-12))
        close(np.where(ok, x, 0), np.where(ok, want, 0), 'settled humidity', rtol=1e-6, atol=2e-6 + float(np.max(np.where(ok, 2 * xd * (tau / 86400.0 + 1.0), 0))))
        ctx.label('humidity settled', np.any(ok))
    free = gains == 0 and np.ptp(r.force('tos')[outer, -1]) == 0 and np.all(r.force('tos')[outer, -1] == r.force('to')[-1])
    ctx.label('no gains: ends at outdoor temperature', free)
    if free:
        close(R['t_r'][:, -1], r.force('to')[-1], 'settled temperature of a house without gains', rtol=0, atol=tol)
    ctx.nontrivial(spread > 2.0)


@st.composite
def constant(draw):
    twin = draw(st.integers(0, 3)) == 0
    if not twin:
        c = draw(gen.house(rooms=(1, 3), internal=False, ground=False, demand=False, max_b=4))
    else:                                        # copies of one room geometry sharing walls
        c = draw(gen.house(rooms=(1, 1), ground=False, demand=False, max_b=3))
        n = draw(st.integers(2, 3))
        base = c['rooms'][0]
        c['rooms'] = [dict(copy.deepcopy(base), next=[0.0] * n) for _ in range(n)]
        outer = c['bounds']
        off = c['f']['off']
        S = sum(b['A'] for b in outer)
        share = draw(st.sampled_from([0.2, 0.5, 1.0]))
        ls = draw(gen.wall_layers('int', 0.11))
        hc, ab = draw(st.sampled_from([2.5, 0.7])), draw(st.booleans())
        c['bounds'], c['f']['off'] = [], []
        for i in range(n):
            c['bounds'] += [dict(copy.deepcopy(b), room=i) for b in outer]
            c['f']['off'] += copy.deepcopy(off)
        # a ring of walls: every room has one face in original order and one reversed, so radiation is alike
        for i in range(n):
            k = (i + 1) % n
            a, b = len(c['bounds']), len(c['bounds']) + 1
            w = {'k': 'int', 'A': round(S * share, 2), 'hc': hc, 'abs': ab, 'w': 0.5, 'fl': 1.0, 'ro': 0.11}
            c['bounds'] += [dict(w, room=i, layers=ls, rear=b), dict(w, room=k, layers=[list(x) for x in reversed(ls)], rear=a)]
            c['f']['off'] += [const(0.0), const(0.0)]
        c['f']['rooms'] = [copy.deepcopy(c['f']['rooms'][0]) for _ in range(n)]
        for i in range(n):
            c['f']['rooms'][i]['q'] = const(draw(st.sampled_from([0.0, 100.0, 600.0])))
            c['f']['rooms'][i]['sol'] = const(draw(st.sampled_from([0.0, 200.0])))
    for b in c['bounds']:
        if 'layers' in b:
            b['layers'] = gen.tame(b['layers'], b['ro'], both=b['k'] == 'int', limit=4e4)
    for b in c['bounds']:                        # the two faces of a wall stay each other's mirror image
        if b['k'] == 'int':
            c['bounds'][b['rear']]['layers'] = [list(x) for x in reversed(b['layers'])]
    for k in c['rooms']:
        k.update(fc=12600.0 * k['V'], fg=0.00022 * 12600.0 * k['V'], mc=16.8 * k['V'], mg=0.0018 * 16.8 * k['V'])
    f = c['f']
    still = draw(st.integers(0, 4)) == 0
    f['To'], f['rh'] = const(f['To']['v'][0]), const(f['rh']['v'][0])
    f['off'] = [const(0.0 if still else o['v'][0]) for o in f['off']]
    for k in f['rooms']:
        for s in k:
            k[s] = const(k[s]['v'][0])
        if still:
            k.update(q=const(0.0), hum=const(0.0), sol=const(0.0))
    c.update(days=1, ru=20, rub=20)
    return c


@st.composite
def pairs(draw):
    c = draw(gen.house(rooms=(1, 3), air=True, people=False, demand=False, max_b=4, runup=True))
    c['c'] = 0.0
    other = copy.deepcopy(c['f'])
    other['To'] = draw(gen.to_channel('any'))
    other['rh'] = draw(gen.channel(gen.num(10.0, 95.0, 1.0)))
    for i, k in enumerate(other['rooms']):
        fl = c['rooms'][i]['V'] / 2.4
        k['q'] = draw(gen.channel(gen.num(0.0, 30.0 * fl, 1.0)))
        k['sol'] = draw(gen.channel(gen.num(0.0, 60.0 * fl, 1.0)))
        k['x'] = draw(gen.channel(st.sampled_from([0.0, 1e-5, 1e-4])))
    other['off'] = [draw(gen.channel(gen.num(-6.0, 40.0, 0.1))) if b['k'] not in ('int', 'gnd') else o for b, o in zip(c['bounds'], other['off'])]
    return {'house': c, 'other': other, 'lam': draw(st.sampled_from([0.5, 0.25, 0.8]))}


def run_pairs(case, ctx):
    c, lam = case['house'], case['lam']
    c2 = dict(copy.deepcopy(c), f=copy.deepcopy(case['other']))
    fa, fb = sim.Forcing(c), sim.Forcing(c2)
    fm = sim.Forcing(c)
    for k in ('to', 'xo', 'q', 'x', 'sol', 'tos'):
        setattr(fm, k, lam * getattr(fa, k) + (1.0 - lam) * getattr(fb, k))
    a, b, m = sim.Run(c, fc=fa), sim.Run(c2, fc=fb), sim.Run(c, fc=fm)
    for tab, cols in (('R', ('t_r', 't_fun', 'mrt', 'ot', 'x_r', 'x_fun', 'q_s_fun')), ('B', ('t_s', 't_e', 't_b', 'qiall_s', 'qic_s', 'qir_s', 'qisol_s'))):
        for k in cols:
            x, y, z = (getattr(s, tab)[k] for s in (a, b, m))
            size = 1.0 + float(np.max(np.abs(x))) + float(np.max(np.abs(y)))
            if k in ('x_r', 'x_fun'):
                size -= 1.0
            close(z, lam * x + (1.0 - lam) * y, 'superposition of two forcings, column %s' % k, rtol=0, atol=1e-7 * size)
    for lab in gen.shape_of(c):
        ctx.label(lab)
    ctx.nontrivial(float(np.max(np.abs(a.R['t_r'] - b.R['t_r']))) > 1.0)


CHECKS = [
    Check('steady', constant, run_steady, 120, 2000, 'settled, and more than 2 K from the initial state'),
    Check('superposition', pairs, run_pairs, 72, 1200, 'the two runs differ by more than 1 K'),
]
