import numpy as np

import gen
import pmvref
import sim
from harness import Check, check, close, fail
from props.c04 import factors

TECHNIQUE = 'property-based testing: generated houses and demand histories; targets and capacities checked per step, one-room houses against an independent implicit one-step solution'
NOTE = 'sampled one-room houses solved exactly per step, and houses of 1-3 rooms for target, capacity and idle rules; equality to 1e-6 K and 1e-6 of the load'
ASSUMPTIONS = ['a whole number of steps per hour', 'response coefficients are those property C04 checks', 'rooms without any equipment are conditioned as if by convection, as documented']


def rules(r, ctx, exact_cap):
    R, case = r.R, r.case
    dem = r.force('dem')
    cond = False
    for i, room in enumerate(case['rooms']):
        lc, lr, mode, ot = R['l_s_c'][i], R['l_s_r'][i], R['ac_operate'][i].astype(int), R['ot'][i]
        tiny = 1e-6
        stopped = (mode != 1) & (mode != 2)
        check(np.all(lc[stopped] == 0) and np.all(lr[stopped] == 0), 'room %d has a load while stopped', i)
        check(np.all(lc[dem[i] <= 0] == 0) and np.all(lr[dem[i] <= 0] == 0), 'room %d has a load without demand', i)
        may = ((mode == 2) & (room['heat'] == 'rad')) | ((mode == 1) & (room['cool'] == 'rad'))
        check(np.all(lr[~may] == 0), 'room %d has a radiant load without radiant equipment', i)
        cap = np.where(mode == 2, room.get('hcap', 0.0), room.get('ccap', 0.0))
        size = np.where(mode == 2, lr, -lr)
        if exact_cap:
            check(np.all(size[may] <= cap[may] * (1 + 1e-9) + tiny), 'room %d: radiant load %s above its capacity %s', i,
                  np.max(size[may], initial=0), np.max(cap[may], initial=0))
        # (with other rooms heating through shared walls a target just out of reach can need the opposite load)
        both = may & (np.where(mode == 2, lc, -lc) > 1e-5)
        close(size[both], cap[both], 'radiant load of room %d while convection assists' % i, rtol=1e-7, atol=1e-5)
        on = (lc != 0) | (lr != 0)
        w = r.window()
        p = pmvref.pv(r.prev(R['x_r'], sim.X0)[i])
        for m in (1, 2):
            k = on & (mode == m) & (dem[i] == 1.0)
            k[:w] = False
            if np.any(k):
                close(ot[k], pmvref.target_fast(p, m)[k], 'operative temperature of conditioned room %d in mode %d' % (i, m), rtol=0, atol=1e-5)
            k = ~on & (mode == m) & (dem[i] > 0)
            k[:w] = False
            t = pmvref.target_fast(p, m)
            if len(case['rooms']) == 1 and np.any(k):
                d = (t - ot)[k] if m == 2 else (ot - t)[k]
                check(np.all(d <= 1e-6), 'room %d idles in mode %d although it is %.4f K beyond its target', i, m, float(np.max(d)))
        cond = cond or np.any(on)
        ctx.label('radiant at capacity', np.any(both))
        ctx.label('radiant below capacity', np.any(may & on & ~both))
        ctx.label('partial demand', np.any(on & (dem[i] < 1.0)))
        ctx.label('heating', np.any(on & (mode == 2)))
        ctx.label('cooling', np.any(on & (mode == 1)))
    return cond


def run_any(case, ctx):
    r = sim.Run(case)
    cond = rules(r, ctx, exact_cap=True)
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.nontrivial(cond)


def run_one(case, ctx):
    """one room: the unconditioned solution of every step, and what conditioning adds to it, computed independently"""
    r = sim.Run(case)
    cond = rules(r, ctx, exact_cap=True)
    R, B, n = r.R, r.B, r.n
    room, bounds = case['rooms'][0], case['bounds']
    nj, dt = r.nj, r.dt
    spec = [factors(b['spec'], r.dt) for b in sim.house_dict(case)['boundaries']]
    p0, p1, t0, t1, rr = (np.array([s[k] for s in spec]) for k in range(5))
    htd = np.array([b.get('htd', 1.0) for b in bounds])
    kin = 1.0 - htd
    A, hc, hr = r.A, np.array([b['hc'] for b in bounds]), B['hir_s'][:, 0]
    hi = hc + hr
    mrt = hr * A / np.sum(hr * A)
    w = np.array([b['w'] for b in bounds])
    w = w / w.sum()
    flr = np.array([b['fl'] for b in bounds])
    flr = flr / flr.sum()
    ab = np.array([1.0 if b['abs'] else 0.0 for b in bounds])
    beta = room['beta']
    kc = pmvref.HC / (pmvref.HC + pmvref.HR)
    v_out = sim.outdoor_air(r)[0]
    to, tos, sol = r.force('to'), r.force('tos'), 0.5 * r.force('sol')[0]
    th0, frt0 = r.prev(R['t_r'], 15.0)[0], r.prev(R['t_fun'], 15.0)[0]
    ei0 = r.prev(B['t_e'], 15.0)
    x0 = r.prev(R['x_r'], sim.X0)[0]
    c, g, C = room['fc'], room['fg'], room['V'] * sim.RHO_C
    a, t = np.zeros_like(p1), np.zeros_like(t1)
    for k in range(n):
        a = p1 * (B['qiall_s'][:, k - 1] if k else np.zeros(nj))[:, None] + rr * a
        t = t1 * (kin * ei0[:, k] + htd * tos[:, k])[:, None] + rr * t
        cvl = a.sum(1) + t.sum(1)
        q_sol = sol[k] * ab / np.sum(ab * A)
        # unknowns: air temperature, surface temperatures; right-hand sides: no load, 1 W convective, 1 W radiant
        M = np.zeros((nj + 1, nj + 1))
        b = np.zeros((nj + 1, 3))
        M[0, 0] = C / dt + sim.RHO_C * v_out[k] + c * g / (c + dt * g) + np.sum(hc * A)
        M[0, 1:] = -hc * A
        b[0] = [C / dt * th0[k] + sim.RHO_C * v_out[k] * to[k] + R['q_s_except_hum'][0, k] + R['q_hum_s'][0, k]
                + g * (c * frt0[k] + dt * sol[k]) / (c + dt * g), 1.0, beta]
        for j in range(nj):
            # q = hc (th - ts) + hr (mrt.ts - ts) + q_sol + radiant ; ei = ts + q / hi ; ts = p0 q + t0 (kin ei + htd tos) + cvl
            f = p0[j] + t0[j] * kin[j] / hi[j]
            M[j + 1, j + 1] += 1.0 - t0[j] * kin[j] + f * hi[j]
            M[j + 1, 1:] -= f * hr[j] * mrt
            M[j + 1, 0] -= f * hc[j]
            b[j + 1] = [f * q_sol[j] + t0[j] * htd[j] * tos[j, k] + cvl[j], 0.0, f * flr[j] * (1.0 - beta) / A[j]]
        s = np.linalg.solve(M, b)
        o = kc * s[0] + (1 - kc) * (w @ s[1:])
        nat, oc, orad = o
        lc, lr, mode, d = R['l_s_c'][0, k], R['l_s_r'][0, k], int(R['ac_operate'][0, k]), case_dem(r, k)
        where = 'step %d mode %d demand %g' % (k, mode, d)
        close(R['ot'][0, k], nat + oc * lc + orad * lr, 'operative temperature for the reported loads', rtol=1e-8, atol=1e-5, ctx=where)
        want_c = want_r = 0.0
        if mode in (1, 2):
            tgt = float(pmvref.target_fast(pmvref.pv(x0[k]), mode))
            sgn = 1.0 if mode == 2 else -1.0
            gap = sgn * (tgt - nat)
            if gap > 0:
                gap *= d
                if (room['heat'] if mode == 2 else room['cool']) == 'rad':
                    want_r = sgn * min(gap / orad, room['hcap'] if mode == 2 else room['ccap'])
                want_c = (sgn * gap - orad * want_r) / oc
        close(lr, want_r, 'radiant load', rtol=1e-6, atol=1e-3, ctx=where)
        close(lc, want_c, 'convective load', rtol=1e-6, atol=1e-3, ctx=where)
        check(lc * (1 if mode == 2 else -1) >= -1e-4 and lr * (1 if mode == 2 else -1) >= -1e-4, 'load of the wrong sign: %g %g %s', lc, lr, where)
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.nontrivial(cond)


def case_dem(r, k):
    return float(r.fc.dem[0, k])


CHECKS = [
    Check('one_room', lambda: gen.house(rooms=(1, 1)), run_one, 240, 4000, 'conditioning runs'),
    Check('any_house', lambda: gen.house(rooms=(2, 3), days=(1, 2), max_b=3, runup=True), run_any, 140, 2000, 'conditioning runs'),
]
