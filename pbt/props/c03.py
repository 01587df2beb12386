import numpy as np

import gen
import sim
from harness import Check, close

TECHNIQUE = 'property-based testing: generated rooms and driving histories, per-surface energy-balance invariants and a reference view-factor solution'
NOTE = 'sampled houses (1-3 rooms, up to 7 boundaries per room) over one day; identities to 1e-7, radiative coefficients to 1e-4'
ASSUMPTIONS = ['a whole number of steps per hour', 'results are read from the returned detailed table']


def view_factors(areas):
    """f_j of flat surfaces seeing an enclosure: f_j(1-f_j) F = A_j, sum f_j = 1 (one branch when one surface dominates)"""
    a = np.asarray(areas, dtype=float)
    a = a / a.sum()

    def f(F):
        v = 1.0 - 4.0 * a / F
        return 0.5 * (1.0 - np.sign(v) * np.sqrt(np.abs(v)))

    lo, hi = 1e-3, 1e6
    while hi / lo > 1.0 + 1e-14:
        m = np.sqrt(lo * hi)
        if f(m).sum() > 1.0:
            lo = m
        else:
            hi = m
    return f(np.sqrt(lo * hi))


def h_r_ref(case):
    out = np.zeros(len(case['bounds']))
    for i in range(len(case['rooms'])):
        js = [j for j, b in enumerate(case['bounds']) if b['room'] == i]
        f = view_factors([case['bounds'][j]['A'] for j in js])
        out[js] = 0.9 / (1.0 - 0.9 * f) * 4.0 * sim.SIGMA * 293.15 ** 3
    return out


def run(case, ctx):
    r = sim.Run(case)
    R, B, A, js = r.R, r.B, sim.col(r.A), r.room_of
    bounds = case['bounds']
    hc = sim.col([b['hc'] for b in bounds])
    close(B['hic_s'], hc + 0 * B['hic_s'], 'convective coefficient')
    hr = B['hir_s'][:, :1]
    close(B['hir_s'], hr + 0 * B['hir_s'], 'radiative coefficient in time')
    close(hr, sim.col(h_r_ref(case)), 'radiative coefficient against the view factors of the room', rtol=1e-4)
    ts, th = B['t_s'], R['t_r'][js]
    tol = dict(rtol=1e-7, atol=1e-5)
    close(B['qic_s'], hc * A * (th - ts), 'convective heat flow', **tol)

    # long-wave exchange
    s = np.dot(r.P, B['qir_s'])
    size = np.dot(r.P, hr * A * (1.0 + np.abs(ts)))
    sim.one_of(size, s, None, ctx, '', 'long-wave exchange of a room does not sum to zero', rtol=1e-9)
    star = np.dot(r.P, hr * A * ts) / np.dot(r.P, hr * A)
    close(B['qir_s'], hr * A * (star[js] - ts), 'long-wave heat flow', rtol=1e-6, atol=1e-4)

    # sunlight
    ab = sim.col([1.0 if b['abs'] else 0.0 for b in bounds])
    sol = r.force('sol')
    close(R['q_sol_t'], sol, 'sunlight through the windows')
    close(R['q_s_sol_fun'], 0.5 * sol, 'sunlight absorbed by the furniture')
    close(B['qisol_s'], 0.5 * sol[js] * ab * A / np.dot(r.P, ab * A)[js], 'sunlight absorbed by a surface', rtol=1e-7, atol=1e-7)
    close(np.dot(r.P, B['qisol_s']) + R['q_s_sol_fun'], sol, 'sunlight absorbed in the room', rtol=1e-7, atol=1e-7)

    # radiant conditioning
    beta = sim.col([k['beta'] for k in case['rooms']])
    flr = np.zeros((r.nj, 1))
    for i in range(r.ni):
        mine = [j for j in range(r.nj) if js[j] == i]
        tot = sum(bounds[j]['fl'] for j in mine)
        for j in mine:
            flr[j, 0] = bounds[j]['fl'] / tot
    rad = flr * ((1.0 - beta) * R['l_s_r'])[js]
    close(B['qiall_s'] * A, B['qic_s'] + B['qir_s'] + B['qisol_s'] + rad, 'heat entering the construction', **tol)
    close(B['qiall_s'], (hc + hr) * (B['t_e'] - ts), 'heat entering the construction from the equivalent temperature', rtol=1e-6, atol=1e-5)

    # what the occupant feels
    w = np.array([[b['w'] for b in bounds]]) * r.P
    w = w / w.sum(1, keepdims=True)
    close(R['mrt'], np.dot(w, ts), 'mean radiant temperature of the occupant', rtol=1e-9, atol=1e-7)
    kc = R['hc_hum'] / (R['hc_hum'] + R['hr_hum'])
    close(R['ot'], kc * R['t_r'] + (1 - kc) * R['mrt'], 'operative temperature', rtol=1e-9, atol=1e-7)
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.label('radiant on', np.any(R['l_s_r'] != 0))
    ctx.label('sunlight', np.any(sol > 0))
    many = [sum(js == i) for i in range(r.ni)]
    ctx.nontrivial(max(many) >= 2 and np.any(np.abs(B['qir_s']) > 0.1) and (np.any(sol > 0) or np.any(R['l_s_r'] != 0)))


CHECKS = [
    Check('surfaces', lambda: gen.house(max_b=7), run, 260, 4000,
          'a room with several surfaces exchanging more than 0.1 W by radiation, with sunlight or radiant conditioning'),
]
