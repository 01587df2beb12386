import numpy as np
from hypothesis import strategies as st

from harness import Check, check, close, finite, is_close, quiet, rejects

TECHNIQUE = 'property-based testing: generated glazings, gases and boundary conditions; resistances against an independently written JIS R 3107 / JIS A 2103, heat balances of every surface, superposition of transmission and absorbed sunlight, and monotonicity relations'
NOTE = 'one to five panes of one to three sheets, gas mixtures, gaps of 3-50 mm, three tilts, -30..45 C outside, 5..35 C inside, 0-400 W/m2 absorbed per pane, both film methods and seasons, fixed and computed gap temperatures'
ASSUMPTIONS = ['the root solver of scipy is exact to 1e-3 W/m2 on these systems', 'normal emissivities from 0.03 to below 0.89, the range of the table']

SIGMA, ZERO = 5.67e-8, 273.15
GAS = {'AIR': ((1.326, 1.277, 1.232, 1.189), (1.661, 1.711, 1.761, 1.811), (2.336, 2.416, 2.496, 2.576), 1008.0),
       'ARGON': ((1.829, 1.762, 1.699, 1.640), (2.038, 2.101, 2.164, 2.228), (1.584, 1.634, 1.684, 1.734), 519.0),
       'SF6': ((6.844, 6.602, 6.360, 6.118), (1.383, 1.421, 1.459, 1.497), (1.119, 1.197, 1.275, 1.354), 614.0),
       'KRYPTON': ((3.832, 3.690, 3.560, 3.430), (2.260, 2.330, 2.400, 2.470), (0.842, 0.870, 0.900, 0.926), 245.0)}
NAMES = ('AIR', 'ARGON', 'SF6', 'KRYPTON')
NODES = (-10.0, 0.0, 10.0, 20.0)
TILT = {'VERTICAL': (0.035, 0.38), 'HORIZONTAL': (0.16, 0.28), 'SLOPE': (0.10, 0.31)}
EMI = ((0.03, 1.22), (0.05, 1.18), (0.1, 1.14), (0.2, 1.1), (0.3, 1.06), (0.4, 1.03), (0.5, 1.0), (0.6, 0.98), (0.7, 0.96), (0.8, 0.95), (0.89, 0.94))


def g():
    from notebook.initializer.shgc_window import glass_thermal_balance as m
    return m


def prop(name, k, t):
    """Density, viscosity or conductivity of a gas: table at four temperatures, straight lines, carried on beyond the ends."""
    v = GAS[name][k]
    i = 0 if t < 0 else 1 if t < 10 else 2
    f = (t - NODES[i]) / 10.0
    return (v[i] * (1 - f) + v[i + 1] * f) * (1.0, 1e-5, 1e-2)[k]


def mixed(shares, k, t):
    return sum(s / 100.0 * (GAS[n][3] if k == 3 else prop(n, k, t)) for s, n in zip(shares, NAMES))


def eps(e):
    if e is None:
        return 0.837
    return e * float(np.interp(e, [x for x, _ in EMI], [y for _, y in EMI]))


def gap(a, t_m, dt, e1, e2):
    """Conductance of a gap with mean temperature t_m (K) and temperature difference dt."""
    shares, tilt, s = a
    c = t_m - ZERO
    rho, mu, lam, cp = (mixed(shares, k, c) for k in range(4))
    gr = 9.81 * s ** 3 * dt * rho ** 2 / (t_m * mu ** 2)
    nu = TILT[tilt][0] * (gr * mu * cp / lam) ** TILT[tilt][1]
    return 4 * SIGMA * t_m ** 3 / (1 / e1 + 1 / e2 - 1) + max(1.0, nu) * lam / s


def radiative(e, t1, t2):
    t1, t2 = t1 + ZERO, t2 + ZERO
    return e * SIGMA * (t1 ** 2 + t2 ** 2) * (t1 + t2)


def resistances(case, th):
    ps, n = case['panes'], len(case['panes'])
    e = [(eps(p['front']), eps(p['back'])) for p in ps]
    r = np.zeros(2 * n + 1)
    fixed = case['gap temperatures'] == 'fixed'
    if fixed or case['films'] == 'JIS_R3107':
        r[0], r[-1] = 1 / (16.3 + 4.9 * e[0][0]), 1 / (4.1 + 5.4 * e[-1][1])
    else:
        ce, ci = {'summer': (8.0, 2.5), 'winter': (20.0, 3.6)}[case['season']]
        r[0], r[-1] = 1 / (ce + radiative(e[0][0], th[0], case['outside'])), 1 / (ci + radiative(e[-1][1], th[-1], case['inside']))
    for k, p in enumerate(ps):
        r[2 * k + 1] = sum(d / lam for d, lam in p['sheets'])
    for k, a in enumerate(case['gaps']):
        if fixed:
            t_m, dt = 283.0, 15.0
        else:
            t_m, dt = (th[2 * k + 1] + th[2 * k + 2]) / 2 + ZERO, abs(th[2 * k + 1] - th[2 * k + 2])
        r[2 * k + 2] = 1 / gap(a, t_m, dt, e[k][1], e[k + 1][0])
    return r


def surface(e):
    return g().NonLowESurface() if e is None else g().LowESurface(e)


def build(case):
    m = g()
    return m.Glass(gls=[m.GlassLayer(gus=[m.GlassUnit(d, lam) for d, lam in p['sheets']], sff=surface(p['front']), sfb=surface(p['back'])) for p in case['panes']],
                   als=[m.AirLayer(m.MixedAirProperty(*a[0]), m.GlassDirection[a[1]], a[2]) for a in case['gaps']])


def solve(case, sun=True):
    ia = np.array(case['absorbed'], dtype=float)
    kept = ia.copy()
    with quiet():
        r = build(case).get_temp_and_r(theta_e=case['outside'], theta_i=case['inside'], surface_method=case['films'], season=case['season'],
                                       decision_air_layer_temp=case['gap temperatures'], ia=ia if sun else None)
    check(bool(np.all(ia == kept)), 'the absorbed sunlight given was changed')
    return r


def run_balance(case, ctx):
    n = len(case['panes'])
    ia = np.array(case['absorbed'], dtype=float)
    th, r, q_in = solve(case)
    th, r = finite(th, 'surface temperatures'), finite(r, 'resistances')
    check(th.shape == (2 * n,) and r.shape == (2 * n + 1,), '%d panes: %s temperatures, %s resistances', n, th.shape, r.shape)
    close(r, resistances(case, th), 'resistances', rtol=1e-9, atol=0)
    # heat balance of every surface
    t = np.concatenate([[case['outside']], th, [case['inside']]])
    flow = -np.diff(t) / r                      # from outside to inside
    gain = np.repeat(ia, 2) / 2
    near = 1e-3 + 1e-6 * np.max(np.abs(flow))
    close(flow[1:] - flow[:-1], gain, 'heat balance of the surfaces', rtol=0, atol=near)
    close(flow[-1] - flow[0], np.sum(ia), 'heat balance of the glazing', rtol=0, atol=2 * n * near)
    # what enters is transmission and the inward part of what is absorbed
    u = 1 / np.sum(r)
    close(flow[-1], u * (case['outside'] - case['inside']) + q_in, 'heat entering the room', rtol=0, atol=2 * n * near)
    check(-1e-9 <= q_in <= np.sum(ia) + 1e-9, 'inward part %s of %s W/m2 absorbed', q_in, np.sum(ia))
    lo, hi = min(case['outside'], case['inside']), max(case['outside'], case['inside'])
    check(bool(np.all(th >= lo - 0.01)), 'a surface is colder than both sides: %s', th)
    if np.sum(ia) == 0:
        check(bool(np.all(th <= hi + 0.01)), 'a surface is warmer than both sides: %s', th)
        close(q_in, 0.0, 'inward part without sunlight', atol=1e-12)
        th2, r2, q2 = solve(case, sun=False)
        check(bool(np.all(th2 == th) and np.all(r2 == r)) and q2 == q_in, 'no sunlight given is not the same as sunlight of zero')
    ctx.label('%d panes' % min(n, 4))
    ctx.label('sunlit', bool(np.sum(ia) > 0))
    ctx.label('films of JIS A 2103', case['films'] != 'JIS_R3107')
    ctx.label('laminated', any(len(p['sheets']) > 1 for p in case['panes']))
    ctx.label('different faces', any(p['front'] != p['back'] for p in case['panes']))
    ctx.nontrivial(n > 1 and bool(np.sum(ia) > 0))


def u_of(case):
    with quiet():
        x = build(case)
        a, b, r = x.get_heat_transmittance(), x.u, x.r
    check(a == b, 'two thermal transmittances: %s and %s', a, b)
    return float(a), np.asarray(r, dtype=float)


def run_u(case, ctx):
    """The thermal transmittance of the standard's fixed conditions."""
    c = dict(case, **{'gap temperatures': 'fixed', 'films': 'JIS_R3107'})
    ps, gs, n = c['panes'], c['gaps'], len(c['panes'])
    u, r = u_of(c)
    w = resistances(c, None)
    close(r, w, 'resistances under the fixed conditions', rtol=1e-9, atol=0)
    close(u, 1 / np.sum(w), 'thermal transmittance', rtol=1e-9)
    # a pane more insulates more
    more = dict(c, panes=ps + [ps[-1]], gaps=gs + [case['new gap']])
    check(u_of(more)[0] < u, 'U does not fall with a further pane')
    k = case['pick'] % n
    thick = [dict(p, sheets=p['sheets'] + [[0.003, 1.0]]) if i == k else p for i, p in enumerate(ps)]
    close(1 / u_of(dict(c, panes=thick))[0], 1 / u + 0.003, 'resistance after adding a 3 mm sheet', rtol=1e-9)
    # a low-emissivity film insulates more
    for face in ('front', 'back'):
        if ps[k][face] is None:
            film = [dict(p, **{face: case['film']}) if i == k else p for i, p in enumerate(ps)]
            check(u_of(dict(c, panes=film))[0] < u, 'U does not fall with a film on the %s of pane %d', face, k)
    ctx.label('%d panes' % min(n, 4))
    ctx.nontrivial(n > 1)


def run_gas(case, ctx):
    m = g()
    shares, ts = case['shares'], case['t']
    x = m.MixedAirProperty(*shares)
    for t in ts:
        got = (x.get_rho(t), x.get_mu(t), x.get_lambda(t), x.get_c(t))
        close(got, [mixed(shares, k, t) for k in range(4)], 'properties of the gas at %s' % t, rtol=1e-9, atol=0)
        for name in NAMES:
            a = m.AirType[name]
            close([m.get_rho(t, a), m.get_mu(t, a), m.get_lambda(t, a), m.get_c_air(a)], [prop(name, k, t) for k in range(3)] + [GAS[name][3]],
                  '%s at %s' % (name, t), rtol=1e-9, atol=0)
    ctx.label('mixture', sum(s > 0 for s in shares) > 1)
    ctx.label('frost', min(ts) < 0)
    ctx.nontrivial(sum(s > 0 for s in shares) > 1 and min(ts) < 0)


def run_reject(case, ctx):
    m = g()
    k, v = case['kind'], case['v']
    if k == 'shares':
        s = [25.0, 25.0, 25.0, 25.0]
        s[int(v * 1000) % 4] += 0.01 + 40 * v if v < 0.5 else -(0.01 + 20 * v)
        rejects(lambda: m.MixedAirProperty(*s), 'a gas mixture of %s percent' % sum(s))
    elif k == 'low':
        rejects(lambda: m.LowESurface(0.0299 * v).eps, 'an emissivity below the table')
    elif k == 'high':
        rejects(lambda: m.LowESurface(0.891 + v).eps, 'an emissivity beyond the table')
    elif k == 'count':
        n, d = case['n'], case['d']
        pane = m.GlassLayer(gus=[m.GlassUnit(0.003)])
        air = m.AirLayer(m.MixedAirProperty(100.0, 0.0, 0.0, 0.0), m.GlassDirection.VERTICAL, 0.012)
        if n - 1 + d >= 0:
            rejects(lambda: m.Glass(gls=[pane] * n, als=[air] * (n - 1 + d)), '%d panes with %d gaps' % (n, n - 1 + d))
    elif k == 'season':
        c = dict(case['case'], films='JIS_A2103', season='autumn', **{'gap temperatures': 'calc'})
        rejects(lambda: solve(c), 'an unknown season')
    elif k == 'emissivity':
        e = 0.03 + 0.8599 * v
        close(m.LowESurface(e).eps, eps(e), 'corrected emissivity of %s' % e, rtol=1e-9)
        close(m.LowESurface(e).epsilon_n, e, 'normal emissivity', rtol=1e-12)
        close(m.NonLowESurface().eps, 0.837, 'corrected emissivity of plain glass', rtol=1e-12)
    ctx.label(k)
    ctx.nontrivial(k != 'emissivity')


def share_lists():
    """Whole tenths of a percent that add up to 100 (however the sum rounds)."""
    def cut(x):
        a, b, c = sorted(x)
        return [a / 10, (b - a) / 10, (c - b) / 10, (1000 - c) / 10]
    return st.one_of(st.sampled_from([[100.0, 0.0, 0.0, 0.0], [10.0, 90.0, 0.0, 0.0], [0.0, 0.0, 100.0, 0.0], [5.0, 0.0, 0.0, 95.0]]),
                     st.tuples(*[st.integers(0, 1000)] * 3).map(cut))


def face():
    return st.one_of(st.none(), st.floats(0.03, 0.889), st.sampled_from([e for e, _ in EMI[:-1]]))


def pane():
    sheet = st.tuples(st.floats(0.001, 0.02), st.one_of(st.just(1.0), st.floats(0.15, 1.5))).map(list)
    return st.fixed_dictionaries({'sheets': st.lists(sheet, min_size=1, max_size=3), 'front': face(), 'back': face()})


def space():
    return st.tuples(share_lists(), st.sampled_from(sorted(TILT)), st.one_of(st.floats(0.003, 0.05), st.sampled_from([0.006, 0.012, 0.016]))).map(list)


@st.composite
def glazings(draw):
    n = draw(st.integers(1, 5))
    sun = draw(st.sampled_from([True, True, False]))
    return {'panes': draw(st.lists(pane(), min_size=n, max_size=n)), 'gaps': draw(st.lists(space(), min_size=n - 1, max_size=n - 1)),
            'absorbed': draw(st.lists(st.one_of(st.floats(0, 400), st.just(0.0)) if sun else st.just(0.0), min_size=n, max_size=n)),
            'outside': draw(st.one_of(st.floats(-30, 45), st.sampled_from([0.0, 20.0, 30.0]))), 'inside': draw(st.one_of(st.floats(5, 35), st.sampled_from([20.0, 25.0]))),
            'films': draw(st.sampled_from(['JIS_R3107', 'JIS_A2103', 'JIS_A2103'])), 'season': draw(st.sampled_from(['summer', 'winter'])),
            'gap temperatures': 'calc'}


@st.composite
def balances(draw):
    c = draw(glazings())
    if draw(st.integers(0, 4)) == 0:
        c['gap temperatures'], c['films'] = 'fixed', 'JIS_R3107'
    return c


@st.composite
def transmittances(draw):
    c = draw(glazings())
    c.update({'new gap': draw(space()), 'pick': draw(st.integers(0, 9)), 'film': draw(st.floats(0.03, 0.6))})
    return c


def gases():
    t = st.one_of(st.floats(-40, 70), st.floats(-11, 1), st.sampled_from([-10.0, 0.0, 10.0, 20.0]))
    return st.fixed_dictionaries({'shares': share_lists(), 't': st.lists(t, min_size=1, max_size=6)})


def refusals():
    return st.fixed_dictionaries({'kind': st.sampled_from(['shares', 'low', 'high', 'count', 'season', 'emissivity', 'emissivity']), 'v': st.floats(0, 1),
                                  'n': st.integers(1, 4), 'd': st.sampled_from([-1, 1, 2]), 'case': glazings()})


CHECKS = [
    Check('balance', balances, run_balance, 3000, 60000, 'several panes in the sun'),
    Check('u', transmittances, run_u, 1500, 30000, 'several panes'),
    Check('gas', gases, run_gas, 2000, 20000, 'a mixture below freezing'),
    Check('reject', refusals, run_reject, 1500, 15000, 'a refused description'),
]
