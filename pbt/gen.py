"""Hypothesis strategies for simulation cases (see sim.py).  Every value is drawn here, by construction."""
from hypothesis import strategies as st


def num(lo, hi, step=0.01):
    """a decimal number lo..hi in multiples of step"""
    if step >= 1:
        return st.integers(round(lo / step), round(hi / step)).map(lambda v: float(v * step))
    k = round(1 / step)
    return st.integers(round(lo * k), round(hi * k)).map(lambda v: v / k)


def logn(lo, hi):
    """roughly log-uniform, 3 digits"""
    import math
    a, b = math.log10(lo), math.log10(hi)
    return st.integers(0, 1000).map(lambda k: float('%.3g' % (10 ** (a + (b - a) * k / 1000))))


def channel(values, lin=None, max_len=6, periods=(1, 2, 4, 7, 8, 16, 24, 32, 48)):
    d = {'p': st.sampled_from(periods), 'v': st.lists(values, min_size=1, max_size=max_len)}
    if lin is None:
        return st.fixed_dictionaries(d)
    d['lin'] = st.booleans() if lin == 'any' else st.just(lin)
    return st.fixed_dictionaries(d)


def const(v):
    return {'p': 96, 'v': [v]}


# thermal conductivity W/mK, volumetric heat kJ/m3K
MATERIALS = {'conc': (1.6, 2000.0), 'wood': (0.12, 520.0), 'ply': (0.16, 720.0), 'gyp': (0.22, 830.0), 'gw': (0.045, 13.0),
             'xps': (0.028, 25.0), 'mort': (1.5, 1600.0), 'alc': (0.17, 650.0), 'soil': (1.0, 3300.0), 'tat': (0.15, 290.0),
             'carp': (0.08, 320.0)}
TAU = 2.0e5      # s, longest wall time constant the eight fixed roots (slowest 5e5 s) represent well


@st.composite
def layer(draw, names=tuple(sorted(MATERIALS)) + ('air',)):
    """[resistance m2K/W, capacity kJ/m2K] of a layer of a building material"""
    k = draw(st.sampled_from(names))
    if k == 'air':
        return [draw(st.sampled_from([0.07, 0.09, 0.18])), 0.0]
    lam, rc = MATERIALS[k]
    t = draw(st.sampled_from([0.0095, 0.012, 0.025, 0.05, 0.075, 0.1, 0.15, 0.2, 0.3]))
    return [float('%.4g' % (t / lam)), float('%.4g' % (rc * t))]


def tau(ls, ro):
    """sum over layers of capacity times resistance to the far side, s"""
    return sum(c * 1000.0 * (r / 2 + sum(x[0] for x in ls[k + 1:]) + ro) for k, (r, c) in enumerate(ls))


def tame(ls, ro, both=False, limit=TAU, dt=900.0):
    """scale the capacities so that the wall stays in the domain of the response-factor fit"""
    import wallref
    t = tau(ls, ro)
    if both:
        t = max(t, tau(ls[::-1], ro))
    if t > limit:
        ls = scaled(ls, limit / t)
    for _ in range(8):
        if wallref.stable(ls, ro, dt) and (not both or wallref.stable(ls[::-1], ro, dt)):
            return ls
        ls = scaled(ls, 0.6)
    return [[r, 0.0] for r, c in ls]


def scaled(ls, f):
    return [[r, float('%.4g' % (c * f))] for r, c in ls]


@st.composite
def wall_layers(draw, kind, ro, lo=1, hi=4, dt=900.0):
    if kind == 'gnd':
        import wallref
        ls = draw(st.lists(layer(('conc', 'mort', 'wood', 'ply', 'carp', 'soil')), min_size=lo, max_size=3))
        while not wallref.stable_ground(ls, dt):     # outside the domain of the ten fixed roots
            ls = [[float('%.4g' % (0.6 * r)), float('%.4g' % (0.6 * c))] for r, c in ls]
        return ls
    return tame(draw(st.lists(layer(), min_size=lo, max_size=hi)), ro, both=kind == 'int', dt=dt)


STEPS = (4, 4, 4, 4, 4, 1, 2, 3, 6, 12)     # per hour
OPAQUE = ('ext', 'op', 'win', 'gnd', 'int')


@st.composite
def boundary(draw, kind, room, dt=900.0):
    b = {'k': kind, 'room': room, 'A': draw(st.sampled_from([1.0, 0.3, 2.0, 0.1, 0.6, 4.0])), 'hc': draw(st.sampled_from([0.7, 2.5, 5.0, 1.0, 4.4, 3.1])),
         'abs': draw(st.booleans()), 'w': draw(st.sampled_from([0.45, 0.55, 0.1, 1.0, 0.0])),
         'fl': draw(st.sampled_from([0.0, 1.0, 0.5]))}
    if kind in ('ext', 'int'):
        b['ro'] = draw(st.sampled_from([0.04, 0.11, 0.15, 0.09]))
    if kind in ('ext', 'int', 'gnd'):
        b['layers'] = draw(wall_layers(kind, b.get('ro', 0.0), dt=dt))
    if kind in ('op', 'win'):
        b['u'] = draw(num(0.5, 6.5))
        b['ri'] = draw(st.sampled_from([0.11, 0.09, 0.15]))
    if kind in ('ext', 'op', 'win'):
        b['htd'] = draw(st.sampled_from([1.0, 1.0, 0.7, 0.15, 0.05, 0.5, 0.0]))
    return b


@st.composite
def room(draw, n_rooms, i, opt):
    V = draw(st.one_of(num(5.0, 150.0, 0.1), num(5.0, 150.0, 0.1), num(150.0, 600.0, 0.1)))
    r = {'V': V, 'nat': V * draw(st.sampled_from([0.0, 5.0, 20.0])) / 3600.0,
         'mech': draw(st.sampled_from([0.0, 20.0, 60.0, 150.0])) / 3600.0, 'next': [0.0] * n_rooms, 'beta': 0.0}
    if draw(st.booleans()):
        r.update(fc=12600.0 * V, fg=0.00022 * 12600.0 * V, mc=16.8 * V, mg=0.0018 * 16.8 * V)
    else:
        r.update(fc=draw(logn(1e3, 5e6)), fg=draw(logn(0.5, 500)), mc=draw(logn(1, 4000)), mg=draw(logn(0.001, 5)))
    # air from rooms of lower number only: rings of exchange diverge under the listed finding F1
    if i > 0 and opt['air'] and draw(st.booleans()):
        r['next'][draw(st.integers(0, i - 1))] = V * draw(st.sampled_from([0.5, 0.1, 1.0])) / 3600.0
    r['heat'] = opt.get('heat') or draw(st.sampled_from(['conv', 'rad', 'none']))
    r['cool'] = opt.get('cool') or draw(st.sampled_from(['conv', 'rad', 'none', 'conv']))
    if r['heat'] == 'rad':
        r['hcap'] = draw(st.sampled_from([100.0, 500.0, 2000.0, 20000.0]))
        r['beta'] = draw(st.sampled_from([0.0, 0.0, 0.25])) if opt['beta'] else 0.0
    if r['cool'] == 'rad':
        r['ccap'] = draw(st.sampled_from([100.0, 500.0, 2000.0, 20000.0]))
    if r['cool'] == 'conv':
        qmin = draw(st.sampled_from([300.0, 500.0, 700.0]))
        qmax = draw(st.sampled_from([2800.0, 4000.0, 5944.6, 8000.0]))
        # airflow that carries the capacity with an outlet 20-40 K below the room; positive down to zero load
        vmax = round(qmax * draw(st.sampled_from([0.0016, 0.002, 0.003])), 2)
        r['rac'] = [qmin, qmax, round(vmax * draw(st.sampled_from([0.55, 0.4, 0.75])), 2), vmax]
    return r


def to_channel(kind):
    lo, hi = {'cold': (-20.0, 8.0), 'hot': (24.0, 40.0), 'mild': (8.0, 30.0), 'any': (-30.0, 45.0)}[kind]
    return channel(num(lo, hi, 0.1), lin='any')


@st.composite
def house(draw, rooms=(1, 3), air=False, internal=True, beta=True, partial=True, ground=True, int_twin=False, days=(1, 1),
          runup=False, climate=None, demand=True, sun=True, people=True, kinds=None, max_b=5, alike=None, steps=STEPS):
    opt = {'air': air, 'beta': beta}
    sph = draw(st.sampled_from(steps))
    dt = 3600.0 / sph
    if draw(st.sampled_from([False, False, True])) if alike is None else alike:      # the same kind of equipment in every room
        opt.update(heat=draw(st.sampled_from(['rad', 'conv', 'none'])), cool=draw(st.sampled_from(['rad', 'conv'])))
    n = draw(st.integers(*rooms))
    case = {'story': draw(st.sampled_from([1, 2])), 'c': draw(num(0.0, 10.0, 0.1)),
            'pressure': draw(st.sampled_from(['negative', 'positive', 'balanced'])),
            'rooms': [draw(room(n, i, opt)) for i in range(n)]}
    bl = []
    ks = kinds or (['ext', 'ext', 'win', 'op'] + (['gnd'] if ground else []))
    for i in range(n):
        for k in range(draw(st.integers(1, max_b))):
            b = draw(boundary(draw(st.sampled_from(ks)), i, dt))
            if not partial and 'htd' in b:
                b['htd'] = 1.0
            bl.append([b, None])
    if internal and n > 1:
        for k in range(draw(st.integers(0, 3))):
            a, c = draw(st.sampled_from([(i, j) for i in range(n) for j in range(n) if i != j]))
            b1 = draw(boundary('int', a, dt))
            b2 = dict(b1, room=c, layers=[list(x) for x in reversed(b1['layers'])],
                      abs=draw(st.booleans()), w=draw(st.sampled_from([0.45, 0.55, 1.0])))
            if not int_twin and draw(st.booleans()):
                b2['hc'] = draw(st.sampled_from([0.7, 2.5, 5.0]))
            bl.append([b1, ('p', k, 0)])
            bl.append([b2, ('p', k, 1)])
    # areas: shares of an interior surface of plausible size for the volume
    S = [5.0 * r['V'] ** (2.0 / 3.0) for r in case['rooms']]
    tot = [sum(b['A'] for b, t in bl if b['room'] == i) for i in range(n)]
    for b, t in bl:
        if t is None or t[2] == 0:
            i = b['room']
            b['A'] = round(max(0.3, S[i] * b['A'] / tot[i]), 2)
        else:
            b['A'] = bl[[x[1] for x in bl].index((t[0], t[1], 0))][0]['A']
    bl = draw(st.permutations(bl)) if draw(st.booleans()) else bl
    where = {t: j for j, (b, t) in enumerate(bl) if t}
    for b, t in bl:
        if t:
            b['rear'] = where[(t[0], t[1], 1 - t[2])]
    bounds = [b for b, t in bl]
    for i in range(n):
        mine = [b for b in bounds if b['room'] == i]
        if not any(b['abs'] for b in mine):
            mine[0]['abs'] = True
        if not any(b['w'] for b in mine):
            mine[0]['w'] = 1.0
        if not any(b['fl'] for b in mine):
            mine[-1]['fl'] = 1.0
    case['bounds'] = bounds
    kind = climate or draw(st.sampled_from(['cold', 'hot', 'mild', 'any']))
    f = {'To': draw(to_channel(kind)), 'rh': draw(channel(num(10.0, 95.0, 1.0))), 'rooms': [], 'off': []}
    dem_vals = st.sampled_from([0.0, 1.0, 1.0, 0.3, 0.75])
    for i in range(n):
        fl = case['rooms'][i]['V'] / 2.4
        c = {'q': draw(channel(st.sampled_from([0.0, 2.0, 5.0, 20.0]))),
             'x': draw(channel(st.sampled_from([0.0, 5e-7, 2e-6, 6e-6]))),
             'hum': draw(channel(st.sampled_from([0.0, 0.0, 0.03, 0.1, 0.2]))) if people else const(0.0),
             'dem': draw(channel(dem_vals)) if demand else const(0.0),
             'vent': draw(channel(st.sampled_from([0.0, 0.0, 0.0005, 0.003]))),
             'sol': draw(channel(st.sampled_from([0.0, 0.0, 5.0, 30.0, 70.0]))) if sun else const(0.0)}
        for k in ('q', 'x', 'hum', 'vent', 'sol'):
            c[k]['v'] = [float('%.4g' % (v * fl)) for v in c[k]['v']]
        # half of the sunlight falls on the sun-absorbing surfaces: at most 400 W/m2 there
        top = 800.0 * sum(b['A'] for b in bounds if b['room'] == i and b['abs'])
        c['sol']['v'] = [min(v, float('%.4g' % top)) for v in c['sol']['v']]
        f['rooms'].append(c)
    for b in bounds:
        if b['k'] == 'int':
            f['off'].append(const(0.0))
        elif b['k'] == 'gnd':
            f['off'].append(const(draw(num(-3.0, 3.0, 0.1))))
        else:
            f['off'].append(draw(channel(st.sampled_from([0.0, 0.0, -4.0, 15.0, 30.0]))))
    case['f'] = f
    case['days'] = draw(st.integers(*days))
    if sph != 4:
        case['sph'] = sph
    case['ru'] = case['rub'] = 0
    if runup:
        case['ru'] = draw(st.integers(0, 3))
        case['rub'] = draw(st.integers(0, case['ru']))
    return case


def shape_of(case):
    """class labels of a case"""
    out = ['rooms %d' % len(case['rooms'])]
    if 'sph' in case:
        out.append('other steps than 15 min')
    ks = {b['k'] for b in case['bounds']}
    out += ['has ' + k for k in sorted(ks)]
    for r in case['rooms']:
        out.append('heating ' + r['heat'])
        out.append('cooling ' + r['cool'])
        if any(r['next']):
            out.append('room-to-room air')
    if any(b.get('htd', 1.0) < 1.0 for b in case['bounds']):
        out.append('partly exposed')
    rr = [b['room'] for b in case['bounds']]
    if rr != sorted(rr):
        out.append('rooms interleaved in the list')
    return sorted(set(out))
