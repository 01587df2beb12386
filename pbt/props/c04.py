import copy

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import wallref
from harness import Check, check, close, fail, need
from gen import const

TECHNIQUE = 'property-based testing: generated constructions, differential against a modal finite-volume wall, metamorphic layer splitting, and surface temperatures of simulated rooms'
NOTE = 'walls of 1-6 layers with time constant up to 2e5 s (heavier externally insulated walls are a listed finding), 4 percent of the total resistance; steady state and splitting to 1e-6'
ASSUMPTIONS = ['walls inside the domain of the eight fixed roots: sum of capacity times resistance to outside below 2e5 s and recursion stable']

N = 192


def factors(spec, dt=None):
    from heat_load_calc.initializer.response_factor import ResponseFactorFactory
    o = ResponseFactorFactory.create(spec=copy.deepcopy(spec))
    kw = {} if dt in (None, 900.0) else {'delta_t': dt}
    f, g = [(float(v.rfa0), np.asarray(v.rfa1, float), float(v.rft0), np.asarray(v.rft1, float), np.asarray(v.row, float))
            for v in (o.get_response_factors(**kw), o.get_response_factors(**kw))]
    if not all(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True) for a, b in zip(f, g)):
        fail('the response factors of one wall are others when they are asked for again')
    return f


def spec_of(kind, ls, ro):
    d = {'method': 'layers', 'boundary_type': {'ext': 'external_general_part', 'int': 'internal', 'gnd': 'ground'}[kind],
         'layers': sim.layers(ls)}
    if kind == 'gnd':
        d['method'] = 'layers_ground'
    else:
        d['outside_heat_transfer_resistance'] = ro
    return d


def gain(p0, p1, r):
    k = (np.abs(p1) > 0)
    return p0 + float(np.sum(p1[k] / (1.0 - r[k])))


def response(f, n):
    out = np.zeros((2, n))
    out[0, 0], out[1, 0] = f[0], f[2]
    pw = f[4][None, :] ** np.arange(n - 1)[:, None]
    out[0, 1:] = pw @ f[1]
    out[1, 1:] = pw @ f[3]
    return out


def compare(f, ls, ro, what, tols=(0.04, 0.08), dt=900.0):
    n = int(N * 900 // dt)
    ex = np.cumsum(wallref.triangle_response(ls, ro, n, dt=dt), axis=1)
    ap = np.cumsum(response(f, n), axis=1)
    R = sum(x[0] for x in ls) + ro
    for k, (name, s) in enumerate((('surface flux', R), ('rear temperature', 1.0))):
        e = np.abs(ex[k] - ap[k]) / s
        if not np.all(e <= tols[k]):
            fail('%s: step response to the %s differs from conduction by %.3g of its final value at step %d' % (
                what, name, float(np.nanmax(e)), int(np.argmax(e))))


def run_layers(case, ctx):
    ls, ro, kind = case['layers'], case['ro'], case['kind']
    dt = 3600.0 / case.get('sph', 4)
    f = factors(spec_of(kind, ls, ro), dt)
    R = sum(x[0] for x in ls) + ro
    close(gain(f[0], f[1], f[4]), R, 'steady resistance to a surface flux', rtol=1e-6)
    close(gain(f[2], f[3], f[4]), 1.0, 'steady transmission of the rear temperature', rtol=1e-6)
    compare(f, ls, ro, 'layers %s' % ls, dt=dt)
    check(np.all((f[4] >= 0) & (f[4] < 1)), 'ratios of the recursion must lie in [0,1): %s', f[4])
    heavy = sum(c for r, c in ls) > 1.0
    ctx.label('%d layers' % len(ls))
    ctx.label('other steps than 15 min', dt != 900.0)
    ctx.label('massless layer', any(c == 0 for r, c in ls))
    ctx.label(kind)
    ctx.nontrivial(heavy and len(ls) > 1)


def run_split(case, ctx):
    ls, ro, k = case['layers'], case['ro'], case['at'] % len(case['layers'])
    m = case['parts']
    r, c = ls[k]
    ls2 = ls[:k] + [[r / m, c / m]] * m + ls[k + 1:]
    a, b = factors(spec_of(case['kind'], ls, ro)), factors(spec_of(case['kind'], ls2, ro))
    R = sum(x[0] for x in ls) + (ro if case['kind'] != 'gnd' else 3.0)
    for i in (0, 1):
        close(response(a, N)[i], response(b, N)[i], 'response of the wall with layer %d given in %d parts' % (k, m), rtol=1e-4, atol=1e-6 * R)
    ctx.nontrivial(c > 0)


def run_ground(case, ctx):
    ls, dt = case['layers'], 3600.0 / case.get('sph', 4)
    f = factors(spec_of('gnd', ls, 0.0), dt)
    soil = ls + [[3.0, 9900.0]]
    R = sum(x[0] for x in soil)
    close(gain(f[0], f[1], f[4]), R, 'steady resistance of a ground floor', rtol=1e-6)
    close(gain(f[2], f[3], f[4]), 1.0, 'steady transmission of a ground floor', rtol=1e-6)
    compare(f, soil, 1e-9, 'ground floor %s' % ls, tols=(0.08, 0.04), dt=dt)
    from heat_load_calc.initializer import response_factor as m
    if dt == 900.0 and hasattr(m, 'calc_response_factor'):           # what lies below a ground floor is an ordinary layer: 3 m of soil
        g = m.calc_response_factor(True, np.array([c for r, c in soil]) * 1000.0, np.array([r for r, c in soil]))
        for i in (0, 1):
            close(response(f, N)[i], response((g[1], g[3], g[0], g[2], g[4]), N)[i], 'response of a ground floor and of the same layers with the soil given', rtol=1e-7, atol=1e-7 * R)
    ctx.nontrivial(len(ls) > 0)


def run_uvalue(case, ctx):
    u, ri = case['u'], case['ri']
    f = factors({'method': 'u_value', 'boundary_type': case['kind'], 'u_value': u, 'inside_heat_transfer_resistance': ri})
    close(f[0], 1.0 / u - ri, 'resistance from surface to outside of a part given by its U-value', rtol=1e-9)
    close(f[2], 1.0, 'transmission of a part given by its U-value')
    close(np.concatenate([f[1], f[3]]), 0.0, 'memory of a part given by its U-value', atol=0)
    # steady heat flow from room to outside through the inside film is U x temperature difference
    ctx.nontrivial(True)


def run_given(case, ctx):
    f = factors({'method': 'response_factor', 'boundary_type': 'external_general_part', 'phi_a0': case['a0'], 'phi_a1': case['a1'],
                 'phi_t0': case['t0'], 'phi_t1': case['t1'], 'r': case['r']})
    close(f[0], case['a0'], 'given phi_a0', 0, 0)
    close(f[2], case['t0'], 'given phi_t0', 0, 0)
    for k, name in ((1, 'a1'), (3, 't1'), (4, 'r')):
        close(f[k], case[name], 'given ' + name, 0, 0)
    ctx.nontrivial(len(set(case['a1'])) > 3)


@st.composite
def one_room(draw):
    """one room, several layered walls, driving values that change a few times in two days"""
    slow = gen.channel(gen.num(-10.0, 35.0, 0.5), lin=False, max_len=4, periods=(16, 24, 48))
    case = draw(gen.house(rooms=(1, 1), partial=False, demand=False, sun=False, people=False, kinds=['ext', 'ext', 'ext', 'gnd', 'win'],
                          max_b=4, days=(2, 2)))
    f = case['f']
    f['To'] = draw(slow)
    f['rooms'][0]['q'] = draw(gen.channel(st.sampled_from([0.0, 200.0, 800.0]), max_len=3, periods=(32, 64)))
    f['rooms'][0]['vent'] = const(0.0)
    for j, b in enumerate(case['bounds']):
        if b['k'] != 'gnd':
            f['off'][j] = const(draw(st.sampled_from([0.0, 10.0])))
    return case


def tv(a):
    """total variation of a history that starts from zero"""
    return float(np.sum(np.abs(np.diff(np.concatenate([[0.0], a])))))


def run_room(case, ctx):
    """surface temperatures in a simulated room follow conduction driven by the reported flux and rear temperature"""
    r = sim.Run(case)
    n = r.n
    some = False
    for j, b in enumerate(case['bounds']):
        q, rear, ts = r.B['qiall_s'][j], r.B['t_b'][j], r.B['t_s'][j]
        if b['k'] in ('win', 'op'):
            close(ts, (1.0 / b['u'] - b['ri']) * q + rear, 'surface temperature of a part given by its U-value', rtol=1e-7, atol=1e-6)
            continue
        ls, ro = (b['layers'], b['ro']) if b['k'] == 'ext' else (b['layers'] + [[3.0, 9900.0]], 1e-9)
        k = wallref.triangle_response(ls, ro, n + 1, dt=r.dt)
        R = sum(x[0] for x in ls) + ro
        ref = np.zeros(n)
        for i in range(n):
            # the rear value of a step acts from its beginning to its end
            past_q = np.concatenate([[0.0], q[:i]])[::-1]
            past_r = rear[:i + 1][::-1]
            ref[i] = k[0, 0] * q[i] + k[0, 1:i + 2] @ past_q + k[1, 0] * rear[i] + k[1, 1:i + 2] @ past_r
        tol = (0.04 if b['k'] == 'ext' else 0.08)
        e = np.abs(ref - ts) - tol * (R * np.cumsum(np.abs(np.diff(np.concatenate([[0.0], q])))) +
                                      2.0 * np.cumsum(np.abs(np.diff(np.concatenate([[0.0], rear]))))) - 1e-6
        if not np.all(e <= 0):
            i = int(np.argmax(e))
            fail('surface temperature of boundary %d (%s) at step %d is %.4f, conduction gives %.4f' % (j, b['k'], i, ts[i], ref[i]))
        some = some or (sum(c for x, c in b['layers']) > 5.0 and tv(q) > 5.0)
    for lab in gen.shape_of(case):
        ctx.label(lab)
    ctx.nontrivial(some)


@st.composite
def wall(draw, hi=6):
    kind = draw(st.sampled_from(['ext', 'int']))
    ro = draw(st.sampled_from([0.04, 0.11, 0.15, 0.09]))
    sph = draw(st.sampled_from(gen.STEPS))
    return {'kind': kind, 'ro': ro, 'layers': draw(gen.wall_layers(kind, ro, hi=hi, dt=3600.0 / sph)), 'sph': sph}


@st.composite
def split(draw):
    kind = draw(st.sampled_from(['ext', 'gnd', 'int']))
    ro = 0.0 if kind == 'gnd' else draw(st.sampled_from([0.04, 0.11]))
    return {'kind': kind, 'ro': ro, 'layers': draw(gen.wall_layers(kind, ro)), 'at': draw(st.integers(0, 5)), 'parts': draw(st.integers(2, 4))}


def rf_lists():
    v = st.lists(gen.num(-1.0, 1.0, 0.001), min_size=12, max_size=12)
    return st.fixed_dictionaries({'a0': gen.num(0, 1, 0.001), 'a1': v, 't0': gen.num(0, 1, 0.001), 't1': v,
                                  'r': st.lists(gen.num(0, 0.999, 0.001), min_size=12, max_size=12)})


HEAVY = [[0.094, 300.0], [3.57, 2.5]]


def witness(ctx):
    """150 mm concrete with 100 mm polystyrene outside"""
    ls, ro = HEAVY, 0.04
    f = factors(spec_of('ext', ls, ro))
    rad = wallref.radius(f[0], f[1][:8], f[4][:8])
    if f[0] < 0 or rad > 1.0:
        ctx.known('F3', 'response factors of a heavy externally insulated wall diverge: first absorption factor %.5f, growth %.3f per step' % (f[0], rad))


WITNESS = {'F3': witness}
CHECKS = [
    Check('layers', wall, run_layers, 1600, 30000, 'at least two layers and some heat capacity'),
    Check('split', split, run_split, 800, 10000, 'the split layer has heat capacity'),
    Check('ground', lambda: st.sampled_from(gen.STEPS).flatmap(lambda s: st.fixed_dictionaries({'layers': gen.wall_layers('gnd', 0.0, lo=0, dt=3600.0 / s), 'sph': st.just(s)})), run_ground, 400, 4000, 'at least one layer on the soil'),
    Check('u_value', lambda: st.fixed_dictionaries({'u': gen.num(0.2, 6.6), 'ri': st.sampled_from([0.09, 0.11, 0.15]),
                                                    'kind': st.sampled_from(['external_transparent_part', 'external_opaque_part'])}),
          run_uvalue, 400, 4000, 'every case'),
    Check('given', rf_lists, run_given, 200, 2000, 'more than three different coefficients'),
    Check('in_the_room', one_room, run_room, 80, 1500, 'a wall with heat capacity above 5 kJ/m2K and a flux that varies by 5 W/m2'),
]
