import numpy as np
from hypothesis import strategies as st

from harness import Check, check, close, finite, quiet, rejects

TECHNIQUE = 'property-based testing: generated stacks of panes against an independent solution of the light balance between the panes (linear system) and against a sum over many passes, plus reversal, grouping and conservation relations'
NOTE = 'one to six panes, any transmittance and reflectance of each side with a non-negative absorptance'
ASSUMPTIONS = ['no pair of facing surfaces reflects everything (the geometric series of passes converges)']


def mr():
    from notebook.initializer.shgc_window import multiple_reflection as m
    return m


def panes(case):
    m = mr()
    return [m.SolarSpecSingleLayer(tau_f=tf, tau_b=tb, rho_f=rf, rho_b=rb) for tf, tb, rf, rb in case['panes']]


def light(ps):
    """Light running in and out in every gap, for unit light from the front; unknowns: inward i_0..i_n (i_0 = 1),
    outward o_0..o_n (o_n = 0); gap k lies in front of pane k."""
    n = len(ps)
    size = 2 * (n + 1)
    a, b = np.eye(size), np.zeros(size)
    b[0] = 1.0
    for k, (tf, tb, rf, rb) in enumerate(ps):
        # inward behind pane k, outward in front of pane k
        a[k + 1, k] -= tf
        a[k + 1, n + 1 + k + 1] -= rb
        a[n + 1 + k, k] -= rf
        a[n + 1 + k, n + 1 + k + 1] -= tb
    v = np.linalg.solve(a, b)
    return v[:n + 1], v[n + 1:]


def want(ps):
    i, o = light(ps)
    # at pane k the light from the front is i_k and the light from behind is o_(k+1)
    absd = [i[k] * (1 - p[0] - p[2]) + o[k + 1] * (1 - p[1] - p[3]) for k, p in enumerate(ps)]
    return i[-1], o[0], np.array(absd)


def flip(ps):
    return [(tb, tf, rb, rf) for tf, tb, rf, rb in ps[::-1]]


def run_stack(case, ctx):
    m = mr()
    ps = [tuple(p) for p in case['panes']]
    n = len(ps)
    with quiet():
        g = m.Glass(ss=panes(case))
        tot = g.get_total_solar_spec()
        absd = finite(g.get_abs_multi_layer(), 'absorptances')
        single = panes(case)
    check(absd.shape == (n,), '%d panes have %s absorptances', n, absd.shape)
    tf, rf, af = want(ps)
    tb, rb, _ = want(flip(ps))
    tol = dict(rtol=1e-9, atol=1e-10)
    close(tot.tau_f, tf, 'transmittance from the front', **tol)
    close(tot.rho_f, rf, 'reflectance from the front', **tol)
    close(tot.tau_b, tb, 'transmittance from behind', **tol)
    close(tot.rho_b, rb, 'reflectance from behind', **tol)
    close(absd, af, 'absorptance of the panes', **tol)
    close(tot.tau_f + tot.rho_f + float(np.sum(absd)), 1.0, 'light let through, sent back and absorbed', rtol=1e-9, atol=1e-9)
    for what, v in (('transmittance', [tot.tau_f, tot.tau_b]), ('reflectance', [tot.rho_f, tot.rho_b]), ('absorptance', absd)):
        check(bool(np.all(np.asarray(v) >= -1e-12) and np.all(np.asarray(v) <= 1 + 1e-12)), '%s outside 0..1: %s', what, v)
    for s, p in zip(single, ps):
        close([s.a_f, s.a_b], [1 - p[0] - p[2], 1 - p[1] - p[3]], 'absorptance of one pane', rtol=1e-12, atol=1e-12)
    # any part of the stack, and a stack made of two parts
    i, j = sorted((case['i'] % n, case['j'] % n))
    with quiet():
        part = g.get_solar_spec_multi_layer(panes(case), i, j)
    pt = want(ps[i:j + 1])
    pb = want(flip(ps[i:j + 1]))
    close([part.tau_f, part.rho_f, part.tau_b, part.rho_b], [pt[0], pt[1], pb[0], pb[1]], 'panes %d to %d' % (i, j), **tol)
    if n > 1:
        k = 1 + case['i'] % (n - 1)
        with quiet():
            a = g.get_solar_spec_multi_layer(panes(case), 0, k - 1)
            b = g.get_solar_spec_multi_layer(panes(case), k, n - 1)
            two = m.Glass(ss=[m.SolarSpecSingleLayer(x.tau_f, x.tau_b, x.rho_f, x.rho_b) for x in (a, b)])
            t2 = two.get_total_solar_spec()
            ab2 = two.get_abs_multi_layer()
        close([t2.tau_f, t2.tau_b, t2.rho_f, t2.rho_b], [tot.tau_f, tot.tau_b, tot.rho_f, tot.rho_b], 'two stacks one behind the other', **tol)
        close(ab2, [float(np.sum(absd[:k])), float(np.sum(absd[k:]))], 'absorptance of two stacks one behind the other', rtol=1e-8, atol=1e-9)
    # a perfectly clear pane anywhere changes nothing
    at = case['j'] % (n + 1)
    ps2 = [list(p) for p in ps]
    ps2.insert(at, [1.0, 1.0, 0.0, 0.0])
    with quiet():
        g2 = m.Glass(ss=panes({'panes': ps2}))
        t2, ab2 = g2.get_total_solar_spec(), list(g2.get_abs_multi_layer())
    close([t2.tau_f, t2.tau_b, t2.rho_f, t2.rho_b], [tot.tau_f, tot.tau_b, tot.rho_f, tot.rho_b], 'a perfectly clear pane added', **tol)
    close(ab2.pop(at), 0.0, 'absorptance of a perfectly clear pane', atol=1e-12)
    close(ab2, absd, 'absorptances with a perfectly clear pane added', **tol)
    ctx.label('%d panes' % min(n, 4))
    ctx.label('black pane', any(p[0] == 0 and p[2] == 0 for p in ps))
    ctx.label('two-faced pane', any(p[0] != p[1] or p[2] != p[3] for p in ps))
    ctx.nontrivial(n > 1 and any(p[2] > 0 for p in ps[1:]))


def run_range(case, ctx):
    m = mr()
    n = len(case['panes'])
    g = m.Glass(ss=panes(case))
    i, j = case['i'], case['j']
    ok = 0 <= i <= j < n
    if ok:
        with quiet():
            r = g.get_solar_spec_multi_layer(panes(case), i, j)
        finite([r.tau_f, r.tau_b, r.rho_f, r.rho_b], 'panes %d to %d' % (i, j))
    else:
        rejects(lambda: g.get_solar_spec_multi_layer(panes(case), i, j), 'panes %d to %d of %d' % (i, j, n))
    ctx.label('refused', not ok)
    ctx.nontrivial(not ok)


@st.composite
def pane(draw):
    def side():
        a = draw(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.1, 1.0])))
        t = draw(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5])))
        t = (1 - a) * t
        return t, min(1 - a - t, 0.95)
    (tf, rf), (tb, rb) = side(), side()
    if draw(st.booleans()):
        tb = tf if tf + rb <= 1 else 1 - rb
    if draw(st.booleans()):
        tb, rb = tf, rf
    return [tf, tb, max(rf, 0.0), max(rb, 0.0)]


def stacks():
    return st.fixed_dictionaries({'panes': st.lists(pane(), min_size=1, max_size=6), 'i': st.integers(0, 9), 'j': st.integers(0, 9)})


def ranges():
    return st.fixed_dictionaries({'panes': st.lists(pane(), min_size=1, max_size=4), 'i': st.integers(-3, 5), 'j': st.integers(-3, 5)})


CHECKS = [
    Check('stack', stacks, run_stack, 4000, 100000, 'more than one pane and light sent to and fro between them'),
    Check('range', ranges, run_range, 800, 8000, 'a refused range'),
]
