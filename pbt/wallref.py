"""One-dimensional conduction through layers, independent of the code under test.

layers: [[R m2K/W, C kJ/m2K], ...] from the inside out, ro: resistance beyond the last layer."""
import numpy as np

ROOTS = np.array([2.0000E-06, 7.9000E-06, 3.1205E-05, 1.2325E-04, 4.8687E-04, 1.9231E-03, 7.5964E-03, 3.0006E-02])


def four_pole(ls, ro, s):
    """(GA, GT): surface temperature per unit inward flux with the rear at 0, and per unit rear temperature with no flux"""
    M = np.eye(2, dtype=complex)
    for r, c in list(ls) + [[ro, 0.0]]:
        c = c * 1000.0
        if c < 0.001:
            F = np.array([[1.0, r], [0.0, 1.0]], dtype=complex)
        else:
            g = np.sqrt(complex(r * c * s))
            F = np.array([[np.cosh(g), r / g * np.sinh(g)], [g / r * np.sinh(g), np.cosh(g)]])
        M = M @ F
    return M[0, 1] / M[1, 1], 1.0 / M[1, 1]


GROUND_ROOTS = np.array([1.05970E-09, 4.23890E-09, 1.69560E-08, 6.78060E-08, 2.71280E-07, 1.08500E-06, 4.34170E-06, 1.73610E-05,
                         6.94444E-05, 2.77778E-04])
SOIL = [3.0, 9900.0]


def fit(ls, ro, a=ROOTS, dt=900.0):
    """least-squares exponential fit with fixed roots (used to keep generated walls inside its domain)"""
    s = np.empty(2 * len(a))
    s[1::2] = a
    s[0] = a[0] / np.sqrt(a[1] / a[0])
    s[2::2] = a[1:] / np.sqrt(a[1:] / a[:-1])
    R = sum(x[0] for x in ls) + ro
    g = np.array([four_pole(ls, ro, x) for x in s]).real
    F = s[:, None] / (s[:, None] + a[None, :])
    co = np.linalg.lstsq(F, g - np.array([R, 1.0]), rcond=None)[0]
    t = a * dt
    e = 1.0 - np.exp(-t)
    p0 = np.array([R, 1.0]) + (e / t) @ co
    p1 = -co * (e ** 2 / t)[:, None]
    return p0[0], p1[:, 0], p0[1], p1[:, 1], np.exp(-t)


def radius(phi0, phi1, r):
    """largest growth factor per step of a wall behind films of 0.5..60 W/m2K"""
    k, worst = len(r), 0.0
    for h in (0.5, 2.0, 5.0, 15.0, 60.0):
        M = np.zeros((k + 1, k + 1))
        M[:k, :k] = np.diag(r)
        M[:k, k] = phi1
        M[k, :] = -h / (1.0 + h * phi0) * M[:k, :].sum(0)
        worst = max(worst, float(np.abs(np.linalg.eigvals(M)).max()))
    return worst


_cache = {}


def stable(ls, ro, dt=900.0):
    key = (tuple(map(tuple, ls)), ro, dt)
    if key not in _cache:
        p0, p1, _, _, r = fit(ls, ro, dt=dt)
        _cache[key] = p0 > 0.0 and radius(p0, p1, r) < 0.9990 ** (dt / 900.0)
    return _cache[key]


def stable_ground(ls, dt=900.0):
    key = (tuple(map(tuple, ls)), 'ground', dt)
    if key not in _cache:
        p0, p1, _, _, r = fit(list(ls) + [SOIL], 0.0, GROUND_ROOTS, dt)
        _cache[key] = p0 > 0.0 and radius(p0, p1, r) < 1.0
    return _cache[key]


def modal(ls, ro, nodes=40):
    """finite-volume wall, diagonalised: (lam<0 [m], res [m,2], d [2]) with unit-step surface response
    d + sum res (e^{lam t}-1)/lam for a unit inward flux (0) and a unit rear temperature (1)"""
    Rs, Cs = [], [0.0]
    for r, c in ls:
        k = nodes if c > 0 else 1
        for _ in range(k):
            Rs.append(r / k)
            Cs[-1] += c * 1000.0 / k / 2
            Cs.append(c * 1000.0 / k / 2)
    Rs.append(ro)
    C = np.array(Cs)
    m = len(C)
    K, b = np.zeros((m, m)), np.zeros((m, 2))
    for i in range(m - 1):
        g = 1.0 / Rs[i]
        K[i, i] -= g
        K[i, i + 1] += g
        K[i + 1, i + 1] -= g
        K[i + 1, i] += g
    K[-1, -1] -= 1.0 / Rs[-1]
    b[-1, 1] = 1.0 / Rs[-1]
    b[0, 0] = 1.0
    act = C > 1e-9
    pas = ~act
    if pas.any():
        Kpp = np.linalg.inv(K[np.ix_(pas, pas)])
        Ka = K[np.ix_(act, act)] - K[np.ix_(act, pas)] @ Kpp @ K[np.ix_(pas, act)]
        ba = b[act] - K[np.ix_(act, pas)] @ Kpp @ b[pas]
        M, D = -Kpp @ K[np.ix_(pas, act)], -Kpp @ b[pas]
    else:
        Ka, ba = K, b
    if not act.any():
        return np.zeros(0), np.zeros((0, 2)), D[0]
    s = 1.0 / np.sqrt(C[act])
    lam, U = np.linalg.eigh(Ka * s[:, None] * s[None, :])
    B = U.T @ (s[:, None] * ba)
    if act[0]:
        crow, d = np.zeros(act.sum()), np.zeros(2)
        crow[0] = s[0]
    else:
        crow, d = M[0] * s, D[0]
    return lam, (crow @ U)[:, None] * B, d


def triangle_response(ls, ro, n, nodes=40, dt=900.0):
    """[2, n] surface temperature at steps 0.. after a unit triangular pulse (base 2 steps) of flux / rear temperature"""
    lam, res, d = modal(ls, ro, nodes)
    t = np.arange(0, n + 1) * dt
    P = np.array([d[k] * t + ((res[:, k] / lam)[:, None] * ((np.exp(lam[:, None] * t) - 1.0) / lam[:, None] - t)).sum(0)
                  for k in (0, 1)]) / dt
    out = np.zeros((2, n))
    out[:, 0] = P[:, 1]
    if n > 1:
        out[:, 1] = P[:, 2] - 2 * P[:, 1]
    if n > 2:
        out[:, 2:] = P[:, 3:n + 1] - 2 * P[:, 2:n] + P[:, 1:n - 1]
    return out
