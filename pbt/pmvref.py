"""Thermal sensation and conditioning target of an occupant, written from the documented rules."""
import math

import numpy as np

M = 58.15
HC = 4.0
HR = 4 * 3.96e-8 * 293.15 ** 3
COOL, HEAT, OPEN, CLOSE = 1, 2, 3, 4
CLO = {COOL: 0.3, HEAT: 1.1, OPEN: 0.7, CLOSE: 0.7}
TARGET = {COOL: 0.5, HEAT: -0.5, OPEN: 0.0, CLOSE: 0.0}
SENS = 0.303 * math.exp(-0.036 * M) + 0.028


def pv(x):
    return 101325.0 * x / (x + 0.62198)


def cloth(clo):
    i = 0.155 * clo
    return i, (1.0 + 1.29 * i if i <= 0.078 else 1.05 + 0.645 * i)


def pmv(theta_r, theta_ot, p, clo, h=HC + HR):
    i, f = cloth(clo)
    return SENS * (M - 3.05e-3 * (5733.0 - 6.99 * M - p) - 1.7e-5 * M * (5867.0 - p) - 0.0014 * M * (34.0 - theta_r)
                   - f * h * (35.7 - 0.028 * M - theta_ot) / (1.0 + i * f * h))


def target(p, mode, h=HC + HR):
    """operative temperature at which an occupant in air of that temperature has the sensation the mode aims at"""
    lo, hi = -200.0, 300.0
    for _ in range(80):
        m = 0.5 * (lo + hi)
        if pmv(m, m, p, CLO[mode], h) < TARGET[mode]:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


def target_fast(p, mode, h=HC + HR):
    """the same by linear interpolation: pmv(t, t) is affine in t"""
    a, b = pmv(0.0, 0.0, p, CLO[mode], h), pmv(1.0, 1.0, p, CLO[mode], h)
    return (TARGET[mode] - a) / (b - a)


def next_modes(mode, demand, heavy, middle, light, eps=1e-7):
    """set of modes the rules allow (more than one only when a sensation is within eps of a limit)"""
    if not demand > 0:
        return {CLOSE}
    out = set()
    for s in (-eps, 0.0, eps):
        h, m, l = heavy + s, middle + s, light + s
        if mode == HEAT:
            out.add(HEAT if h <= 0.7 else COOL if l >= 0.7 else CLOSE)
        elif mode == COOL:
            out.add(COOL if l >= -0.7 else HEAT if h <= -0.7 else CLOSE)
        elif l >= 0.7:
            out.add(COOL)
        elif h <= -0.7:
            out.add(HEAT)
        elif mode == OPEN:
            out.add(CLOSE if m <= 0.0 else OPEN)
        else:
            out.add(OPEN if m >= 0.0 else CLOSE)
    return out


def air_speed(mode, heat, cool):
    """heat, cool: 'rad' when the equipment of that purpose is radiant"""
    if mode == HEAT and heat != 'rad' or mode == COOL and cool != 'rad':
        return 0.2
    return 0.1 if mode == OPEN else 0.0


def film(theta_r, mrt, clo, v):
    """convective and radiative film coefficients of a clothed person: the clothing temperature that closes the heat balance"""
    i, f = cloth(clo)
    skin = 35.7 - 0.028 * M
    hc = lambda t: max(12.1 * math.sqrt(v), 2.38 * abs(t - theta_r) ** 0.25)                                            # noqa: E731
    hr = lambda t: 3.96e-8 * ((t + 273.0) ** 2 + (mrt + 273.0) ** 2) * (t + 273.0 + mrt + 273.0)                         # noqa: E731
    lo, hi = -60.0, 90.0
    for _ in range(100):
        t = 0.5 * (lo + hi)
        if skin - t > i * f * (hr(t) * (t - mrt) + hc(t) * (t - theta_r)):
            lo = t
        else:
            hi = t
    return hc(lo), hr(lo)
