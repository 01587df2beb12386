"""Sun position, twice and independently of the code under test: the formula of the standard (scalar, for
one day and hour) and a general almanac algorithm (mean elements, no Japanese formula)."""
import math
import datetime

JST_MERIDIAN = 135.0


def standard(lat, lon, day, hour):
    """(direction vector (south, west, up)) for a day 1..365 of 1989 and an hour in Japan Standard Time"""
    n = 1989 - 1968
    d0 = 3.71 + 0.2596 * n - (n + 3) // 4
    m = 360.0 * (day - d0) / 365.2596                                  # deg
    eps = 12.3901 + 0.0172 * (n + m / 360.0)
    s = lambda x: math.sin(math.radians(x))
    c = lambda x: math.cos(math.radians(x))
    v = m + 1.914 * s(m) + 0.02 * s(2 * m)
    w = 2 * (v + eps)
    et = (m - v) - math.degrees(math.atan(0.043 * s(w) / (1 - 0.043 * c(w))))
    sin_d = c(v + eps) * s(-23.4393)
    cos_d = math.sqrt(1 - sin_d * sin_d)
    om = 15.0 * (hour - 12.0) + lon - JST_MERIDIAN + et
    return vector(lat, sin_d, cos_d, om)


def vector(lat, sin_d, cos_d, om):
    """rotate the equatorial direction (towards the meridian, west, pole) into the local frame"""
    r = math.radians
    mer, west, pole = cos_d * math.cos(r(om)), cos_d * math.sin(r(om)), sin_d
    up = mer * math.cos(r(lat)) + pole * math.sin(r(lat))
    south = mer * math.sin(r(lat)) - pole * math.cos(r(lat))
    return south, west, up


def almanac(lat, lon, day, hour):
    """Astronomical Almanac low-precision sun (0.01 deg), year 1989"""
    t = datetime.datetime(1989, 1, 1) + datetime.timedelta(days=day - 1, hours=hour - 9.0)
    n = (t - datetime.datetime(2000, 1, 1, 12)).total_seconds() / 86400.0
    L = 280.460 + 0.9856474 * n
    g = math.radians((357.528 + 0.9856003 * n) % 360)
    lam = math.radians((L + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g)) % 360)
    ob = math.radians(23.439 - 0.0000004 * n)
    ra = math.degrees(math.atan2(math.cos(ob) * math.sin(lam), math.cos(lam)))
    sin_d = math.sin(ob) * math.sin(lam)
    ut = (t - datetime.datetime(t.year, t.month, t.day)).total_seconds() / 3600.0
    gmst = 6.697375 + 0.0657098242 * n + ut
    ha = (15.0 * gmst + lon - ra) % 360.0
    return vector(lat, sin_d, math.sqrt(1 - sin_d * sin_d), ha)


def to_vector(h, a):
    return math.cos(h) * math.cos(a), math.cos(h) * math.sin(a), math.sin(h)


def angle(u, v):
    d = math.sqrt(sum((x - y) ** 2 for x, y in zip(u, v)))
    return math.degrees(2 * math.asin(min(1.0, d / 2)))
