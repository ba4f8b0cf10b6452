"""C08 threshold checks, C10 probability of gross error, C07 position of the sun, C36 robust averages (part)."""
import math
import random
from datetime import date, datetime, timedelta
from fractions import Fraction as F

import numpy as np

import qc
import trackqc as tqc
from vlib import (S, close, dyadic, expect, expect_close, expect_eq, fl, law, maybe, must_raise, prop, share)

prop("C08", "values, normals, spreads and limits drawn on exact binary fractions so that every comparison with a limit is "
            "exact, including values exactly at, one step inside and one step outside it, and missing values; "
            "non-trivial = a value within one step of the limit, or something missing")
prop("C10", "quantised values on a grid between two limits with random mean, spread and prior; non-trivial = the "
            "probability is strictly between 0.001 and 0.999, or the value lies on a limit",
     ["numerical quadrature of the normal density to 1e-9"])
prop("C07", "dates 1850-2100, any hour, any position, with clusters at year ends, leap days, poles, the date line and within "
            "one degree of sunrise and sunset; non-trivial = the sun is within 12 degrees of the horizon, or the hour "
            "before falls on another day",
     ["an independent low-precision solar ephemeris (Astronomical Almanac), good to 0.01 degrees near the present",
      "day or night is not judged within 0.06 degrees of the horizon (0.5 before 1901)"])


STEP = 2. ** -10
NUDGES = [-1, 0, 1, 2. ** -14, -2. ** -14]      # of a step, beyond or within a limit


def near(limit):
    """values at, around and far from a limit, all exact"""
    st = S()
    return st.one_of(st.sampled_from([limit, limit - STEP, limit + STEP, -limit, -limit - STEP, -limit + STEP]),
                     dyadic(-60, 60))


# -------------------------------------------------------------------------------------------------------- C08

def clim_cases():
    st = S()
    return st.tuples(maybe(dyadic(-10, 40)), dyadic(0, 12), maybe(st.sampled_from([-2, 2] + NUDGES), .1), maybe(dyadic(0, 12), .1),
                     st.booleans(), st.booleans()).map(list)


@law("C08", "climatology", clim_cases, quick=3000)
def _(case, t):
    norm, lim, step, other, far, use_default = case
    limit = 8.0 if use_default else lim
    val = None
    if step is not None:
        base = 0. if norm is None else norm
        val = base + (limit + step * STEP) * (-1 if far else 1)
        if step == 2 and other is not None:
            val = base + other
    a = (val, norm) if use_default else (val, norm, limit)
    want = 1 if val is None or norm is None or abs(F(val) - F(norm)) > F(limit) else 0
    t.nt(val is None or norm is None or abs(abs(val - norm) - limit) <= STEP)
    expect_eq(qc.climatology_check(*a), want, "climatology check %r" % (a,))
    expect_eq(qc.climatology_check(val, norm, None), 1, "climatology check with no limit")
    expect_eq(qc.value_check(val), 1 if val is None else 0, "value check of %r" % val)
    expect_eq(qc.no_normal_check(norm), 1 if norm is None else 0, "normal check of %r" % norm)


def std_cases():
    st = S()
    return st.fixed_dictionaries({
        "norm": maybe(dyadic(-5, 35, 4), .1), "anom": st.one_of(dyadic(-40, 40, 8), st.integers(-30, 30).map(float)),
        "std": maybe(st.sampled_from([0.25, 0.5, 1., 1.5, 2., 3., 4., 5., 1 / 128., 1 / 1024.]), .1), "novalue": st.integers(0, 9),
        "lo": st.sampled_from([0.25, 0.5, 1., 2.]), "hi": st.sampled_from([2.5, 3., 4., 8.]),
        "limit": st.sampled_from([0.5, 1., 2., 3., 4.]), "lowbar": dyadic(0, 10, 2),
        "snap": st.integers(0, 6), "k": st.sampled_from(NUDGES)})


@law("C08", "spread-limits", std_cases, quick=6000)
def _(case, t):
    c = case
    norm, std, lo, hi, limit, bar = c["norm"], c["std"], c["lo"], c["hi"], c["limit"], c["lowbar"]
    val = None
    if c["novalue"]:
        base = 0. if norm is None else norm
        s = 1. if std is None else std
        an = c["anom"]
        sgn = -1 if an < 0 else 1
        if c["snap"] == 1:
            an = sgn * (min(max(s, lo), hi) * limit + c["k"] * STEP)
        elif c["snap"] == 2:
            an = sgn * (s * limit + c["k"] * STEP)
        elif c["snap"] == 3:
            an = sgn * (bar + c["k"] * STEP)
        val = base + an
    if val is None or norm is None or std is None:
        w1 = w2 = 1
        t.nt()
        t.hit("missing")
    else:
        d = abs(F(val) - F(norm))
        w1 = 1 if d > F(limit) * min(max(F(std), F(lo)), F(hi)) else 0
        w2 = 1 if d > F(limit) * F(std) and d > F(bar) else 0
        t.nt(c["snap"] in (1, 2, 3))
        t.hit("fails" if w1 else "passes")
        t.hit("lowbar %d%d" % (d > F(limit) * F(std), d > F(bar)))
        # division by 1.5, 3, 5 may round: only exact quotients are judged at equality
        if std not in (0.25, 0.5, 1., 2., 4., 1 / 128., 1 / 1024.) or min(max(std, lo), hi) not in (0.25, 0.5, 1., 2., 4., 8.):
            if d in (F(limit) * min(max(F(std), F(lo)), F(hi)), F(limit) * F(std)):
                return
    expect_eq(qc.climatology_plus_stdev_check(val, norm, std, [lo, hi], limit), w1,
              "value %r normal %r stdev %r limits %r multiplier %r" % (val, norm, std, [lo, hi], limit))
    expect_eq(qc.climatology_plus_stdev_with_lowbar(val, norm, std, limit, bar), w2,
              "value %r normal %r stdev %r multiplier %r lowbar %r" % (val, norm, std, limit, bar))


@law("C08", "spread-limits-refused", std_cases, quick=400)
def _(case, t):
    c = case
    t.nt()
    must_raise(lambda: qc.climatology_plus_stdev_check(1., 2., 1., [c["hi"], c["lo"]], c["limit"]), "limits reversed")
    must_raise(lambda: qc.climatology_plus_stdev_check(1., 2., 1., [c["lo"], c["lo"]], c["limit"]), "limits equal")
    for lim in (0, -c["limit"]):
        must_raise(lambda: qc.climatology_plus_stdev_check(1., 2., 1., [c["lo"], c["hi"]], lim), "multiplier <= 0")
        must_raise(lambda: qc.climatology_plus_stdev_with_lowbar(1., 2., 1., lim, 1.), "multiplier <= 0")
    must_raise(lambda: qc.hard_limit(c["anom"], [c["hi"], c["lo"]]), "hard limits reversed")
    must_raise(lambda: qc.hard_limit(None, [c["hi"], c["hi"]]), "hard limits equal")


@law("C08", "hard-limit-and-freezing", lambda: S().fixed_dictionaries({
    "lo": dyadic(-90, 60), "w": dyadic(0.125, 90), "v": maybe(dyadic(-120, 120), .1), "snap": S().integers(0, 3),
    "k": S().sampled_from(NUDGES), "unc": dyadic(0, 2), "fp": dyadic(-3, 1), "ns": dyadic(0, 4), "td": maybe(dyadic(-5, 5, 2)),
    "dflt": S().booleans()}), quick=5000)
def _(case, t):
    c = case
    lo, hi = c["lo"], c["lo"] + c["w"]
    v = c["v"]
    if c["snap"] == 1 and v is not None:
        v = lo + c["k"] * STEP
    if c["snap"] == 2 and v is not None:
        v = hi + c["k"] * STEP
    want = 1 if v is None or not F(lo) <= F(v) <= F(hi) else 0
    t.nt(v is None or c["snap"] in (1, 2, 3))
    expect_eq(qc.hard_limit(v, [lo, hi]), want, "hard limit of %r in [%r, %r]" % (v, lo, hi))
    # freezing
    s = c["v"]
    line = F(c["fp"]) - F(c["ns"]) * F(c["unc"])
    if c["snap"] == 3 and s is not None:
        s = float(line) + c["k"] * STEP
    want = 1 if s is not None and F(s) < line else 0
    expect_eq(qc.sst_freeze_check(s, c["unc"], c["fp"], c["ns"]), want,
              "freezing check of %r, point %r, uncertainty %r, sigmas %r" % (s, c["fp"], c["unc"], c["ns"]))
    if c["dflt"]:
        for dv in (-1.80, -1.81, -1.79, s):
            w = 1 if dv is not None and F(dv) < F(-1.80) else 0
            expect_eq(qc.sst_freeze_check(dv), w, "freezing check of %r by default" % dv)
            expect_eq(qc.sst_freeze_check(dv, 0.0), w, "freezing check of %r without uncertainty" % dv)
        # default width is two sigma
        dv = -1.80 - 2 * c["unc"]
        expect_eq(qc.sst_freeze_check(dv - 0.01, c["unc"]), 1, "freezing check below two sigma")
        expect_eq(qc.sst_freeze_check(dv + 0.01, c["unc"]), 0, "freezing check above two sigma")
    # supersaturation
    at, td = c["v"], c["td"]
    if at is not None and td is not None:
        td = at + td
    want = 1 if at is None or td is None or td > at else 0
    expect_eq(qc.supersat_check(td, at), want, "supersaturation with dew point %r, air temperature %r" % (td, at))


@law("C08", "position-and-time", lambda: S().fixed_dictionaries({
    "lat": S().one_of(S().sampled_from([90., -90., 90.125, -90.125, 0., 89.875, 90.000001, -90.000001, 89.999999]), dyadic(-400, 400)),
    "lon": S().one_of(S().sampled_from([-180., 360., 180., -180.125, 360.125, 0., 359.875, -180.000001, 360.000001, 359.999999]), dyadic(-800, 800)),
    "hr": maybe(S().one_of(S().sampled_from([0., 24., 23.99, -0.01, 23.875, 24.125, 23.9999999, -1e-7, 24.0000001]), dyadic(-50, 100)))}), quick=3000)
def _(case, t):
    lat, lon, hr = case["lat"], case["lon"], case["hr"]
    want = 0 if -90 <= lat <= 90 and -180 <= lon <= 360 else 1
    t.nt(abs(abs(lat) - 90) < .2 or min(abs(lon + 180), abs(lon - 360)) < .2 or hr is None)
    expect_eq(qc.position_check(lat, lon), want, "position %r, %r" % (lat, lon))
    expect_eq(qc.time_check(hr), 0 if hr is not None and 0 <= hr < 24 else 1, "hour %r" % hr)
    for bad in (None, float("nan")):
        must_raise(lambda: qc.position_check(bad, lon), "latitude %r" % bad)
        must_raise(lambda: qc.position_check(lat, bad), "longitude %r" % bad)


@law("C08", "dates", lambda: S().tuples(
    S().one_of(S().sampled_from([1849, 1850, 1900, 2000, 2024, 2025, 2004]), S().integers(1700, 2200)),
    S().one_of(S().integers(0, 13), S().integers(-3, 30)), maybe(S().one_of(S().sampled_from([28, 29, 30, 31, 32, 0, 1]),
                                                                           S().integers(-5, 60)), .1)).map(list),
     quick=5000)
def _(case, t):
    y, m, d = case
    want = 1
    if d is not None and 1850 <= y <= 2024:
        try:
            date(y, m, d)
            want = 0
        except ValueError:
            pass
    t.nt(d is None or d in (0, 1, 28, 29, 30, 31, 32) or y in (1849, 1850, 2024, 2025))
    expect_eq(qc.date_check(y, m, d), want, "date %r" % (case,))


share("C01", "C08", "dates")


@law("C08", "wind", lambda: S().tuples(S().one_of(S().just(0.), S().just(1e-6), dyadic(0, 40, 2)),
                                       S().one_of(S().sampled_from([0, 1, 359, 360, 361, 362, 363]), S().integers(0, 363)),
                                       dyadic(0, 10, 2), S().integers(-1, 4)).map(list), quick=3000)
def _(case, t):
    w, d, lim, snap = case
    if snap == 1:
        w = lim
    if snap == 2:
        w = lim + 0.5
    if snap == 4:
        w = lim + 2. ** -20
    want = 0
    if d == 361 and w != 0:
        want = 1
    if d == 362 and w > lim:
        want = 1
    t.nt(d in (361, 362))
    expect_eq(qc.wind_consistency(w, d, lim), want, "wind speed %r, direction %r, limit %r" % (w, d, lim))


# -------------------------------------------------------------------------------------------------------- C10

def gauss_mass(a, b, mu, sigma):
    """mass of a normal distribution between a and b by Gauss-Legendre quadrature"""
    a = max(a, mu - 12 * sigma)
    b = min(b, mu + 12 * sigma)
    if b <= a:
        return 0.0
    n = max(1, int((b - a) / sigma) + 1)
    edges = np.linspace(a, b, n + 1)
    x, w = np.polynomial.legendre.leggauss(12)
    total = 0.0
    for lo, hi in zip(edges[:-1], edges[1:]):
        z = (0.5 * (hi - lo) * x + 0.5 * (hi + lo) - mu) / sigma
        total += 0.5 * (hi - lo) * float(np.sum(w * np.exp(-0.5 * z * z)))
    return total / (sigma * math.sqrt(2 * math.pi))


def gross_cases():
    st = S()
    return st.fixed_dictionaries({
        "q": st.sampled_from([0.125, 0.25, 0.5, 1.0, 0.1, 0.3]), "off": st.sampled_from([0., 0., 0.25, 0.5, 0.8]), "n": st.integers(1, 60), "part": st.sampled_from([0., 0., 0.25, 0.5, 0.9]), "lo": dyadic(-10, 10, 2),
        "i": st.floats(0, 1), "edge": st.integers(0, 5), "mu": st.floats(0, 1), "sig": st.floats(0.05, 1.0),
        "p0": st.one_of(st.sampled_from([1., 0.05, 0.5]), st.floats(0.001, 1))})


@law("C10", "probabilities", gross_cases, quick=4000)
def _(case, t):
    """gross errors lie anywhere between half an interval below the lower and half an interval above the upper limit, which
    need not be a whole number of intervals apart"""
    c = case
    q, n, lo = c["q"], c["n"] + c["part"], c["lo"]
    hi = lo + n * q
    i = {0: 0, 1: n}.get(c["edge"], int(round(c["i"] * n)))
    x = min(lo + (i + c["off"]) * q, hi)         # the program hands over averages, not only multiples of the interval
    mu = lo + c["mu"] * n * q
    sigma = max(c["sig"] * n * q, 0.2 * q)
    norm = gauss_mass(lo - q / 2, hi + q / 2, mu, sigma)
    want_good = gauss_mass(x - q / 2, x + q / 2, mu, sigma) / norm
    got_good = qc.p_data_given_good(x, q, hi, lo, mu, sigma)
    expect_close(got_good, want_good, "probability of %r given a good value" % x, tol=1e-7)
    got_gross = qc.p_data_given_gross(q, hi, lo)
    expect_close(got_gross, 1.0 / (n + 1), "probability of a level given a gross error", tol=1e-9)
    pg = qc.p_gross(c["p0"], q, hi, lo, x, mu, sigma)
    t.nt(0.001 < pg < 0.999 or i in (0, n))
    expect(0 <= pg <= 1, "probability %r outside 0-1", pg)
    num = c["p0"] / (n + 1.)
    den = num + (1 - c["p0"]) * want_good
    if den > 1e-6:
        expect_close(pg, num / den, "posterior probability of gross error of %r" % x, tol=1e-6)


@law("C10", "levels-share-one-unit", gross_cases, quick=600)
def _(case, t):
    c = case
    q, n, lo = c["q"], c["n"], c["lo"]
    hi = lo + n * q
    mu = lo + c["mu"] * n * q
    sigma = max(c["sig"] * n * q, 0.2 * q)
    ps = [qc.p_data_given_good(min(lo + i * q, hi), q, hi, lo, mu, sigma) for i in range(n + 1)]
    t.nt(n >= 3)
    expect_close(sum(ps), 1.0, "total probability over all levels", tol=1e-9)
    expect_close((n + 1) * qc.p_data_given_gross(q, hi, lo), 1.0, "total gross probability over all levels", tol=1e-9)
    # the further from the mean, the less likely a good value and the more likely a gross error
    order = sorted(range(n + 1), key=lambda i: abs(lo + i * q - mu))
    pg = [qc.p_gross(0.05, q, hi, lo, min(lo + i * q, hi), mu, sigma) for i in order]
    for a, b in zip(pg[:-1], pg[1:]):
        expect(b >= a - 1e-9, "a value further from the mean is less suspect: %r after %r", b, a)


@law("C10", "refused", gross_cases, quick=300)
def _(case, t):
    c = case
    q, n, lo = c["q"], c["n"], c["lo"]
    hi = lo + n * q
    t.nt()
    mid = (lo + hi) / 2
    for bad in ((-0.01, q, hi, lo, mid, mid, 1.), (1.01, q, hi, lo, mid, mid, 1.), (.05, 0., hi, lo, mid, mid, 1.),
                (.05, q, lo, hi, mid, mid, 1.), (.05, q, lo, lo, lo, mid, 1.), (.05, q, hi, lo, hi + q, mid, 1.),
                (.05, q, hi, lo, lo - q, mid, 1.), (.05, q, hi, lo, mid, mid, 0.), (.05, q, hi, lo, mid, mid, -1.)):
        must_raise(lambda: qc.p_gross(*bad), "p_gross%r" % (bad,))
    for bad in ((q, lo, hi), (q, lo, lo), (0., hi, lo), (-q, hi, lo)):
        must_raise(lambda: qc.p_data_given_gross(*bad), "p_data_given_gross%r" % (bad,))


# -------------------------------------------------------------------------------------------------------- C07

def almanac(when, lat, lon):
    """Elevation, azimuth and declination of the sun in degrees (Astronomical Almanac low-precision formulae)."""
    n = (when - datetime(2000, 1, 1, 12)).total_seconds() / 86400.
    L = 280.460 + 0.9856474 * n
    g = math.radians(357.528 + 0.9856003 * n)
    lam = math.radians(L + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
    eps = math.radians(23.439 - 0.0000004 * n)
    ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
    dec = math.asin(math.sin(eps) * math.sin(lam))
    gmst = 280.46061837 + 360.98564736629 * n
    ha = math.radians(gmst + lon) - ra
    phi = math.radians(lat)
    # the sun as a unit vector in local east, north, up
    e = -math.cos(dec) * math.sin(ha)
    nn = math.sin(dec) * math.cos(phi) - math.cos(dec) * math.cos(ha) * math.sin(phi)
    u = math.sin(phi) * math.sin(dec) + math.cos(phi) * math.cos(dec) * math.cos(ha)
    return (math.degrees(math.asin(max(-1, min(1, u)))), math.degrees(math.atan2(e, nn)) % 360.,
            math.degrees(dec), math.degrees(ra) % 360., math.degrees(ha) % 360.)


def turn(a, b):
    return abs((a - b + 180.) % 360. - 180.)


def tolerance(year):
    # the system counts every fourth year as a leap year, 1900 too: a day off before March 1900
    return 0.06 if 1901 <= year <= 2099 else 0.5


def sun_cases():
    st = S()
    return st.fixed_dictionaries({
        "y": st.one_of(st.integers(1850, 2100), st.sampled_from([1899, 1900, 1901, 1979, 1980, 1981, 1984, 2000, 2004])),
        "doy": st.one_of(st.sampled_from([1, 2, 59, 60, 61, 364, 365, 366]), st.integers(1, 366)),
        "hour": st.one_of(st.sampled_from([0, 1, 2399, 2300, 50, 99, 100]), st.integers(0, 2399)),
        "lat": st.one_of(dyadic(-90, 90, 2), st.integers(-9000, 9000).map(lambda k: k / 100.),
                         st.sampled_from([0., 90., -90., 66.5])),
        "lon": st.one_of(dyadic(-180, 360, 2), st.integers(-18000, 36000).map(lambda k: k / 100.),
                         st.sampled_from([0., 180., -180., 360.])),
        "zone": st.integers(-12, 12), "dst": st.integers(0, 1)})


def sun_date(c):
    last = 366 if c["y"] % 4 == 0 and (c["y"] % 100 or c["y"] % 400 == 0) else 365
    return datetime(c["y"], 1, 1) + timedelta(min(c["doy"], last) - 1)


@law("C07", "position-of-the-sun", sun_cases, quick=5000)
def _(case, t):
    d = sun_date(case)
    h = case["hour"] / 100.
    doy = d.timetuple().tm_yday
    hh = int(math.floor(h))
    mm = (h - hh) * 60.
    lat, lon = case["lat"], case["lon"]
    if abs(lat) < 0.01:
        lat = 0.01
    az, el, rta, hra, sid, dec = qc.sunangle(d.year, doy, hh, mm, 0, 0, 0, lat, lon)
    wel, waz, wdec, wra, wha = almanac(d + timedelta(hours=h), lat, lon)
    t.nt(abs(wel) < 12)
    tol = tolerance(d.year)
    expect_close(el, wel, "elevation of the sun", tol=tol, rel=0)
    expect_close(dec, wdec, "declination of the sun", tol=tol, rel=0)
    expect(turn(rta, wra) < 3 * tol, "right ascension %r, expected %r", rta, wra)
    expect(turn(hra, wha) < 3 * tol, "hour angle %r, expected %r", hra, wha)
    expect(turn(sid, wra + wha) < 3 * tol, "local sidereal time %r, expected %r", sid, wra + wha)
    if abs(wel) < 60 and abs(lat) < 75:
        t.hit("azimuth judged")
        expect(turn(az, waz) < 4 * tol, "azimuth %r, expected %r", az, waz)
    # the same moment told in another time zone, or with summer time
    zone, dst = case["zone"], case["dst"]
    if 0 <= hh - zone + dst < 24:
        t.hit("zone")
        again = qc.sunangle(d.year, doy, hh - zone + dst, mm, 0, zone, dst, lat, lon)
        expect_close(again[1], el, "elevation told in zone %d, summer time %d" % (zone, dst), tol=1e-6)
    # seconds count as seconds
    s2 = qc.sunangle(d.year, doy, hh, mm, 50, 0, 0, lat, lon)[1]
    expect_close(s2, almanac(d + timedelta(hours=h, seconds=50), lat, lon)[0], "elevation 50 s later", tol=tol, rel=0)


@law("C07", "day-or-night", lambda: S().tuples(sun_cases(), S().sampled_from([None, None, None, 1., 0.5, 2., 6.])).map(list),
     quick=6000)
def _(case, t):
    case, since = case
    d = sun_date(case)
    h = case["hour"] / 100.
    lat, lon = case["lat"], case["lon"]
    dh = 1. if since is None else since
    before = d + timedelta(hours=h - dh)
    el = almanac(before, lat, lon)[0]
    t.nt(abs(el) < 12 or before.date() != d.date())
    t.hit("previous day" if before.date() != d.date() else "same day")
    args = [d.year, d.month, d.day, h, lat, lon] + ([] if since is None else [since])
    if since is not None and since != int(since):
        t.hit("half hours")
    got = qc.day_test(*args)
    expect(got in (0, 1), "day test gave %r", got)
    if abs(el) > tolerance(d.year):
        t.hit("day" if el > 0 else "night")
        expect_eq(got, 1 if el > 0 else 0, "day test of %s %r h at %r, %r (sun at %.2f degrees %g h before)" %
                  (d.date(), h, lat, lon, el, dh))


def sunset(up, lat, a, b):
    """the place between a and b on the parallel where up() changes, by halving; None if it does not"""
    ua, ub = up(lat, a), up(lat, b)
    if ua == ub:
        return None
    for _ in range(26):
        m = (a + b) / 2.
        if up(lat, m) == ua:
            a = m
        else:
            b = m
    return (a + b) / 2.


@law("C07", "same-moment-other-words", lambda: S().tuples(sun_cases(), S().sampled_from([1., 2., 3., 12., 23.]), S().integers(0, 1)).map(list),
     quick=600)
def _(case, t):
    """the line between day and night is the same whether the moment is told as so many hours after an earlier one or
    outright; that settles which day it is where a day's movement of the sun is far below the tolerance of the almanac"""
    c, since, late = case
    d = sun_date(c)
    if c["doy"] % 3 == 0:
        d = datetime(c["y"], 1, 1)
    elif c["doy"] % 3 == 1:
        d = datetime(c["y"], 3, 1)
    h = c["hour"] / 100. % since if late else c["hour"] / 100.
    before = d + timedelta(hours=h - since)
    hb = round((h - since) % 24., 6)
    if hb >= 24:
        return
    lat = max(-60., min(60., c["lat"]))
    told = lambda la, lo: qc.day_test(d.year, d.month, d.day, h, la, lo, since)
    outright = lambda la, lo: qc.day_test(before.year, before.month, before.day, hb, la, lo, 0.)
    noon = (180. - 15. * hb + 180.) % 360. - 180.      # roughly
    one, two = sunset(told, lat, noon, noon + 180.), sunset(outright, lat, noon, noon + 180.)
    t.hit("%d day before" % (d - datetime(before.year, before.month, before.day)).days)
    if one is None or two is None:
        expect(False, "no line between day and night at %r on %s", lat, before)
    t.nt(before.date() != d.date())
    # a day's movement of the sun, or a second too many, moves the line by more
    expect(abs(one - two) < 0.0005, "the sun sets at longitude %r %g hours before %s %r h, at %r at %s", one, since, d.date(), h, two, before)


@law("C07", "refused", lambda: S().integers(0, 5), quick=6)
def _(case, t):
    t.nt()
    good = [2003, 6, 15, 12., 10., 20., 1.]
    qc.day_test(*good)
    for k, v in ((1, 0), (1, 13), (2, 0), (2, 32), (3, -1.), (3, 25.), (4, 90.5), (4, -90.5)):
        bad = list(good)
        bad[k] = v
        must_raise(lambda: qc.day_test(*bad), "day test of %r" % (bad,))


# -------------------------------------------------------------------------------------------------------- C36

def values(lo=1, hi=40):
    st = S()
    return st.lists(st.one_of(dyadic(-20, 20, 4), st.sampled_from([-99., 99., 0.])), min_size=lo, max_size=hi)


def lengthened(vals, size, seed):
    """a list of the given size of the values of a shorter one, moved a little"""
    rng = random.Random(seed)
    return [rng.choice(vals) + rng.randint(-8, 8) / 16. for _ in range(size)]


def many_values():
    """mostly short lists, and some as long as a drifter's record"""
    st = S()
    return st.one_of(values(), values(), values(), st.builds(lengthened, values(), st.integers(41, 260), st.integers(0, 2 ** 40)))


@law("C36", "winsorised-mean", many_values, quick=3000)
def _(case, t):
    vals = [F(v) for v in sorted(case)]
    n = len(vals)
    k = n // 4
    want = (sum(vals[k:n - k]) + k * vals[k] + k * vals[n - 1 - k]) / n
    t.nt(n >= 4)
    expect_close(qc.winsorised_mean(list(case)), float(want), "winsorised mean of %r" % case, tol=1e-9)
    rev = list(reversed(case))
    expect_close(qc.winsorised_mean(rev), float(want), "winsorised mean of the reversed list", tol=1e-9)
    if n >= 4:
        # a quarter of the values can be wild without moving the mean beyond the rest
        wild = sorted(case)[:n - k] + [1e6] * k
        expect(qc.winsorised_mean(list(wild)) <= float(vals[n - k - 1]) + 1e-9,
               "a quarter of wild values dragged the winsorised mean of %r", wild)


@law("C36", "trimmed-mean", lambda: S().tuples(many_values(), S().sampled_from([0, 3, 4, 5, 8, 10, 11, 16, 20, 50])).map(list), quick=3000)
def _(case, t):
    vals, trim = case
    s = [F(v) for v in sorted(vals)]
    n = len(s)
    k = n // trim if trim else 0
    kept = s[k:n - k]
    want = sum(kept) / len(kept)
    t.nt(k > 0)
    expect_close(float(qc.trimmed_mean(list(vals), trim)), float(want), "mean of %r trimmed by 1/%d" % (vals, trim), tol=1e-9)


@law("C36", "trimmed-statistics", lambda: S().tuples(many_values(), S().sampled_from([0, 3, 4, 5, 8, 10, 12, 17, 30, 100]), S().integers(0, 50)).map(list), quick=3000)
def _(case, t):
    """those of the tracking checks"""
    vals, trim, turn = case
    s = [F(v) for v in sorted(vals)]
    n = len(s)
    k = n // trim if trim else 0
    kept = s[k:n - k]
    m = sum(kept) / len(kept)
    var = sum((x - m) ** 2 for x in kept) / len(kept)
    t.nt(k > 0)
    turn %= n
    given = list(vals[turn:] + vals[:turn])
    for xs in (given, np.array(given)):
        expect_close(float(tqc.trim_mean(xs, trim)), float(m), "mean of %r trimmed by 1/%d" % (given, trim), tol=1e-9)
        expect_close(float(tqc.trim_std(xs, trim)), math.sqrt(var), "standard deviation of %r trimmed by 1/%d" % (given, trim), tol=1e-7)
        expect_eq(list(xs), given, "the values after their statistics were taken")


@law("C36", "missing-mean-and-filling", lambda: S().lists(maybe(dyadic(-20, 20), .4), min_size=4, max_size=4), quick=2000)
def _(case, t):
    q11, q12, q21, q22 = case
    have = [F(v) for v in case if v is not None]
    want = float(sum(have) / len(have)) if have else None
    got = qc.missing_mean(list(case))
    expect_close(got, want, "mean of %r" % case)
    expect_eq(qc.missing_mean([]), None, "mean of nothing")
    t.nt(0 < len(have) < 4)
    f = qc.fill_missing_vals(q11, q12, q21, q22)

    def fill(own, n1, n2, opp):
        if own is not None:
            return own
        ns = [v for v in (n1, n2) if v is not None]
        return sum(ns) / len(ns) if ns else opp
    want = (fill(q11, q12, q21, q22), fill(q12, q11, q22, q21), fill(q21, q11, q22, q12), fill(q22, q12, q21, q11))
    for g, w in zip(f, want):
        expect_close(g, w, "corners %r filled as %r, expected %r" % (case, f, want))


share("C05", "C36", "missing-mean-and-filling")
