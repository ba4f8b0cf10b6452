"""C06 geometry on the sphere, C11 humidity."""
import decimal
import math

import numpy as np

import CalcHums as ch
import qc
import spherical_geometry as sg
from vlib import S, dyadic, expect, expect_close, expect_eq, law, maybe, must_raise, prop

prop("C06", "pairs and triples of points, uniformly at random and clustered at poles, the date line, the equator, antipodes, "
            "equal points and metres apart, with longitudes from -180 to 360; non-trivial = the points differ and one is "
            "within a degree of a pole or the shorter way between them crosses the date line, or they are nearly antipodal",
     ["3-D vector algebra in double precision"])
prop("C11", "temperatures, dew points and pressures over the range met at sea, with clusters around freezing and "
            "saturation, and missing inputs; non-trivial = below freezing, saturated, or something missing",
     ["the published Buck (1981), Jensen et al. (1990) and Peixoto and Oort (1996) formulae"])

R = 6371.0088


def lat_st():
    st = S()
    return st.one_of(st.integers(-9000, 9000).map(lambda k: k / 100.), st.sampled_from([90., -90., 0., 89.99, -89.99]),
                     st.floats(-90, 90).map(lambda x: round(x, 6)))


def lon_st():
    st = S()
    return st.one_of(st.integers(-18000, 36000).map(lambda k: k / 100.),
                     st.sampled_from([180., -180., 0., 179.99, -179.99, 360., 359.99]),
                     st.floats(-180, 360).map(lambda x: round(x, 6)))


def pair_st():
    st = S()

    def build(q):
        la, lo, lb, lob, kind, e1, e2 = q
        if kind == 0:
            return [la, lo, la, lo]
        if kind == 1:                                     # close by
            return [la, lo, max(-90., min(90., la + e1 / 1000.)), lo + e2 / 1000.]
        if kind == 2:                                     # nearly antipodal
            return [la, lo, max(-90., min(90., -la + e1 / 1000.)), (lo + 180. + e2 / 1000.) % 360. - 180.]
        if kind == 3:                                     # the same longitude told two ways
            return [la, -150., lb, 210.]
        return [la, lo, lb, lob]
    return st.tuples(lat_st(), lon_st(), lat_st(), lon_st(), st.integers(0, 9), st.integers(-1000, 1000),
                     st.integers(-1000, 1000)).map(build)


def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return np.array([math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)])


def angle(u, v):
    return math.atan2(float(np.linalg.norm(np.cross(u, v))), float(np.dot(u, v)))


def interesting(c, d):
    return d > 1e-9 and (abs(c[0]) > 89 or abs(c[2]) > 89 or abs(c[1] - c[3]) > 180 or d > math.pi - 0.05)


@law("C06", "distance", lambda: S().tuples(pair_st(), lat_st(), lon_st(), S().floats(-360, 360)).map(list), quick=4000)
def _(case, t):
    c, lat3, lon3, shift = case
    want = angle(vec(c[0], c[1]), vec(c[2], c[3]))
    t.nt(interesting(c, want))
    got = float(sg.angular_distance(*c))
    expect_close(got, want, "angle between %r" % c, tol=1e-9, rel=0)
    km = float(sg.sphere_distance(*c))
    expect_close(km, want * R, "distance between %r" % c, tol=1e-5, rel=0)
    expect_close(float(sg.sphere_distance(c[2], c[3], c[0], c[1])), km, "distance the other way", tol=1e-6)
    expect_close(float(sg.sphere_distance(c[0], c[1] + shift, c[2], c[3] + shift)), km, "distance after turning the globe",
                 tol=1e-5)
    expect(0 <= km <= math.pi * R + 1e-6, "distance %r", km)
    if c[0] == c[2] and c[1] == c[3]:
        expect(km < 1e-6, "distance %r from a point to itself", km)
    via = float(sg.sphere_distance(c[0], c[1], lat3, lon3)) + float(sg.sphere_distance(lat3, lon3, c[2], c[3]))
    expect(km <= via + 1e-5, "the direct way %r is longer than %r by way of %r", km, via, (lat3, lon3))


@law("C06", "course-leads-there", pair_st, quick=6000)
def _(case, t):
    c = case
    u, v = vec(c[0], c[1]), vec(c[2], c[3])
    d = angle(u, v)
    t.nt(interesting(c, d))
    tc = float(sg.course_between_points(*c))
    expect(tc == tc, "course %r between %r", tc, c)
    expect(-360 <= tc <= 360 + 1e-4, "course %r between %r", tc, c)
    # go along that course for that distance, by vectors
    la, lo = math.radians(c[0]), math.radians(c[1])
    north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0.])
    a = math.radians(tc)
    end = u * math.cos(d) + (north * math.cos(a) + east * math.sin(a)) * math.sin(d)
    tol = 1e-8 + 10 * math.sqrt(1e-15 * abs(math.sin(d)) / max(math.cos(la), 1e-7))
    if math.cos(la) < 1e-7:
        return
    err = angle(end, v)
    expect(err <= tol, "the course %r from %r misses %r by %r km", tc, c[:2], c[2:], err * R)


@law("C06", "destination", lambda: S().tuples(lat_st(), lon_st(), S().one_of(
    S().sampled_from([0., 90., 180., 270., 360.]), S().integers(0, 36000).map(lambda k: k / 100.)), S().one_of(
        S().sampled_from([0., 1., 111.2, R * math.pi / 2, R * math.pi]), S().integers(0, 2000000).map(lambda k: k / 100.)))
    .map(list), quick=6000)
def _(case, t):
    lat, lon, tc, km = case
    la, lo, a, d = math.radians(lat), math.radians(lon), math.radians(tc), km / R
    u = vec(lat, lon)
    north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0.])
    end = u * math.cos(d) + (north * math.cos(a) + east * math.sin(a)) * math.sin(d)
    glat, glon = sg.lat_lon_from_course_and_distance(lat, lon, tc, km)
    t.nt(km > 0 and (abs(lat) > 89 or abs(glat) > 89 or abs(glon) > 170 or abs(lon) > 170))
    expect(-90.000001 <= glat <= 90.000001, "latitude %r", glat)
    # latitude from an arc sine loses half the digits at the poles
    err = angle(vec(float(glat), float(glon)), end)
    expect(err < 1e-7 or abs(lat) > 89.999, "%r km along %r from %r, %r gives %r, %r: %r km off", km, tc, lat, lon, glat, glon, err * R)
    expect_close(float(sg.sphere_distance(lat, lon, glat, glon)),
                 km if km <= math.pi * R else 2 * math.pi * R - km if km <= 2 * math.pi * R else
                 angle(u, end) * R, "distance back", tol=1e-3)


@law("C06", "point-on-the-way", lambda: S().tuples(pair_st(), S().one_of(S().sampled_from([0., 1., 0.5]),
                                                                     S().integers(0, 100).map(lambda k: k / 100.)))
     .map(list), quick=5000)
def _(case, t):
    c, f = case
    u, v = vec(c[0], c[1]), vec(c[2], c[3])
    d = angle(u, v)
    if d > math.pi - 1e-4:
        return
    t.nt(interesting(c, d) and 0 < f < 1)
    lat, lon = sg.intermediate_point(c[0], c[1], c[2], c[3], f)
    w = vec(float(lat), float(lon))
    expect(-90 <= lat <= 90, "latitude %r", lat)
    tol = 1e-7 + 1e-14 / max(math.pi - d, 1e-5)
    expect(abs(angle(u, w) - f * d) < tol and abs(angle(w, v) - (1 - f) * d) < tol,
           "the point %r of the way from %r to %r is %r from the first and %r from the second, of %r in all",
           f, c[:2], c[2:], angle(u, w), angle(w, v), d)
    if d > 0:
        must_raise(lambda: sg.intermediate_point(c[0], c[1], c[2], c[3], 1.25), "a fraction above one")


@law("C06", "angle-between", lambda: S().tuples(S().integers(-360, 360), S().integers(-360, 360), S().integers(0, 9)).map(list), quick=1500)
def _(case, t):
    """of two directions on the circle, each within the same turn"""
    a, b, odd = case
    if abs(a - b) > 360:
        return
    a, b = a + odd / 16., b
    if abs(a - b) > 360:
        return
    want = min(abs(a - b), 360 - abs(a - b))
    t.nt(abs(a - b) > 180)
    expect_close(qc.angle_diff(math.radians(a), math.radians(b)), math.radians(want), "angle between %r and %r degrees" % (a, b), tol=1e-9)
    expect_close(qc.angle_diff(math.radians(b), math.radians(a)), math.radians(want), "angle between %r and %r degrees" % (b, a), tol=1e-9)


@law("C06", "missing-coordinates", lambda: S().tuples(pair_st(), S().integers(0, 3), S().booleans()).map(list), quick=200)
def _(case, t):
    c, i, nan = case
    t.nt()
    c = list(c)
    c[i] = float("nan") if nan else None
    must_raise(lambda: sg.angular_distance(*c), "distance with %r" % (c,))
    must_raise(lambda: sg.sphere_distance(*c), "distance with %r" % (c,))
    must_raise(lambda: sg.course_between_points(*c), "course with %r" % (c,))


# ------------------------------------------------------------------------------------------------------ C11

def buck(x, p, ice):
    if ice:
        return (1.0003 + 4.18e-6 * p) * 6.1115 * math.exp((23.036 - x / 333.7) * x / (279.82 + x))
    return (1.0007 + 3.46e-6 * p) * 6.1121 * math.exp((18.729 - x / 227.3) * x / (257.87 + x))


def wetbulb(e, td, tt, p):
    slope = 409.8 * e / (td + 237.3) ** 2
    gamma = 0.000066 * p
    return (gamma * tt + slope * td) / (gamma + slope)


def model(td, tt, p):
    """vapour pressure, specific humidity, relative humidity, wet bulb and how clear the choice of ice is"""
    w0 = wetbulb(buck(td, p, False), td, tt, p)
    e = buck(td, p, w0 <= 0)
    es = buck(tt, p, tt <= 0)
    return {"vap": e, "sh": 622. * e / (p - 0.378 * e), "rh": 100. * e / es, "wb": wetbulb(e, td, tt, p),
            "clear": min(abs(w0), abs(tt)), "w0": w0}


def rounded(x):
    return float(decimal.Decimal(repr(x)).quantize(decimal.Decimal("0.1"), rounding=decimal.ROUND_HALF_UP))


def check_rounded(got, exact, what):
    if abs(abs(exact) * 10 % 1 - 0.5) < 1e-6:
        expect(abs(got - exact) <= 0.0500001, "%s: %r is not %r to one decimal", what, got, exact)
    else:
        expect_close(got, rounded(exact), what + " to one decimal", tol=1e-9)


def hum_cases():
    st = S()
    temp = st.one_of(st.integers(-400, 450).map(lambda k: k / 10.), st.integers(-40, 40).map(lambda k: k / 10.))
    return st.fixed_dictionaries({
        "t": temp, "dep": st.one_of(st.just(0.), st.integers(0, 300).map(lambda k: k / 10.), st.integers(-20, 10)
                                    .map(lambda k: k / 10.)),
        "p": st.one_of(st.integers(8700, 10800).map(lambda k: k / 10.), st.just(1013.))})


@law("C11", "humidity-formulae", hum_cases, quick=6000)
def _(case, t):
    tt, td, p = case["t"], case["t"] - case["dep"], case["p"]
    m = model(td, tt, p)
    t.nt(m["w0"] <= 0 or case["dep"] <= 0)
    t.hit("ice" if m["w0"] <= 0 else "water")
    if m["clear"] < 1e-6 and tt != 0:
        return
    fns = {"vap": ch.vap, "sh": ch.sh, "rh": ch.rh, "wb": ch.wb}
    for name in ("vap", "sh", "rh", "wb"):
        fn = fns[name]
        got = float(fn(td, tt, p, roundit=False))
        expect_close(got, m[name], "%s(%r, %r, %r)" % (name, td, tt, p), tol=1e-9, rel=1e-9)
        check_rounded(float(fn(td, tt, p)), got, "%s(%r, %r, %r)" % (name, td, tt, p))
        expect_eq(float(fn(td, tt, p, True)), float(fn(td, tt, p)), "%s rounds by default" % name)
    expect_close(float(ch.dpd(td, tt, False)), tt - td, "dew point depression", tol=1e-9)
    check_rounded(float(ch.dpd(td, tt)), tt - td, "dew point depression")


@law("C11", "physical-relations", hum_cases, quick=4000)
def _(case, t):
    tt, p = case["t"], case["p"]
    td = tt - abs(case["dep"])
    t.nt(td <= 0 or td == tt)
    e = float(ch.vap(td, tt, p, False))
    q = float(ch.sh(td, tt, p, False))
    r = float(ch.rh(td, tt, p, False))
    w = float(ch.wb(td, tt, p, False))
    expect(e > 0 and q > 0 and r > 0, "not positive: e %r q %r rh %r", e, q, r)
    expect(r <= 100.0 + 1e-9, "relative humidity %r with dew point %r below temperature %r", r, td, tt)
    if td == tt:
        expect_close(r, 100.0, "relative humidity at saturation", tol=1e-9)
        expect_close(w, tt, "wet bulb at saturation", tol=1e-9)
    expect(td - 1e-9 <= w <= tt + 1e-9, "wet bulb %r outside dew point %r and temperature %r", w, td, tt)
    # specific humidity and vapour pressure are each other's inverse
    expect_close(float(ch.vap_from_sh(q, p, False)), e, "vapour pressure from specific humidity", tol=1e-9)
    expect_close(float(ch.sh_from_vap(e, p, False)), q, "specific humidity from vapour pressure", tol=1e-9)
    check_rounded(float(ch.vap_from_sh(q, p)), e, "vapour pressure from specific humidity")
    check_rounded(float(ch.sh_from_vap(e, p)), q, "specific humidity from vapour pressure")
    # more moisture in the air is more by every measure
    td2 = td - 0.5
    same = (model(td, tt, p)["w0"] > 0.01) == (model(td2, tt, p)["w0"] > -0.01)      # both over ice or both over water
    expect(not same or float(ch.vap(td2, tt, p, False)) < e and float(ch.sh(td2, tt, p, False)) < q and
           float(ch.rh(td2, tt, p, False)) < r, "drier air is not drier by every measure (td %r t %r)", td, tt)
    # dew point comes back from vapour pressure, away from the change from ice to water
    m = model(td, tt, p)
    lo, hi = -80., 60.
    for _i in range(60):                              # dew point over water that has this vapour pressure
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if buck(mid, p, False) < e else (lo, mid)
    west = wetbulb(e, lo, tt, p)
    if abs(m["w0"]) > 0.01 and abs(west) > 0.01 and (west > 0) == (m["w0"] > 0):
        t.hit("dew point back")
        expect_close(float(ch.td_from_vap(e, p, tt, False)), td, "dew point from vapour pressure", tol=1e-6)
        check_rounded(float(ch.td_from_vap(e, p, tt)), float(ch.td_from_vap(e, p, tt, False)), "dew point")


@law("C11", "change-to-ice", lambda: S().tuples(S().one_of(S().integers(-30, 120).map(lambda k: k / 10.), S().floats(-0.02, 15.).map(lambda x: round(x, 6))),
                                               S().integers(8700, 10800).map(lambda k: k / 10.),
                                               S().sampled_from([1e-7, 1e-5, 1e-3])).map(list), quick=800)
def _(case, t):
    """just either side of the dew point at which the wet bulb over water freezes"""
    tt, p, eps = case
    lo, hi = -60., tt
    if tt > 0:
        for _i in range(80):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if wetbulb(buck(mid, p, False), mid, tt, p) <= 0 else (lo, mid)
        if lo < -59:
            return
        t.nt()
        points = [(lo - eps, tt), (lo + eps, tt)]
    else:
        t.nt(abs(tt) < 0.1)
        points = [(tt - 0.5, tt)]
    points += [(-1.5, -eps), (-1.5, eps), (0.5, eps)]         # saturation changes to ice at 0
    for td, x in points:
        m = model(td, x, p)
        for name in ("vap", "sh", "rh", "wb"):
            expect_close(float(getattr(ch, name)(td, x, p, roundit=False)), m[name], "%s(%r, %r, %r)" % (name, td, x, p), tol=1e-9, rel=1e-9)
    # back from vapour pressure: the dew point over water decides
    if tt > 0:
        for td in (lo - eps, lo + eps):
            e = buck(td, p, False)
            back = float(ch.td_from_vap(e, p, tt, False))
            over_ice = buck(back, p, True)
            expect_close(buck(back, p, False) if td > lo else over_ice, e, "vapour pressure of the dew point %r from %r over %s at t %r p %r" % (
                back, e, "water" if td > lo else "ice", tt, p), tol=1e-9)


@law("C11", "missing-inputs", lambda: S().tuples(hum_cases(), S().integers(1, 7), S().booleans()).map(list), quick=300)
def _(case, t):
    c, mask, r = case
    t.nt()
    a = [c["t"] - c["dep"], c["t"], c["p"]]
    a = [None if mask >> i & 1 else v for i, v in enumerate(a)]
    for fn in (ch.vap, ch.sh, ch.rh, ch.wb):
        expect_eq(fn(a[0], a[1], a[2], r), None, "%s%r" % (fn.__name__, tuple(a)))
    if mask & 3:
        expect_eq(ch.dpd(a[0], a[1], r), None, "dpd%r" % (tuple(a[:2]),))
