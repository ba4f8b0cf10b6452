"""C01 calendar, C02 time arithmetic, C03 grid cells."""
import itertools
from datetime import date, datetime, timedelta
from fractions import Fraction

import qc
from vlib import S, dyadic, expect, expect_close, expect_eq, law, must_raise, prop

prop("C01", "dates are enumerated (every day of a leap and a common year, every month of 1800-2150) or drawn at random; "
            "non-trivial = a date at a month, pentad, leap-day or year boundary, or a month range spanning a year end",
     ["datetime and calendar arithmetic of the Python standard library"])
prop("C02", "pairs of date-times drawn with clustered years, months and days so that they often share some of them; "
            "non-trivial = the two differ and cross a month, year or leap-day boundary",
     ["datetime of the Python standard library"])
prop("C03", "coordinates drawn on exact binary fractions (many on cell borders, poles, the date line) and at random, "
            "at every resolution the system uses; non-trivial = on a border, pole or date line, or beyond +/-180",
     ["exact rational arithmetic (fractions.Fraction)"])


def all_days():
    for y in (2003, 2004):
        d = date(y, 1, 1)
        while d.year == y:
            yield [d.month, d.day, y]
            d += timedelta(1)


@law("C01", "pentads", all_days, kind="enum")
def _(case, t):
    mo, dy, y = case
    ref = date(2003, 3, 1) if (mo, dy) == (2, 29) else date(2003, mo, dy)
    n = (ref - date(2003, 1, 1)).days + 1
    t.nt(n % 5 in (0, 1) or (mo, dy) == (2, 29))
    expect_eq(qc.day_in_year(mo, dy), n, "day in year of %d/%d" % (mo, dy))
    p = qc.which_pentad(mo, dy)
    expect_eq(p, (n + 4) // 5, "pentad of %d/%d" % (mo, dy))
    expect_eq(int(p), p, "pentad is whole")
    # the start date handed back is the first day of a pentad that contains the day
    m1, d1 = qc.pentad_to_month_day(int(p))
    start = date(2003, m1, d1)
    expect(timedelta(0) <= ref - start <= timedelta(4),
           "pentad %r of %d/%d is said to start on %d/%d", p, mo, dy, m1, d1)
    expect_eq(qc.which_pentad(m1, d1), p, "pentad of its own first day")


@law("C01", "dates-that-do-not-exist", lambda: ([m, d] for m in range(-1, 15) for d in range(-1, 35)), kind="enum")
def _(case, t):
    m, d = case
    try:
        date(2004, m, d)
        ok = True
    except ValueError:
        ok = False
    if not ok:
        t.nt()
        must_raise(lambda: qc.day_in_year(m, d), "day_in_year(%d,%d)" % (m, d))
        must_raise(lambda: qc.which_pentad(m, d), "which_pentad(%d,%d)" % (m, d))
    for y in (1900, 2000, 2003, 2004):
        try:
            want = (date(y, m, d) - date(y, 1, 1)).days + 1
            expect_eq(qc.dayinyear(y, m, d), want, "day of year %d-%d-%d" % (y, m, d))
            prev = date(y, m, d) - timedelta(1)
            expect_eq(tuple(qc.yesterday(y, m, d)), (prev.year, prev.month, prev.day), "yesterday")
        except ValueError:
            must_raise(lambda: qc.dayinyear(y, m, d), "dayinyear(%d,%d,%d)" % (y, m, d))
            expect_eq(tuple(qc.yesterday(y, m, d)), (None, None, None), "day before a day that does not exist")


@law("C01", "pentad-numbers", lambda: ([p] for p in range(-3, 80)), kind="enum")
def _(case, t):
    p = case[0]
    if not 1 <= p <= 73:
        t.nt()
        must_raise(lambda: qc.pentad_to_month_day(p), "pentad %d" % p)
        return
    want = date(2003, 1, 1) + timedelta(5 * (p - 1))
    t.nt(want.day <= 5)
    expect_eq(tuple(qc.pentad_to_month_day(p)), (want.month, want.day), "first day of pentad %d" % p)


@law("C01", "months-of-every-year", lambda: ([y, m] for y in range(1800, 2151) for m in range(1, 13)), kind="enum")
def _(case, t):
    y, m = case
    first = date(y, m, 1)
    prev = first - timedelta(1)
    nxt = (first + timedelta(31)).replace(day=1)
    length = (nxt - first).days
    t.nt(m in (1, 2, 12))
    expect_eq(list(qc.get_month_lengths(y))[m - 1], length, "length of %d-%d" % (y, m))
    expect_eq(len(qc.get_month_lengths(y)), 12, "number of months")
    expect_eq(tuple(qc.last_month_was(y, m)), (prev.year, prev.month), "month before %d-%d" % (y, m))
    expect_eq(tuple(qc.next_month_is(y, m)), (nxt.year, nxt.month), "month after %d-%d" % (y, m))
    expect_eq(tuple(qc.yesterday(y, m, 1)), (prev.year, prev.month, prev.day), "day before %d-%d-1" % (y, m))
    expect_eq(tuple(qc.yesterday(y, m, length)),
              (y, m, length - 1), "day before the last of %d-%d" % (y, m))
    for d in (1, 15, length):
        expect_eq(qc.dayinyear(y, m, d), (date(y, m, d) - date(y, 1, 1)).days + 1, "day of year %d-%d-%d" % (y, m, d))
    must_raise(lambda: qc.dayinyear(y, m, length + 1), "day %d of %d-%d" % (length + 1, y, m))
    expect_eq(qc.month_match(y, m, nxt.year, nxt.month), 0, "month match of different months")
    expect_eq(qc.month_match(y, m, y, m), 1, "month match of one month")
    expect_eq(qc.month_match(y, m, y + 1, m), 0, "month match of different years")


@law("C01", "seasons", lambda: ([m] for m in range(-14, 40)), kind="enum")
def _(case, t):
    m = case[0]
    want = None
    if 1 <= m <= 12:
        want = {0: "DJF", 1: "MAM", 2: "JJA", 3: "SON"}[(m % 12) // 3]
    t.nt(want is None or m in (1, 12))
    expect_eq(qc.season(m), want, "season of month %d" % m)


def ranges():
    st = S()
    return st.tuples(st.integers(1800, 2100), st.integers(1, 12), st.integers(0, 400)).map(list)


@law("C01", "month-ranges", ranges, quick=1200)
def _(case, t):
    y, m, n = case
    k = y * 12 + m - 1 + n
    y2, m2 = k // 12, k % 12 + 1
    got = [tuple(x) for x in itertools.islice(qc.year_month_gen(y, m, y2, m2), n + 5)]
    want = [((y * 12 + m - 1 + i) // 12, (m - 1 + i) % 12 + 1) for i in range(n + 1)]
    t.nt(y2 > y)
    expect_eq(got, want, "months from %d-%d to %d-%d" % (y, m, y2, m2))


@law("C01", "backward-month-ranges", ranges, quick=600)
def _(case, t):
    y, m, n = case
    k = y * 12 + m - 1 - (n % 30) - 1
    y2, m2 = k // 12, k % 12 + 1
    t.nt(y2 == y)

    def run():
        got = list(itertools.islice(qc.year_month_gen(y, m, y2, m2), 3000))
        expect(len(got) == 0, "a range that ends before it starts yielded %d months", len(got))
        raise ValueError("an empty range is fine too")
    must_raise(run, "range %d-%d to %d-%d" % (y, m, y2, m2), (AssertionError, ValueError))


# ------------------------------------------------------------------------------------------- C02

def moment():
    st = S()
    y = st.one_of(st.sampled_from([1899, 1900, 1901, 1999, 2000, 2004, 2005]), st.integers(1700, 2200))
    m = st.one_of(st.sampled_from([1, 2, 3, 12]), st.integers(1, 12))
    return st.tuples(y, m, st.integers(1, 31), st.one_of(st.integers(0, 2399), st.sampled_from([0, 2399])))


def pairs():
    st = S()

    def build(t3):
        a, b, same = t3
        b = list(b)
        for i in range(same):
            b[i] = a[i]
        out = []
        for q in (a, b):
            y, m, d, h = q
            last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
            out.append([y, m, min(d, last[m - 1]), h])
        return out
    return st.tuples(moment(), moment(), st.integers(0, 3)).map(build)


@law("C02", "julian-day", lambda: ([o] for o in range(date(1700, 1, 1).toordinal(), date(2200, 1, 1).toordinal(), 3)),
     kind="enum")
def _(case, t):
    d = date.fromordinal(case[0])
    t.nt(d.day in (1, 28, 29, 30, 31))
    expect_eq(qc.jul_day(d.year, d.month, d.day), case[0] + 1721425, "Julian day of %s" % d)


@law("C02", "time-difference", pairs, quick=8000)
def _(case, t):
    (y1, m1, d1, h1), (y2, m2, d2, h2) = case
    a = datetime(y1, m1, d1) + timedelta(hours=h1 / 100.)
    b = datetime(y2, m2, d2) + timedelta(hours=h2 / 100.)
    want = ((b - a).days * 86400 + (b - a).seconds) / 3600. + (b - a).microseconds / 3.6e9
    t.nt(a != b and (y1, m1) != (y2, m2))
    t.hit("backwards" if b < a else "forwards")
    got = qc.time_difference(y1, m1, d1, h1 / 100., y2, m2, d2, h2 / 100.)
    expect_close(got, want, "hours from %s to %s" % (a, b), tol=2e-5, rel=1e-10)
    back = qc.time_difference(y2, m2, d2, h2 / 100., y1, m1, d1, h1 / 100.)
    expect_close(back, -got, "the difference the other way round", tol=1e-6)
    jd = qc.jul_day(y2, m2, d2) - qc.jul_day(y1, m1, d1)
    expect_eq(jd, (date(y2, m2, d2) - date(y1, m1, d1)).days, "difference of Julian days")
    for hh in ((None, 1.), (1., None), (None, None)):
        expect_eq(qc.time_difference(y1, m1, d1, hh[0], y2, m2, d2, hh[1]), None, "difference with an hour missing")


@law("C02", "hours-out-of-range", pairs, quick=300)
def _(case, t):
    (y1, m1, d1, h1), (y2, m2, d2, h2) = case
    for bad in (24., 24. + h1 / 100., -0.25 - h2):
        t.nt()
        must_raise(lambda: qc.time_difference(y1, m1, d1, bad, y2, m2, d2, h2 / 100.), "hour %r" % bad)
        must_raise(lambda: qc.time_difference(y1, m1, d1, h1 / 100., y2, m2, d2, bad), "hour %r" % bad)


# ------------------------------------------------------------------------------------------- C03
RES = [[1, 1], [1, 2], [1, 4], [1, 20], [5, 1], [2, 1]]


def lat_st():
    st = S()
    return st.one_of(dyadic(-90, 90, 1), dyadic(-90, 90, 4), dyadic(-90, 90, 64), st.floats(-90, 90),
                     st.sampled_from([90., -90., 0., -0.0, 89.99, -89.99, 1e-9, -1e-9]),
                     st.integers(-9000, 9000).map(lambda k: k / 100.))


def lon_st(lo=-180, hi=360):
    st = S()
    return st.one_of(dyadic(lo, hi, 1), dyadic(lo, hi, 4), dyadic(lo, hi, 64), st.floats(lo, hi),
                     st.sampled_from([180., -180., 0., -0.0, 179.99, -179.99, 1e-9, -1e-9]),
                     st.integers(lo * 100, hi * 100).map(lambda k: k / 100.))


def frac(num, den):
    return Fraction(num, den)


def exactly(value, res):
    """(position in cells as an exact fraction, True if floating point cannot blur which cell it is in)"""
    pos = Fraction(value) / res
    near = abs(pos - round(pos))
    exact_res = res.denominator & (res.denominator - 1) == 0 and res.numerator & (res.numerator - 1) == 0
    exact_val = Fraction(value).denominator <= 1 << 12
    return pos, (exact_res and exact_val) or near > Fraction(1, 10 ** 6) or \
        (res.denominator == 1 and exact_val)


@law("C03", "cell-of-a-point", lambda: S().tuples(lat_st(), lon_st(-185, 365), S().sampled_from(RES)).map(list),
     quick=12000)
def _(case, t):
    lat, lon, r = case
    res = frac(*r)
    rarg = r[0] if r[1] == 1 else r[0] / float(r[1])
    ny, nx = int(180 / res), int(360 / res)
    pos, sure = exactly(90 - Fraction(lat), res)
    y = qc.lat_to_yindex(lat, rarg)
    x = qc.lon_to_xindex(lon, rarg)
    expect(int(y) == y and 0 <= y < ny, "row %r of latitude %r outside the grid", y, lat)
    expect(int(x) == x and 0 <= x < nx, "column %r of longitude %r outside the grid", x, lon)
    if sure:
        want = min(int(pos), ny - 1)               # borders go south, except the south pole
        t.nt(pos == int(pos))
        t.hit("lat border" if pos == int(pos) else "lat inside")
        expect_eq(y, want, "row of latitude %r at %r degrees" % (lat, rarg))
    pos, sure = exactly((Fraction(lon) + 180) % 360, res)
    if sure:
        t.nt(pos == int(pos) or not -180 <= lon <= 180)
        t.hit("lon border" if pos == int(pos) else "lon inside")
        expect_eq(x, int(pos) % nx, "column of longitude %r at %r degrees" % (lon, rarg))
    # the centre of the cell is within half a cell of the point
    clat, clon = qc.yindex_to_lat(y, rarg), qc.xindex_to_lon(x, rarg)
    expect(abs(clat - lat) <= rarg / 2. + 1e-6, "cell centre %r is not near latitude %r", clat, lat)
    d = abs((clon - lon + 180.) % 360. - 180.)
    expect(d <= rarg / 2. + 1e-6, "cell centre %r is not near longitude %r", clon, lon)


def cells():
    for r in ([1, 1], [1, 2], [1, 4], [5, 1]):
        ny, nx = 180 * r[1] // r[0], 360 * r[1] // r[0]
        for y in range(-1, ny + 1):
            yield [r, "lat", y]
        for x in range(-1, nx + 1):
            yield [r, "lon", x]


@law("C03", "index-round-trip", cells, kind="enum")
def _(case, t):
    r, which, i = case
    res = frac(*r)
    rarg = r[0] if r[1] == 1 else r[0] / float(r[1])
    n = int((180 if which == "lat" else 360) / res)
    there, back = ((qc.yindex_to_lat, qc.lat_to_yindex) if which == "lat" else
                   (qc.xindex_to_lon, qc.lon_to_xindex))
    t.nt(i < 2 or i > n - 2)
    if not 0 <= i < n:
        must_raise(lambda: there(i, rarg), "%s index %d" % (which, i))
        return
    c = there(i, rarg)
    want = 90 - i * res - res / 2 if which == "lat" else i * res - 180 + res / 2
    expect_eq(float(c), float(want), "centre of %s cell %d" % (which, i))
    expect_eq(back(c, rarg), i, "cell of the centre of %s cell %d" % (which, i))
    if r == [1, 1]:
        m = qc.mds_lat_to_yindex(c) if which == "lat" else qc.mds_lon_to_xindex(c)
        expect_eq(m, i, "MDS cell of the centre of %s cell %d" % (which, i))


@law("C03", "mds-cell-of-a-point", lambda: S().tuples(lat_st(), lon_st(-180, 360),
                                                    S().sampled_from([[1, 1], [1, 4], [5, 1], [1, 2]])).map(list),
     quick=8000)
def _(case, t):
    """Borders: north hemisphere goes north (90 south), south goes south (-90 north), the equator south;
    east goes east (180 west), west goes west (-180 east), the meridian west."""
    lat, lon, r = case
    res = frac(*r)
    rarg = float(res)
    ny, nx = int(180 / res), int(360 / res)
    y = qc.mds_lat_to_yindex(lat, rarg)
    x = qc.mds_lon_to_xindex(lon, rarg)
    p, sure = exactly(abs(Fraction(lat)), res)
    if sure:
        band = min(int(p), ny // 2 - 1)             # cells away from the equator
        want = ny // 2 - 1 - band if lat > 0 else ny // 2 + band
        t.nt(p == int(p))
        t.hit("lat border" if p == int(p) else "lat inside")
        expect_eq(y, want, "MDS row of latitude %r at %r degrees" % (lat, rarg))
    at = Fraction(lon) if lon <= 180 else Fraction(lon) - 360      # 0-360 names the same meridians
    p, sure = exactly(abs(at), res)
    sure = sure and (lon <= 180 or Fraction(lon).denominator <= 1 << 12 or abs(p - round(p)) > Fraction(1, 10 ** 6))
    if sure:
        band = min(int(p), nx // 2 - 1)
        want = nx // 2 + band if at > 0 else nx // 2 - 1 - band
        t.nt(p == int(p))
        t.hit("lon border" if p == int(p) else "lon inside")
        expect_eq(x, want, "MDS column of longitude %r at %r degrees" % (lon, rarg))
