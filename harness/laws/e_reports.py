"""C09 blacklists and shared call signs, C12 the report store, C13 order and difference of reports, C14 base QC flags."""
import math
from datetime import datetime, timedelta
from fractions import Fraction as F

import CalcHums
import qc
import Extended_IMMA as ex
import ref
from laws.b_thresholds import almanac, tolerance
from vlib import (S, close, dyadic, expect, expect_close, expect_eq, law, maybe, must_raise, prop, share)

prop("C09", "reports placed on, one step inside and one step outside every border of every region, in every listed and "
            "neighbouring year and month, with listed, similar and other identifiers; longitudes told 0-360 or -180-180; "
            "non-trivial = the report is blacklisted (or generic), or misses only one of the conditions")
prop("C12", "reports made from records with any subset of fields and then a random sequence of stores, flags, normals, extra "
            "values and recalculations, compared with a dictionary after every step; non-trivial = at least three kinds of "
            "operation and one overwrite")
prop("C13", "lists of reports with repeated times and identifiers, positions on quarter degrees including poles and the date "
            "line; non-trivial = at least two reports of one identifier out of order or at the same time")
prop("C14", "reports with every field missing or at, inside and outside its limit, all platform types, decks and years named in "
            "the rules; non-trivial = at least one flag of the run is raised",
     ["day or night is not judged within 0.06 degrees of the horizon",
      "calm wind direction with a missing wind speed is not judged"])


# -------------------------------------------------------------------------------------------------------- C09
REGION = {1: (-175, 40, -170, 55), 2: (-165, 40, -160, 60), 3: (-145, 40, -140, 50), 4: (-140, 30, -135, 40),
          5: (-140, 50, -130, 55), 6: (-70, 35, -60, 40), 7: (-50, 45, -40, 50), 8: (5, 70, 10, 80), 9: (0, -10, 10, 0),
          10: (-30, -25, -25, -20), 11: (-60, -50, -55, -45), 12: (75, -20, 80, -15), 13: (50, -30, 60, -20),
          14: (30, -40, 40, -30), 15: (20, 60, 25, 65), 16: (0, -40, 10, -30), 17: (-135, 30, -130, 40)}
YEARS = {1958: "1 2 3 4 5 6 14 15", 1959: "1 2 3 4 5 6 14 15", 1960: "1 2 3 5 6 9 14 15", 1961: "1 2 3 5 6 14 15 16",
         1962: "1 2 3 5 12 13 14 15 16", 1963: "1 2 3 5 6 12 13 14 15 16", 1964: "1 2 3 5 6 12 13 14 16",
         1965: "1 2 6 10 12 13 14 15 16", 1966: "1 2 6 9 14 15 16", 1967: "1 2 5 6 9 14 15", 1968: "1 2 3 5 6 9 14 15",
         1969: "1 2 3 4 5 6 7 8 9 10 13 14 15 16", 1970: "1 2 3 4 5 6 8 9 14 15", 1971: "1 2 3 4 5 6 7 8 9 13 14 16",
         1972: "4 7 8 9 10 11 13 16 17", 1973: "4 7 8 10 11 13 16 17", 1974: "4 7 8 10 11 16 17"}
YEARS = {y: [int(k) for k in s.split()] for y, s in YEARS.items()}
BUOYS = ["535%02d" % k for k in (21, 22, 66, 67, 68, 71, 78, 80, 82, 91, 92, 93, 94, 95, 96, 99)] + \
        ["536%02d" % k for k in range(0, 10)] + ["53901", "53902"]
STEP = 2. ** -10


def listed(ident, deck, year, month, lat, lon, pt):
    if lon > 180:
        lon = lon - 360
    if lat == 0 and lon == 0 or pt == 13 or deck == 874 or ident == "SUPERIGORINA":
        return 1
    if deck == 732:
        for k in YEARS.get(year, []):
            w, s, e, n = REGION[k]
            if w <= lon <= e and s <= lat <= n:
                return 1
    if (year, month) in ((2005, 11), (2005, 12), (2006, 1)) and ident in [b + "    " for b in BUOYS]:
        return 1
    return 0


def black_cases():
    st = S()
    ident = st.one_of(st.sampled_from(BUOYS).map(lambda b: b + "    "),
                      st.sampled_from(["SUPERIGORINA", "53521", "53569    ", "53610    ", "53900    ", None, "SHIP     ",
                                       "GABC     "]))
    return st.fixed_dictionaries({
        "region": st.integers(1, 17), "year": st.integers(1957, 1975), "corner": st.tuples(st.integers(0, 4), st.integers(0, 4)),
        "out": st.tuples(st.sampled_from([-STEP, 0., STEP]), st.sampled_from([-STEP, 0., STEP])),
        "deck": st.sampled_from([732, 732, 732, 732, 731, 733, 874, None, 780]), "east": st.booleans(),
        "id": ident, "month": st.integers(1, 12), "pt": st.sampled_from([5, 5, 5, 5, 7, 13, 12, 14, None]),
        "when": st.sampled_from([None, None, [2005, 10], [2005, 11], [2005, 12], [2006, 1], [2006, 2], [2004, 12], [2005, 1],
                                 [2006, 11], [2006, 12]]),
        "zero": st.sampled_from([None] * 6 + [[0., 0.], [0., 360.], [0., 0.125], [0.125, 0.], [0., 180.], [0., -180.]])})


@law("C09", "blacklist", black_cases, quick=16000)
def _(case, t):
    c = case
    w, s, e, n = REGION[c["region"]]
    lon = w + (e - w) * c["corner"][0] / 4. + c["out"][0]
    lat = s + (n - s) * c["corner"][1] / 4. + c["out"][1]
    year, month = c["year"], c["month"]
    if c["when"]:
        year, month = c["when"]
    if c["zero"]:
        lat, lon = c["zero"]
    if c["east"] and lon < 0 and lon >= -180:
        lon += 360
    want = listed(c["id"], c["deck"], year, month, lat, lon, c["pt"])
    t.nt(want or c["deck"] == 732 or c["when"])
    t.hit("listed" if want else "not listed")
    expect_eq(qc.blacklist(c["id"], c["deck"], year, month, lat, lon, c["pt"]), want, "blacklist of %r" %
              ((c["id"], c["deck"], year, month, lat, lon, c["pt"]),))


@law("C09", "every-region-every-year",
     lambda: ([y, k, i, j, d] for y in range(1955, 1978) for k in REGION for i in (-1, 0, 1, 2, 3) for j in (-1, 0, 1, 2, 3)
              for d in (732, 733)), kind="enum")
def _(case, t):
    y, k, i, j, d = case
    w, s, e, n = REGION[k]
    pick = lambda a, b, m: {-1: a - STEP, 0: a, 1: (a + b) / 2., 2: b, 3: b + STEP}[m]
    lon, lat = pick(w, e, i), pick(s, n, j)
    want = listed("GABC     ", d, y, 6, lat, lon, 5)
    t.nt(want)
    expect_eq(qc.blacklist("GABC     ", d, y, 6, lat, lon, 5), want, "blacklist, deck %d, %d, %r, %r" % (d, y, lat, lon))
    expect_eq(qc.blacklist("GABC     ", d, y, 6, lat, lon + 360 if lon < 0 else lon, 5), want,
              "blacklist, deck %d, %d, %r, %r, longitude 0-360" % (d, y, lat, lon))


GENERIC = ["1", "58", "RIGG", "SHIP", "ship", "PLAT", "", "0120", "0204", "0205", "0206", "0207", "0208", "0209", "MASKST",
           "MASKSTID", "MASK", "XXXX", "/////"]
SOMETIMES = {"2": (1921, 1941), "00002": (1921, 1941), "3": (1930, 1937), "7": (1934, 1954), "00007": (1934, 1954)}


@law("C09", "shared-call-signs",
     lambda: ([i, y] for i in [g.ljust(9) for g in GENERIC] + ["     RIGG", "     SHIP", "     PLAT", None] +
              [g.ljust(9) for g in SOMETIMES] +
              ["4        ", "GABC     ", "0203     ", "0210     ", "Ship     ", "MASKSTI  ", "XXXXX    ", "00003    ", "59       ",
               "12       ", "0001     ", "     MASK"]
              for y in list(range(1915, 1960)) + [1850, 1900, 1990, 2005, 2014]), kind="enum")
def _(case, t):
    i, y = case
    want = i is None or i in [g.ljust(9) for g in GENERIC] or i in ("     RIGG", "     SHIP", "     PLAT")
    if i is not None and i.strip() in SOMETIMES:
        a, b = SOMETIMES[i.strip()]
        want = a <= y <= b
        t.hit("year matters")
    t.nt(want)
    expect_eq(bool(qc.id_is_generic(i, y)), want, "identifier %r in %d generic" % (i, y))


# -------------------------------------------------------------------------------------------------------- C12
NUMERIC = ["YR", "MO", "DY", "HR", "LAT", "LON", "DS", "VS", "SLP", "AT", "AT2", "SST", "DCK", "PT", "SID", "DPT", "SHU", "VAP",
           "CRH", "CWB", "DPD", "W", "WI", "D", "DI", "WW"]
WHOLE = ["YR", "MO", "DY", "DS", "VS", "DCK", "PT", "SID"]
QCTYPES = ["POS", "SST", "AT", "AT2", "DPT", "SLP", "W", "D", "SHU", "CRH"]
FLAGS = ["noval", "clim", "day", "trk", "bud", "buddy_check"]


def value_of(name):
    st = S()
    return {"YR": st.one_of(st.integers(1700, 2100), st.integers(1965, 1970)), "MO": st.integers(-1, 14), "DY": st.integers(-1, 33),
            "HR": st.one_of(dyadic(-1, 25, 16), st.sampled_from([0., 23.99, 24., 12.])), "LAT": dyadic(-90, 90),
            "LON": st.one_of(dyadic(-180, 360), st.sampled_from([180., 180.125, 360.])), "DS": st.integers(0, 9),
            "VS": st.integers(0, 9), "DCK": st.integers(0, 999), "PT": st.integers(0, 21), "SID": st.integers(0, 200),
            }.get(name, dyadic(-90, 1100))


def store_ops():
    st = S()
    pair = st.sampled_from(NUMERIC).flatmap(lambda n: st.tuples(st.just(n), maybe(value_of(n), .15)))
    text = st.sampled_from(["SHIP     ", "A        ", "12345    ", None, "ABCDEFGHI"])
    return st.one_of(
        pair.map(lambda p: ["set", p[0], p[1]]),
        st.sampled_from(["YR", "MO", "DY", "HR"]).flatmap(lambda n: value_of(n).map(lambda v: ["set", n, v])),
        st.tuples(st.sampled_from(["ID", "UID"]), text).map(lambda p: ["set", p[0], p[1]]),
        st.tuples(st.sampled_from(QCTYPES), st.sampled_from(FLAGS), st.integers(0, 9)).map(lambda p: ["qc"] + list(p)),
        st.tuples(st.sampled_from(["SST", "AT", "XXX"]), st.sampled_from(FLAGS), st.sampled_from([-1, 10, 99, None])).map(
            lambda p: ["badqc"] + list(p)),
        st.tuples(st.sampled_from(["SST", "AT", "AT2", "DPT", "SLP", "SHU"]), maybe(dyadic(-30, 60)),
                  maybe(st.sampled_from([0.5, 1., 2., 4., 0.]))).map(lambda p: ["norm"] + list(p)),
        st.tuples(st.sampled_from(["ICE", "OSTIA", "speed", "other"]), maybe(dyadic(-30, 60))).map(lambda p: ["ext"] + list(p)),
        st.tuples(st.sampled_from(["SST", "AT", "AT2", "DPT", "SLP", "SHU"]), st.sampled_from(["clim", "stdev"]),
                  st.sampled_from([0.5, 2., 0., -1.5])).map(lambda p: ["renorm"] + list(p)),
        st.just(["reset"]))


def store_cases():
    st = S()
    first = st.fixed_dictionaries({}, optional={n: maybe(value_of(n), .1) for n in NUMERIC}).flatmap(
        lambda d: st.tuples(st.just(d), st.sampled_from([None, "GABC     ", "A"]), st.sampled_from([None, "UIDABC"])))
    return st.tuples(first, st.lists(store_ops(), min_size=0, max_size=14)).map(
        lambda p: [p[0][0], p[0][1], p[0][2], p[1]])


def decode_wind(model):
    ds, vs, yr = model["DS"], model["VS"], model["YR"]
    dsi = None if ds is None or ds == 9 else 45 * ds
    vsi = None
    if vs is not None:
        vsi = 0. if vs == 0 else 5. * vs - 2 if yr is not None and yr >= 1968 else 3. * vs - 1
    return dsi, vsi


def check_store(rep, m, t):
    for n in NUMERIC:
        got, want = rep.getvar(n), m[n]
        if want is None:
            expect(got is None, "%s should be missing, is %r", n, got)
        else:
            expect(got is not None and got == want, "%s is %r, stored %r", n, got, want)
            if n in WHOLE:
                expect(isinstance(got, int), "%s came back as %s", n, type(got).__name__)
    expect_eq(rep.getvar("ID"), m["ID"], "identifier")
    expect_eq(rep.getvar("UID"), m["UID"], "unique identifier")
    expect(rep.getvar("NOSUCH") is None, "a variable that was never stored is %r", rep.getvar("NOSUCH"))
    for (a, b), v in m["qc"].items():
        expect_eq(rep.get_qc(a, b), v, "flag %s %s" % (a, b))
    for a in QCTYPES:
        for b in FLAGS:
            if (a, b) not in m["qc"]:
                expect_eq(rep.get_qc(a, b), 9, "flag %s %s, never set" % (a, b))
    for n in ["SST", "AT", "AT2", "DPT", "SLP", "SHU", "W"]:
        clim, sd = m["norm"].get(n, (None, None))
        expect_eq(rep.getnorm(n), clim, "normal of %s" % n)
        expect_eq(rep.getnorm(n, "clim"), clim, "normal of %s" % n)
        expect_eq(rep.getnorm(n, "stdev"), sd, "spread of %s" % n)
        an = None if clim is None or m[n] is None else m[n] - clim
        expect_eq(rep.getanom(n), an, "anomaly of %s" % n)
        if an is not None and sd == 0:
            continue        # without any spread no anomaly is standard
        expect_eq(rep.get_normalised_anom(n), None if an is None or sd is None else an / sd, "standardised anomaly of %s" % n)
    for n, v in m["ext"].items():
        expect_eq(rep.getext(n), v, "extra value %s" % n)
        expect_eq(rep.getvar(n), v, "extra value %s, read as a variable" % n)
    for n in ["ICE", "OSTIA", "speed", "other"]:
        if n not in m["ext"]:
            must_raise(lambda: rep.getext(n), "reading extra value %s, never stored" % n)
    when = ref.moment(m) if m["HR"] is not None and 0 <= m["HR"] < 24 else None
    if when is None:
        expect(rep.dt is None, "date and time %r of a report without any", rep.dt)
    else:
        expect(rep.dt is not None and abs((rep.dt - when).total_seconds()) < 1, "date and time %r, not %r", rep.dt, when)
    if m["LAT"] is not None:
        expect_eq(rep.lat(), m["LAT"], "latitude")
    if m["LON"] is not None:
        expect_eq(rep.lon(), m["LON"] - 360 if m["LON"] > 180 else m["LON"], "longitude in -180 to 180")
    expect_eq(rep.saturated(), m["AT"] is not None and m["AT"] == m["DPT"], "saturated air")


@law("C12", "model", store_cases, quick=3000)
def _(case, t):
    first, ident, uid, ops = case
    data = dict(first)
    if ident is not None:
        data["ID"] = ident
    if uid is not None:
        data["UID"] = uid
    data["XYZ"] = 3.      # a field of the record that a report does not hold
    rep = ex.MarineReport(ref.Record(dict(data)))
    other = ex.MarineReportQC(ref.Record(dict(data)))
    m = {n: first.get(n) for n in NUMERIC}
    m.update(ID=ident, UID=uid, qc={}, norm={}, ext={})
    m["ext"]["dsi"], m["ext"]["vsi"] = decode_wind(m)
    check_store(rep, m, t)
    seen, kinds = set(), set()
    for op in ops:
        kinds.add(op[0])
        key = tuple(op[:2 if op[0] in ("set", "norm", "ext") else 3])
        t.nt(key in seen and len(kinds) >= 3)
        seen.add(key)
        t.hit(op[0])
        if op[0] == "set":
            rep.setvar(op[1], op[2])
            m[op[1]] = op[2]
        elif op[0] == "qc":
            rep.set_qc(op[1], op[2], op[3])
            m["qc"][(op[1], op[2])] = op[3]
        elif op[0] == "badqc":
            must_raise(lambda: rep.set_qc(op[1], op[2], op[3]), "flag value %r" % op[3])
            must_raise(lambda: rep.set_qc("XXX", op[2], 1), "flag of unknown kind")
        elif op[0] == "norm":
            rep.add_climate_variable(op[1], op[2], op[3])
            m["norm"][op[1]] = (op[2], op[3])
        elif op[0] == "renorm":
            if op[1] in m["norm"] and not (op[2] == "stdev" and op[3] <= 0):
                var = rep.climate_variables[op[1]]
                var.setclim(op[3], op[2])
                expect_eq(var.getclim(op[2]), op[3], "%s just stored" % op[2])
                clim, sd = m["norm"][op[1]]
                m["norm"][op[1]] = (op[3], sd) if op[2] == "clim" else (clim, op[3])
                t.hit("renorm done")
        elif op[0] == "ext":
            rep.setext(op[1], op[2])
            m["ext"][op[1]] = op[2]
        elif op[0] == "reset":
            rep.reset_ext()
            m["ext"] = {}
            m["ext"]["dsi"], m["ext"]["vsi"] = decode_wind(m)
        check_store(rep, m, t)
    # a report made from the same record shares nothing with the one that was changed
    m = {n: first.get(n) for n in NUMERIC}
    m.update(ID=ident, UID=uid, qc={}, norm={}, ext={})
    m["ext"]["dsi"], m["ext"]["vsi"] = decode_wind(m)
    check_store(other, m, t)


@law("C12", "reported-course-and-speed", lambda: ([y, d, v] for y in list(range(1850, 2026)) + [None] for d in [None] + list(range(10))
                                                 for v in [None] + list(range(10))
                                                 if y is None or 1964 <= y <= 1972 or d == v or d is None or v is None), kind="enum")
def _(case, t):
    """codes of course and speed, whose meaning changed with 1968"""
    y, d, v = case
    if y is None and v is not None:
        return
    t.nt(v is not None)
    rep = ref.make(ex.MarineReportQC, ID="A", YR=y, MO=1, DY=1, HR=1., LAT=0., LON=0., DS=d, VS=v)
    want = list(decode_wind({"DS": d, "VS": v, "YR": y}))
    expect_eq([rep.getvar("dsi"), rep.getvar("vsi")], want, "course and speed of codes %r and %r in %r" % (d, v, y))


@law("C12", "humidity-variables", lambda: S().fixed_dictionaries({
    "at": maybe(S().integers(-200, 450).map(lambda k: k / 10.), .1), "dep": S().one_of(S().integers(-120, 400), S().integers(0, 60)),
    "nodpt": S().integers(0, 9), "slp": maybe(S().integers(9300, 10600).map(lambda k: k / 10.), .1),
    "before": S().booleans()}), quick=2000)
def _(case, t):
    c = case
    at = c["at"]
    dpt = None if c["nodpt"] == 0 or at is None else round(at - c["dep"] / 10., 1)
    rep = ref.make(ex.MarineReport, ID="A", YR=2000, MO=1, DY=1, HR=1., LAT=0., LON=0., AT=at, DPT=dpt)
    names = ["SHU", "VAP", "CRH", "CWB", "DPD"]
    if c["before"]:
        for n in names:
            rep.setvar(n, 99.)
    rep.add_climate_variable("SLP", c["slp"])
    rep.calculate_humidity_variables(names)
    if at is None or dpt is None or c["slp"] is None:
        want = [None] * 5
    else:
        want = [CalcHums.sh(dpt, at, c["slp"]), CalcHums.vap(dpt, at, c["slp"]), CalcHums.rh(dpt, at, c["slp"]),
                CalcHums.wb(dpt, at, c["slp"]), CalcHums.dpd(dpt, at)]
        if not 0 <= want[2] <= 150:
            want = [None] * 5
            t.hit("silly")
    t.nt(want[0] is not None or c["before"])
    for n, w in zip(names, want):
        expect_eq(rep.getvar(n), w, "%s of air %r, dew point %r, normal pressure %r" % (n, at, dpt, c["slp"]))
    must_raise(lambda: rep.calculate_humidity_variables(["SHU", "SST"]), "humidity variables that are none")


share("C11", "C12", "humidity-variables")


# -------------------------------------------------------------------------------------------------------- C13

DATES = [[1899, 12, 31], [1900, 1, 1], [1900, 2, 28], [1900, 3, 1], [2003, 12, 31], [2004, 1, 1], [2004, 2, 28], [2004, 2, 29],
         [2004, 3, 1], [2004, 12, 30], [2004, 12, 31], [2005, 1, 1], [2005, 1, 2], [2005, 6, 15]]


def order_cases():
    st = S()
    rec = st.fixed_dictionaries({
        "ID": st.sampled_from(["A        ", "B        ", "AB       ", "1        ", "a        ", None]), "date": st.sampled_from(DATES), "HR": st.sampled_from([0., 6., 6.01, 6.02, 6.25, 23.75, 23.99]),
        "LAT": st.one_of(dyadic(-90, 90, 4), st.sampled_from([90., -90., 0.])),
        "LON": st.one_of(dyadic(-180, 360, 4), st.sampled_from([180., -180., 179.75, -179.75, 0., 360.]))})
    def dated(d):
        d["YR"], d["MO"], d["DY"] = d.pop("date")
        return d
    return st.lists(rec.map(dated), min_size=1, max_size=9)


@law("C13", "order", order_cases, quick=3000)
def _(case, t):
    reps = [ref.make(ex.MarineReport, **r) for r in case]
    keys = [(r["ID"] or "", ref.hours(r)) for r in case]      # a report without one before all others
    for a, ka in zip(reps, keys):
        for b, kb in zip(reps, keys):
            what = "reports %r and %r" % (ka, kb)
            expect_eq(a == b, ka == kb, "equality of " + what)
            expect_eq(a > b, ka > kb, "first after second, " + what)
            expect_eq(a < b, ka < kb, "first before second, " + what)
            expect_eq(a >= b, ka >= kb, "first not before second, " + what)
            expect_eq(a <= b, ka <= kb, "first not after second, " + what)
            if ka[0] == kb[0]:
                t.nt(a is not b)
    got = [id(r) for r in sorted(reps)]
    want = [id(reps[i]) for i in sorted(range(len(reps)), key=lambda i: keys[i])]
    expect_eq(got, want, "reports sorted by identifier and time, those of one moment in the order they came in")


@law("C13", "difference", order_cases, quick=3000)
def _(case, t):
    reps = [ref.make(ex.MarineReport, **r) for r in case]
    for i in range(len(reps) - 1):
        a, b = case[i], case[i + 1]
        speed, dist, course, dt = reps[i + 1] - reps[i]
        want_t = ref.hours(b) - ref.hours(a)
        want_d = ref.km(a["LAT"], a["LON"], b["LAT"], b["LON"])
        expect_close(dt, want_t, "hours from the first report to the second", tol=1e-6)
        expect_close(dist, want_d, "distance from %r to %r" % (a, b), tol=1e-3, rel=1e-6)
        expect_close(speed, want_d / want_t if want_t else want_d, "speed", tol=1e-3, rel=1e-5)
        w = ref.course(a["LAT"], a["LON"], b["LAT"], b["LON"])
        t.nt(want_d > 1 and want_t != 0)
        if w is not None and 1 < want_d < 20000 and abs(a["LAT"]) < 89.9:
            expect(abs((course - w + 180) % 360 - 180) < 0.05, "course from %r to %r: %r, expected %r", a, b, course, w)
        back = reps[i] - reps[i + 1]
        expect_close(back[1], dist, "distance back", tol=1e-6)
        expect_close(back[3], -want_t, "hours back", tol=1e-6)


# -------------------------------------------------------------------------------------------------------- C14
PARAMS = {
    "base": {"time_since_sun_above_horizon": 1.0},
    "SST": {"freezing_point": -1.80, "freeze_check_n_sigma": 2.0, "maximum_anomaly": 8.0, "hard_limits": [-5.0, 45.0]},
    "AT": {"maximum_anomaly": 10.0, "maximum_standardised_anomaly": 5.0, "minmax_standard_deviation": [1.0, 4.0],
           "hard_limits": [-80., 65.]},
    "DAT": {"maximum_anomaly": 9.0, "hard_limits": [-70., 60.]},
    "DPT": {"maximum_standardised_anomaly": 3.0, "minmax_standard_deviation": [1.0, 4.0], "hard_limits": [-75., 60.]},
    "SHU": {"hard_limits": [0., 40.]}, "RH": {"hard_limits": [0., 120.]},
    "SLP": {"maximum_anomaly": 50., "maximum_standardised_anomaly": 3.0, "lowbar": 10., "hard_limits": [870., 1090.]},
    "W": {"hard_limits": [0., 50.], "variable_limit": 3.0},
}
OTHER = {
    "base": {"time_since_sun_above_horizon": 2.5},
    "SST": {"freezing_point": -2.25, "freeze_check_n_sigma": 3.0, "maximum_anomaly": 6.5, "hard_limits": [-4.0, 40.5]},
    "AT": {"maximum_anomaly": 7.5, "maximum_standardised_anomaly": 4.5, "minmax_standard_deviation": [1.5, 3.0],
           "hard_limits": [-60., 55.5]},
    "DAT": {"maximum_anomaly": 11.0, "hard_limits": [-50., 65.]},
    "DPT": {"maximum_standardised_anomaly": 3.5, "minmax_standard_deviation": [.75, 5.0], "hard_limits": [-45., 50.5]},
    "SHU": {"hard_limits": [1., 35.]}, "RH": {"hard_limits": [5., 105.]},
    "SLP": {"maximum_anomaly": 40., "maximum_standardised_anomaly": 2.5, "lowbar": 8., "hard_limits": [880., 1070.]},
    "W": {"hard_limits": [.5, 41.], "variable_limit": 2.5},
}
SETS = [PARAMS, OTHER]


def around(*xs):
    st = S()
    pts = []
    for x in xs:
        pts += [x, x - STEP, x + STEP]
    return st.sampled_from(pts)


def base_cases():
    st = S()

    def clim(norm, sd, reach):
        return st.tuples(maybe(st.one_of(norm, norm, norm, st.just(0.)), .08), maybe(sd, .1), st.one_of(*[around(r, -r) for r in reach]))
    sd = st.sampled_from([0.5, 1., 2., 4., 8.])
    return st.fixed_dictionaries({
        "ID": st.sampled_from(["GABC     ", "53521    ", "SHIP     ", None, "SUPERIGORINA"]),
        "YR": st.one_of(st.sampled_from([1849, 1850, 1859, 1860, 1879, 1880, 1885, 1892, 1893, 1965, 2005, 2006, 2024, 2025]),
                        st.integers(1850, 2020)),
        "MO": st.one_of(st.integers(1, 12), st.sampled_from([0, 13, 1, 11, 12])),
        "DY": maybe(st.one_of(st.integers(1, 31), st.sampled_from([0, 29, 30, 31, 32])), .08),
        "HR": maybe(st.one_of(dyadic(0, 23.75, 4), st.sampled_from([24., -0.25, 0.])), .15),
        "LAT": st.one_of(dyadic(-90, 90, 2), dyadic(-15, 60, 2), st.sampled_from([90.125, -90.125, 40., 55., 35., 45., -10., 15., 5., 0.])),
        "LON": st.one_of(dyadic(-180, 360, 2), dyadic(-82, 110, 2), st.sampled_from([360.125, -180.125, -80., 0., 30., 45., 95., 105., 280.])),
        "PT": maybe(st.integers(0, 21), .08),
        "DCK": st.sampled_from([193, 193, 193, 701, 701, 708, 732, 780, 780, 874, 892, 555]),
        "set": st.sampled_from([0, 0, 1]),
        # the distance from the normal in place of one of these is that of the set of limits in use
        "sst": clim(dyadic(-3, 32), sd, [0., 1.]), "at": clim(dyadic(-30, 32), sd, [0., 1.]),
        "at2": clim(dyadic(-30, 32), sd, [0., 1., 2., 3.]), "dpt": clim(dyadic(-30, 32), sd, [0., 1., 2., 3.]),
        "slp": clim(dyadic(980, 1030), sd, [0., 1., 2., 3.]),
        "dat": clim(dyadic(-30, 32), sd, [0., 1.]),
        "hard": st.lists(st.tuples(st.sampled_from(["SST", "AT", "AT2", "DPT", "SHU", "CRH", "W", "DAT"]), around(0., 1., 2., 3.)),
                         max_size=2),
        "miss": st.lists(st.sampled_from(["SST", "AT", "AT2", "DPT", "SLP", "SHU", "CRH", "W", "D", "DAT"]), max_size=3),
        "freeze": st.one_of(st.none(), st.none(), st.sampled_from([0., -.01, .01])),
        "near": st.one_of(st.none(), st.none(), st.none(), around(0.)),
        "SHU": dyadic(0, 39), "CRH": dyadic(0, 119), "W": st.one_of(st.just(0.), dyadic(0, 6), dyadic(0, 49)),
        "D": st.one_of(st.sampled_from([361, 362]), st.integers(1, 360))})


HARD = {"SST": "SST", "AT": "AT", "AT2": "AT", "DPT": "DPT", "SHU": "SHU", "CRH": "RH", "W": "W", "DAT": "DAT"}


def reached(p, name, sd, code):
    """the distance from the normal a code stands for: a limit, and a little"""
    k = int(round(code))
    more = code - k
    if name in ("SST", "AT", "DAT"):
        at = [0., p[name]["maximum_anomaly"]]
    elif name == "SLP":
        at = [0., p["SLP"]["maximum_standardised_anomaly"] * (sd or 1.), p["SLP"]["lowbar"], 12.]
    else:
        q = p["AT" if name == "AT2" else name]
        lo, hi = q["minmax_standard_deviation"]
        at = [0.] + [q["maximum_standardised_anomaly"] * x for x in (min(max(sd or 1., lo), hi), lo, hi)]
    return (-at[-k] if k < 0 else at[k]) + more


def base_report(c):
    p = SETS[c["set"]]
    d = {k: c[k] for k in ("ID", "YR", "MO", "DY", "HR", "LAT", "LON", "PT", "DCK", "SHU", "CRH", "W", "D")}
    norms = {}
    for low, name in (("sst", "SST"), ("at", "AT"), ("at2", "AT2"), ("dpt", "DPT"), ("slp", "SLP"), ("dat", "DAT")):
        norm, sdev, an = c[low]
        norms[name] = (norm, sdev)
        d[name] = (15. if norm is None else norm) + reached(p, name, sdev, an)
    for name, at in c["hard"]:
        lo, hi = p[HARD[name]]["hard_limits"]
        d[name] = {0.: lo, 1.: hi, 2.: hi, 3.: lo}[round(at)] + (at - round(at))
    if c["freeze"] is not None:
        d["SST"] = p["SST"]["freezing_point"] + c["freeze"]
    if c["near"] is not None:
        d["DPT"] = d["AT2"] + c["near"]
    for name in c["miss"]:
        d[name] = None
    return d, norms


def out_of(x, lim):
    return int(x is None or not lim[0] <= x <= lim[1])


def far(x, norm, limit):
    return int(x is None or norm is None or abs(F(x) - F(norm)) > F(limit))


def far_sd(x, norm, sd, clamp, limit):
    if x is None or norm is None or sd is None:
        return 1
    return int(abs(F(x) - F(norm)) > F(limit) * min(max(F(sd), F(clamp[0])), F(clamp[1])))


def expected_flags(d, norms, P=PARAMS):
    """flag -> value, or a set of values where either is accepted"""
    w = {}
    lat, lon, yr, mo, dy, hr, pt, dck = [d[k] for k in ("LAT", "LON", "YR", "MO", "DY", "HR", "PT", "DCK")]
    if dck == 701 and yr < 1860 and hr is None:
        hr = 0.
    w["hour"] = hr
    w["POS", "isbuoy"] = int(pt in (6, 7))
    w["POS", "isdrifter"] = int(pt == 7)
    w["POS", "isship"] = int(pt in (0, 1, 2, 3, 4, 5, 10, 11, 12, 17))
    w["POS", "is780"] = int(dck == 780)
    w["POS", "pos"] = int(not (-90 <= lat <= 90 and -180 <= lon <= 360))
    w["POS", "date"] = 0
    try:
        datetime(yr, mo, dy)
        if not 1850 <= yr <= 2024:
            w["POS", "date"] = 1
    except (TypeError, ValueError):
        w["POS", "date"] = 1
    w["POS", "time"] = int(hr is None or not 0 <= hr < 24)
    l180 = lon - 360 if lon > 180 else lon
    if w["POS", "pos"] or w["POS", "date"] or w["POS", "time"]:
        w["POS", "day"] = 1
    else:
        el = almanac(datetime(yr, mo, dy) + timedelta(hours=hr - P["base"]["time_since_sun_above_horizon"]), lat, l180)[0]
        w["POS", "day"] = {0, 1} if abs(el) <= tolerance(yr) else int(el > 0)
    w["POS", "blklst"] = listed(d["ID"], dck, yr, mo, lat, l180, pt)
    w["DPT", "hum_blacklist"] = int(pt not in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15))
    bad = pt == 5 and dck == 780
    if dck == 193 and 1880 <= yr <= 1892:
        for a, b, s, n in ((-80, 0, 40, 55), (-10, 30, 35, 45), (15, 45, -10, 40), (15, 95, -10, 15), (95, 105, -10, 5)):
            bad = bad or a <= l180 <= b and s <= lat <= n
    w["AT", "mat_blacklist"] = int(bad)
    w["W", "wind_blacklist"] = int(dck in (708, 780))
    n = lambda k: norms[k][0]
    for k in ("SST", "AT", "AT2", "DPT", "SLP", "W", "DAT"):
        w[k, "noval"] = int(d[k] is None)
    for k in ("SST", "AT", "AT2", "DPT", "SLP", "DAT"):
        w[k, "nonorm"] = int(n(k) is None)
    for k in ("SST", "AT", "DAT"):
        w[k, "clim"] = far(d[k], n(k), P[k]["maximum_anomaly"])
    for k in ("SST", "AT", "W", "DAT"):
        w[k, "hardlimit"] = out_of(d[k], P[k]["hard_limits"])
    w["AT2", "hardlimit"] = out_of(d["AT"], P["AT"]["hard_limits"])
    w["SST", "freez"] = int(d["SST"] is not None and d["SST"] < P["SST"]["freezing_point"])
    for k, p in (("AT2", "AT"), ("DPT", "DPT")):
        w[k, "clim"] = far_sd(d[k], n(k), norms[k][1], P[p]["minmax_standard_deviation"], P[p]["maximum_standardised_anomaly"])
    x, m, s = d["SLP"], n("SLP"), norms["SLP"][1]
    w["SLP", "clim"] = int(x is None or m is None or s is None or
                           abs(F(x) - F(m)) > F(P["SLP"]["maximum_standardised_anomaly"]) * F(s) and
                           abs(F(x) - F(m)) > F(P["SLP"]["lowbar"]))
    w["DPT", "ssat"] = int(d["DPT"] is None or d["AT2"] is None or d["DPT"] > d["AT2"])
    w["DPT", "hardlimit"] = max(out_of(d[k], P[p]["hard_limits"]) for k, p in
                                (("AT", "AT"), ("DPT", "DPT"), ("SHU", "SHU"), ("CRH", "RH")))
    ws, wd = d["W"], d["D"]
    w["W", "consistency"] = {0, 1} if ws is None and wd == 361 else \
        int(wd == 361 and ws != 0 or wd == 362 and ws is not None and ws > P["W"]["variable_limit"])
    return w


RUNS = {
    "perform_base_qc": ["POS", "SST", "AT", "AT2", "DPT", "SLP", "W"],
    "perform_base_sst_qc": ["POS", "SST"], "perform_base_slp_qc": ["POS", "SLP"],
    "perform_base_wind_qc": ["POS", "W"], "perform_base_dat_qc": ["POS", "DAT"],
}


@law("C14", "missing-hours", lambda: ([yr, dck, hr, run] for yr in (1850, 1853, 1858, 1859, 1860, 1861, 1899, 2000)
                                      for dck in (193, 700, 701, 702, 201) for hr in (None, 0., 5.) for run in sorted(RUNS)), kind="enum")
def _(case, t):
    yr, dck, hr, run = case
    d = {"ID": "A        ", "YR": yr, "MO": 6, "DY": 1, "HR": hr, "LAT": 10.5, "LON": 20.5, "PT": 5, "DCK": dck, "D": 10}
    for k in ("SST", "AT", "AT2", "DPT", "SLP", "DAT", "SHU", "CRH", "W"):
        d[k] = None
    rep = ref.make(ex.MarineReportQC, **d)
    getattr(rep, run)(PARAMS)
    want = expected_flags(d, {k: (None, None) for k in ("SST", "AT", "AT2", "DPT", "SLP", "DAT")})
    t.nt(want["hour"] != hr or dck == 701)
    expect_eq(rep.getvar("HR"), want["hour"], "hour after %s of deck %d in %d, hour %r" % (run, dck, yr, hr))
    expect_eq(rep.get_qc("POS", "time"), want["POS", "time"], "time check of deck %d in %d, hour %r" % (dck, yr, hr))
    expect_eq(rep.dt is None, want["hour"] is None, "report without a time")


BLACK = ("blklst", "hum_blacklist", "mat_blacklist", "wind_blacklist")
LIMITS = ("pos", "date", "time", "noval", "nonorm", "clim", "hardlimit", "freez", "ssat", "consistency")


@law("C07", "day-flag-of-base-qc", base_cases, quick=2000)
def _(case, t):
    judge_flags(case, t, ("day",))


@law("C08", "limits-of-base-qc", base_cases, quick=2500)
def _(case, t):
    judge_flags(case, t, LIMITS)


@law("C09", "blacklists-of-base-qc", base_cases, quick=2500)
def _(case, t):
    judge_flags(case, t, BLACK)


@law("C14", "flags", base_cases, quick=6000)
def _(case, t):
    judge_flags(case, t)


def judge_flags(case, t, only=None):
    d, norms = base_report(case)
    P = SETS[case["set"]]
    want = expected_flags(d, norms, P)
    hour = want.pop("hour")
    if only:
        want = {k: v for k, v in want.items() if k[1] in only}
    for run, kinds in RUNS.items():
        rep = ref.make(ex.MarineReportQC, **d)
        for k, (norm, sd) in norms.items():
            rep.add_climate_variable(k, norm, sd)
        if not only and len(norms) and int(d["DY"] or 0) % 2:
            # flags of some earlier run
            for k in want:
                if k[0] in kinds:
                    rep.set_qc(k[0], k[1], 1)
        getattr(rep, run)(P)
        if not only:
            expect_eq(rep.getvar("HR"), hour, "hour after %s" % run)
        for (k, flag), w in want.items():
            if k not in kinds:
                continue
            if run == "perform_base_wind_qc" and flag in ("day", "is780"):
                continue
            if run == "perform_base_dat_qc" and flag in ("is780",):
                continue
            got = rep.get_qc(k, flag)
            if isinstance(w, set):
                expect(got in w, "%s: flag %s %s is %r of %r", run, k, flag, got, d)
            else:
                expect(got == w, "%s: flag %s %s is %r, expected %r of %r with normals %r", run, k, flag, got, w, d, norms)
            if w == 1 and flag not in ("isship", "noval", "nonorm"):
                t.hit("%s %s" % (k, flag))
                t.nt()
        if run == "perform_base_dat_qc" and ("AT", "mat_blacklist") in want:
            expect_eq(rep.get_qc("AT", "mat_blacklist"), want["AT", "mat_blacklist"], "air temperature blacklist")
        for k in () if only else d:
            if k != "HR":
                expect_eq(rep.getvar(k), d[k], "%s after %s" % (k, run))
        if only:
            continue
        # running the same checks twice changes nothing
        before = {k: rep.get_qc(*k) for k in want}
        getattr(rep, run)(P)
        expect_eq({k: rep.get_qc(*k) for k in want}, before, "flags after %s a second time" % run)


@law("C14", "air-temperature-regions",
     lambda: ([x, y, e, yr, dck, pt] for b in ((-80, 0, 40, 55), (-10, 30, 35, 45), (15, 45, -10, 40), (15, 95, -10, 15),
                                               (95, 105, -10, 5))
              for x in (b[0] - STEP, b[0], b[1], b[1] + STEP, (b[0] + b[1]) / 2. + 0.5)
              for y in (b[2] - STEP, b[2], b[3], b[3] + STEP, (b[2] + b[3]) / 2. + 0.5)
              for e in (0, 1) for yr, dck, pt in ((1879, 193, 5), (1880, 193, 5), (1886, 193, 1), (1892, 193, None), (1893, 193, 5),
                                                  (1886, 194, 5), (1886, 780, 5), (1886, 780, 4), (1990, 780, 5))), kind="enum")
def _(case, t):
    x, y, east, yr, dck, pt = case
    d = {"ID": "A        ", "YR": yr, "MO": 6, "DY": 1, "HR": 1., "LAT": y, "LON": x + 360 if east and x < 0 else x, "PT": pt,
         "DCK": dck, "D": 10}
    for k in ("SST", "AT", "AT2", "DPT", "SLP", "DAT", "SHU", "CRH", "W"):
        d[k] = None
    rep = ref.make(ex.MarineReportQC, **d)
    rep.perform_base_qc(PARAMS)
    want = expected_flags(d, {k: (None, None) for k in ("SST", "AT", "AT2", "DPT", "SLP", "DAT")})
    t.nt(want["AT", "mat_blacklist"])
    expect_eq(rep.get_qc("AT", "mat_blacklist"), want["AT", "mat_blacklist"], "air temperature blacklist of %r" % d)


share("C09", "C14", "air-temperature-regions")


@law("C14", "one-thing-at-a-time", base_cases, quick=1500)
def _(case, t):
    """the flags of one variable do not depend on the values of the others"""
    d, norms = base_report(case)

    def flags(dd):
        rep = ref.make(ex.MarineReportQC, **dd)
        for k, (norm, sd) in norms.items():
            rep.add_climate_variable(k, norm, sd)
        rep.perform_base_qc(SETS[case["set"]])
        return {(k, f): rep.get_qc(k, f) for k in ("POS", "SST", "AT", "AT2", "DPT", "SLP", "W")
                for f in ("noval", "nonorm", "clim", "hardlimit", "freez", "ssat", "consistency", "pos", "date", "time", "day",
                          "blklst", "mat_blacklist", "hum_blacklist", "wind_blacklist")}
    base = flags(d)
    t.nt(any(v == 1 for v in base.values()))
    free = {"SST": ["SST"], "SLP": ["SLP"], "W": ["W"], "DPT": ["DPT"], "AT": ["AT", "AT2", "DPT"], "AT2": ["AT2", "DPT"]}
    for name, own in free.items():
        e = dict(d)
        e[name] = None if d[name] is not None else 1.
        got = flags(e)
        for k, v in base.items():
            if k[0] not in own:
                expect_eq(got[k], v, "flag %s %s after %s changed to %r" % (k + (name, e[name])))


@law("C14", "plain-base-qc", base_cases, quick=2500)
def _(case, t):
    """the base QC of qc.py, with fixed limits and without the check of the time"""
    d, norms = base_report(case)
    if d["HR"] is None or not 0 <= d["HR"] < 24:
        d["HR"] = 5.5
    d["LON"] = min(d["LON"], 360.)
    want = expected_flags(d, norms)
    rep = ref.make(ex.MarineReportQC, **d)
    for k, (norm, sd) in norms.items():
        rep.add_climate_variable(k, norm, sd)
    qc.base_qc_report(rep)
    want = {k: want[k] for k in [("POS", f) for f in ("isbuoy", "isship", "is780", "pos", "date", "day", "blklst")] +
            [(v, f) for v in ("SST", "AT") for f in ("noval", "nonorm")]}
    want["SST", "freez"] = int(d["SST"] is not None and d["SST"] < -1.8)
    want["SST", "clim"] = far(d["SST"], norms["SST"][0], 8.)
    want["AT", "clim"] = far(d["AT"], norms["AT"][0], 10.)
    if not (d["DCK"] == 193 and d["YR"] == 1893):
        want["POS", "mat_blacklist"] = expected_flags(d, norms)["AT", "mat_blacklist"]
    t.nt(any(v == 1 for k, v in want.items() if k[1] not in ("isship", "noval", "nonorm")))
    for (k, f), w in want.items():
        expect(rep.get_qc(k, f) in (w if isinstance(w, set) else (w,)), "flag %s %s is %r, expected %r of %r with normals %r", k, f, rep.get_qc(k, f), w, d, norms)
