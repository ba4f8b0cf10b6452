"""C15 speeds and courses of a voyage, C16 MDS track check, C17 IQUAM track check, C18 spikes, C19 repeated, rounded and
saturated values, C36 (part) modal speed and speed limits."""
import math
import random
from datetime import datetime, timedelta
from fractions import Fraction as F

import Extended_IMMA as ex
import ref
import track_check as tc
from vlib import (S, dyadic, expect, expect_close, expect_eq, fl, law, maybe, must_raise, prop, share)

prop("C15", "voyages of 1 to 9 reports added in any time order, with repeated times and positions, missing hours, poles and the "
            "date line, sorted or not; non-trivial = at least three reports, two of them apart in place and time")
prop("C16", "simulated ships that keep a course, turn, stop, cross the date line, with displaced or mistimed reports and true, "
            "wrong or missing reported speed and course; shared call signs, buoys, deck 720 before and after 1891; "
            "non-trivial = at least one report fails, or exactly one condition of a failure is absent",
     ["reports whose outcome depends on a comparison closer than one part in a million are not judged"])
prop("C17", "simulated ships and buoys with displaced and mistimed reports; non-trivial = at least two reports flagged, or a "
            "report with violations that is not flagged",
     ["voyages with a speed within one part in a million of the limit are not judged"])
prop("C18", "values on exact binary steps along simulated tracks, with missing values; non-trivial = at least one spike",
     ["voyages with a difference within one part in a million of the limit are not judged"])
prop("C19", "voyages with values from small sets so that shares land at, just under and just over the thresholds, runs of "
            "saturated air of every length around the limit; non-trivial = something is flagged or a share equals its limit")
prop("C36", "lists of random length with ties and outliers, bin borders and counts around every limit; non-trivial = at least "
            "four values (means), at least two speeds (modes), or a count at a limit")


# ------------------------------------------------------------------------------------------ simulated voyages
def legs(hi=40):
    st = S()
    return st.lists(st.tuples(st.sampled_from([0, 4, 8, 16, 24, 24, 24, 24, 24, 48, 96, 1, 2880]),      # quarter hours
                              st.sampled_from([0, 4, 8, 11, 11, 12, 16, 20, 30, 45, 100]),             # knots
                              st.sampled_from([0, 0, 0, 0, 10, -45, 90, 180])), min_size=0, max_size=hi).map(
        lambda l: [list(k) for k in l])


def voyage_cases(hi=12, moves=3):
    st = S()
    move = st.tuples(st.integers(0, hi), st.sampled_from([0., .5, 1., 2., 3., 5., 8., -3., -8.]),
                     st.sampled_from([0., .5, 1., 2., 4., 8., 30., 180., -4.]))
    return st.fixed_dictionaries({
        "lat": dyadic(-70, 70, 4), "lon": st.one_of(dyadic(-180, 180, 4), st.sampled_from([179.75, -179.75, 180., 0.])),
        "course": st.sampled_from([0, 45, 90, 100, 180, 225, 270, 315, 350]),
        "start": st.sampled_from([[1885, 6, 1], [1890, 12, 31], [1891, 1, 1], [1935, 2, 27], [1967, 12, 31], [1968, 1, 1],
                                  [1980, 2, 28], [2004, 2, 28], [1999, 12, 31]]),
        "hour": st.integers(0, 95), "legs": legs(hi), "moves": st.lists(move, max_size=moves).map(lambda l: [list(k) for k in l]),
        "wind": st.lists(st.integers(0, 5), min_size=1, max_size=4),
        "ds": st.lists(st.integers(0, 9), min_size=1, max_size=4), "vs": st.lists(st.integers(0, 9), min_size=1, max_size=4),
        "ID": st.sampled_from(["GABC     "] * 6 + ["SHIP     ", "2        ", "7        ", None]),
        "PT": st.sampled_from([5, 5, 5, 5, 5, 1, None, 6, 7]), "DCK": st.sampled_from([720, 721, 892])})


def voyage(c, places=2):
    """the reports of a simulated ship"""
    lat, lon, course = c["lat"], c["lon"], c["course"]
    when = datetime(*c["start"]) + timedelta(minutes=15 * c["hour"])
    out = []

    def put(la, lo, speed, k):
        yr = when.year
        true_ds = int(round((course % 360) / 45.))
        true_vs = 0 if speed == 0 else min(9, int(round((speed + 2) / 5.)) if yr >= 1968 else int(round((speed + 1) / 3.)))
        mode = c["wind"][k % len(c["wind"])]
        ds, vs = true_ds, true_vs
        if mode == 0:
            ds = vs = None
        elif mode == 1:
            ds = c["ds"][k % len(c["ds"])]
        elif mode == 2:
            vs = c["vs"][k % len(c["vs"])]
        elif mode == 3:
            ds, vs = c["ds"][k % len(c["ds"])], c["vs"][k % len(c["vs"])]
        out.append({"ID": c["ID"], "YR": yr, "MO": when.month, "DY": when.day, "HR": when.hour + when.minute / 60.,
                    "LAT": round(la, places), "LON": round(lo, places), "DS": ds, "VS": vs, "PT": c["PT"], "DCK": c["DCK"]})
    put(lat, lon, c["legs"][0][1] if c["legs"] else 0, 0)
    for k, (q, knots, turn) in enumerate(c["legs"]):
        course = (course + turn) % 360
        la, lo = ref.onward(lat, lon, course, min(knots / ref.KNOT * q / 4., 3000.))
        if abs(la) > 75:
            course = 90.
            la, lo = ref.onward(lat, lon, course, min(knots / ref.KNOT * q / 4., 100.))
        lat, lon = la, lo
        when += timedelta(minutes=15 * q)
        put(lat, lon, knots, k + 1)
    for i, dla, dlo in c["moves"]:
        r = out[i % len(out)]
        r["LAT"] = round(max(-78., min(78., r["LAT"] + dla)), places)
        r["LON"] = round((r["LON"] + dlo + 180) % 360 - 180, places)
    return out


STALE = [("POS", "trk"), ("POS", "few"), ("POS", "iquam_track")] + [(v, f) for v in ("SST", "AT", "AT2", "DPT", "SLP") for f in (
    "spike", "rep", "round", "repsat")]


def load(recs, cls=None):
    """a voyage, whose reports still have flags of some earlier run"""
    v = ex.Voyage()
    for k, r in enumerate(recs):
        rep = ref.make(ex.MarineReportQC, **r)
        for j, (kind, flag) in enumerate(STALE if len(recs) % 2 else ()):
            if (k + j) % 3:
                rep.set_qc(kind, flag, 1)
        v.add_report(rep)
    return v


def leg(a, b):
    """speed, distance, course, hours from report a to report b"""
    d = ref.km(a["LAT"], a["LON"], b["LAT"], b["LON"])
    ha, hb = ref.hours(a), ref.hours(b)
    h = 0. if ha is None or hb is None else float(hb - ha)
    return (d / h if h else d), d, ref.course(a["LAT"], a["LON"], b["LAT"], b["LON"]), h


def same_course(got, want, dist, what):
    if want is not None and 1 < dist < 19000:
        expect(abs((got - want + 180) % 360 - 180) < 0.05, "%s: course %r, expected %r", what, got, want)


# ------------------------------------------------------------------------------------------------------- C15

def loose_cases():
    st = S()
    rec = st.fixed_dictionaries({
        "at": st.integers(0, 40), "hundredths": st.sampled_from([0, 0, 0, 1, 2, 59]), "HR?": st.integers(0, 11),
        "LAT": st.one_of(dyadic(-90, 90, 4), st.sampled_from([89.75, -89.75, 90., 0.])),
        "LON": st.one_of(dyadic(-180, 360, 4), st.sampled_from([180., -180., 179.75, 359.75]))})
    return st.tuples(st.lists(rec, min_size=0, max_size=9), st.booleans(), st.sampled_from([[1900, 2, 27], [2004, 2, 27],
                     [1999, 12, 30]]), st.integers(0, 3)).map(list)


def check_legs(v, recs, what):
    n = len(recs)
    expect_eq(len(v), n, "number of reports " + what)
    for i in range(n):
        names = ("speed", "distance", "course", "time_diff")
        got = [v.getvar(i, k) for k in names]
        if i == 0:
            expect_eq(got, [None] * 4, "speed, distance, course and time of the first report " + what)
        else:
            w = leg(recs[i - 1], recs[i])
            w_what = "%s, report %d of %r" % (what, i, recs)
            expect_close(got[3], w[3], "hours since the report before, " + w_what, tol=1e-6)
            expect_close(got[1], w[1], "distance from the report before, " + w_what, tol=1e-3, rel=1e-6)
            if w[3] == 0 or abs(w[3]) > 0.005:
                expect_close(got[0], w[0], "speed from the report before, " + w_what, tol=1e-3, rel=1e-4)
            if abs(recs[i - 1]["LAT"]) < 89.9:
                same_course(got[2], w[2], w[1], w_what)
    expect_eq([x is None for x in v.get_speed()], [i == 0 for i in range(n)], "speeds known " + what)
    if n > 1:
        expect_close(v.meansp(), math.fsum(v.get_speed()[1:]) / (n - 1), "mean speed " + what, tol=1e-6)
    else:
        expect(v.meansp() is None, "mean speed of %d reports is %r", n, v.meansp())


def check_alternate(v, recs):
    for i in range(len(recs)):
        got = [v.getvar(i, "alt_" + k) for k in ("speed", "distance", "course", "time_diff")]
        if i == 0 or i == len(recs) - 1:
            expect_eq(got, [None] * 4, "alternate speed at the end of a voyage")
        else:
            w = leg(recs[i - 1], recs[i + 1])
            expect_close(got[3], w[3], "hours between the reports around %d of %r" % (i, recs), tol=1e-6)
            expect_close(got[1], w[1], "distance between the reports around %d of %r" % (i, recs), tol=1e-3, rel=1e-6)
            expect_close(got[0], w[0], "speed between the reports around %d of %r" % (i, recs), tol=1e-3, rel=1e-4)
            if abs(recs[i - 1]["LAT"]) < 89.9:
                same_course(got[2], w[2], w[1], "reports around %d of %r" % (i, recs))


@law("C15", "legs", loose_cases, quick=2500)
def _(case, t):
    raw, missing_hours, start, ahead = case
    recs = []
    for r in raw:
        when = datetime(*start) + timedelta(hours=3 * r["at"])
        recs.append({"ID": "GABC     ", "YR": when.year, "MO": when.month, "DY": when.day, "HR": when.hour + r["hundredths"] / 100.,
                     "LAT": r["LAT"], "LON": r["LON"]})
        if missing_hours and r["HR?"] == 0:
            recs[-1]["HR"] = None
    v = ex.Voyage()
    for k, r in enumerate(recs):
        v.add_report(ref.make(ex.MarineReportQC, **r))
        expect(v.last_rep() is v.getrep(k), "last report is not the one just added")
    t.nt(len(recs) > 2 and len(set(str(r) for r in recs)) > 2)
    check_legs(v, recs, "as added")
    # alternating reports
    v.calc_alternate_speeds()
    check_alternate(v, recs)
    # the same reports as part of another voyage
    a, b = sorted((ahead % (len(recs) + 1), max(0, len(recs) - ahead % 2)))
    w = ex.Voyage()
    for i in range(a, max(a, b)):
        w.add_report(v.getrep(i))
    check_legs(w, recs[a:b], "as part of another voyage")
    w.calc_alternate_speeds()
    check_alternate(w, recs[a:b])
    v = load(recs)
    v.calc_alternate_speeds()
    if any(r["HR"] is None for r in recs):
        return
    feed = [r for r in v.rep_feed()]
    expect_eq([id(a) for a in feed], [id(v.getrep(i)) for i in range(len(recs))], "reports fed one by one")
    v.sort()
    order = sorted(range(len(recs)), key=lambda i: ref.hours(recs[i]))
    t.hit("reordered" if order != list(range(len(recs))) else "in order")
    expect_eq([id(v.getrep(i)) for i in range(len(recs))], [id(feed[i]) for i in order], "reports in time order, each once")
    check_legs(v, [recs[i] for i in order], "after sorting")
    v.sort()
    expect_eq([id(v.getrep(i)) for i in range(len(recs))], [id(feed[i]) for i in order], "reports after sorting twice")
    check_legs(v, [recs[i] for i in order], "after sorting twice")
    v.calc_alternate_speeds()
    check_alternate(v, [recs[i] for i in order])
    if recs:
        # a report put elsewhere, and another at another time
        recs = [recs[i] for i in order]
        i, j = ahead % len(recs), (ahead // 2 + 1) % len(recs)
        recs[i] = dict(recs[i], LAT=recs[i]["LAT"] / 2. + 5., LON=25.25)
        v.setvar(i, "LAT", recs[i]["LAT"])
        v.setvar(i, "LON", recs[i]["LON"])
        if ahead < 2:
            when = datetime(*start) + timedelta(hours=1 + 60 * ahead)
            recs[j] = dict(recs[j], YR=when.year, MO=when.month, DY=when.day, HR=float(when.hour))
            for k in ("YR", "MO", "DY", "HR"):
                v.setvar(j, k, recs[j][k])
            v.getrep(j).calculate_dt()
        v.sort()
        recs.sort(key=ref.hours)
        check_legs(v, recs, "after changes and sorting")


@law("C15", "prediction", lambda: S().tuples(voyage_cases(4, 0), S().integers(0, 20)).map(list), quick=2000)
def _(case, t):
    c, hours = case
    recs = voyage(c)
    v = load(recs)
    must_raise(lambda: ex.Voyage().predict_next_point(1.), "prediction without a report")
    must_raise(lambda: v.predict_next_point(-0.25), "prediction backwards")
    lat, lon = v.predict_next_point(hours / 4.)
    last = recs[-1]
    speed, dist, course, h = leg(recs[-2], last) if len(recs) > 1 else (0, 0, None, 0)
    if h == 0 or dist == 0:
        want = last["LAT"], last["LON"]
    else:
        t.nt(hours > 0)
        # on along the same great circle at the same speed
        f = (h + hours / 4.) / h
        if dist * f > 15000:
            return
        want = ref.onward(recs[-2]["LAT"], recs[-2]["LON"], course, dist * f)
    off = ref.km(lat, lon, want[0], want[1])
    expect(off < 0.5 + 1e-3 * dist * (hours + 1), "predicted %r after %r, %g hours on, expected %r: %g km away", (lat, lon),
           recs[-2:], hours / 4., want, off)


# ------------------------------------------------------------------------------------------------------- C36 (speeds)

def mode_of(speeds_knots):
    """None if it is undecided; else the modal speed in knots"""
    bins = [0] * 12
    for s in speeds_knots:
        k = s / 3.
        if abs(k - round(k)) < 1e-6 and s > 1e-6 and k < 11.5:
            return None
        bins[max(0, min(11, int(math.floor(k))))] += 1
    return max(1.5 + 3 * bins.index(max(bins)), 8.5)


def speeds_in_knots():
    st = S()
    short = st.lists(st.one_of(st.integers(0, 160).map(lambda k: k / 4. + 0.05), fl(0, 50)), max_size=25)
    # a long voyage that keeps to a few speeds, slower or faster from somewhere on
    change = lambda a, b, i, j: [a + k % 3 * 0.25 for k in range(i)] + [b + k % 3 * 0.25 for k in range(j)]
    speed = st.integers(0, 160).map(lambda k: k / 4. + 0.05)
    return st.one_of(short, short, short, st.builds(change, speed, speed, st.integers(5, 150), st.integers(5, 300)))


@law("C36", "modal-speed", speeds_in_knots, quick=3000)
def _(case, t):
    speeds = [None] + [k / ref.KNOT for k in case]
    got = tc.modesp(speeds)
    t.nt(len(case) > 1)
    if not case:
        expect(got is None, "modal speed of a voyage of one report is %r", got)
        expect(tc.modesp([]) is None, "modal speed of no report")
        want = None
    else:
        want = mode_of(case)
        if want is None:
            return
        t.hit("mode %g" % want)
        expect_close(got, want / ref.KNOT, "modal speed of %r knots" % case, tol=1e-9)
    lims = tc.set_speed_limits(got)
    slow = want is None or want <= 8.51
    w = (15., 20., 0.) if slow else (want * 1.25, 30., want * .75)
    for g, x, name in zip(lims, w, ("highest", "very highest", "lowest")):
        expect_close(g, x / ref.KNOT, "%s speed of a ship whose modal speed is %r knots" % (name, want), tol=1e-9)


share("C16", "C36", "modal-speed")


@law("C36", "bin-borders", lambda: ([k, e] for k in range(0, 45) for e in (-1e-3, 1e-3)), kind="enum")
def _(case, t):
    k, e = case
    s = 3. * k / 3 + e
    t.nt(k % 3 == 0)
    if s < 0:
        return
    expect_close(tc.modesp([None, s / ref.KNOT, s / ref.KNOT]), mode_of([s, s]) / ref.KNOT, "modal speed of %r knots" % s)


@law("C36", "speed-limits", lambda: fl(0, 60), quick=1000)
def _(case, t):
    if abs(case - 8.51) < 1e-6:
        return
    t.nt(case > 8.51)
    got = tc.set_speed_limits(case / ref.KNOT)
    w = (15., 20., 0.) if case <= 8.51 else (case * 1.25, 30., case * .75)
    for g, x in zip(got, w):
        expect_close(g, x / ref.KNOT, "speed limit for %r knots" % case)


share("C16", "C36", "speed-limits")


@law("C36", "multiplier", lambda: S().tuples(
    S().lists(S().integers(1, 40), min_size=0, max_size=4, unique=True), S().lists(S().sampled_from([.5, 1., 2.5, 3., 4., 5.]), min_size=5,
    max_size=5), S().integers(0, 45)).map(list), quick=2500)
def _(case, t):
    lims, mult, n = case
    lims = [0] + sorted(lims)
    mult = mult[:len(lims)]
    want = 4.0 if n == 0 else [m for l, m in zip(lims, mult) if n > l][-1]
    t.nt(n in lims or n - 1 in lims)
    expect_close(ex.get_threshold_multiplier(n, lims, mult), want, "multiplier for %d observations, limits %r, multipliers %r" % (
        n, lims, mult))
    must_raise(lambda: ex.get_threshold_multiplier(n, lims, mult + [1.]), "lists of different length")
    must_raise(lambda: ex.get_threshold_multiplier(n, [1] + lims[1:], mult), "first limit not zero")
    must_raise(lambda: ex.get_threshold_multiplier(n, lims, [0.] + mult[1:]), "multiplier of zero")
    if len(lims) > 2:
        must_raise(lambda: ex.get_threshold_multiplier(n, [0] + lims[:0:-1], mult), "limits not ascending")


share("C20", "C36", "multiplier")


# ------------------------------------------------------------------------------------------------------- C16
# three-valued logic: True, False, or None where a comparison is too close to call

def gt(a, b):
    if a is None or b is None:
        return False
    if abs(a - b) <= 1e-6 * (1 + abs(b)):
        return None
    return a > b


def And(*xs):
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def Or(*xs):
    return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False


DSI = [0, 45, 90, 135, 180, 225, 270, 315, 360, None]


def vsi_of(r):
    if r["VS"] is None:
        return None
    return 0. if r["VS"] == 0 else 5. * r["VS"] - 2 if r["YR"] >= 1968 else 3. * r["VS"] - 1


def dsi_of(r):
    return None if r["DS"] is None else DSI[r["DS"]]


def estimates(recs):
    """distances in km of every report from where the one before, the one after and both its neighbours put it"""
    n = len(recs)
    fwd, rev, mid = [None] * n, [None] * n, [None] * n

    def run(a, b, sign):
        """half the time at the speed and course of a, half at those of b, starting at a"""
        h = abs(leg(a, b)[3])
        la, lo = a["LAT"], a["LON"]
        for x in (a, b):
            e = ref.onward(x["LAT"], x["LON"], dsi_of(x) + (0 if sign > 0 else -180.), vsi_of(x) / ref.KNOT * h / 2.)
            la += e[0] - x["LAT"]
            lo += e[1] - x["LON"]
        return ref.km(la, lo, b["LAT"], b["LON"])
    for i in range(1, n):
        a, b = recs[i - 1], recs[i]
        if None not in (vsi_of(a), vsi_of(b), dsi_of(a), dsi_of(b)):
            fwd[i] = run(a, b, 1)
            rev[i - 1] = run(b, a, -1)
    for i in range(1, n - 1):
        t0, t1 = leg(recs[i - 1], recs[i])[3], leg(recs[i], recs[i + 1])[3]
        f = t0 / (t0 + t1) if t0 + t1 else 0.
        p = ref.between(recs[i - 1]["LAT"], recs[i - 1]["LON"], recs[i + 1]["LAT"], recs[i + 1]["LON"], f)
        mid[i] = ref.km(recs[i]["LAT"], recs[i]["LON"], p[0], p[1])
    return fwd, rev, mid


def track_flags(recs, p, t=None):
    """for a voyage of three or more reports: True, False or None (undecided) for each"""
    n = len(recs)
    legs_ = [None] + [leg(recs[i - 1], recs[i]) for i in range(1, n)]
    speed = [None if x is None else x[0] for x in legs_]
    alt = [None] + [leg(recs[i - 1], recs[i + 1])[0] for i in range(1, n - 1)] + [None]
    mode = mode_of([s * ref.KNOT for s in speed[1:]])
    if mode is None:
        return [None] * n
    amax = (15. if mode <= 8.51 else mode * 1.25) / ref.KNOT
    fwd, rev, mid = estimates(recs)
    out = [False] * n
    for i in range(1, n - 1):
        fast = lambda x: gt(x, amax)
        a = Or(And(fast(speed[i]), fast(alt[i - 1])), And(fast(speed[i + 1]), fast(alt[i + 1])),
               And(fast(speed[i]), fast(speed[i + 1])))
        v0, v1, d0, d1 = vsi_of(recs[i - 1]), vsi_of(recs[i]), dsi_of(recs[i - 1]), dsi_of(recs[i])
        h, course = legs_[i][3], legs_[i][2]
        far = wrong = change = False
        if v0 and v1 and h > 0:
            allowed = h * (v0 + v1) / 2. / ref.KNOT
            far = And(gt(fwd[i], allowed), gt(rev[i], allowed))
        if d0 is not None and d1 is not None:
            lim = p["max_direction_change"]
            if course is None or legs_[i][1] < 0.01:
                wrong = None
            else:
                wrong = Or(*[And(gt(abs(d - course), lim), gt(360. - lim, abs(d - course))) for d in (d0, d1)])
        if v0 is not None and v1 is not None:
            change = And(*[gt(abs(v / ref.KNOT - speed[i]), p["max_speed_change"] / ref.KNOT) for v in (v0, v1)])
        b = Or(far, wrong, change, gt(speed[i], p["max_absolute_speed"] / ref.KNOT))
        m = gt(mid[i], p["max_midpoint_discrepancy"] / ref.KNOT)
        out[i] = And(a, b, m)
        if t is not None:
            if [a, b, m].count(True) == 2:
                t.hit("only lacks " + ("speed", "consistency", "midpoint")[[a, b, m].index(False)] if False in (a, b, m) else
                      "undecided")
                t.nt()
            for name, x in (("estimate", far), ("direction", wrong), ("speed change", change)):
                if x and out[i]:
                    t.hit("fails with " + name)
    return out


def generic(recs):
    ident, yr = recs[0]["ID"], recs[0]["YR"]
    return ident is None or ident == "SHIP     " or ident == "2        " and 1921 <= yr <= 1941 or \
        ident == "7        " and 1934 <= yr <= 1954


def compare(recs, got, want, what, t):
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None:
            t.hit("undecided")
            expect(g in (0, 1), "%s: flag %r", what, g)
        else:
            expect(g == int(w), "%s: report %d has %r, expected %d, of %r", what, i, g, w, recs)


def track_params():
    st = S()
    return st.one_of(st.just({"max_direction_change": 60.0, "max_speed_change": 10.0, "max_absolute_speed": 40.0,
                              "max_midpoint_discrepancy": 150.0}),
                     st.fixed_dictionaries({"max_direction_change": st.sampled_from([30., 60., 90.]),
                                            "max_speed_change": st.sampled_from([5., 10., 20.]),
                                            "max_absolute_speed": st.sampled_from([20., 40., 60.]),
                                            "max_midpoint_discrepancy": st.sampled_from([50., 150., 300.])}))


@law("C16", "flags", lambda: S().tuples(voyage_cases(12), track_params()).map(list), quick=6000)
def _(case, t):
    c, p = case
    recs = voyage(c)
    v = load(recs)
    v.track_check(p)
    n = len(recs)
    got = [v.get_qc(i, "POS", "trk") for i in range(n)]
    few = [v.get_qc(i, "POS", "few") for i in range(n)]
    if generic(recs) or c["PT"] in (6, 7):
        t.hit("free pass")
        want, wfew = [False] * n, [0] * n
    elif n < 3:
        want, wfew = [False] * n, [int(not (c["DCK"] == 720 and recs[0]["YR"] < 1891))] * n
        t.nt()
        t.hit("few %d" % wfew[0])
    else:
        want, wfew = track_flags(recs, p, t), [0] * n
    t.nt(True in want)
    expect_eq(few, wfew, "too-few flags of %d reports" % n)
    compare(recs, got, want, "track check", t)
    for i in range(n):
        for k in ("LAT", "LON", "HR", "DS", "VS"):
            expect_eq(v.getvar(i, k), recs[i][k], "%s after the track check" % k)
    # nothing to check
    ex.Voyage().track_check(p)


@law("C16", "long-voyages", lambda: S().tuples(voyage_cases(8), track_params(), S().integers(60, 320), S().integers(0, 2 ** 40)).map(list), quick=48)
def _(case, t):
    """a ship that keeps to one speed for long and then to another, with reports out of place here and there"""
    c, p, size, seed = case
    rng = random.Random(seed)
    slow, fast = rng.choice([[4, 25], [22, 6], [12, 28], [10, 14]])
    turned = rng.randint(size // 4, size)
    c = dict(c, PT=5, ID="GABC     ", legs=[[rng.choice([8, 16, 24]), slow if k < turned else fast, rng.choice([0, 0, 0, 3, -3, 20])] for k in range(size)],
             moves=[[rng.randint(0, size), rng.choice([-8., -3., 3., 8.]), rng.choice([0., 4., -8.])] for _ in range(size // 8)])
    recs = voyage(c)
    v = load(recs)
    v.track_check(p)
    want = track_flags(recs, p, t)
    t.nt(True in want)
    expect_eq([v.get_qc(i, "POS", "few") for i in range(len(recs))], [0] * len(recs), "too-few flags of %d reports" % len(recs))
    compare(recs, [v.get_qc(i, "POS", "trk") for i in range(len(recs))], want, "track check of %d reports" % len(recs), t)


DEFAULT = {"max_direction_change": 60.0, "max_speed_change": 10.0, "max_absolute_speed": 40.0, "max_midpoint_discrepancy": 150.0}


def many(seed):
    rng = random.Random(seed)
    return [rng.choice([0, 1, -1, 2, 3, -2, 4, 5]) for _ in range(rng.randint(16, 26))]


def muddled_cases():
    """many displaced reports among good ones, so that one pass of the check does not find them all"""
    st = S()

    def muddle(p):
        c, pattern, size, tail = p
        # no more than 14 knots, so that displaced reports stand out
        c["legs"] = [[24, 8, k % 3 and 10] for k in range(tail)] + [[24, 8, 0] for _ in pattern] + [[24, 8, 0]] * 3
        c["moves"] = [[tail + k, s * size / 2., s * size] for k, s in enumerate(pattern) if s]
        c["PT"], c["ID"] = 5, "GABC     "
        c["lat"] = c["lat"] / 2.
        return c
    return st.tuples(voyage_cases(2, 0), st.one_of(*[st.lists(st.sampled_from([0, 1, -1, 2, 3, -2, 4, 5]), min_size=k, max_size=k + 8) for k in (3, 14)],
                                                    st.integers(0, 2 ** 40).map(many)),
                     st.sampled_from([3., 5., 8., 12.]), st.integers(1, 12)).map(muddle)


@law("C16", "repeated-passes", lambda: S().one_of(muddled_cases(), muddled_cases(), muddled_cases(), voyage_cases(14, 5), voyage_cases(3, 2)), quick=2500)
def _(c, t):
    recs = voyage(c)
    n = len(recs)
    v = load(recs)
    first = load(recs)
    once = tc.mds_track_check(first)
    want = [False] * n if generic(recs) or n < 3 else track_flags(recs, DEFAULT)
    few = int(n < 3 and not (c["DCK"] == 720 and recs[0]["YR"] < 1891))
    if not generic(recs):
        t.hit("few %d" % few)
        expect_eq([first.get_qc(i, "POS", "fewsome_check") for i in range(n)], [few] * n, "too-few flags of one pass over %d reports" % n)
    expect_eq(len(once), n, "number of flags of %d reports" % n)
    compare(recs, once, want, "one pass", t)
    # the check is repeated without the reports that failed, up to five times in all
    alive = [i for i in range(n)]
    dead = set()
    for k in range(5):
        sub = [recs[i] for i in alive]
        w = [False] * len(sub) if not sub or generic(sub) or len(sub) < 3 else track_flags(sub, DEFAULT)
        if None in w:
            return
        bad = [i for i, x in zip(alive, w) if x]
        dead.update(bad)
        alive = [i for i in alive if i not in dead]
        if not bad:
            break
        t.hit("pass %d" % (k + 1))
        t.nt(k)
    out = tc.mds_full_track_check(v)
    expect(out is v, "the full check does not return the voyage it was given")
    expect_eq([v.get_qc(i, "POS", "bad_track") for i in range(n)], [int(i in dead) for i in range(n)],
              "reports failing the repeated check of %r" % recs)


@law("C15", "estimates", lambda: voyage_cases(6, 2), quick=2500)
@law("C16", "estimates", lambda: voyage_cases(6, 2), quick=2500)
def _(c, t):
    recs = voyage(c)
    if c["hour"] % 4 == 3:
        # some reports a hundredth or a few of an hour after the one before
        for i, r in enumerate(recs[1:]):
            a = recs[i]
            hr = a["HR"] + c["wind"][i % len(c["wind"])] / 100.
            if (c["hour"] // 4 + i) % 3 and hr < 24:
                r.update({k: a[k] for k in ("YR", "MO", "DY")}, HR=hr)
        recs.sort(key=ref.hours)
    v = load(recs)
    fwd, rev, mid = estimates(recs)
    if len(recs) == 1:
        mid = [None, None]
    for name, obj in (("Voyage", v), ("track_check", tc)):
        for what, want in (("distr1", fwd), ("distr2", rev), ("midpt", mid)):
            got = getattr(v, what)() if obj is v else getattr(tc, what)(v)
            if len(recs) == 1 and what == "midpt":
                continue
            expect_eq([x is None for x in got], [x is None for x in want], "%s: which distances %s gives of %r" % (name, what, recs))
            for i, (g, w) in enumerate(zip(got, want)):
                if w is not None:
                    t.nt()
                    expect_close(g, w, "%s: %s of report %d of %r" % (name, what, i, recs), tol=0.02, rel=1e-5)


@law("C15", "estimates-without-times", lambda: S().tuples(voyage_cases(6, 2), S().lists(S().integers(1, 8), min_size=1, max_size=3)).map(list), quick=800)
def _(c, t):
    """no estimate along speed and course where the time since the report before is missing; the others as ever"""
    recs = voyage(c[0])
    n = len(recs)
    v = load(recs)
    lost = {k for k in c[1] if k < n}
    for i in lost:
        v.getrep(i).setext("time_diff", None)
    fwd, rev, mid = estimates(recs)
    for name, obj in (("Voyage", v), ("track_check", tc)):
        for what, want, at in (("distr1", fwd, 0), ("distr2", rev, 1), ("midpt", mid, 0)):
            got = getattr(v, what)() if obj is v else getattr(tc, what)(v)
            if n == 1 and what == "midpt":
                continue
            expect_eq(len(got), n, "%s: number of distances %s gives" % (name, what))
            for i, (g, w) in enumerate(zip(got, want)):
                if what == "midpt":
                    if i in lost or i + 1 in lost:
                        continue
                elif i + at in lost:
                    w = None
                    t.nt()
                expect_eq(g is None, w is None, "%s: %s of report %d without a time in %r gives" % (name, what, i, sorted(lost)))
                if w is not None:
                    expect_close(g, w, "%s: %s of report %d of %r" % (name, what, i, recs), tol=0.02, rel=1e-5)


@law("C15", "increment", lambda: S().tuples(dyadic(-80, 80, 4), dyadic(-179, 179, 4), fl(0, 60), maybe(dyadic(-180, 540, 2), .05), maybe(dyadic(0, 24, 4), .1)).map(list), quick=1500)
def _(c, t):
    """half the time at the given speed along the given course; nothing without a time"""
    lat, lon, kn, course, hours = c
    if course is None:
        return
    got = tc.increment_position(lat, lon, kn, course, hours)
    t.nt(bool(hours and kn))
    if hours is None:
        return expect_eq(tuple(got), (None, None), "increment of an unknown time")
    w = ref.onward(lat, lon, course, kn * hours / 2)
    expect(ref.km(lat + got[0], lon + got[1], w[0], w[1]) < 0.01, "increment %r of %r, expected to reach %r", tuple(got), c, w)


@law("C16", "pieces", lambda: S().fixed_dictionaries({
    "a": S().sampled_from(DSI), "b": S().sampled_from(DSI), "dir": maybe(dyadic(0, 360, 2), .05), "lim": S().sampled_from([None, 30., 60., 90.]),
    "v": maybe(dyadic(0, 45, 1), .05), "w": maybe(dyadic(0, 45, 1), .05), "s": maybe(dyadic(0, 60, 4), .05), "ch": S().sampled_from([None, 5., 10.]),
    "h": dyadic(0, 24, 4), "f": maybe(fl(0, 1200), .05), "r": maybe(fl(0, 1200), .05),
    "lat": dyadic(-80, 80, 4), "lon": dyadic(-179, 179, 4), "kn": fl(0, 60)}), quick=5000)
def _(c, t):
    lim = 60. if c["lim"] is None else c["lim"]
    a = (c["a"], c["b"], c["dir"]) + (() if c["lim"] is None else (c["lim"],))
    want = False
    if None not in (c["a"], c["b"], c["dir"]):
        # on the compass
        want = any(lim < min(abs(x - c["dir"]), 360 - abs(x - c["dir"])) for x in (c["a"], c["b"]))
    t.nt(want)
    expect_close(tc.direction_continuity(*a), 10. if want else 0., "continuity of direction %r" % (a,))
    ch = 10. if c["ch"] is None else c["ch"]
    want = False
    if None not in (c["v"], c["w"], c["s"]):
        want = And(gt(abs(c["v"] - c["s"]), ch), gt(abs(c["w"] - c["s"]), ch))
    got = tc.speed_continuity(c["v"], c["w"], None if c["s"] is None else c["s"] / ref.KNOT, *(() if c["ch"] is None else (c["ch"],)))
    if want is not None:
        expect_close(got, 10. if want else 0., "continuity of speed %r %r %r limit %r" % (c["v"], c["w"], c["s"], ch))
    want = False
    if c["v"] and c["w"] and c["h"]:
        allowed = c["h"] * (c["v"] + c["w"]) / 2 / ref.KNOT
        want = And(gt(c["f"], allowed), gt(c["r"], allowed))
    got = tc.check_distance_from_estimate(c["v"], c["w"], c["h"], c["f"], c["r"])
    if want is not None:
        expect_close(got, 10. if want else 0., "distance from estimate %r" % c)
    # half the time at the given speed
    if c["dir"] is not None:
        dla, dlo = tc.increment_position(c["lat"], c["lon"], c["kn"], c["dir"], c["h"])
        w = ref.onward(c["lat"], c["lon"], c["dir"], c["kn"] * c["h"] / 2)
        expect(ref.km(c["lat"] + dla, c["lon"] + dlo, w[0], w[1]) < 0.01, "increment %r, expected to reach %r", (dla, dlo), w)
        expect_eq(tuple(tc.increment_position(c["lat"], c["lon"], c["kn"], c["dir"], None)), (None, None), "increment of an unknown time")


# ------------------------------------------------------------------------------------------------------- C17, C18

def worst_first(n, bad):
    """the report in most violations (the first of equals) is flagged and taken out until none is left"""
    left = {frozenset(p) for p in bad}
    flags = [0] * n
    while left:
        count = [sum(1 for p in left if i in p) for i in range(n)]
        i = count.index(max(count))
        flags[i] = 1
        left = {p for p in left if i not in p}
    return flags


def pairs(n, reach):
    return [(i, j) for i in range(n) for j in range(i + 1, min(n, i + reach + 1))]


IQ = {"buoy_speed_limit": 15.0, "ship_speed_limit": 60.0, "delta_d": 1.11, "delta_t": 0.01, "number_of_neighbours": 5}


def iquam_params():
    st = S()
    return st.one_of(st.just(IQ), st.fixed_dictionaries({
        "buoy_speed_limit": st.sampled_from([5., 15., 30.]), "ship_speed_limit": st.sampled_from([30., 60., 80.]),
        "delta_d": st.sampled_from([0.5, 1.11, 20.]), "delta_t": st.sampled_from([0.01, 1.]), "number_of_neighbours": st.integers(1, 7)}))


def too_fast(recs, p):
    """pairs of reports too far apart, or None where it is too close to call"""
    lim = p["buoy_speed_limit"] if recs[0]["PT"] in (6, 7) else p["ship_speed_limit"]
    bad = []
    for i, j in pairs(len(recs), p["number_of_neighbours"]):
        _, d, _, h = leg(recs[i], recs[j])
        x = gt(max(d - p["delta_d"], 0.) / (abs(h) + p["delta_t"]), lim)
        if x is None:
            return None
        if x:
            bad.append((i, j))
    return bad


def mixed(recs, c):
    """now and then the later reports give another platform type than the first, which decides"""
    if c["hour"] % 8 == 7:
        for i, r in enumerate(recs):
            if i:
                r["PT"] = [5, 7, 6, None][(c["hour"] + i * i) % 4]


@law("C17", "flags", lambda: S().tuples(voyage_cases(13, 5), iquam_params()).map(list), quick=6000)
def _(case, t):
    c, p = case
    recs = voyage(c)
    mixed(recs, c)
    v = load(recs)
    v.iquam_track_check(p)
    n = len(recs)
    got = [v.get_qc(i, "POS", "iquam_track") for i in range(n)]
    if generic(recs):
        t.hit("free pass")
        want = [0] * n
    else:
        bad = too_fast(recs, p)
        if bad is None:
            return
        want = worst_first(n, bad)
        touched = {i for pr in bad for i in pr}
        t.nt(sum(want) > 1 or any(not want[i] for i in touched))
        t.hit("%d flagged" % min(sum(want), 4))
        # what remains keeps to the limit
        for i, j in bad:
            expect(got[i] == 1 or got[j] == 1, "reports %d and %d are too far apart and neither is flagged, of %r", i, j, recs)
    expect_eq(got, want, "reports flagged, of %r with %r" % (recs, p))
    ex.Voyage().iquam_track_check(p)


def too_different(recs, p, var="SST"):
    """pairs of reports whose values differ too much, or None where it is too close to call"""
    tol = p["buoy_delta_t"] if recs[0]["PT"] in (6, 7) else p["ship_delta_t"]
    bad = []
    for i, j in pairs(len(recs), p["number_of_neighbours"]):
        a, b = recs[i][var], recs[j][var]
        if a is None or b is None:
            continue
        _, d, _, h = leg(recs[i], recs[j])
        lim = max(d * p["max_gradient_space"], abs(h) * p["max_gradient_time"])
        if lim < tol - 1e-5 and F(a) * 16 == int(F(a) * 16) and F(b) * 16 == int(F(b) * 16):
            x = abs(a - b) > tol        # exact
        else:
            x = gt(abs(a - b), max(lim, tol))
        if x is None:
            return None
        if x:
            bad.append((i, j))
    return bad


@law("C18", "flags", lambda: S().tuples(
    voyage_cases(13, 3), S().lists(maybe(S().one_of(dyadic(10, 14, 4), S().sampled_from([10., 12., 20., 30., -2.])), .12), min_size=14, max_size=14),
    S().fixed_dictionaries({"max_gradient_space": S().sampled_from([0.5, 0.01, 0.1]), "max_gradient_time": S().sampled_from([1.0, 0.1, 0.25]),
                            "ship_delta_t": S().sampled_from([2.0, 1.0, 5.]), "buoy_delta_t": S().sampled_from([1.0, 0.5]),
                            "number_of_neighbours": S().integers(1, 7)}), S().sampled_from(["SST", "SST", "AT"]), dyadic(0, 3, 4)).map(list),
     quick=6000)
def _(case, t):
    c, vals, p, var, step = case
    recs = voyage(c)
    n = len(recs)
    mixed(recs, c)
    for r, x in zip(recs, vals):
        # about ten, or about zero
        r[var] = x if x is None or step < 1. else x - 12.
    v = load(recs)
    args = (p,) if var == "SST" else (p, var)
    v.spike_check(*args)
    bad = too_different(recs, p, var)
    if bad is None:
        return
    want = worst_first(n, bad)
    got = [v.get_qc(i, var, "spike") for i in range(n)]
    t.nt(sum(want))
    t.hit("%d spikes" % min(sum(want), 4))
    expect_eq(got, want, "spikes of %r with %r" % (recs, p))
    for i, j in bad:
        expect(got[i] or got[j], "reports %d and %d differ too much and neither is flagged", i, j)
    ex.Voyage().spike_check(p)


# ------------------------------------------------------------------------------------------------------- C19

def repeat_cases():
    st = S()
    return st.tuples(st.lists(maybe(st.sampled_from([10., 10., 10.5, 11., 12., 12.25, -1., 0., 0.5, 10.04, 11.96, -0.04, 10.001]), .1), max_size=30),
                     st.sampled_from([0., 0.25, 0.5, 0.7, 0.75, 0.3, 1., 0.1, 0.9]), st.integers(0, 22),
                     st.sampled_from(["SST", "AT", "AT2", "DPT", "SLP"]), st.integers(0, 30), st.integers(0, 6)).map(list)


def repeated(vals, p):
    known = [x for x in vals if x is not None]
    n = len(known)
    return [int(n > p["min_count"] and x is not None and F(known.count(x), n) > F(str(p["threshold"]))) for x in vals]


def rounded(vals, p):
    known = [x for x in vals if x is not None]
    n = len(known)
    whole = [x for x in known if x == int(x)]
    hit = n > p["min_count"] and F(len(whole), n) >= F(str(p["threshold"]))
    return [int(hit and x is not None and x == int(x)) for x in vals]


def saturated(recs, p):
    """runs of more than so many reports over at least so many hours; None where the span equals the limit but is not exact"""
    n = len(recs)
    want = [0] * n
    i = 0
    while i < n:
        j = i
        while j < n and recs[j]["AT"] is not None and recs[j]["AT"] == recs[j]["DPT"]:
            j += 1
        if j - i > p["shortest_run"]:
            span = float(ref.hours(recs[j - 1]) - ref.hours(recs[i]))
            if abs(span - p["min_time_threshold"]) < 1e-6 and recs[j - 1]["HR"] != recs[i]["HR"]:
                want[i:j] = [None] * (j - i)
            elif span >= p["min_time_threshold"]:
                want[i:j] = [1] * (j - i)
        i = max(j, i + 1)
    return want


@law("C19", "repeated-and-rounded", repeat_cases, quick=6000)
def _(case, t):
    vals, thr, count, var, extra, k = case
    vals = vals + ([[10., 10.5, 11., 12.25][k % 4]] * extra if k < 5 else [])
    v = load([{"ID": "A", "YR": 2000, "MO": 1, "DY": 1 + i % 28, "HR": 1., "LAT": 0., "LON": 0., var: x} for i, x in enumerate(vals)])
    p = {"threshold": thr, "min_count": count}
    v.find_repeated_values(p, intype=var)
    known = [x for x in vals if x is not None]
    n = len(known)
    lim = F(str(thr))
    want = repeated(vals, p)
    if n > count and any(F(known.count(x), n) == lim for x in known):
        t.nt()
        t.hit("share equals the limit")
    if n == count:
        t.nt()
        t.hit("count equals the limit")
    t.nt(sum(want))
    expect_eq([v.get_qc(i, var, "rep") for i in range(len(vals))], want, "repeated values of %r with %r" % (vals, p))
    if var != "SLP":
        v.find_multiple_rounded_values(p, intype=var)
        want = rounded(vals, p)
        t.nt(sum(want))
        t.hit("rounded %d" % (1 in want))
        expect_eq([v.get_qc(i, var, "round") for i in range(len(vals))], want, "rounded values of %r with %r" % (vals, p))
        if var == "DPT":
            v.find_multiple_rounded_values(p)
            expect_eq([v.get_qc(i, var, "round") for i in range(len(vals))], want, "rounded dew points by default")
    if var == "SST":
        v.find_repeated_values(p)
    for bad in (-0.1, 1.1):
        must_raise(lambda: v.find_repeated_values({"threshold": bad, "min_count": count}, intype=var), "threshold %r" % bad)


@law("C19", "saturated-runs", lambda: S().tuples(
    S().lists(S().tuples(S().sampled_from("sssssssssdma"), S().sampled_from([12, 24, 24, 48, 0])), max_size=40),
    S().sampled_from([1, 2, 4, 6, 20]), S().sampled_from([12., 24., 36., 48., 0.]), S().integers(0, 23)).map(
        lambda p: [[list(x) for x in p[0]], p[1], p[2], p[3]]), quick=5000)
def _(case, t):
    steps, shortest, hours, h0 = case
    when = datetime(2004, 2, 26, h0)
    recs = []
    for kind, q in steps:
        when += timedelta(minutes=15 * q)
        x = [10.5, 0., -1.5][h0 % 3]
        at, dpt = {"s": (x, x), "d": (x, x - 1.5), "m": (None, None), "a": (None, x)}[kind]
        recs.append({"ID": "A", "YR": when.year, "MO": when.month, "DY": when.day, "HR": when.hour + when.minute / 60., "LAT": 0., "LON": 0.,
                     "AT": at, "DPT": dpt, "sat": kind == "s"})
    v = load(recs)
    v.find_saturated_runs({"min_time_threshold": hours, "shortest_run": shortest})
    n = len(recs)
    want = saturated(recs, {"min_time_threshold": hours, "shortest_run": shortest})
    lengths = [len(x) for x in "".join("s" if r["sat"] else "." for r in recs).split(".")]
    t.nt(shortest + 1 in lengths)
    if None in want:
        t.hit("span equals the limit")
        return
    t.nt(sum(want))
    t.hit("flagged" if sum(want) else "none")
    expect_eq([v.get_qc(i, "DPT", "repsat") for i in range(n)], want, "saturated runs of %r, more than %d reports and %g hours" % (
        [(r["YR"], r["MO"], r["DY"], r["HR"], r["sat"]) for r in recs], shortest, hours))
