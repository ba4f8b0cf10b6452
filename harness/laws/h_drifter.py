"""C23 drifters aground, C24 drifters picked up, C25 bad tails of drifter SST, C26 biased or noisy drifter SST."""
import math
from datetime import datetime, timedelta

import Extended_IMMA as ex
import ref
import trackqc as tqc
from laws.b_thresholds import almanac, sun_cases, sun_date, tolerance
from laws.f_voyage import iquam_params, too_fast, worst_first
from vlib import S, dyadic, expect, expect_eq, law, maybe, must_raise, prop, share

prop("C23", "simulated drifters told to a hundredth of a degree that drift, stop, jitter, circle, jump and start again, sampled "
            "regularly and with gaps, anywhere on the globe, the date line included; non-trivial = something is flagged, or a drifter "
            "that stopped moves on",
     ["records with a distance within one part in a million of the tolerance are not judged"])
prop("C24", "simulated drifters that drift, race, stop and jump, sampled regularly and with gaps; non-trivial = some reports are "
            "flagged and some are not",
     ["records with a speed within one part in a million of a limit are not judged"])
prop("C25", "records put together from stretches of good, biased, noisy and grossly wrong values, daylight, ice, missing and poor "
            "background, with any window lengths; non-trivial = a tail is flagged, or stopped by poor background",
     ["records with a statistic within 1e-9 of a limit are not judged", "day or night is not judged within 0.06 degrees of -2.5 degrees"])
prop("C26", "the same records; non-trivial = a flag is raised, or usable matches are one short of, or just reach, a count",
     ["records with a statistic within 1e-9 of a limit are not judged"])

JITTER = ref.km(0, 0, 0.01, 0.01)


def over(a, b):
    """a > b, or None where double precision cannot tell"""
    if abs(a - b) <= 1e-6 * max(abs(a), abs(b)):
        return None
    return a > b


# ------------------------------------------------------------------------------------------------ tracks
def track_cases(fast=False):
    st = S()
    if fast:
        step = st.sampled_from([0, 0, 1, 5, 9, 20, 30, 60, 100, 150, 300])
        hours = st.sampled_from([0, 1 / 64., 1, 1, 2, 3, 6, 6, 7, 8, 8.5, 9, 10, 12, 24, 25, 50])
    else:
        step = st.sampled_from([0, 0, 0, 0, 1, 1, 2, 5, 30])
        hours = st.sampled_from([0, 1 / 64., 1, 3, 6, 6, 12, 12, 24, 24, 30, 60, 200])
    leg = st.tuples(st.integers(1, 9), hours, step, st.sampled_from(["on", "on", "on", "jitter", "jump", "back", "away"]),
                    st.integers(-1, 1), st.integers(-1, 1)).map(list)
    return st.fixed_dictionaries({
        "lat": st.one_of(st.integers(-8000, 8000), st.sampled_from([0, 6000, -7990])),
        "lon": st.one_of(st.integers(-17999, 18000), st.sampled_from([17999, -17999, 18000, 17998, 0, -1])),
        "east": st.booleans(), "legs": st.lists(leg, min_size=1, max_size=7), "hour": st.integers(0, 23), "64ths": st.sampled_from([0, 0, 0, 32, 63]), "ID": st.just("44137    "),
        "PT": st.just(7)})


def track(c):
    """reports of a simulated drifter, and their times in hours since the first"""
    when = datetime(2003, 12, 27, c["hour"]) + timedelta(hours=c["64ths"] / 64.)
    t0 = when
    y, x = c["lat"], c["lon"]
    out, hrs = [], []

    def put(y, x):
        lon = ((x + 18000) % 36000 - 18000) / 100.
        if c["east"] and lon < 0:
            lon = round(lon + 360., 2)
        out.append({"ID": c["ID"], "PT": c["PT"], "UID": "U%05d" % len(out), "YR": when.year, "MO": when.month, "DY": when.day,
                    "HR": when.hour + ((when.minute * 60 + when.second) * 1000000 + when.microsecond) / 3.6e9, "LAT": max(-9000, min(9000, y)) / 100., "LON": lon})
        hrs.append((when - t0).total_seconds() / 3600.)
    put(y, x)
    for n, h, s, kind, dy, dx in c["legs"]:
        for k in range(n):
            when += timedelta(hours=h)
            if kind == "jitter":
                put(y + [0, s, 0, -s, 0][k % 5], x + [0, 0, s, 0, -s][k % 5])
                continue
            if kind == "on":
                y, x = y + s * dy, x + s * dx
            elif kind == "back":
                y, x = y + (s * dy if k % 2 else -s * dy), x + (s * dx if k % 2 else -s * dx)
            elif kind == "away" and k == 0:
                y, x = y + 10 * s * dy, x + 10 * s * dx
            elif kind == "jump" and k == n // 2:
                put(y + 10 * s * dy + 1, x + 10 * s * dx)
                continue
            y = max(-8400, min(8400, y))
            put(y, x)
    return out, hrs


STALE = [("POS", "drf_agr"), ("POS", "drf_spd")] + [("SST", f) for f in ("drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short")]


def load(recs, ext=None, stale=True):
    v = ex.Voyage()
    for k, r in enumerate(recs):
        rep = ref.make(ex.MarineReportQC, **r)
        for j, (kind, flag) in enumerate(STALE if stale and len(recs) % 2 else ()):
            # of some earlier run
            if (k + j) % 3:
                rep.set_qc(kind, flag, 1)
        for name in (ext[k] if ext else {}):
            rep.setext(name, ext[k][name])
        v.add_report(rep)
    return v


def flags(v, kind, name):
    return [v.get_qc(i, kind, name) for i in range(len(v))]


def median(xs):
    return sorted(xs)[len(xs) // 2]


def smooth(recs, hrs, w):
    lon0 = recs[0]["LON"]
    lons = [lon0 + (r["LON"] - lon0 + 180) % 360 - 180 for r in recs]
    lats = [r["LAT"] for r in recs]
    n = len(recs) - w + 1
    return ([median(lats[i:i + w]) for i in range(n)], [median(lons[i:i + w]) for i in range(n)], [hrs[i + w // 2] for i in range(n)])


def aground_from(recs, hrs, w, low, high):
    """the first report aground: None = not judgeable, len(recs) = none"""
    none = len(recs)
    if len(recs) <= w:
        return none
    la, lo, h = smooth(recs, hrs, w)
    stuck = None
    for i in range(len(h)):
        if h[-1] - h[i] < low:
            break
        j = len(h) - 1 if high is None else max(k for k in range(len(h)) if h[k] <= h[i] + high)
        if h[j] - h[i] < low:
            continue
        far = over(ref.km(la[i], lo[i], la[j], lo[j]), JITTER)
        if far is None:
            return None
        if far:
            stuck = None
        elif stuck is None:
            stuck = i
    if stuck is None:
        return none
    return stuck + w // 2 if stuck else 0


@law("C23", "flags", lambda: S().tuples(track_cases(), S().sampled_from([1, 1, 3, 3, 5, 7]), S().integers(1, 4), S().integers(0, 3)).map(list),
     quick=4000)
def _(case, t):
    c, w, low, more = case
    recs, hrs = track(c)
    for new in (False, True):
        v = load(recs)
        if new:
            v.new_buoy_aground_check({"smooth_win": w, "min_win_period": low}, False)
        else:
            v.buoy_aground_check({"smooth_win": w, "min_win_period": low, "max_win_period": low + more}, False)
        at = aground_from(recs, hrs, w, 24. * low, None if new else 24. * (low + more))
        if at is None:
            continue
        got = flags(v, "POS", "drf_agr")
        want = [0] * at + [1] * (len(recs) - at)
        t.nt(0 < at < len(recs) or any(k[2] == 0 for k in c["legs"][:-1]))
        t.hit("aground at once" if at == 0 else "never" if at == len(recs) else "aground later")
        if any(abs(recs[k]["LON"] - recs[k - 1]["LON"]) > 180 for k in range(1, len(recs))):
            t.hit("across the date line or Greenwich")
        expect_eq(got, want, "%s, smoothed over %d, %d to %d days, of %r" % ("new check" if new else "old check", w, low, low + more,
                                                                             [(h, r["LAT"], r["LON"]) for h, r in zip(hrs, recs)]))


def broken_cases():
    st = S()
    return st.tuples(track_cases(), st.integers(0, 30), st.sampled_from(["LAT", "LON", "HR", "order"])).map(list)


def spoilt(recs, at, how):
    """the record with something missing in one report, or out of order; None if that cannot be told"""
    at %= len(recs)
    if how == "order":
        if at == 0:
            return None
        recs = recs[:at - 1] + [recs[at], recs[at - 1]] + recs[at + 1:]
        return recs if ref.hours(recs[at]) < ref.hours(recs[at - 1]) else None
    recs = [dict(r) for r in recs]
    recs[at][how] = None
    return recs


@law("C23", "refused", broken_cases, quick=700)
def _(case, t):
    c, at, how = case
    recs, hrs = track(c)
    good = {"smooth_win": 3, "min_win_period": 2, "max_win_period": 3}
    for name, vals in (("smooth_win", [0, 2, -1, -3]), ("min_win_period", [0, -1, 4]), ("max_win_period", [0, 1])):
        for x in vals:
            must_raise(lambda: load(recs).buoy_aground_check(dict(good, **{name: x}), False), "%s of %r" % (name, x), (AssertionError,))
            if name != "max_win_period" and x != 4:
                must_raise(lambda: load(recs).new_buoy_aground_check(dict(good, **{name: x}), False), "%s of %r" % (name, x), (AssertionError,))
    # who is not a drifter is left alone, as is an empty voyage
    for n in (0, len(recs)):
        v = load([dict(r, PT=5) for r in recs[:n]], stale=False)
        v.buoy_aground_check(good)
        v.new_buoy_aground_check(good)
        expect_eq(flags(v, "POS", "drf_agr"), [9] * n, "flags of a ship")
    bad = spoilt(recs, at, how)
    if how == "HR" or bad is None or len(bad) <= 3:
        return
    t.nt()
    for f in ("buoy_aground_check", "new_buoy_aground_check"):
        must_raise(lambda: getattr(load(bad), f)(good, False), "a record with %s of report %d spoilt" % (how, at % len(bad)), (AssertionError,))
    if how == "order":
        for f in ("buoy_aground_check", "new_buoy_aground_check"):
            v, u = load(bad), load(recs)
            getattr(v, f)(good)
            getattr(u, f)(good, False)
            expect_eq([v.getvar(i, "UID") for i in range(len(v))], [u.getvar(i, "UID") for i in range(len(u))], "order after %s sorted it" % f)
            expect_eq(flags(v, "POS", "drf_agr"), flags(u, "POS", "drf_agr"), "flags after %s sorted it" % f)


# ------------------------------------------------------------------------------------------------ C24

def speeding(recs, hrs, limit, low, high, out=None):
    """flags of the old check (high given) or of the new one; None = not judgeable"""
    n = len(recs)
    got = [0] * n
    for i in range(n):
        if hrs[-1] - hrs[i] < low:
            break
        if out is None:
            j = max(k for k in range(n) if hrs[k] <= hrs[i] + high)
            if hrs[j] - hrs[i] < low:
                continue
        else:
            if out[i]:
                continue
            js = [k for k in range(n) if hrs[k] >= hrs[i] + low and not out[k]]
            if not js:
                continue
            j = js[0]
        fast = over(ref.km(recs[i]["LAT"], recs[i]["LON"], recs[j]["LAT"], recs[j]["LON"]), limit * 3.6 * (hrs[j] - hrs[i]))
        if fast is None and not (recs[i]["LAT"] == recs[j]["LAT"] and recs[i]["LON"] == recs[j]["LON"]):
            return None
        if fast:
            got[i:j + 1] = [1] * (j + 1 - i)
    return got


def speed_params():
    st = S()
    return st.tuples(st.sampled_from([2.5, 3.0, 1.0, 0.5]), st.sampled_from([0.25, 0.375, 0.5, 0.75, 1.0]), st.sampled_from([0, 0.25, 0.5, 1.])).map(list)


@law("C24", "flags", lambda: S().tuples(track_cases(True), speed_params(), S().one_of(iquam_params(), S().just(
    {"speed_limit": 60.0, "delta_d": 1.11, "delta_t": 0.01, "number_of_neighbours": 5})), S().integers(0, 9)).map(list), quick=4000)
def _(case, t):
    c, (limit, low, more), iq, seed = case
    iq = dict(iq)
    iq.setdefault("buoy_speed_limit", iq.pop("speed_limit", 60.0) if "buoy_speed_limit" not in iq else iq["buoy_speed_limit"])
    iq.setdefault("ship_speed_limit", 60.0)
    recs, hrs = track(c)
    n = len(recs)
    what = [(h, r["LAT"], r["LON"]) for h, r in zip(hrs, recs)]
    v = load(recs)
    v.buoy_speed_check({"speed_limit": limit, "min_win_period": low, "max_win_period": low + more}, False)
    want = speeding(recs, hrs, limit, 24 * low, 24 * (low + more)) if n > 1 else [0] * n
    if want is not None:
        t.nt(0 < sum(want) < n)
        t.hit("old: %s" % ("none" if not sum(want) else "all" if sum(want) == n else "some"))
        expect_eq(flags(v, "POS", "drf_spd"), want, "old check, limit %r m/s over %r to %r days, of %r" % (limit, low, low + more, what))
    v = load(recs)
    before = [(seed + k) % 2 for k in range(n)]
    for k in range(n):
        v.set_qc(k, "POS", "iquam_track", before[k])
    v.new_buoy_speed_check(iq, {"speed_limit": limit, "min_win_period": low}, False)
    bad = too_fast([dict(r, PT=5) for r in recs], iq)
    if bad is None:
        return
    out = worst_first(n, bad)
    want = speeding(recs, hrs, limit, 24 * low, None, out) if n > 1 else [0] * n
    if want is not None:
        t.nt(0 < sum(want) < n)
        t.hit("new: %s%s" % ("none" if not sum(want) else "all" if sum(want) == n else "some", ", positions set aside" if sum(out) else ""))
        expect_eq(flags(v, "POS", "drf_spd"), want, "new check, limit %r m/s over %r days with %r, of %r" % (limit, low, iq, what))
    expect_eq(flags(v, "POS", "iquam_track"), before, "IQUAM flags set before the new check")
    expect_eq([v.getvar(k, "PT") for k in range(n)], [7] * n, "platform types after the new check")


@law("C24", "refused", broken_cases, quick=500)
def _(case, t):
    c, at, how = case
    recs, hrs = track(c)
    good = {"speed_limit": 2.5, "min_win_period": 0.5, "max_win_period": 1.0}
    iq = {"ship_speed_limit": 60.0, "buoy_speed_limit": 15.0, "delta_d": 1.11, "delta_t": 0.01, "number_of_neighbours": 5}
    for name, vals in (("speed_limit", [-1.]), ("min_win_period", [-0.5, 1.25, 0.]), ("max_win_period", [-1., 0.25])):
        for x in vals:
            must_raise(lambda: load(recs).buoy_speed_check(dict(good, **{name: x}), False), "%s of %r" % (name, x), (AssertionError,))
            if name != "max_win_period" and x != 1.25:
                must_raise(lambda: load(recs).new_buoy_speed_check(iq, dict(good, **{name: x}), False), "%s of %r" % (name, x), (AssertionError,))
    for n in (0, len(recs)):
        v = load([dict(r, PT=5) for r in recs[:n]], stale=False)
        v.buoy_speed_check(good)
        v.new_buoy_speed_check(iq, good)
        expect_eq(flags(v, "POS", "drf_spd"), [9] * n, "flags of a ship")
    v = load(recs[:1])
    v.new_buoy_speed_check(iq, good)
    expect_eq(flags(v, "POS", "drf_spd"), [0], "flags of a single report")
    v = load(recs[:1])
    v.buoy_speed_check(good)
    expect_eq(flags(v, "POS", "drf_spd"), [0], "flags of a single report by the old check")
    bad = spoilt(recs, at, how)
    if how == "HR" or bad is None or len(bad) < 2:
        return
    t.nt()
    must_raise(lambda: load(bad).buoy_speed_check(good, False), "a record with %s of report %d spoilt" % (how, at % len(bad)), (AssertionError,))
    must_raise(lambda: load(bad).new_buoy_speed_check(iq, good, False), "a record with %s of report %d spoilt" % (how, at % len(bad)), (AssertionError,))
    if how == "order":
        for f, args in (("new_buoy_speed_check", (iq, good)), ("buoy_speed_check", (good,))):
            v, u = load(bad), load(recs)
            getattr(v, f)(*args)
            getattr(u, f)(*(args + (False,)))
            expect_eq(flags(v, "POS", "drf_spd"), flags(u, "POS", "drf_spd"), "flags after %s sorted it" % f)


# ------------------------------------------------------------------------------------------------ C25

@law("C25", "day-or-night", lambda: S().tuples(sun_cases(), S().sampled_from([None, None, 0., -6., 5.]), S().sampled_from([None, 0.1, -0.1, 0.2, -0.2, 1., -1.])).map(
    list), quick=3000)
def _(case, t):
    c, limit, off = case
    day = sun_date(c)
    hour = c["hour"] / 100.
    if off is not None:
        # a limit close to where the sun stands
        limit = round(almanac(day + timedelta(hours=hour), c["lat"], c["lon"])[0] - off, 2)
    got = tqc.track_day_test(day.year, day.month, day.day, hour, c["lat"], c["lon"], *([] if limit is None else [limit]))
    el = almanac(day + timedelta(hours=hour), c["lat"], c["lon"])[0]
    limit = -2.5 if limit is None else limit
    t.nt(abs(el - limit) < 6)
    if abs(el - limit) > tolerance(c["y"]):
        expect_eq(bool(got), el > limit, "daylight with the sun at %.2f degrees (limit %r), %r" % (el, limit, c))


share("C07", "C25", "day-or-night")
share("C26", "C25", "day-or-night")


BAD_DAY = [("year", 0, None), ("month", 1, None), ("month", 1, 0), ("month", 1, 13), ("day", 2, 0), ("day", 2, 32), ("day", 2, None),
           ("hour", 3, -0.5), ("hour", 3, 24.5), ("hour", 3, None), ("latitude", 4, 90.5), ("latitude", 4, -91.), ("latitude", 4, None), ("longitude", 5, None)]


@law("C25", "day-or-night-refused", lambda: (list(b) for b in BAD_DAY), kind="enum")
def _(case, t):
    name, k, x = case
    args = [2004, 2, 29, 12., 10., 20.]
    args[k] = x
    t.nt()
    must_raise(lambda: tqc.track_day_test(*args), "%s of %r" % (name, x), (AssertionError,))


KINDS = ["good", "good", "good", "biased", "biased", "noisy", "noisy", "gross", "one", "edge", "odd"]


def record_cases(long_too=True):
    st = S()
    part = st.tuples(st.integers(1, 9), st.sampled_from(KINDS), st.sampled_from([1, 1, 1, -1]),
                     st.sampled_from(["", "", "", "", "", "", "day", "ice", "ice?", "land", "poor", "limit",
                                                          "poor day", "poor ice", "poor land"])).map(list)
    return st.fixed_dictionaries({
        "parts": st.lists(part, min_size=1, max_size=8), "lat": st.integers(-40, 40), "lon": st.integers(-180, 180),
        "at": st.sampled_from([12.5, 12.5, 0., -1.25]), "var": st.sampled_from([0.01, 0.04, 0.09, 0.25, 0.]), "same": st.integers(0, 5), "big": st.sampled_from([1, 1, 1, 1, 1, 12]) if long_too else st.just(1),
        "lengths": st.tuples(st.sampled_from([1, 3, 3, 5, 7, 9]), st.integers(1, 6), st.integers(1, 3)).map(list),
        "errors": st.tuples(st.sampled_from([3.0, 1.0, 2.0]), st.sampled_from([3.0, 2.0, 1.0]), st.sampled_from([0.29, 0.5, 0.]),
                            st.sampled_from([1.0, 0.5, 0.25]), st.sampled_from([0.3, 0.2])).map(list)})


def record(c):
    """reports and background matches, with for each whether it is usable, its difference and its background variance"""
    recs, ext, use = [], [], []
    night = datetime(2003, 12, 1) + timedelta(minutes=int(((-c["lon"] / 15.) % 24) * 4) * 15)
    step = 0
    for n, kind, sign, cond in c["parts"]:
        for k in range(n * c["big"]):
            an = {"good": [0., 0.125, -0.125, 0.25][k % 4], "biased": 1.5 + 0.125 * (k % 3), "noisy": [1.5, -1.5, 0.25][k % 3],
                  "gross": [6., 5.5, 0.][k % 3], "one": 6. if k == 0 else 0., "edge": [1., 0.875, 1.125, -1.][k % 4],
                  "odd": [3.25, 0., 0., 0., -3.5][k % 5]}[kind] * sign
            if not (c["same"] == 0 and k % 3 == 1):
                step += 1
            when = night + timedelta(step) + timedelta(hours=12 if cond.endswith("day") else 0)
            if recs and when < last:
                step += 1
                when += timedelta(1)
            last = when
            var = {"poor": 0.5, "limit": 0.3}.get(cond.split(" ")[0], c["var"])
            where = cond.split(" ")[-1]
            bg = None if where == "land" else c["at"]
            recs.append({"ID": "44137    ", "PT": 7, "UID": "U%05d" % len(recs), "YR": when.year, "MO": when.month, "DY": when.day,
                         "HR": when.hour + when.minute / 60., "LAT": float(c["lat"]), "LON": float(c["lon"]), "SST": c["at"] + an})
            ext.append({"OSTIA": bg, "ICE": {"ice": [0.16, 0.25, 1.][n % 3], "ice?": 0.15, "land": None}.get(where, [0., None][k % 2]), "BGVAR": None if cond == "land" and k % 2 else var})
            use.append((where not in ("day", "ice", "land"), an, var))
    return recs, ext, use


def mean(xs):
    return math.fsum(xs) / len(xs)


def spread(xs):
    m = mean(xs)
    return math.sqrt(math.fsum((x - m) ** 2 for x in xs) / len(xs))


def trimmed(xs, part):
    k = len(xs) // part
    return sorted(xs)[k:len(xs) - k]


class Unclear(Exception):
    pass


def gt(a, b):
    if abs(a - b) < 1e-9 and not (a == 0 and b == 0):
        raise Unclear()
    return a > b


def run_of_bad(an, var, size, poor, is_bad):
    """number of windows from the start that are bad, before the first that is good or whose background is poor"""
    k = 0
    while k + size <= len(an):
        w, v = an[k:k + size], var[k:k + size]
        if any(x > poor for x in v) or not is_bad(w, v):
            break
        k += 1
    return k


def tails(an, var, p):
    """numbers of matches in the bad tails at the start and end"""
    n = len(an)
    long_n, long_sd, short_n, short_sd, n_bad, inter, intra, poor = p

    def long_bad(w, v):
        w = trimmed(w, 100)
        return gt(abs(mean(w)), long_sd * math.sqrt(inter ** 2 + mean([math.sqrt(x) for x in v]) ** 2)) \
            or gt(spread(w), math.sqrt(intra ** 2 + mean(v)))

    def short_bad(w, v):
        return sum(gt(abs(a), short_sd * math.sqrt(x + inter ** 2 + intra ** 2)) for a, x in zip(w, v)) >= n_bad

    half = (long_n + 1) // 2
    f = run_of_bad(an, var, long_n, poor, long_bad)
    b = run_of_bad(an[::-1], var[::-1], long_n, poor, long_bad)
    first = f + half - 1 if f else 0
    last = b + half - 1 if b else 0
    if first + last >= n:
        return 0, 0
    mid, mvar = an[first:n - last], var[first:n - last]
    windows = len(mid) - short_n + 1
    if windows > 0:
        f = run_of_bad(mid, mvar, short_n, poor, short_bad)
        b = run_of_bad(mid[::-1], mvar[::-1], short_n, poor, short_bad)
        if f == windows:
            return 0, 0          # all of it is bad
        first, last = first + f, last + b
    return first, last


def tail_params(c):
    (a, b, n), (la, sa, inter, intra, poor) = c["lengths"], c["errors"]
    if c["big"] > 1:
        a = 101 + 2 * a
    return (a, la, b, sa, n, inter, intra, poor)


def as_dict(p):
    return dict(zip(("long_win_len", "long_err_std_n", "short_win_len", "short_err_std_n", "short_win_n_bad", "drift_inter", "drif_intra",
                     "background_err_lim"), p))


def expected_tails(use, p):
    at = [k for k, u in enumerate(use) if u[0]]
    n = len(use)
    first, last = tails([use[k][1] for k in at], [use[k][2] for k in at], p)
    one = at[first - 1] + 1 if first else 0
    two = at[len(at) - last] if last else n
    return [int(k < one) for k in range(n)], [int(k >= two) for k in range(n)]


@law("C25", "tails", record_cases, quick=4000)
def _(c, t):
    recs, ext, use = record(c)
    p = tail_params(c)
    v = load(recs, ext)
    v.buoy_tail_check(as_dict(p), False)
    one, two = flags(v, "SST", "drf_tail1"), flags(v, "SST", "drf_tail2")
    try:
        want = expected_tails(use, p)
    except Unclear:
        return
    t.nt(sum(want[0]) or sum(want[1]) or any(u[2] > p[-1] for u in use))
    t.hit("%s at the start, %s at the end" % ("bad" if sum(want[0]) else "good", "bad" if sum(want[1]) else "good"))
    what = "with %r, of (usable, difference, variance) %r" % (as_dict(p), use)
    expect_eq(one, want[0], "tail at the start " + what)
    expect_eq(two, want[1], "tail at the end " + what)
    # the same record told backwards
    back = load([dict(r, SST=recs[-1 - k]["SST"]) for k, r in enumerate(recs)], ext[::-1])
    if all(u[0] for u in use):
        back.buoy_tail_check(as_dict(p), False)
        expect_eq((flags(back, "SST", "drf_tail1"), flags(back, "SST", "drf_tail2")), (two[::-1], one[::-1]), "tails of the record told backwards " + what)


@law("C25", "refused", lambda: S().tuples(record_cases(False), S().integers(0, 40), S().sampled_from(
    ["OSTIA", "ICE", "BGVAR", "LAT", "HR", "DY", "order", "ice", "warm", "variance"])).map(list), quick=600)
def _(case, t):
    c, at, how = case
    recs, ext, use = record(c)
    good = as_dict((3, 3., 2, 3., 1, .29, 1., .3))
    bias = {"n_eval": 3, "bias_lim": 1.1, "drif_intra": 1., "drif_inter": .29, "err_std_n": 3., "n_bad": 2, "background_err_lim": .3}
    for name, vals in (("long_win_len", [0, 2, -1]), ("long_err_std_n", [-1.]), ("short_win_len", [0, -1]), ("short_err_std_n", [-.5]),
                       ("short_win_n_bad", [0]), ("drift_inter", [-.1]), ("drif_intra", [-1.]), ("background_err_lim", [-.1])):
        for x in vals:
            must_raise(lambda: load(recs, ext).buoy_tail_check(dict(good, **{name: x}), False), "%s of %r" % (name, x), (AssertionError,))
    for name, vals in (("n_eval", [0, -1]), ("bias_lim", [-1.]), ("drif_intra", [-.5]), ("drif_inter", [-.5]), ("err_std_n", [-1.]), ("n_bad", [0]),
                       ("background_err_lim", [-.1])):
        for x in vals:
            must_raise(lambda: load(recs, ext).buoy_bias_noise_check(dict(bias, **{name: x}), False), "%s of %r" % (name, x), (AssertionError,))
    for n in (0, len(recs)):
        v = load([dict(r, PT=5) for r in recs[:n]], ext, False)
        v.buoy_tail_check(good)
        v.buoy_bias_noise_check(bias)
        for f in ("drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short"):
            expect_eq(flags(v, "SST", f), [9] * n, "flags of a ship")
    at %= len(recs)
    bad, bext = [dict(r) for r in recs], [dict(e) for e in ext]
    if how in ("OSTIA", "ICE", "BGVAR"):
        del bext[at][how]
    elif how in ("LAT", "HR", "DY"):
        bad[at][how] = None
    elif how == "order":
        k = spoilt(recs, at, "order")
        if k is None:
            return
        bad, bext = k, bext[:at - 1] + [bext[at], bext[at - 1]] + bext[at + 1:]
    elif how == "ice":
        bext[at]["ICE"] = [-0.1, 1.1, 1.005, -0.005][at % 4]
    else:
        if not use[at][0]:
            return
        bext[at].update({"OSTIA": [46., -5.5, 45.03, -5.03][at % 4]} if how == "warm" else {"BGVAR": [None, -0.1, 10.03, -0.01][at % 4]})
    t.nt()
    must_raise(lambda: load(bad, bext).buoy_tail_check(good, False), "tail check of a record with %s of report %d spoilt" % (how, at), (AssertionError,))
    if how not in ("warm", "variance") or (bext[at]["BGVAR"] or 0.) <= bias["background_err_lim"]:      # matches it sets aside are not looked at
        must_raise(lambda: load(bad, bext).buoy_bias_noise_check(bias, False), "bias check of a record with %s of report %d spoilt" % (how, at), (AssertionError,))
    if how == "order":
        v, u = load(bad, bext), load(recs, ext)
        v.buoy_tail_check(good)
        u.buoy_tail_check(good)
        expect_eq(flags(v, "SST", "drf_tail1"), flags(u, "SST", "drf_tail1"), "flags after the check sorted it")
        v, u = load(bad, bext), load(recs, ext)
        v.buoy_bias_noise_check(bias)
        u.buoy_bias_noise_check(bias, False)
        for f in ("drf_bias", "drf_noise", "drf_short"):
            expect_eq(flags(v, "SST", f), flags(u, "SST", f), "flags after the bias check sorted it")


# ------------------------------------------------------------------------------------------------ C26

def bias_flags(use, any_poor, p):
    """(bias, noise, short, number of gross errors)"""
    good = [(u[1], u[2]) for u in use if u[0] and u[2] <= p["background_err_lim"]]
    bias = noise = short = n = 0
    if good and len(good) >= p["n_eval"]:
        bias = int(gt(abs(mean([a for a, _ in good])), p["bias_lim"]))
        noise = int(gt(spread([a for a, _ in good]), math.sqrt(p["drif_intra"] ** 2 + mean([x for _, x in good]))))
    elif good and not any_poor:
        n = sum(gt(abs(a), p["err_std_n"] * math.sqrt(x + p["drif_inter"] ** 2 + p["drif_intra"] ** 2)) for a, x in good)
        short = int(n >= p["n_bad"])
    return bias, noise, short, n, len(good)


def poor_ext(e, limit):
    """a poor background counts as such even by day, over ice or land"""
    return e["BGVAR"] is not None and e["BGVAR"] > limit


@law("C26", "flags", lambda: S().tuples(record_cases(False), S().integers(1, 30), S().sampled_from([1.1, 0.5, 0.125, 2., 0.]), S().integers(1, 4),
                                        S().integers(-1, 1)).map(list), quick=5000)
def _(case, t):
    c, n_eval, bias_lim, n_bad, near = case
    recs, ext, use = record(c)
    sd, _, inter, intra, poor = c["errors"]
    if near:
        n_eval = max(1, sum(u[0] and u[2] <= poor for u in use) + near)
    p = {"n_eval": n_eval, "bias_lim": bias_lim, "drif_intra": intra, "drif_inter": inter, "err_std_n": sd, "n_bad": n_bad, "background_err_lim": poor}
    v = load(recs, ext)
    v.buoy_bias_noise_check(p, False)
    got = tuple(flags(v, "SST", f) for f in ("drf_bias", "drf_noise", "drf_short"))
    try:
        bias, noise, short, n, good = bias_flags(use, any(poor_ext(e, poor) for e in ext), p)
    except Unclear:
        return
    t.nt(bias or noise or short or abs(good - n_eval) <= 1 or n == n_bad - 1)
    t.hit("bias %d noise %d short %d" % (bias, noise, short))
    what = " with %r, of (usable, difference, variance) %r" % (p, use)
    for name, g, w in zip(("bias", "noise", "short"), got, (bias, noise, short)):
        expect_eq(g, [w] * len(recs), name + what)
