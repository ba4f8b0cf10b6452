"""C20 MDS buddy check, C21 Bayesian buddy check, C22 decks, filters and ships."""
import math
from fractions import Fraction as F

import Extended_IMMA as ex
import ref
from laws.b_thresholds import gauss_mass
from vlib import (S, dyadic, expect, expect_close, expect_eq, law, maybe, must_raise, prop)

prop("C20", "clusters of up to 12 cells of reports (up to 120 reports in one) around any place, with the poles, the date line and "
            "the turn of the year frequent, some reports filtered out, a spread field with holes; differences exactly at the "
            "limit; non-trivial = a report is judged against at least one neighbour",
     ["a difference within 1e-9 of the limit that is not exact in binary is not judged"])
prop("C21", "the same clusters with three spread fields with holes; non-trivial = a flag strictly between 0 and 9, or a report "
            "judged against at least two cells",
     ["probabilities within 1e-6 of a tenth may round either way"])
prop("C22", "random sequences of appending, popping, sorting, flagging, filtering, splitting and taking ships out of a deck, "
            "compared with a list after every step; non-trivial = ships taken out after a change of the deck with a filter set")

LIMITS = [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]]
COUNTS = [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]]
MULTS = [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]


def day_of(pentad, k=2):
    """day k (from 0) of a pentad; the sixth is 29 February where there is one"""
    import datetime
    if k == 5 and pentad == 12:
        return 2, 29
    d = datetime.date(2003, 1, 1) + datetime.timedelta(5 * (pentad - 1) + k % 5)
    return d.month, d.day


class Field(object):
    """a field of spreads that depends on the cell and the pentad, with holes"""

    def __init__(self, kind, seed, scale=1., zeros=False):
        self.kind, self.seed, self.scale, self.zeros = kind, seed, scale, zeros

    def at(self, row, col, pentad):
        v = self.unscaled(row, col, pentad)
        return v * self.scale if v is not None and v > 0 else v

    def unscaled(self, row, col, pentad):
        if self.kind == "one":
            return 1.0
        k = (row * 31 + col * 17 + pentad * 7 + self.seed * 13) % 11
        if self.kind == "holes" and k < 3:
            return [None, -1., -99.][k]
        if self.zeros and k == 3:
            return 0.
        return [0.5, 1., 2., 0.25, 0.5, 1., 1., 0.5, 2., 4., 1.][k]

    def get_value(self, lat, lon, month, day):
        return self.at(ref.row(lat), ref.col(lon), ref.pentad(month, day))

    def get_value_mds_style(self, lat, lon, month, day):
        return self.at(ref.mds_row(lat), ref.mds_col(lon), ref.pentad(month, day))


def cluster_cases():
    st = S()
    spot = st.fixed_dictionaries({
        "dx": st.one_of(st.integers(-3, 3), st.integers(-2, 2), st.integers(-180, 180)), "dy": st.integers(-3, 3), "dp": st.integers(-5, 5),
        "fx": st.sampled_from([0.125, 0.5, 0.875]), "fy": st.sampled_from([0.125, 0.5, 0.875]),
        "an": st.one_of(dyadic(-8, 8, 4), st.sampled_from([0., 4., -4., 3.5, 2.5, 8., -8.])), "n": st.sampled_from([1, 1, 1, 1, 2, 4, 5, 6, 16]),
        "out": st.integers(0, 6), "day": st.integers(0, 5), "border": st.integers(0, 15)})
    return st.fixed_dictionaries({
        "row": st.one_of(st.sampled_from([0, 1, 2, 177, 178, 179, 89, 90]), st.integers(0, 179)),
        "col": st.one_of(st.sampled_from([0, 1, 2, 357, 358, 359, 179, 180]), st.integers(0, 359)),
        "pentad": st.one_of(st.sampled_from([1, 2, 3, 71, 72, 73, 12]), st.integers(1, 73)),
        "spots": st.lists(spot, min_size=1, max_size=12), "big": st.sampled_from([0, 0, 0, 95, 100, 101]), "east": st.booleans(),
        "field": st.sampled_from(["one", "one", "varied", "holes"]), "seed": st.integers(0, 20), "turn": st.integers(-359, 359),
        "var": st.sampled_from(["SST", "AT", "DPT", "SLP"])})


def cluster(c):
    """list of (row, col, pentad, anomaly, filtered out, record)"""
    out = []
    for k, s in enumerate(c["spots"]):
        row = min(max(c["row"] + s["dy"], 0), 179)
        col = (c["col"] + s["dx"]) % 360
        pentad = (c["pentad"] - 1 + s["dp"]) % 73 + 1
        mo, dy = day_of(pentad, s["day"])
        lat, lon = 90 - row - s["fy"], -180 + col + s["fx"]
        if s["border"] < 3 and not c.get("inside"):
            lat, lon = (90. - row if s["border"] else lat), (-180. + col if s["border"] != 1 else lon)
            row, col = ref.mds_row(lat), ref.mds_col(180. if lon == -180 and c["east"] else lon)
        n = s["n"] + (c["big"] if k == 0 else 0)
        for j in range(n):
            out.append((row, col, pentad, s["an"], s["out"] == 0 and j == 0,
                        {"ID": "A", "UID": str(len(out)), "YR": 2004, "MO": mo, "DY": dy, "HR": 1., "LAT": lat,
                         "LON": lon + 360 if c["east"] and lon < 0 else lon, c["var"]: usual(c) + s["an"]}))
    return out


def near_cells(row, col, pentad, reach, cells):
    """the cells with reports around one cell, itself excepted"""
    x = reach[0] / math.cos(math.radians(89.5 - row))
    x = int(x + 1e-9)
    got = []
    for (r, q, p) in cells:
        if (r, q, p) == (row, col, pentad):
            continue
        dx = abs(q - col)
        dx = min(dx, 360 - dx)
        dp = abs(p - pentad)
        dp = min(dp, 73 - dp)
        if dx <= x and abs(r - row) <= reach[1] and dp <= reach[2]:
            got.append((r, q, p))
    return got


def gather(reps):
    cells = {}
    for row, col, pentad, an, out in [r[:5] for r in reps]:
        if not out:
            cells.setdefault((row, col, pentad), []).append(F(an))
    return {k: (sum(v) / len(v), len(v)) for k, v in cells.items()}


def exact(f):
    return F(float(f)) == f


def usual(c):
    return [10., 0., -4., 4., -1.5, -2.5][c["seed"] % 6]


def build(c, order=None, turn=0):
    deck = ex.Deck()
    reps = cluster(c)
    for i in (range(len(reps)) if order is None else order):
        rec = dict(reps[i][5])
        if turn:
            lon = (rec["LON"] + turn + 180) % 360 - 180
            rec["LON"] = lon + 360 if c["east"] and lon < 0 else lon
        r = ref.make(ex.MarineReportQC, **rec)
        r.add_climate_variable(c["var"], usual(c))
        r.set_qc("POS", "trk", 1 if reps[i][4] else 0)
        if len(reps) % 2 and i % 3:
            # of some earlier run
            r.set_qc(c["var"], "bud", 1)
            r.set_qc(c["var"], "bbud", 7)
        deck.append(r)
    filt = ex.QC_filter()
    filt.add_qc_filter("POS", "trk", 0)
    deck.add_filter(filt)
    return deck


def flags_of(deck, var, flag):
    return {deck.reps[i].getvar("UID"): deck.reps[i].get_qc(var, flag) for i in range(len(deck))}


def mds_flags(reps, field, p, t):
    """(flag or None if it is too close to call, reason) of every (row, col, pentad, anomaly, left out)"""
    cells = gather(reps)
    for row, col, pentad, an, out in reps:
        if out:
            yield 0, "does not take part"
            continue
        sd = field.at(row, col, pentad)
        if sd is None or sd < 0:
            sd = 1.
        mean, limit = F(0), F(500)
        sure = True
        for j, reach in enumerate(p["limits"]):
            ns = near_cells(row, col, pentad, reach, cells)
            if ns:
                mean = sum(cells[k][0] for k in ns) / len(ns)
                sure = exact(mean) and all(exact(cells[k][0]) for k in ns)
                total = sum(cells[k][1] for k in ns)
                mult = [m for lim, m in zip(p["number_of_obs_thresholds"][j], p["multipliers"][j]) if total > lim][-1]
                limit = F(mult) * F(sd)
                t.nt()
                t.hit("step %d" % (j + 1))
                if row < 3 or row > 176:
                    t.hit("near a pole")
                break
        else:
            t.hit("no neighbour")
        d = abs(F(an) - mean)
        why = "anomaly %s, neighbours' mean %s, limit %s" % (float(an), float(mean), float(limit))
        if d == limit and sure:
            t.hit("exactly at the limit")
        elif abs(d - limit) < 1e-9:
            yield None, why
            continue
        yield int(d >= limit), why


@law("C20", "flags", lambda: S().tuples(cluster_cases(), S().booleans()).map(list), quick=900)
def _(case, t):
    c, fewer = case
    p = {"limits": LIMITS, "number_of_obs_thresholds": COUNTS, "multipliers": MULTS}
    if fewer:
        p = {"limits": [[2, 1, 1], [3, 3, 3]], "number_of_obs_thresholds": [[0, 2, 4], [0, 1]], "multipliers": [[5., 3., 1.5], [2., 1.]]}
    reps = cluster(c)
    field = Field(c["field"], c["seed"], zeros=c["seed"] % 4 != 0)
    deck = build(c)
    deck.mds_buddy_check(c["var"], field, p)
    got = flags_of(deck, c["var"], "bud")
    for i, (w, why) in enumerate(mds_flags([r[:5] for r in reps], field, p, t)):
        g = got[str(i)]
        if w is not None:
            expect(g == w, "flag %r, expected %d (%s), report %r", g, w, why, reps[i])


@law("C20", "order-and-turning", cluster_cases, quick=250)
def _(c, t):
    """the order of the reports does not matter, nor (with the same spread everywhere) does turning the globe"""
    c = dict(c, field="one", big=0, inside=True)
    p = {"limits": LIMITS, "number_of_obs_thresholds": COUNTS, "multipliers": MULTS}
    reps = cluster(c)
    a = build(c)
    a.mds_buddy_check(c["var"], Field("one", 0), p)
    n = len(reps)
    order = sorted(range(n), key=lambda i: (i * 7919 + c["seed"] * 31) % 101)
    b = build(c, order, c["turn"])
    b.mds_buddy_check(c["var"], Field("one", 0), p)
    want = flags_of(a, c["var"], "bud")
    cells = gather(reps)
    t.nt(len(cells) > 1)
    if all(exact(m) for m, _ in cells.values()) and len(cells) in (1, 2, 3, 5):
        expect_eq(flags_of(b, c["var"], "bud"), want, "flags with the globe turned by %d degrees and the reports shuffled" % c["turn"])
    # a second check gives the same flags
    a.mds_buddy_check(c["var"], Field("one", 0), p)
    expect_eq(flags_of(a, c["var"], "bud"), want, "flags of a second buddy check")


def fill(grid, c):
    for row, col, pentad, an, out, rec in cluster(c):
        if out:
            grid.add_rep(rec["LAT"], rec["LON"] - 360 if rec["LON"] > 180 else rec["LON"], 2004, rec["MO"], rec["DY"], None)
        else:
            grid.add_rep(rec["LAT"], rec["LON"] - 360 if rec["LON"] > 180 else rec["LON"], 2004, rec["MO"], rec["DY"], an)
    grid.take_average()


@law("C20", "grid", lambda: S().tuples(cluster_cases(), S().tuples(S().integers(1, 4), S().integers(0, 3), S().integers(0, 5))).map(
    lambda p: [p[0], list(p[1])]), quick=500)
def _(case, t):
    c, reach = case
    grid = ex.Np_Super_Ob()
    fill(grid, c)
    cells = gather(cluster(c))
    for (row, col, pentad), (m, n) in cells.items():
        an, nobs = grid.get_neighbour_anomalies(reach, col, row, pentad - 1)
        want = sorted((float(cells[k][0]), float(cells[k][1])) for k in near_cells(row, col, pentad, reach, cells))
        got = sorted((float(a), float(b)) for a, b in zip(an, nobs))
        expect_eq(len(an), len(nobs), "numbers of neighbours and of their counts")
        t.nt(len(want) > 1)
        expect_eq(len(got), len(want), "number of neighbouring cells of row %d, column %d, pentad %d within %r" % (row, col, pentad, reach))
        for a, b in zip(got, want):
            expect_eq(a[1], b[1], "reports in a neighbouring cell")
            expect_close(a[0], b[0], "mean of a neighbouring cell", tol=1e-9)
    # the old limits are those with fixed parameters
    field = Field(c["field"], c["seed"])
    grid.get_buddy_limits(field)
    other = ex.Np_Super_Ob()
    fill(other, c)
    other.get_buddy_limits_with_parameters(field, LIMITS, COUNTS, MULTS)
    for row, col, pentad, an, out, rec in cluster(c):
        mo, dy = rec["MO"], rec["DY"]
        lon = rec["LON"] - 360 if rec["LON"] > 180 else rec["LON"]
        for f in ("get_buddy_mean", "get_buddy_stdev"):
            expect_close(getattr(grid, f)(rec["LAT"], lon, mo, dy), getattr(other, f)(rec["LAT"], lon, mo, dy),
                         "%s of the old limits" % f, tol=1e-9)


# ------------------------------------------------------------------------------------------------------- C21

def bayes_flags(reps, fields, p, reach_of_values, t):
    """(set of flags, reason) of every (row, col, pentad, anomaly, left out)"""
    cells = gather(reps)
    q, p0, sigma_m, noise, hi = (p["quantization_interval"], p["prior_probability_of_gross_error"], p["measurement_error"], p["noise_scaling"],
                                 reach_of_values)
    levels = 2 * hi / q + 1
    for row, col, pentad, an, out in reps:
        if out:
            yield {0}, "does not take part"
            continue
        an = float(an)
        s1, s2, s3 = [1. if f.at(row, col, pentad) is None or f.at(row, col, pentad) < 0 else f.at(row, col, pentad) for f in fields]
        ns = near_cells(row, col, pentad, p["limits"], cells)
        if ns:
            mean = float(sum(cells[k][0] for k in ns) / len(ns))
            tot = sum((sigma_m ** 2 + noise * s2 ** 2) / cells[k][1] for k in ns)
            sd = math.sqrt(sigma_m ** 2 + s1 ** 2 + noise * s2 ** 2 + tot / len(ns) ** 2 + s3 ** 2 / len(ns))
        else:
            mean, sd = 0., 500.
        good = gauss_mass(an - q / 2, an + q / 2, mean, sd) / gauss_mass(-hi - q / 2, hi + q / 2, mean, sd)
        pg = p0 / levels / (p0 / levels + (1 - p0) * good)
        want = {max(0, min(9, int(math.floor(10 * (pg + e))))) for e in (-1e-6, 0, 1e-6)}
        t.nt(0 < max(want) < 9 or len(ns) > 1)
        t.hit("flag %d" % max(want))
        yield want, "probability of gross error %.6f, anomaly %r, %d neighbouring cells, mean %r, spread %r" % (pg, an, len(ns), mean, sd)


@law("C21", "flags", lambda: S().tuples(cluster_cases(), S().sampled_from([0.05, 0.05, 0.01, 0.3, 0.9, 1.0]), S().sampled_from([1.0, 0.5, 2.0, 0.05]),
                                        S().sampled_from([3.0, 1.0]), S().sampled_from([[2, 2, 4], [1, 1, 2], [3, 1, 1]]),
                                        S().sampled_from([0.1, 0.5]), S().sampled_from([8., 8., 10.]), S().sampled_from([1., 1., 0.1])).map(list), quick=700)
def _(case, t):
    c, p0, sigma_m, noise, reach, q, top, scale = case
    c = dict(c, var="SST" if c["seed"] % 3 else "AT")
    p = {"bayesian_buddy_check": {"prior_probability_of_gross_error": p0, "quantization_interval": q, "measurement_error": sigma_m,
                                  "limits": reach, "noise_scaling": noise}, "SST": {"maximum_anomaly": 9.}, "AT": {"maximum_anomaly": 12.},
         c["var"]: {"maximum_anomaly": top}}
    fields = [Field(c["field"], c["seed"] + k, scale) for k in range(3)]
    reps = cluster(c)
    deck = build(c)
    deck.bayesian_buddy_check(c["var"], fields[0], fields[1], fields[2], p)
    got = flags_of(deck, c["var"], "bbud")
    for i, (want, why) in enumerate(bayes_flags([r[:5] for r in reps], fields, p["bayesian_buddy_check"], top, t)):
        expect(got[str(i)] in want, "flag %r, expected %r (%s) of %r", got[str(i)], want, why, reps[i])


@law("C21", "spread", lambda: S().tuples(cluster_cases(), S().sampled_from([1.0, 0.5, 2.0, 0.]), S().sampled_from([3.0, 1.0, 0.]),
                                         S().sampled_from([None, [2, 2, 4], [1, 1, 2], [3, 1, 1]])).map(list), quick=500)
def _(case, t):
    """mean and spread a report is judged by, to rounding"""
    c, sigma_m, noise, reach = case
    if reach is None:
        sigma_m, noise = 1.0, 3.0
    fields = [Field(c["field"], c["seed"] + 5 * k) for k in range(3)]
    grid = ex.Np_Super_Ob()
    fill(grid, c)
    cells = gather(cluster(c))
    grid.get_new_buddy_limits(*(fields + ([] if reach is None else [reach, sigma_m, noise])))
    for row, col, pentad, an, out, rec in cluster(c):
        if out and (row, col, pentad) not in cells:
            continue
        s1, s2, s3 = [1. if f.at(row, col, pentad) is None or f.at(row, col, pentad) < 0 else f.at(row, col, pentad) for f in fields]
        ns = near_cells(row, col, pentad, reach or [2, 2, 4], cells)
        t.nt(len(ns) > 1)
        mean, sd = 0., 500.
        if ns:
            mean = float(sum(cells[k][0] for k in ns) / len(ns))
            tot = sum((sigma_m ** 2 + noise * s2 ** 2) / cells[k][1] for k in ns)
            sd = math.sqrt(sigma_m ** 2 + s1 ** 2 + noise * s2 ** 2 + tot / len(ns) ** 2 + s3 ** 2 / len(ns))
        lon = rec["LON"] - 360 if rec["LON"] > 180 else rec["LON"]
        what = " of the %d neighbouring cells of row %d, column %d, pentad %d, spreads %r" % (len(ns), row, col, pentad, (s1, s2, s3))
        expect_close(grid.get_buddy_mean(rec["LAT"], lon, rec["MO"], rec["DY"]), mean, "mean" + what, tol=1e-9)
        expect_close(grid.get_buddy_stdev(rec["LAT"], lon, rec["MO"], rec["DY"]), sd, "spread" + what, tol=1e-9)


@law("C21", "order", cluster_cases, quick=100)
def _(c, t):
    c = dict(c, var="SST", big=0, field="one", inside=True)
    p = {"bayesian_buddy_check": {"prior_probability_of_gross_error": 0.05, "quantization_interval": 0.1, "measurement_error": 1.0,
                                  "limits": [2, 2, 4], "noise_scaling": 3.0}, "SST": {"maximum_anomaly": 8.0}}
    n = len(cluster(c))
    one = [Field("one", 0)] * 3
    a, b = build(c), build(c, list(reversed(range(n))), c["turn"])
    a.bayesian_buddy_check("SST", *(one + [p]))
    b.bayesian_buddy_check("SST", *(one + [p]))
    fa, fb = flags_of(a, "SST", "bbud"), flags_of(b, "SST", "bbud")
    t.nt(len(gather(cluster(c))) > 1)
    for k in fa:
        expect(abs(fa[k] - fb[k]) <= 1, "flag of report %s: %r, with the globe turned and the reports reversed %r", k, fa[k], fb[k])


# ------------------------------------------------------------------------------------------------------- C22

def deck_ops():
    """starts with a few reports; ships are asked for again and again in between"""
    st = S()
    ident = st.sampled_from(["A        ", "B        ", "C        ", None, "A", " A       "])
    add = st.tuples(st.just("append"), ident, st.integers(0, 60), st.sampled_from([0, 0, 1, 1, 9]), st.sampled_from([0, 0, 1, 1, 9, 2])).map(list)
    known = st.tuples(st.just("append"), st.sampled_from(["A        ", "B        ", "C        ", "A"]), st.integers(0, 60), st.sampled_from([0, 0, 1, 1, 9]), st.integers(0, 1)).map(list)
    filt = st.tuples(st.just("filter"), st.lists(st.tuples(st.sampled_from(["trk", "date"]), st.integers(0, 1)), max_size=2)).map(
        lambda p: [p[0], [list(x) for x in p[1]]])
    op = st.one_of(add, add, filt, st.tuples(st.just("pop"), st.integers(0, 8)).map(list), st.just(["pop"]), st.just(["sort"]), st.just(["sort"]), st.just(["ships"]),
                   st.just(["ships"]), st.just(["ships"]), st.tuples(st.just("flag"), st.integers(0, 1)).map(list),
                   st.tuples(st.just("rename"), st.integers(0, 8), st.sampled_from(["A        ", "B        ", "C        "])).map(list),
                   *([st.tuples(st.just("split"), st.integers(0, 1)).map(list)]))
    return st.one_of(*[st.tuples(st.lists(a, min_size=0, max_size=10), st.lists(filt, max_size=1), st.lists(op, min_size=2, max_size=20)).map(
        lambda p: p[0] + p[1] + p[2]) for a in (add, known, known)])


def compare_deck(deck, model):
    expect_eq(len(deck), len(model), "number of reports in the deck")
    expect_eq([id(r) for r in deck.reps], [id(m) for m in model], "reports in the deck")


@law("C22", "deck", deck_ops, quick=8000)
def _(case, t):
    deck, model, filt, changed = ex.Deck(), [], [], False
    facts = {}

    def passes(r):
        return all(facts[id(r)][k] == w for k, w in filt)
    for op in case:
        t.hit(op[0])
        if op[0] == "append":
            _, ident, h, trk, date = op
            r = ref.make(ex.MarineReportQC, ID=ident, YR=2004, MO=2, DY=27 + h // 24, HR=float(h % 24), LAT=h / 4., LON=h / 8.)
            if trk != 9:       # 9 is a flag that was never set
                r.set_qc("POS", "trk", trk)
            if date != 9:
                r.set_qc("POS", "date", date)
            t.hit("flag never set" if 9 in (trk, date) else "flags set")
            facts[id(r)] = {"trk": trk, "date": date, "ID": ident, "h": h, "keep": r}
            deck.append(r)
            model.append(r)
        elif op[0] == "pop":
            if model:
                k = op[1] % len(model) if len(op) > 1 else 0
                got = deck.pop(k) if len(op) > 1 else deck.pop()
                expect(got is model.pop(k), "popped another report than number %d", k)
                changed = True
        elif op[0] == "rename":
            if model:
                r = model[op[1] % len(model)]
                r.setvar("ID", op[2])
                changed = True
                facts[id(r)]["ID"] = op[2]
        elif op[0] == "sort":
            if all(facts[id(r)]["ID"] is not None for r in model):
                deck.sort()
                model.sort(key=lambda r: (facts[id(r)]["ID"], facts[id(r)]["h"]))
                changed = True
        elif op[0] == "filter":
            f = ex.QC_filter()
            for k, w in op[1]:
                f.add_qc_filter("POS", k, w)
            deck.add_filter(f)
            filt = [tuple(x) for x in op[1]]
            for r in model:
                expect_eq(f.test_report(r), 0 if passes(r) else 1, "filter %r of a report with %r" % (filt, facts[id(r)]))
        elif op[0] == "flag":
            deck.set_qc("SST", "bud", op[1])
            for r in model:
                expect_eq(r.get_qc("SST", "bud"), op[1], "flag set for the whole deck")
        elif op[0] == "split":
            f = ex.QC_filter()
            f.add_qc_filter("POS", "trk", op[1])
            good, bad = f.split_reports(deck)
            compare_deck(good, [r for r in model if facts[id(r)]["trk"] == op[1]])
            compare_deck(bad, [r for r in model if facts[id(r)]["trk"] != op[1]])
            ships_of(good, good.reps[:], lambda r: True, facts)
            expect_eq(len(deck), 0, "reports left in a deck that was split")
            # carry on with those that passed
            deck, model = good, [r for r in model if facts[id(r)]["trk"] == op[1]]
            filt = []
            changed = True
        elif op[0] == "ships":
            t.nt(changed and sum(1 for r in model if passes(r)) > 1)
            ships_of(deck, model, passes, facts)
        compare_deck(deck, model)


def ships_of(deck, model, passes, facts):
    seen = []
    idents = []
    for v in deck.get_one_platform_at_a_time():
        got = [v.getrep(i) for i in range(len(v))]
        if not got:
            continue
        ident = facts[id(got[0])]["ID"]
        expect(ident not in idents, "ship %r came twice", ident)
        idents.append(ident)
        want = [r for r in model if facts[id(r)]["ID"] == ident and passes(r)]
        expect_eq([id(r) for r in got], [id(r) for r in want], "reports of ship %r" % ident)
        for i in range(1, len(got)):
            a, b = facts[id(got[i - 1])], facts[id(got[i])]
            expect_close(v.getvar(i, "distance"), ref.km(a["h"] / 4., a["h"] / 8., b["h"] / 4., b["h"] / 8.),
                         "distance between the reports of ship %r" % ident, tol=1e-3)
            expect_close(v.getvar(i, "time_diff"), float(b["h"] - a["h"]), "hours between the reports of ship %r" % ident, tol=1e-6)
        seen += got
    expect_eq(sorted(id(r) for r in seen), sorted(id(r) for r in model if passes(r)), "reports handed out, ship by ship")
