"""C27 the files a run writes."""
import csv
import datetime
import os
import re
import shutil
import tempfile

import Extended_IMMA as ex
import ref
from vlib import S, dyadic, expect, expect_close, expect_eq, law, maybe, prop

prop("C27", "decks and voyages of up to twenty-five reports of a month and its neighbours (and of the same month of other years), values, "
            "normals, dates and flags set or missing at random, identifiers with blanks and characters no file name can have, every writer, "
            "files left by an earlier run included; non-trivial = at least two reports to write, one not to, and a value missing",
     ["identifiers hold no comma, quote or newline", "every report has its unique identifier, as every ICOADS 3 record has"])

POS = ["day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy", "iquam_track"]
SST = ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep", "spike", "hardlimit"]
VARS = ["ID", "YR", "MO", "DY", "HR", "LAT", "LON", "AT", "AT_anom", "SST", "SST_anom", "DPT", "DPT_anom", "SLP", "SLP_anom"]
FULL = {"POS": POS, "SST": SST,
        "AT": ["bud", "clim", "nonorm", "freez", "noval", "mat_blacklist", "bbud", "rep", "hardlimit"],
        "DPT": ["bud", "clim", "nonorm", "freez", "noval", "hum_blacklist", "bbud", "rep", "ssat", "repsat", "round", "hardlimit"],
        "SLP": ["bud", "clim", "nonorm", "noval", "rep"], "W": ["noval", "hardlimit", "consistency", "wind_blacklist"]}
MIN = {"POS": POS[:8], "SST": SST[:8], "AT": FULL["AT"][:8], "DPT": FULL["DPT"][:11]}
SHIP = {"POS": POS + ["isdrifter"], "SST": SST}
TRACK = [("v", n) for n in ["ID", "LON", "LAT", "YR", "MO", "DY", "HR"]] + [("POS", n) for n in POS + ["isdrifter"]] + \
        [("SST", n) for n in SST] + [("POS", n) for n in ["drf_agr", "drf_spd"]] + \
        [("SST", n) for n in ["drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short"]] + \
        [("v", n) for n in ["SST", "OSTIA", "BGVAR", "ICE"]]
VALUES = {"AT": (-40, 40), "SST": (-5, 40), "DPT": (-40, 30), "SLP": (870, 1080), "W": (0, 60), "D": (1, 362)}
NAMES = ["GABC     ", "44137    ", "A/B      ", "D*BU     ", "TWO WORDS", "///      ", "a.b-c_d+e", "         "]


def cases():
    st = S()
    rep = st.fixed_dictionaries({
        "when": st.sampled_from([0, 0, 0, 0, 0, 1, -1, 12, -12, 120]), "DY": st.one_of(st.integers(1, 28), st.sampled_from([29, 30, 31, None, 0, 32])),
        "HR": maybe(st.one_of(dyadic(0, 23), st.sampled_from([23.99, 0.1, 24., 0.])), .1), "LAT": st.one_of(dyadic(-90, 90), st.sampled_from([12.34, -0.07, 0., -0.])),
        "LON": st.one_of(dyadic(-180, 360), st.sampled_from([-179.99, 0.01, 359.99, 0., -0.])),
        "vals": st.fixed_dictionaries({}, optional={n: maybe(st.one_of(dyadic(a, b), st.integers(a * 10, b * 10).map(lambda k: k / 10.), *([st.sampled_from([0., -0.])] if a <= 0 <= b else [])), .1)
                                                    for n, (a, b) in VALUES.items()}),
        "norm": st.fixed_dictionaries({}, optional={n: maybe(dyadic(-30, 40), .2) for n in ["AT", "SST", "DPT", "SLP"]}),
        "ext": st.fixed_dictionaries({}, optional={n: maybe(dyadic(-2, 35, 64), .2) for n in ["OSTIA", "ICE", "BGVAR"]}),
        "flags": st.lists(st.integers(0, 10), min_size=3, max_size=9), "ID": maybe(st.sampled_from(NAMES), .1)})
    return st.fixed_dictionaries({
        "y": st.sampled_from([1985, 1999, 2004, 1850, 2012]), "m": st.integers(1, 12), "reps": st.one_of(st.lists(rep, min_size=1, max_size=25), st.lists(rep, min_size=8, max_size=25)),
        "kind": st.sampled_from(["deck", "deck", "min", "ship", "ship", "tracking"]), "runid": st.sampled_from(["standard", "r_1", "x.y"]),
        "ID": st.sampled_from(NAMES), "test": st.sampled_from([False, False, False, True]), "old": st.booleans()})


FLAGS = sorted(set((k, f) for d in (FULL, SHIP) for k in d for f in d[k]) | set(x for x in TRACK if x[0] != "v"))


def stored(c):
    out = []
    for k, r in enumerate(c["reps"]):
        mm = c["y"] * 12 + c["m"] - 1 + r["when"]
        d = {"YR": mm // 12, "MO": mm % 12 + 1, "DY": r["DY"], "HR": r["HR"], "LAT": r["LAT"], "LON": r["LON"],
             "ID": c["ID"] if c["kind"] in ("ship", "tracking") else r["ID"], "UID": "UID%03d" % (997 * k % 1000)}
        if c["kind"] in ("ship", "tracking") and d["DY"] not in range(1, 29):
            d["DY"] = 28        # voyages are made of reports that passed the checks of date and time
        if c["kind"] in ("ship", "tracking") and d["HR"] == 24.:
            d["HR"] = 0.5
        d.update(r["vals"])
        fl = {}
        for i, f in enumerate(FLAGS):
            v = r["flags"][(i * i + i) % len(r["flags"])]
            v = (v + i) % 11
            if v < 10:
                fl[f] = v
        out.append((d, r["norm"], r["ext"], fl))
    return out


def load(cls, rows):
    o = cls()
    for d, norm, ext, fl in rows:
        rep = ref.make(ex.MarineReportQC, **{k: v for k, v in d.items()})
        for n in norm:
            rep.add_climate_variable(n, norm[n])
        for n in ext:
            rep.setext(n, ext[n])
        for (a, b), v in fl.items():
            rep.set_qc(a, b, v)
        (o.append if hasattr(o, "append") else o.add_report)(rep)
    return o


def value(row, name):
    d, norm, ext, fl = row
    if name.endswith("_anom"):
        n = name[:-5]
        if d.get(n) is None or norm.get(n) is None:
            return None
        return Ellipsis if norm[n] is Ellipsis else d[n] - norm[n]
    if name in ext:
        return ext[name]
    return d.get(name)


def same_value(text, want, what):
    if want is Ellipsis:
        expect(text == "\\N" or re.match(r"-?\d+(\.\d+)?(e-?\d+)?$", text), "%s is %r", what, text)
    elif want is None:
        expect(text == "\\N", "%s is missing, written %r", what, text)
    elif isinstance(want, str):
        expect(text == want, "%s is %r, written %r", what, want, text)
    else:
        try:
            got = float(text)
        except ValueError:
            got = None
        expect(got is not None, "%s is %r, written %r", what, want, text)
        expect_close(got, want, what, 1e-10, 1e-10)
        if isinstance(want, int):
            expect(text in (str(want), str(float(want))), "%s is %d, written %r", what, want, text)


def same_flag(text, want, what):
    """want: the flag, a set of flags, or None if it is not known"""
    if want is None:
        expect(len(text) == 1 and text in "0123456789", "%s is %r", what, text)
    elif isinstance(want, (set, frozenset)):
        expect(text in [str(w) for w in want], "%s is %s, expected one of %r", what, text, sorted(want))
    else:
        expect(text == str(want), "%s is %s, expected %r", what, text, want)


def lead(row):
    """the date and pentad columns"""
    d = row[0]
    try:
        day = datetime.date(d["YR"], d["MO"], d["DY"]).isoformat()
    except (TypeError, ValueError):
        day = "0000-00-00"
    try:
        datetime.date(2004, d["MO"], d["DY"])
        p = ref.pentad(d["MO"], d["DY"])
    except (TypeError, ValueError):
        p = 0
    return [d["UID"], day, str(p)]


def table(path):
    with open(path, newline="") as f:
        text = f.read()
    expect(text.endswith("\n"), "%s does not end its last line", os.path.basename(path))
    rows = list(csv.reader(text.split("\n")[:-1]))
    for r in rows:
        expect(len(r) == len(rows[0]), "%s: a row has %d fields, the header %d: %r", os.path.basename(path), len(r), len(rows[0]), r)
    return rows


def check_files(top, prefix, tail, rows, varnames, blocks):
    name = prefix + "Variables_" + tail
    got = table(top + "/" + name)
    expect_eq(got[0], ["UID", "DATE", "PENTAD"] + varnames, "header of " + name)
    expect_eq([r[0] for r in got[1:]], [r[0]["UID"] for r in rows], "reports in " + name)
    for r, line in zip(rows, got[1:]):
        expect_eq(line[:3], lead(r), "first columns of %s in %s" % (r[0]["UID"], name))
        for n, text in zip(varnames, line[3:]):
            same_value(text, value(r, n), "%s of %s in %s" % (n, r[0]["UID"], name))
    for b in blocks:
        name = prefix + b + "_qc_" + tail
        got = table(top + "/" + name)
        expect_eq(got[0], ["UID"] + blocks[b], "header of " + name)
        expect_eq([r[0] for r in got[1:]], [r[0]["UID"] for r in rows], "reports in " + name)
        for r, line in zip(rows, got[1:]):
            for f, text in zip(blocks[b], line[1:]):
                same_flag(text, r[3].get((b, f), 9), "flag %s %s of %s in %s" % (b, f, r[0]["UID"], name))
    return set([prefix + "Variables_" + tail] + [prefix + b + "_qc_" + tail for b in blocks])


@law("C27", "files", cases, quick=2400)
def _(c, t):
    rows = stored(c)
    month = [r for r in rows if (r[0]["YR"], r[0]["MO"]) == (c["y"], c["m"])]
    ym = "%d%02d" % (c["y"], c["m"])
    safe = c["ID"].replace("/", "_").replace("*", "_")
    t.nt(len(month) > 1 and len(month) < len(rows) and any(v is None for r in month for v in r[0].values()))
    t.hit(c["kind"])
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        ship = c["kind"] in ("ship", "tracking")
        o = load(ex.Voyage if ship else ex.Deck, rows)
        again = 2 if c["old"] else 1
        for _ in range(again):
            if c["kind"] == "deck":
                o.write_output(c["runid"], top, c["y"], c["m"], test=c["test"])
            elif c["kind"] == "min":
                o.write_min_output(c["runid"], top, c["y"], c["m"], test=c["test"])
            elif c["kind"] == "ship":
                o.write_output(c["runid"], top, c["y"], c["m"])
            else:
                o.write_tracking_output(c["runid"], top, c["y"], c["m"])
        prefix = "Test_" if c["test"] and not ship else ""
        if c["kind"] == "deck":
            made = check_files(top, prefix, "%s_%s.csv" % (ym, c["runid"]), month, VARS + ["OSTIA", "W", "D"], FULL)
        elif c["kind"] == "min":
            made = check_files(top, prefix, "%s_%s.csv" % (ym, c["runid"]), month, VARS[:13], MIN)
        elif c["kind"] == "ship":
            made = check_files(top, "", "%s_%s_%s.csv" % (ym, safe, c["runid"]), month, VARS + ["OSTIA", "ICE", "BGVAR"], SHIP)
        else:
            name = "Tracking_%s_%s_%s.csv" % (ym, safe, c["runid"])
            made = set([name])
            check_tracking(top + "/" + name, rows)
        expect_eq(set(os.listdir(top)), made, "files written")
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check_tracking(path, rows, any_order=False):
    name = os.path.basename(path)
    got = table(path)
    if any_order:
        at = {r[0]["UID"]: k for k, r in enumerate(rows)}
        got[1:] = sorted(got[1:], key=lambda line: at.get(line[0], -1))
    expect_eq(got[0], ["UID", "DATE", "PENTAD"] + [n for _, n in TRACK], "header of " + name)
    expect_eq([r[0] for r in got[1:]], [r[0]["UID"] for r in rows], "reports in " + name)
    for r, line in zip(rows, got[1:]):
        expect_eq(line[:3], lead(r), "first columns of %s in %s" % (r[0]["UID"], name))
        for (kind, n), text in zip(TRACK, line[3:]):
            if kind == "v":
                same_value(text, value(r, n), "%s of %s in %s" % (n, r[0]["UID"], name))
            else:
                same_flag(text, r[3].get((kind, n), 9), "flag %s %s of %s in %s" % (kind, n, r[0]["UID"], name))


@law("C27", "several months", lambda: S().tuples(cases(), S().lists(S().integers(-2, 2), min_size=2, max_size=5)).map(list), quick=400)
def _(case, t):
    """the files of all months together hold every report exactly once, whatever the order of writing"""
    c, order = case
    rows = [r for r in stored(c)]
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        deck = load(ex.Deck, rows)
        months = sorted(set((r[0]["YR"], r[0]["MO"]) for r in rows))
        todo = [months[k % len(months)] for k in order] + months
        for y, m in todo:
            deck.write_output(c["runid"], top, y, m)
        uids = []
        for y, m in months:
            got = table("%s/Variables_%d%02d_%s.csv" % (top, y, m, c["runid"]))
            for line in got[1:]:
                expect_eq([int(line[4]), int(line[5])], [y, m], "month of a report in the file of %d-%d" % (y, m))
            uids += [line[0] for line in got[1:]]
            for b in FULL:
                expect_eq([line[0] for line in table("%s/%s_qc_%d%02d_%s.csv" % (top, b, y, m, c["runid"]))[1:]], [line[0] for line in got[1:]],
                          "reports in the %s flags of %d-%d" % (b, y, m))
        expect_eq(sorted(uids), sorted(r[0]["UID"] for r in rows), "reports in all files")
        t.nt(len(months) > 2)
    finally:
        shutil.rmtree(top, ignore_errors=True)


# ------------------------------------------------------------------ fixed-width reports

def half_up(x):
    """to the nearest whole number, halves away from zero"""
    from decimal import ROUND_HALF_UP, Decimal
    return int(Decimal(float(x)).quantize(Decimal(1), rounding=ROUND_HALF_UP))


@law("C27", "fixed-width", lambda: S().fixed_dictionaries({
    "YR": S().integers(1850, 2020), "MO": S().integers(1, 12), "DY": maybe(S().integers(1, 31)), "HR": maybe(dyadic(0, 23)),
    "LAT": dyadic(-90, 90), "LON": dyadic(-180, 360), "DCK": S().integers(0, 999), "PT": maybe(S().integers(0, 21)),
    "DS": maybe(S().integers(0, 9)), "VS": maybe(S().integers(0, 9)),
    "vals": S().fixed_dictionaries({}, optional={n: maybe(dyadic(-40, 60), .1) for n in ["AT", "SST", "SLP", "DPT", "SHU", "VAP", "CRH", "CWB", "DPD"]}),
    "norm": S().fixed_dictionaries({}, optional={n: maybe(dyadic(-40, 60), .2) for n in ["AT", "SST", "DPT", "SHU", "VAP", "CRH", "CWB", "DPD"]}),
    "flags": S().lists(S().integers(0, 10), min_size=3, max_size=12), "ID": maybe(S().sampled_from(NAMES), .2),
    "UID": S().sampled_from(["ABC123", "UIDUID", "X", "ABCDEFGH", "ABCDEFGHIJ"])}), quick=1600)
def _(c, t):
    """numbers in columns of eight, missing -32768, flags as digits"""
    rec = {n: c[n] for n in ["YR", "MO", "DY", "HR", "LAT", "LON", "DCK", "PT", "DS", "VS", "ID", "UID"]}
    rec.update(c["vals"])
    rep = ref.make(ex.MarineReportQC, **rec)
    for n in c["norm"]:
        rep.add_climate_variable(n, c["norm"][n])
    long_flags = [[("POS", f) for f in ["day", "land", "trk", "date", "time", "pos", "blklst", "iquam_track"]],
                  [("SST", f) for f in ["bud", "clim", "nonorm", "freez", "noval", "spike", "bbud", "rep"]],
                  [("AT", f) for f in ["bud", "clim", "nonorm", None, "noval", "nbud", "bbud", "rep"]],
                  [("DPT", f) for f in ["bud", "clim", "nonorm", "ssat", "noval", "round", "bbud", "rep", "repsat"]],
                  [("POS", f) for f in ["few", "ntrk"] + [None] * 6]]
    short_flags = [[("POS", f) for f in ["day", "land", "trk", "date", "time", "pos", "blklst", "dup"]],
                   [("SST", f) for f in ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep"]], long_flags[2],
                   [("POS", None)] * 8, long_flags[4]]
    fl = {}
    for i, f in enumerate(sorted(set(x for b in long_flags + short_flags for x in b if x[1]))):
        v = (c["flags"][(i * i + i) % len(c["flags"])] + i) % 11
        if v < 10:
            fl[f] = v
            rep.set_qc(f[0], f[1], v)

    def num(x, scale):
        return -32768 if x is None else half_up(x * scale)

    def an(n):
        return None if rec.get(n) is None or c["norm"].get(n) is None else rec[n] - c["norm"][n]
    lon = c["LON"] - 360 if c["LON"] > 180 else c["LON"]
    head = [half_up(c["LAT"] * 100), half_up(lon * 100), c["YR"], c["MO"], num(c["DY"], 1), num(c["HR"], 100)]
    dsvs = 9999 if c["DS"] is None or c["VS"] is None else c["DS"] * 100 + c["VS"]
    both = []
    for n in ["AT", "SST"]:
        both += [num(rec.get(n), 10), num(an(n), 100)]
    hum = []
    for n in ["DPT", "SHU", "VAP", "CRH", "CWB", "DPD"]:
        hum += [num(rec.get(n), 10), num(an(n), 100)]
    last = [dsvs, c["DCK"], num(c["PT"], 1)]
    for text, nums, blocks, what in ((rep.print_report(), head + both + last, short_flags, "short"),
                                     (rep.print_longform_report(), head + both + [num(rec.get("SLP"), 10)] + hum + last, long_flags, "long")):
        expect(text.endswith("\n") and text.count("\n") == 1, "%s report is not one line: %r", what, text)
        expect_eq(text[:10], (c["ID"] or "").ljust(9)[:9] + " ", "identifier in the %s report" % what)
        expect_eq(text[10:18], c["UID"].ljust(8)[:8], "unique identifier in the %s report" % what)
        body, k = text[18:], 8 * len(nums)
        got = [body[i:i + 8] for i in range(0, k, 8)]
        expect_eq(got, ["%8d" % x for x in nums], "numbers in the %s report" % what)
        want = " ".join("".join("9" if f[1] is None else str(fl.get(f, 9)) for f in b) for b in blocks)
        expect_eq(body[k:].strip(), want, "flags in the %s report" % what)
    t.nt(any(v is None for v in c["vals"].values()) or c["ID"] is None or c["LON"] > 180)
