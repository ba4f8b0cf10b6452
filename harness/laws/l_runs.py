"""C32 the main program, C35 the high-resolution and track-only programs, run on generated archives."""
import calendar
import datetime
import os
import shutil
import tempfile
from fractions import Fraction as F

import numpy as np

import archive
import CalcHums
import ref
from laws.e_reports import SETS, expected_flags
from laws.f_voyage import (DEFAULT, IQ, generic, rounded, repeated, saturated, too_different, too_fast, track_flags, voyage, worst_first)
from laws.g_deck import COUNTS, LIMITS, MULTS, bayes_flags, mds_flags
from laws.j_readers import mix
from laws.k_outputs import FULL, SHIP, VARS, check_files, same_flag, table
from vlib import S, expect, expect_eq, law, maybe, prop

prop("C32", "archives of up to six ships and drifters and some single reports over three to five months, near each other, with every kind of fault "
            "in values, positions, times and tracks, excluded identifiers, unreadable lines, reports in the wrong file, missing files, two "
            "releases, runs of one to three months with and without tracking; non-trivial = a report of a run month fails a check of its track "
            "or its neighbours",
     ["fields instead of NetCDF files, except in one law", "gzip files are read as text, as under Python 2",
      "flags that depend on a comparison too close to call are not judged"])
prop("C35", "the archives of C32; non-trivial = a drifter's report of a run month fails a check of its track or its neighbours",
     ["as C32"])

STORE = archive.Store().build()

IDENTS = ["GABC     ", "44137    ", "A/B      ", "D*BU     ", "TWO WORDS", "WXYZ     ", "62001    "]
SHARED = ["SHIP     ", None, "2        "]
WANTED_FIELDS = {("SST", "mean"): "SST", ("AT", "mean"): "AT", ("AT2", "mean"): "AT2", ("AT2", "stdev"): "AT2sd", ("DPT", "mean"): "DPT",
                 ("DPT", "stdev"): "DPTsd", ("SLP", "mean"): "SLP", ("SLP", "stdev"): "SLPsd", ("SLP2", "mean"): "other",
                 ("SHU", "mean"): "other", ("CRH", "mean"): "other", ("CWB", "mean"): "other", ("DPD", "mean"): "other"}


# ------------------------------------------------------------------------------------------------ generated archives
def ship_cases():
    st = S()
    legs = st.lists(st.tuples(st.sampled_from([4, 8, 16, 24, 24, 24, 24, 48, 96]), st.sampled_from([0, 1, 2, 4, 8, 11, 20, 45]),
                              st.sampled_from([0, 0, 0, 10, -45, 180])).map(list), max_size=11)
    return st.fixed_dictionaries({
        "dlat": st.integers(-150, 150), "dlon": st.integers(-150, 150), "course": st.sampled_from([0, 45, 90, 100, 225, 270]),
        "day": st.integers(-3, 33), "hour": st.integers(0, 95), "legs": legs,
        "moves": st.lists(st.tuples(st.integers(0, 11), st.sampled_from([.5, 1., 3., 8., -8.]), st.sampled_from([.5, 1., 4., 8., -4.])).map(list), max_size=2),
        "wind": st.lists(st.integers(0, 5), min_size=1, max_size=3), "ds": st.lists(st.integers(0, 9), min_size=1, max_size=3),
        "vs": st.lists(st.integers(0, 9), min_size=1, max_size=3),
        "ID": st.one_of(*[st.sampled_from(IDENTS)] * 6 + [st.sampled_from(SHARED)]), "PT": st.sampled_from([5, 5, 5, 1, None, 6, 7, 7, 7, 13]),
        "DCK": st.sampled_from([720, 732, 892, 193, 780, 701]), "seed": st.integers(0, 10 ** 6),
        "kind": st.sampled_from(["plain", "plain", "plain", "same", "whole", "saturated", "faulty", "faulty"])})


def run_cases(tracking=None):
    st = S()
    single = st.fixed_dictionaries({
        "dlat": st.integers(-300, 300), "dlon": st.integers(-300, 300), "day": st.integers(-32, 64), "hour": st.integers(0, 95),
        "odd": st.sampled_from([None, None, "no day", "day 0", "late day", "no hour", "24 h", "north", "south", "origin", "dateline", "duplicate", "echo", "far north", "far south", "far east"]),
        "ID": st.sampled_from(IDENTS + SHARED), "PT": st.sampled_from([5, 7, 6, None]), "DCK": st.sampled_from([892, 874, 701, 780]),
        "seed": st.integers(0, 10 ** 6)})
    bad = st.tuples(st.integers(-1, 3), st.integers(0, 40), st.sampled_from(["blank", "letters", "attachment", "wrong month", "wrong year", "short",
                                                                             "control"])).map(list)
    return st.fixed_dictionaries({
        "y": st.sampled_from([1859, 1885, 1899, 1935, 1984, 1985, 1999, 2004, 2005, 2014, 2023]), "m": st.one_of(st.sampled_from([12, 1, 2, 3]), st.integers(1, 12)),
        "n": st.sampled_from([1, 1, 1, 2, 3]), "tracking": st.booleans() if tracking is None else st.just(tracking),
        "lat": st.sampled_from([-62, -30, 0, 30, 45, 66]), "lon": st.sampled_from([-180, -45, 0, 50, 140, 179]),
        "ships": st.one_of(st.lists(ship_cases(), max_size=6), *[st.lists(ship_cases(), min_size=3, max_size=6)] * 3), "singles": st.lists(single, max_size=5),
        "bad": st.lists(bad, max_size=4), "exclude": st.lists(st.sampled_from(IDENTS), max_size=1), "gone": st.lists(st.integers(-1, 3), max_size=1),
        "second": st.lists(st.integers(-1, 3), max_size=2), "noost": st.integers(0, 4), "few": st.integers(0, 3), "set": st.sampled_from([0, 0, 1]), "runid": st.sampled_from(["standard", "r_1"]),
        "mixed": st.sampled_from([0, 0, 0, 1]), "offset": st.sampled_from([0., 0., 1.5, -2.])})


def months_of(c):
    k = c["y"] * 12 + c["m"] - 1
    return [((k + i) // 12, (k + i) % 12 + 1) for i in range(c["n"])]


def near(ym, d):
    k = ym[0] * 12 + ym[1] - 1 + d
    return k // 12, k % 12 + 1


def off_borders(v):
    """hundredths of a degree, on no border of any grid"""
    h = int(round(v * 100))
    return (h + 1 if h % 5 == 0 else h) / 100.


NOISE = [0., .3, -.3, .6, -.6, .9, -1.2, 1.5]


def fill(d, seed, k, kind, offset):
    """values that differ from the normal of the place by a common offset and noise, some missing and some wrong"""
    n = normals(d)
    for j, name in enumerate(["SST", "AT", "DPT", "SLP"]):
        h = mix(seed, k, j, 3)
        an = offset + NOISE[h % 8]
        if kind == "faulty":
            an += [0., 0., 0., 4., -5., 9., -11., 13.][h // 8 % 8]
        if name == "SLP":
            an *= 4.
        norm = n[name][0] if n[name][0] is not None else 12.
        d[name] = round(norm + an, 1)
        if h // 64 % 12 == 0:
            d[name] = None
    if kind == "same":
        for j, name in enumerate(["SST", "AT", "DPT", "SLP"]):
            if mix(seed, k, j, 4) % 5 and mix(seed, j, 5) % 3:
                d[name] = [15.5, 16.2, 9.7, 1015.3][j]
    if kind == "whole" and d["DPT"] is not None and mix(seed, k, 6) % 4:
        d["DPT"] = float(int(d["DPT"]))
    if kind == "saturated" and mix(seed, k, 7) % 9:
        d["DPT"] = d["AT"]
    elif d["DPT"] is not None and d["AT"] is not None and d["DPT"] > d["AT"] and mix(seed, k, 8) % 4:
        d["DPT"] = round(d["AT"] - 1.1, 1)
    h = mix(seed, k, 9)
    d["W"] = [None, 0., 3.5, 12., 49.9, 50.1, 2.9][h % 7]
    d["D"] = [None, 1, 90, 360, 361, 362][h // 7 % 6]
    d["WI"] = 1
    for name in ("SST", "AT", "DPT"):
        if d[name] in (-1.8, -5., 45., -80., 65., -75., 60.):
            d[name] += 0.1
    return d


def archive_of(c):
    """month -> list of records in the order of the file"""
    months = months_of(c)
    y0, m0 = months[0]
    first = datetime.datetime(y0, m0, 1)
    recs = []
    for ship in c["ships"]:
        start = first + datetime.timedelta(days=ship["day"])
        v = dict(ship, lat=c["lat"] + ship["dlat"] / 100., lon=(c["lon"] + ship["dlon"] / 100. + 180) % 360 - 180,
                 start=[start.year, start.month, start.day])
        for k, d in enumerate(voyage(v)):
            h = mix(ship["seed"], k, 1)
            d["LAT"], d["LON"] = off_borders(d["LAT"]), off_borders(d["LON"])
            if h % 2 and d["LON"] < 0:
                d["LON"] = round(d["LON"] + 360, 2)
            d["SID"] = 30
            fill(d, ship["seed"], k, ship["kind"], c["offset"])
            d["sorted"] = ref.moment(d)
            if h // 2 % 23 == 0:
                d["HR"] = None
            recs.append(d)
    for k, s in enumerate(c["singles"]):
        if s["odd"] == "duplicate" and recs:
            recs.append(dict(recs[s["seed"] % len(recs)]))
            continue
        if s["odd"] == "echo" and recs:
            # the same day of the next month
            d = dict(max(recs, key=lambda d: d["sorted"]))
            d["YR"], d["MO"] = near((d["YR"], d["MO"]), 1)
            d["DY"] = min(d["DY"] or 1, 28)
            d["PT"], d["HR"] = 7, 5.
            d["sorted"] = datetime.datetime(d["YR"], d["MO"], d["DY"] or 1, 5)
            recs.append(d)
            continue
        when = first + datetime.timedelta(days=s["day"], minutes=15 * s["hour"])
        d = {"ID": s["ID"], "PT": s["PT"], "DCK": s["DCK"], "YR": when.year, "MO": when.month, "DY": when.day, "HR": when.hour + when.minute / 60.,
             "LAT": off_borders(c["lat"] + s["dlat"] / 100.), "LON": off_borders((c["lon"] + s["dlon"] / 100. + 180) % 360 - 180), "DS": None, "VS": None, "SID": 1}
        d["sorted"] = when
        last = calendar.monthrange(d["YR"], d["MO"])[1]
        if s["odd"] == "no day":
            d["DY"] = None
        elif s["odd"] == "day 0":
            d["DY"] = 0
        elif s["odd"] == "late day":
            d["DY"] = last + 1
        elif s["odd"] == "no hour":
            d["HR"] = None
        elif s["odd"] == "24 h":
            d["HR"] = 24.
        elif s["odd"] == "north":
            d["LAT"] = 89.97
        elif s["odd"] == "south":
            d["LAT"] = -89.97
        elif s["odd"] == "origin":
            d["LAT"] = d["LON"] = 0.
        elif s["odd"] == "dateline":
            d["LON"] = [179.99, -179.99, 180.01][s["seed"] % 3]
        elif s["odd"] == "far north":
            d["LAT"] = [90.01, 95.03, 99.99][s["seed"] % 3]
        elif s["odd"] == "far south":
            d["LAT"] = [-90.01, -95.03, -99.99][s["seed"] % 3]
        elif s["odd"] == "far east":
            d["LON"] = [360.01, 400.03, 540.02, 999.99, -180.01, -359.99][s["seed"] % 6]
        fill(d, s["seed"], 0, "plain", c["offset"])
        recs.append(d)
    files = {}
    recs.sort(key=lambda d: d["sorted"])
    for k, d in enumerate(recs):
        d["UID"] = "U%05d" % (k * 7919 % 99991)
        files.setdefault((d["YR"], d["MO"]), []).append(d)
    if c["mixed"]:
        for ym in files:
            files[ym].sort(key=lambda d: mix(int(d["UID"][1:]), c["mixed"]))
    return files


def lines_of(c, files):
    """month -> text of its file"""
    months = months_of(c)
    texts = {ym: [archive.line(d) + "\n" for d in files[ym]] for ym in files}
    for n, (rel, pos, kind) in enumerate(c["bad"]):
        ym = near(months[0], rel)
        there = texts.setdefault(ym, [])
        base = {"YR": ym[0], "MO": ym[1], "DY": 1, "HR": 1., "LAT": 1.01, "LON": 1.01, "ID": "BADLINE  ", "SST": 10.1, "DCK": 892, "PT": 5, "UID": "BAD%03d" % n}
        if kind == "blank":
            text = ["", "   ", " " * 150][pos % 3]
        elif kind == "letters":
            text = "NO REPORT AT ALL"
        elif kind == "attachment":
            text = archive.line(base)[:108] + "3965" + "X" * 61
        elif kind == "short":
            text = archive.line(base)[:7] + "XX"
        elif kind == "control":
            text = "\x1a"
        elif kind == "wrong month":
            o = near(ym, 1 if pos % 2 else -1)
            text = archive.line(dict(base, YR=o[0], MO=o[1]))
        else:
            text = archive.line(dict(base, YR=base["YR"] + (1 if pos % 2 else -1)))
        there.insert(pos % (len(there) + 1), text + "\n")
    return {ym: "".join(t) for ym, t in texts.items()}


def parameters(c, top):
    few = c["few"] % 2 == 0
    return dict(SETS[c["set"]], **{
        "track_check": dict(DEFAULT, max_direction_change=30., max_speed_change=5., max_absolute_speed=20., max_midpoint_discrepancy=50.)
        if few else DEFAULT,
        "IQUAM_track_check": dict(IQ, buoy_speed_limit=5., ship_speed_limit=30., number_of_neighbours=2) if few else IQ,
        "IQUAM_spike_check": {"max_gradient_space": 0.01 if few else 0.5, "max_gradient_time": 0.25 if few else 1.0,
                              "ship_delta_t": 1.0 if few else 2.0, "buoy_delta_t": 0.5 if few else 1.0, "delta_t": 2.0,
                              "number_of_neighbours": 2 if few else 5},
        "saturated_runs": {"min_time_threshold": 12. if few else 48., "shortest_run": 2 if few else 4},
        "multiple_rounded_values": {"min_count": 3 if few else 20, "threshold": 0.5}, "find_repeated_values": {"min_count": 3 if few else 20, "threshold": 0.7},
        "mds_buddy_check": {"limits": LIMITS, "number_of_obs_thresholds": COUNTS, "multipliers": MULTS},
        "slp_buddy_check": {"limits": [[1, 1, 1], [2, 2, 3]], "number_of_obs_thresholds": [[0, 3], [0]], "multipliers": [[3., 2.], [3.5]]},
        "bayesian_buddy_check": {"prior_probability_of_gross_error": 0.05, "quantization_interval": 0.1, "measurement_error": 1.0, "limits": [2, 2, 4],
                                 "noise_scaling": 3.0},
        "climatologies": [[v, s, "/fields/" + name, "nc_" + name] for (v, s), name in sorted(WANTED_FIELDS.items())],
        "hires_climatologies": [["AT", "mean", "/fields/other", "x"], ["SST", "mean", "/fields/hires%d" % (c["few"] // 2), "temperature"],
                                ["SST", "stdev", "/fields/other", "x"]],
        "icoads_dir": [top + "/first", top + "/r3/YYYY"], "icoads_filenames": ["IMMA1_YYYY-MMMM.gz", "YYYYMMMM.gz"],
        "background_dir": [top + "/ostia/YYYY/MMMM"], "background_filenames": ["OSTIA-YYYYMMMMDDDD.nc"], "runid": c["runid"]})


SINGLE = {"/f/old_sd": ("sst", "sstsd"), "/f/one_box": ("sst", "buddy1"), "/f/one_ob": ("sst", "buddy2"), "/f/avg": ("sst", "buddy3")}


def fields(infile, var):
    """the field a file holds"""
    if infile is None:
        return STORE.fields["none"]
    base = os.path.basename(infile)
    if infile in SINGLE:
        expect_eq(var, SINGLE[infile][0], "variable read from %s" % infile)
        return STORE.fields[SINGLE[infile][1]]
    if infile.startswith("/f/bg"):
        expect_eq(var, "bg_var", "variable read from %s" % infile)
        return STORE.fields[base]
    if base.startswith("OSTIA-"):
        k = (int(base[10:12]) + int(base[12:14])) % 2
        return STORE.fields[{"analysed_sst": "ostia%d", "sea_ice_fraction": "ice%d"}[var] % k]
    if base.startswith("hires"):
        expect_eq(var, "temperature", "variable read from %s" % infile)
        return STORE.fields[base]
    expect_eq(var, "nc_" + base, "variable read from %s" % infile)
    return STORE.fields[base]


def set_up(c, top, files=None):
    """writes the archive and the configuration; returns what the model needs"""
    files = archive_of(c) if files is None else files
    texts = lines_of(c, files)
    months = months_of(c)
    gone = [near(months[0], g) for g in c["gone"]]
    second = [near(months[0], g) for g in c["second"]]
    for ym, text in texts.items():
        if ym in gone:
            continue
        a = top + "/first/IMMA1_%d-%02d.gz" % ym
        b = top + "/r3/%d/%d%02d.gz" % (ym[0], ym[0], ym[1])
        if ym in second:
            archive.write_gz(b, text)
        else:
            archive.write_gz(a, text)
            # the second release is not looked at
            archive.write_gz(b, archive.line({"YR": ym[0], "MO": ym[1], "DY": 1, "HR": 1., "LAT": 1.01, "LON": 1.01, "UID": "SECOND", "DCK": 892}) + "\n")
    if c["tracking"]:
        lo, hi = near(months[0], -2), near(months[-1], 2)
        for k in range(lo[0] * 12 + lo[1] - 1, hi[0] * 12 + hi[1]):
            y, m = k // 12, k % 12 + 1
            for dd in range(1, calendar.monthrange(y, m)[1] + 1):
                if ostia_there(c, y, m, dd):
                    archive.touch(top + "/ostia/%d/%02d/OSTIA-%d%02d%02d.nc" % (y, m, y, m, dd))
    archive.dump(top + "/parameters.json", parameters(c, top))
    archive.touch(top + "/exclude.txt", "".join(i.rstrip() + "\n" for i in c["exclude"]) + "\nNOSUCH\n")
    config = "[Directories]\nICOADS_dir = %s\nout_dir = %s/out\ntrack_out_dir = %s/out\n[Files]\nIDs_to_exclude = %s/exclude.txt\nparameter_file = " \
             "%s/parameters.json\n[Icoads]\nicoads_version = 3.0\n[Climatologies]\nOld_SST_stdev_climatology = /f/old_sd\nSST_buddy_one_box_to_buddy_avg = " \
             "/f/one_box\nSST_buddy_one_ob_to_box_avg = /f/one_ob\nSST_buddy_avg_sampling = /f/avg\n" % (top, top, top, top, top)
    for s in ("DJF", "MAM", "JJA", "SON"):
        config += "%s_ostia_background = /f/bg%s\n" % (s, s)
    archive.touch(top + "/config.txt", config)
    os.makedirs(top + "/out", exist_ok=True)
    os.environ["SCRATCH"] = top
    return {ym: ([] if ym in gone else files.get(ym, [])) for ym in [near(months[0], k) for k in range(-1, c["n"] + 1)]}


def ostia_there(c, y, m, d):
    return y >= 1985 - 1 and (c["noost"] == 0 or mix(y, m, d) % 5 != c["noost"])


def arguments(c, top, months=None):
    months = months or months_of(c)
    return ["-config", top + "/config.txt", "-year1", str(months[0][0]), "-month1", str(months[0][1]), "-year2", str(months[-1][0]), "-month2",
            str(months[-1][1])] + (["-tracking"] if c["tracking"] else [])


# ------------------------------------------------------------------------------------------------ the model
def place(d):
    lon = d["LON"] - 360 if d["LON"] > 180 else d["LON"]
    return ref.row(F(str(d["LAT"]))), ref.col(F(str(round(lon, 2))))


def at(name, d):
    """the value of a field of one-degree cells"""
    if not ref.real_day(d["MO"], d["DY"]):
        return None
    f = STORE.fields[name]
    if NC:
        f = f[:1]
    r, q = place(d)
    t = {1: 0, 73: ref.pentad(d["MO"], d["DY"]) - 1, 365: ref.day_of_year(d["MO"], d["DY"]) - 1}[f.shape[0]]
    if f.shape[1] == 720:
        lon = d["LON"] - 360 if d["LON"] > 180 else d["LON"]
        r, q = ref.row(F(str(d["LAT"])), F(1, 4)), ref.col(F(str(round(lon, 2))), F(1, 4))
    return archive.cell(f[t, r, q])


def normals(d, hires=None):
    n = {k: (at(k, d), None) for k in ("SST", "AT")}
    if d.get("LAT") == 0. and d.get("LON") == 0.:
        # cells next to the equator and the meridian: north or south, east or west of it by the older rule
        f = STORE.fields
        ok = ref.real_day(d["MO"], d["DY"])
        n = {k: (archive.cell(f[k][0 if NC else ref.pentad(d["MO"], d["DY"]) - 1, ref.mds_row(0), ref.mds_col(0)]) if ok else None, None) for k in ("SST", "AT")}
    if hires is not None:
        n["SST"] = (at("hires%d" % hires, d), None)
    n.update({k: (at(k, d), at(k + "sd", d)) for k in ("AT2", "DPT", "SLP")})
    n["DAT"] = (None, None)
    return n


def ostia_values(c, d):
    """background sea surface temperature and ice of the day before, and variance of the season"""
    if not c["tracking"] or d["YR"] < 1985 or d["DY"] is None:
        return {}
    ext = {"OSTIA": None, "ICE": None, "BGVAR": None}
    lon = d["LON"] - 360 if d["LON"] > 180 else d["LON"]
    try:
        day = datetime.date(d["YR"], d["MO"], d["DY"]) - datetime.timedelta(1)
    except ValueError:
        day = None
    if day is not None and ostia_there(c, day.year, day.month, day.day):
        i, j = ref.mds_row(F(str(d["LAT"])), F(1, 20)), ref.mds_col(F(str(round(lon, 2))), F(1, 20))
        v = archive.cell(STORE.fields["ostia%d" % ((day.month + day.day) % 2)][0, i, j])
        ext["OSTIA"] = None if v is None else v - 273.15
        ext["ICE"] = archive.cell(STORE.fields["ice%d" % ((day.month + day.day) % 2)][0, i, j])
    if ref.real_day(d["MO"], d["DY"]):
        s = ["DJF", "MAM", "JJA", "SON"][d["MO"] % 12 // 3]
        i, j = ref.mds_row(F(str(d["LAT"]))), ref.mds_col(F(str(round(lon, 2))))
        ext["BGVAR"] = archive.cell(STORE.fields["bg" + s][0, i, j])
    return ext


class Spread(object):
    def __init__(self, name):
        self.f = STORE.fields[name][:1] if NC else STORE.fields[name]

    def at(self, row, col, pentad):
        return archive.cell(self.f[pentad - 1 if self.f.shape[0] == 73 else 0, row, col])


def passes(fl, wanted):
    """1, 0, or None if it is not known"""
    sure = True
    for key, w in wanted:
        v = fl.get(key, 9)
        if v is None or isinstance(v, set) and w in v:
            sure = False
        elif isinstance(v, set) or v != w:
            return 0
    return 1 if sure else None


GOOD = [(("POS", f), 0) for f in ("date", "time", "pos", "blklst")]


NOTHING = {k: (None, None) for k in ("SST", "AT", "AT2", "DPT", "SLP", "DAT")}


def month_model(c, files, ym, t, hires=None, p=None, program="full"):
    """[record, normals, extra values, flags] of every report read for a month, in the order read"""
    rows = []
    p = p or parameters(c, "")
    for rel in (-1, 0, 1):
        for d in files[near(ym, rel)]:
            if d["ID"] in c["exclude"]:
                continue
            d = dict(d)
            nowhere = not (-90 <= d["LAT"] <= 90 and -180 <= d["LON"] <= 360)
            n = NOTHING if nowhere else normals(d, hires)
            if program == "track":
                n = dict(NOTHING, SST=n["SST"])
            d["AT2"] = d["AT"]
            at_, dp, slp = d["AT"], d["DPT"], n["SLP"][0]
            d["SHU"] = d["CRH"] = None
            if None not in (at_, dp, slp):
                rh = CalcHums.rh(dp, at_, slp)
                if 0 <= rh <= 150:
                    d["CRH"], d["SHU"] = rh, CalcHums.sh(dp, at_, slp)
            d["DAT"] = None
            fl = expected_flags(d, n, p)
            d["HR"] = fl.pop("hour")
            if nowhere:
                # the normal of a place that is none is nothing to be relied on
                rows.append([d, {k: None if program == "track" and k != "SST" else Ellipsis for k in n}, dict.fromkeys(["OSTIA", "ICE", "BGVAR"], Ellipsis),
                             {k: None if k[1] in ("nonorm", "clim") or k == ("DPT", "hardlimit") else v for k, v in fl.items()}])
                continue
            rows.append([d, {k: v[0] for k, v in n.items()}, ostia_values(c, d), fl])
    # one ship at a time
    ships = {}
    for r in rows:
        if passes(r[3], GOOD) == 1:
            ships.setdefault(r[0]["ID"], []).append(r)
    for ship in ships.values():
        ship.sort(key=lambda r: ref.moment(r[0]))
        recs = [r[0] for r in ship]
        k = len(recs)
        if generic(recs) or recs[0]["PT"] in (6, 7) or k < 3:
            trk = [0] * k
        else:
            trk = [None if x is None else int(x) for x in track_flags(recs, p["track_check"])]
        out = {("POS", "trk"): trk}
        if program != "hires":
            if generic(recs):
                out["POS", "iquam_track"] = [0] * k
            else:
                bad = too_fast(recs, p["IQUAM_track_check"])
                out["POS", "iquam_track"] = [None] * k if bad is None else worst_first(k, bad)
            bad = too_different(recs, p["IQUAM_spike_check"])
            out["SST", "spike"] = [None] * k if bad is None else worst_first(k, bad)
            out["DPT", "repsat"] = saturated(recs, p["saturated_runs"])
            out["DPT", "round"] = rounded([d["DPT"] for d in recs], p["multiple_rounded_values"])
        for var in ("SST",) if program != "full" else ("SST", "AT", "DPT", "SLP"):
            out[var, "rep"] = repeated([d[var] for d in recs], p["find_repeated_values"])
        for key, vals in out.items():
            for r, v in zip(ship, vals):
                r[3][key] = v
                if v != 0:
                    t.hit("%s %s %r" % (key[0], key[1], v))
    # neighbours
    track = GOOD + [(("POS", "trk"), 0)]
    ok = lambda var: [((var, f), 0) for f in ("noval", "clim", "nonorm")]
    buddies = [("SST", track + [(("POS", "is780"), 0), (("SST", "freez"), 0)] + ok("SST"), "sstsd", p["mds_buddy_check"], p["SST"]["maximum_anomaly"])]
    if program == "full":
        buddies += [("AT", track + [(("POS", "isship"), 1), (("AT", "mat_blacklist"), 0), (("POS", "day"), 0)] + ok("AT"), "sstsd", p["mds_buddy_check"], p["AT"]["maximum_anomaly"]),
                    ("DPT", track + [(("DPT", "hum_blacklist"), 0)] + ok("DPT"), "DPTsd", p["mds_buddy_check"], None),
                    ("SLP", track + ok("SLP"), "SLPsd", p["slp_buddy_check"], None)]
    for var, filt, spread, pars, reach in buddies:
        part = [passes(r[3], filt) for r in rows]
        known = None not in part
        if not known:
            t.hit("%s neighbours not judged" % var)
        reps = []
        for r, a in zip(rows, part):
            d, n = r[0], r[1]
            if a == 1:
                row, col = place(d)
                reps.append((row, col, ref.pentad(d["MO"], d["DY"]), F(int(round(d[var] * 10)) * .1 - n[var]), False))
            else:
                reps.append((0, 0, 1, 0, True))
        sink = Sink()
        for r, a, (w, why) in zip(rows, part, mds_flags(reps, Spread(spread), pars, sink)):
            r[3][var, "bud"] = w if known or a == 0 else None
        if reach:
            fs = [Spread("buddy%d" % k) for k in (1, 2, 3)]
            for r, a, (w, why) in zip(rows, part, bayes_flags(reps, fs, p["bayesian_buddy_check"], reach, sink)):
                r[3][var, "bbud"] = w if known or a == 0 else None
        if known:
            for r in rows:
                for f in ("bud", "bbud"):
                    v = r[3].get((var, f), 0)
                    if v not in (0, {0}, None):
                        t.hit("%s %s" % (var, f))
    return rows


class Sink(object):
    def nt(self, *a):
        pass
    hit = nt


def interesting(rows):
    for d, n, e, fl in rows:
        for key, v in fl.items():
            if key[1] in ("trk", "iquam_track", "spike", "rep", "repsat", "round", "bud", "bbud") and v not in (0, {0}, None):
                return True
    return False


def drifters(rows):
    """identifier -> rows of its reports"""
    out = {}
    for r in rows:
        if r[3]["POS", "isdrifter"] == 1 and r[0]["ID"] is not None:
            out.setdefault(r[0]["ID"], []).append(r)
    return out


def safe(i):
    return i.replace("/", "_").replace("*", "_")


def check_id_file(path, idents):
    with open(path) as f:
        got = f.read().split("\n")
    expect_eq(got.pop(), "", "end of the identifier file")
    expect_eq(sorted(got), sorted("%s,%s" % (i, safe(i)) for i in idents), "identifier file")
    return {"ID_file.txt"}


def check_month(c, top, ym, rows, t, program="full"):
    """the files of one month against the model"""
    out = "%s/out/%d/%02d" % (top, ym[0], ym[1])
    tag = "%d%02d" % ym
    month = [r for r in rows if (r[0]["YR"], r[0]["MO"]) == ym]
    t.nt(interesting(month))
    made = set()
    there = set(os.listdir(out))
    if program == "full" and (rows or any(f.startswith("Variables_%s_%s" % (tag, c["runid"])) for f in there)):
        made |= check_files(out, "", "%s_%s.csv" % (tag, c["runid"]), month, VARS + ["OSTIA", "W", "D"], FULL)
    if program == "hires" and (rows or "SST_qc_%s_hires_%s.csv" % (tag, c["runid"]) in there):
        made |= check_sst(out, "%s_hires_%s.csv" % (tag, c["runid"]), month)
    if c["tracking"]:
        ds = drifters(month)
        made |= check_id_file(out + "/ID_file.txt", ds)
        for i, rs in ds.items():
            if program == "hires":
                made |= check_sst(out, "%s_%s_hires_%s.csv" % (tag, safe(i), c["runid"]), rs)
            else:
                made |= check_files(out, "", "%s_%s_%s.csv" % (tag, safe(i), c["runid"]), rs, VARS + ["OSTIA", "ICE", "BGVAR"], SHIP)
    expect_eq(there, made, "files written for %d-%02d" % ym)


def check_sst(out, tail, rows):
    name = "SST_qc_" + tail
    got = table(out + "/" + name)
    expect_eq(got[0], ["UID"] + SHIP["SST"], "header of " + name)
    expect_eq([r[0] for r in got[1:]], [r[0]["UID"] for r in rows], "reports in " + name)
    for r, line in zip(rows, got[1:]):
        for f, text in zip(SHIP["SST"], line[1:]):
            same_flag(text, r[3].get(("SST", f), 9), "flag SST %s of %s in %s" % (f, r[0]["UID"], name))
    return {name}


class scratch(object):
    def __enter__(self):
        self.top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
        return self.top

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)


def tree(top):
    """relative path -> text of every file below"""
    out = {}
    for base, dirs, files in os.walk(top):
        for f in files:
            path = os.path.join(base, f)
            with open(path, encoding="latin-1") as h:
                out[os.path.relpath(path, top)] = h.read()
    return out


def same_tree(got, want, what, lines=lambda name, text: text.split("\n")):
    expect_eq(sorted(got), sorted(want), "files of " + what)
    for name in sorted(want):
        a, b = lines(name, got[name]), lines(name, want[name])
        for x, y in zip(a, b):
            expect_eq(x, y, "line of %s in %s" % (name, what))
        expect_eq(len(a), len(b), "lines of %s in %s" % (name, what))


def check_years(c, top):
    expect_eq(sorted(os.listdir(top + "/out")), sorted(set(str(y) for y, m in months_of(c))), "years written")
    for y in os.listdir(top + "/out"):
        expect_eq(sorted(os.listdir(top + "/out/" + y)), sorted("%02d" % m for yy, m in months_of(c) if str(yy) == y), "months written")


@law("C32", "full", run_cases, quick=400)
def _(c, t):
    with scratch() as top:
        files = set_up(c, top)
        archive.run("marine_qc", arguments(c, top), fields)
        for ym in months_of(c):
            check_month(c, top, ym, month_model(c, files, ym, t), t)
        check_years(c, top)


@law("C32", "one-month-or-many", run_cases, quick=120)
def _(c, t):
    """a month's output does not depend on the other months of the run, unreadable lines, excluded reports and far months"""
    c = dict(c, n=max(c["n"], 2))
    months = months_of(c)
    ym = months[c["few"] % c["n"]]
    with scratch() as top:
        files = set_up(c, top)
        archive.run("marine_qc", arguments(c, top), fields)
        got = tree("%s/out/%d/%02d" % ((top,) + ym))
    with scratch() as top:
        c2 = dict(c, bad=[], y=ym[0], m=ym[1], n=1, second=[0], noost=c["noost"])
        d2 = {k: [d for d in files.get(k, []) if d["ID"] not in c["exclude"]] for k in [near(ym, r) for r in (-1, 0, 1)]}
        set_up(dict(c2, gone=[], exclude=[]), top, d2)
        archive.run("marine_qc", arguments(c2, top), fields)
        want = tree("%s/out/%d/%02d" % ((top,) + ym))
    t.nt(any(d2.values()))
    # a month that holds no report at all may have no files or files without rows
    if any(d2.values()):
        same_tree(got, want, "%d-%02d of a run of %d months" % (ym + (c["n"],)))


NC = {}


def nc_path(name, var):
    """a NetCDF file with the first time step of the field"""
    import netCDF4
    where = os.environ["VERIF_WORK"] + "/nc"
    path = "%s/%s.nc" % (where, name)
    if not os.path.exists(path):
        os.makedirs(where, exist_ok=True)
        f = STORE.fields[name][:1]
        nc = netCDF4.Dataset(path, "w")
        for dim, size in (("time", 1), ("latitude", 180), ("longitude", 360)):
            nc.createDimension(dim, size)
        nc.createVariable(var, "f8", ("time", "latitude", "longitude"), fill_value=-999.)[:] = f
        nc.createVariable("latitude", "f8", ("latitude",))[:] = 89.5 - np.arange(180)
        nc.createVariable("longitude", "f8", ("longitude",))[:] = -179.5 + np.arange(360)
        nc.close()
    return path


@law("C32", "netcdf-files", lambda: run_cases(False), quick=60)
def _(c, t):
    """climatologies of one time step read from real files"""
    c = dict(c, n=1, few=c["few"] // 2 * 2)
    with scratch() as top:
        files = set_up(c, top)
        p = parameters(c, top)
        p["climatologies"] = [[v, s, nc_path(os.path.basename(f), n), n] for v, s, f, n in p["climatologies"]]
        archive.dump(top + "/parameters.json", p)
        with open(top + "/config.txt") as f:
            text = f.read()
        for name, (var, field) in SINGLE.items():
            text = text.replace(" = %s\n" % name, " = %s\n" % nc_path(field, var))
        archive.touch(top + "/config.txt", text)
        archive.run("marine_qc", arguments(c, top), None)
        try:
            NC["first"] = True
            rows = month_model(c, files, months_of(c)[0], t)
        finally:
            NC.clear()
        check_month(c, top, months_of(c)[0], rows, t)
        check_years(c, top)


# ------------------------------------------------------------------------------------------------ C35
def adrift(c):
    """half of the ships are drifters"""
    return dict(c, ships=[dict(s, PT=7 if s["seed"] % 2 else s["PT"], kind=["plain", "same", s["kind"]][s["seed"] // 2 % 3]) for s in c["ships"]])


@law("C35", "track-only", lambda: run_cases(True), quick=160)
def _(c, t):
    c = adrift(c)
    with scratch() as top:
        files = set_up(c, top)
        archive.run("marine_qc_track_only", arguments(c, top), fields)
        for ym in months_of(c):
            check_month(c, top, ym, month_model(c, files, ym, t, program="track"), t, "track")
        check_years(c, top)


@law("C35", "high-resolution", run_cases, quick=120)
def _(c, t):
    with scratch() as top:
        files = set_up(c, top)
        archive.run("marine_qc_hires", arguments(c, top), fields)
        for ym in months_of(c):
            check_month(c, top, ym, month_model(c, files, ym, t, hires=c["few"] // 2, program="hires"), t, "hires")
        check_years(c, top)


def only_sst(name, text):
    """the columns of a drifter's variables that the track-only program fills"""
    rows = [l.split(",") for l in text.split("\n")]
    if name.split("/")[-1].startswith("Variables"):
        keep = [k for k, h in enumerate(rows[0]) if not (h.endswith("_anom") and h != "SST_anom")]
        rows = [[r[k] for k in keep if k < len(r)] for r in rows]
    return [",".join(r) for r in rows]


@law("C35", "track-only-against-full", lambda: run_cases(True), quick=50)
def _(c, t):
    c = dict(adrift(c), n=min(c["n"], 2))
    out = {}
    for program in ("marine_qc", "marine_qc_track_only"):
        with scratch() as top:
            set_up(c, top)
            archive.run(program, arguments(c, top), fields)
            out[program] = tree(top + "/out")
    deck = set("%s_%s%d%02d_%s.csv" % (b, "" if b == "Variables" else "qc_", y, m, c["runid"]) for b in ["Variables"] + list(FULL) for y, m in months_of(c))
    full = {n: x for n, x in out["marine_qc"].items() if n.split("/")[-1] not in deck}
    t.nt(len(full) > c["n"])
    same_tree(out["marine_qc_track_only"], full, "the track-only run", only_sst)


@law("C35", "high-resolution-against-full", run_cases, quick=50)
def _(c, t):
    """with the same climatology the two agree on every flag both give"""
    c = dict(c, n=min(c["n"], 2), singles=[s for s in c["singles"] if s["odd"] not in ("origin", "far north", "far south", "far east")])
    out = {}

    def same_field(infile, var):
        return STORE.fields["SST"] if infile and infile.startswith("/fields/hires") else fields(infile, var)
    for program in ("marine_qc", "marine_qc_hires"):
        with scratch() as top:
            set_up(c, top)
            archive.run(program, arguments(c, top), same_field)
            out[program] = tree(top + "/out")
    n = 0
    for name, text in sorted(out["marine_qc_hires"].items()):
        base = os.path.basename(name)
        if base == "ID_file.txt":
            expect_eq(text, out["marine_qc"].get(name), "identifier file of the high-resolution run")
            continue
        expect(base.startswith("SST_qc_") and base.endswith("_hires_%s.csv" % c["runid"]), "the high-resolution run wrote %s", base)
        other = name.replace("_hires_" + c["runid"], "_" + c["runid"])
        expect(other in out["marine_qc"], "%s written by the high-resolution run only", other)
        a, b = [[l.split(",") for l in x.split("\n")] for x in (text, out["marine_qc"][other])]
        expect_eq(len(a), len(b), "lines of " + name)
        expect_eq(a[0], b[0], "header of " + name)
        skip = a[0].index("spike")
        for x, y in zip(a[1:], b[1:]):
            expect_eq(x[:skip] + x[skip + 1:], y[:skip] + y[skip + 1:], "flags of %s in %s" % (x[0], name))
            n += len(x) > 1
    t.nt(n > 2)
