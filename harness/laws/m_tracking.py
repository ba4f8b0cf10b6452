"""C33 the tracking program, run on files written by the main program's writers."""
import os
import shutil
import tempfile

import archive
import ref
from laws.f_voyage import IQ, too_fast, worst_first
from laws.h_drifter import (Unclear, aground_from, as_dict, bias_flags, expected_tails, poor_ext, record, record_cases, speeding, tail_params)
from laws.j_readers import mix
from laws.k_outputs import POS, SST, check_tracking, load
from vlib import S, expect, expect_eq, law, must_raise, prop

prop("C33", "records of one drifter of up to seventy matches over one to four months that drift, stop, race, jump, are biased, noisy or grossly wrong, "
            "with base flags set at random, out of order, without time or position, written month by month with the main program's writers; months "
            "missing or without reports, every kind of case and combination of cases; files missing, empty, too short or of other reports; "
            "non-trivial = a tracking flag is raised and a report fails an earlier check",
     ["the checks' own oracles are those of C23-C26; where one of them is too close to call, later flags are not judged",
      "order of the rows is not judged if the record holds reports without a time"])

TRACKING = ("drf_agr", "drf_spd", "drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short")
IDENTS = ["44137", "A/B", "D*BU", "TWO WORDS", "WXYZ", "4401234", "NINECHARS", "12345678"]
ODD = ["isbuoy", "date", "time", "pos", "blklst", "clim", "nonorm", "freez", "noval", "rep", "hardlimit", "bbud", "bbud ok", "trk", "iquam_track", "bud", "spike",
       "month_match", "no time", "no SST", "no day", "far"]


def tracking_cases():
    st = S()
    motion = st.tuples(st.integers(1, 20), st.sampled_from(["drift", "drift", "drift", "drift", "drift", "stuck", "race", "jump"])).map(list)
    odd = st.tuples(st.integers(0, 80), st.sampled_from(ODD), st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({
        "record": st.one_of(record_cases(False), record_cases(False).filter(lambda c: len(c["parts"]) > 3)), "motion": st.lists(motion, min_size=1, max_size=6),
        "odd": st.lists(odd, max_size=8), "swap": st.lists(st.integers(0, 80), max_size=2), "ID": st.sampled_from(IDENTS), "runid": st.sampled_from(["standard", "r_1"]),
        "close": st.booleans(), "before": st.integers(0, 2), "after": st.integers(0, 2), "header": st.booleans(), "win": st.sampled_from([1, 3, 3, 5]), "low": st.sampled_from([1, 2, 8]),
        "speed": st.tuples(st.sampled_from([2.5, 1., 3.]), st.sampled_from([0.375, 0.5, 1.0])).map(list), "iq": st.sampled_from([15., 60., 60., 5.]),
        "bias": st.tuples(st.integers(1, 30), st.sampled_from([1.1, .5, .125]), st.integers(1, 3)).map(list),
        "edge": st.sampled_from([["regular"], ["new"], ["start_edge_case"], ["end_edge_case"], ["new", "start_edge_case"], ["regular", "end_edge_case"],
                                 ["start_edge_case", "end_edge_case"], ["new", "start_edge_case", "end_edge_case"], ["new", "regular"]])})


def rows_of(c):
    """[record, normals, extra values, flags, (usable, difference, variance)] of every report, in the order of the files"""
    recs, ext, use = record(c["record"])
    legs = [k for n, k in c["motion"] for _ in range(n)]
    rows = []
    lat, lon = recs[0]["LAT"], recs[0]["LON"]
    for k in range(len(recs) - 1, 0, -1):
        # of two matches at one time, the later may come less than a minute later
        if c["close"] and all(recs[k][n] == recs[k - 1][n] for n in ("YR", "MO", "DY", "HR")):
            recs[k]["HR"] += 1 / 64.
    for k, d in enumerate(recs):
        leg = legs[k % len(legs)]
        if leg != "stuck":
            lat += 0.05
        d["LAT"], d["LON"] = round(lat, 2), lon
        if leg == "race":
            d["LON"] = lon + (3. if k % 2 and lon < 170 else -3. if k % 2 else 0.)
        if leg == "jump" and k % 5 == 2:
            d["LAT"] = round(lat - 11., 2)
        d.update({"ID": c["ID"].ljust(9), "UID": "U%05d" % (k * 7919 % 99991), "AT": [None, 12.5, 13.25][k % 3], "SLP": [1013.5, None][k % 2]})
        fl = {("POS", f): 0 for f in POS}
        fl.update({("POS", "isbuoy"): 1, ("POS", "isdrifter"): 1, ("POS", "day"): k % 2})
        fl.update({("SST", f): 0 for f in SST})
        fl["SST", "nbud"] = 9
        rows.append([d, {"SST": 11.5} if k % 3 else {}, ext[k], fl, use[k]])
    for at, what, x in c["odd"]:
        d, norm, e, fl, u = rows[at % len(rows)]
        if what in ("no time", "no day"):
            d["HR" if what == "no time" else "DY"] = None
            fl["POS", "time" if what == "no time" else "date"] = 1
        elif what == "no SST":
            d["SST"] = None
            fl["SST", "noval"] = 1
        elif what == "far":
            d["LAT"] = -95.5
            fl["POS", "pos"] = 1
        elif what == "isbuoy":
            fl["POS", "isbuoy"] = 0
        elif what == "bbud":
            fl["SST", "bbud"] = x
        elif what == "bbud ok":
            fl["SST", "bbud"] = x % 4
        elif what != "month_match":
            fl["POS" if ("POS", what) in fl else "SST", what] = [1, 9][x == 0]
    for at in c["swap"]:
        at %= len(rows)
        if at and (rows[at][0]["MO"]) == (rows[at - 1][0]["MO"]):
            rows[at - 1], rows[at] = rows[at], rows[at - 1]
    return rows


def month_list(c, rows):
    y, m = rows[0][0]["YR"], rows[0][0]["MO"]
    first = y * 12 + m - 1 - c["before"]
    last = max(r[0]["YR"] * 12 + r[0]["MO"] - 1 for r in rows) + c["after"]
    return [(k // 12, k % 12 + 1) for k in range(first, last + 1)]


def settings(c):
    tail = as_dict(tail_params(c["record"]))
    sd, _, inter, intra, poor = c["record"]["errors"]
    n, lim, bad = c["bias"]
    return {"runid": c["runid"], "new_buoy_aground_check": {"smooth_win": c["win"], "min_win_period": c["low"]},
            "IQUAM_track_check": dict(IQ, ship_speed_limit=c["iq"], delta_d=[1.11, 0.5, 5.][n % 3], delta_t=[0.01, 0.5][n % 2],
                                      number_of_neighbours=[5, 1, 2, 7][int(c["speed"][0] + 4 * c["speed"][1]) % 4]),
            "new_buoy_speed_check": {"speed_limit": c["speed"][0], "min_win_period": c["speed"][1]}, "buoy_tail_check": tail,
            "buoy_bias_noise_check": {"n_eval": n, "bias_lim": lim, "drif_intra": intra, "drif_inter": inter, "err_std_n": sd, "n_bad": bad,
                                      "background_err_lim": poor}}


def write(c, rows, top):
    """the files of the main program; returns the arguments of the run"""
    months = month_list(c, rows)
    p = settings(c)
    for k, ym in enumerate(months):
        part = [r for r in rows if (r[0]["YR"], r[0]["MO"]) == ym]
        out = "%s/in/%d/%02d" % ((top,) + ym)
        if not part and not (c["header"] and k % 2):
            continue
        os.makedirs(out)
        v = load(archive_voyage, [r[:4] for r in part or rows[:1]])
        v.write_output(c["runid"], out, *ym)
    os.makedirs(top + "/out")
    archive.dump(top + "/parameters.json", p)
    archive.touch(top + "/config.txt", "[Directories]\nout_dir = %s/in\ntrack_out_dir = %s/out\n[Files]\nparameter_file = %s/parameters.json\n" % (top, top, top))
    return ["-config", top + "/config.txt", "-id", c["ID"], "-yr1", str(months[0][0]), "-mn1", str(months[0][1]), "-yr2", str(months[-1][0]), "-mn2",
            str(months[-1][1]), "-edge"] + c["edge"] + ["-runmonthid", "198501-198512"]


def archive_voyage():
    import Extended_IMMA as ex
    return ex.Voyage()


def passing(rows, *more):
    wanted = (("POS", "isbuoy", 1), ("POS", "date", 0), ("POS", "time", 0), ("POS", "pos", 0), ("POS", "blklst", 0)) + more
    return sorted([r for r in rows if all(r[3].get((k, f), 9) == w for k, f, w in wanted)], key=lambda r: ref.moment(r[0]))


def hours_of(part):
    t0 = ref.moment(part[0][0])
    return [(ref.moment(r[0]) - t0).total_seconds() / 3600. for r in part]


SST_GOOD = tuple(("SST", f, 0) for f in ("clim", "nonorm", "freez", "noval", "rep", "hardlimit")) + (("POS", "drf_agr", 0), ("POS", "drf_spd", 0))


def judge(rows, p):
    """sets the tracking flags; returns the flags that are not judged"""
    part = passing(rows)
    recs, hrs = [r[0] for r in part], hours_of(part) if part else []
    n = len(part)
    at = aground_from(recs, hrs, p["new_buoy_aground_check"]["smooth_win"], 24. * p["new_buoy_aground_check"]["min_win_period"], None) if n else 0
    if at is None:
        return TRACKING
    for k, r in enumerate(part):
        r[3]["POS", "drf_agr"] = int(k >= at)
    bad = too_fast([dict(d, PT=5) for d in recs], p["IQUAM_track_check"]) if n else []
    if bad is None:
        return TRACKING[1:]
    sp = p["new_buoy_speed_check"]
    fast = speeding(recs, hrs, sp["speed_limit"], 24 * sp["min_win_period"], None, worst_first(n, bad)) if n > 1 else [0] * n
    if fast is None:
        return TRACKING[1:]
    for r, f in zip(part, fast):
        r[3]["POS", "drf_spd"] = f
    part = [r for r in passing(rows, *SST_GOOD) if r[3]["SST", "bbud"] < 4]
    tp = p["buoy_tail_check"]
    try:
        one, two = expected_tails([r[4] for r in part], tuple(tp[k] for k in ("long_win_len", "long_err_std_n", "short_win_len", "short_err_std_n", "short_win_n_bad",
                                                                             "drift_inter", "drif_intra", "background_err_lim")))
    except Unclear:
        return TRACKING[2:]
    for r, a, b in zip(part, one, two):
        r[3]["SST", "drf_tail1"], r[3]["SST", "drf_tail2"] = a, b
    part = [r for r in passing(rows, *SST_GOOD + (("SST", "drf_tail1", 0), ("SST", "drf_tail2", 0))) if r[3]["SST", "bbud"] < 4]
    bp = p["buoy_bias_noise_check"]
    try:
        got = bias_flags([r[4] for r in part], any(poor_ext(r[2], bp["background_err_lim"]) for r in part), bp)
    except Unclear:
        return TRACKING[4:]
    for r in part:
        for f, x in zip(TRACKING[4:], got):
            r[3]["SST", f] = x
    return ()


def expected_files(c, months):
    base = "TrackingQC/%d/%02d/" % months[-1]
    name = "Tracking_%d%02d_%s_%s.csv" % (months[-1] + (c["ID"].ljust(9).replace("/", "_").replace("*", "_"), c["runid"]))
    out = []
    if "new" in c["edge"] or "regular" in c["edge"]:
        out.append(base + name)
    for e in ("start_edge_case", "end_edge_case"):
        if e in c["edge"]:
            out.append(base + e + "_198501-198512/" + name)
    return out


def files_below(top):
    return sorted(os.path.relpath(os.path.join(b, f), top) for b, _, fs in os.walk(top) for f in fs)


@law("C33", "flags", tracking_cases, quick=2500)
def _(c, t):
    rows = rows_of(c)
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        args = write(c, rows, top)
        archive.run("tracking_qc", args)
        p = settings(c)
        timeless = any(ref.moment(r[0]) is None for r in rows)
        not_judged = judge(rows, p)
        for f in TRACKING:
            for r in rows:
                key = ("POS" if f in TRACKING[:2] else "SST", f)
                if f in not_judged:
                    r[3][key] = None
                elif r[3].get(key) == 1:
                    t.hit(f)
        raised = [r for r in rows for k, v in r[3].items() if k[1] in TRACKING and v == 1]
        t.nt(raised and any(r[3].get(("SST", "drf_bias"), 9) == 9 for r in rows))
        t.hit("not judged" if not_judged else "judged")
        ordered = rows if timeless else sorted(rows, key=lambda r: ref.moment(r[0]))
        expect_eq(files_below(top + "/out"), sorted(expected_files(c, month_list(c, rows))), "files written")
        for name in expected_files(c, month_list(c, rows)):
            check_tracking(top + "/out/" + name, [r[:4] for r in ordered], any_order=timeless)
    finally:
        shutil.rmtree(top, ignore_errors=True)


FAULTS = ["gone", "gone", "empty", "short", "long", "other", "none", "flag", "nothing"]


@law("C33", "faulty files", lambda: S().tuples(tracking_cases(), S().sampled_from(FAULTS), S().sampled_from(["Variables", "POS_qc", "SST_qc"]),
                                             S().integers(0, 99)).map(list), quick=1000)
def _(case, t):
    """files that are missing, empty or disagree are refused, and nothing is written"""
    c, fault, which, k = case
    rows = rows_of(c)
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        args = write(c, rows, top)
        names = [n for n in files_below(top + "/in") if os.path.basename(n).startswith(which)]
        path = top + "/in/" + names[k % len(names)]
        with open(path) as f:
            lines = f.read().split("\n")
        if fault == "gone":
            os.unlink(path)
        elif fault == "empty":
            archive.touch(path, "")
        elif fault == "nothing":
            # no reports at all: no file, or only headers
            for n in files_below(top + "/in"):
                if k % 2:
                    os.unlink(top + "/in/" + n)
                else:
                    with open(top + "/in/" + n) as f:
                        head = f.readline()
                    archive.touch(top + "/in/" + n, head)
        elif fault == "none":
            fault = "gone"
            for n in files_below(top + "/in"):
                if n.startswith(names[k % len(names)][:8]) and which not in n:
                    os.unlink(top + "/in/" + n)
        elif len(lines) < 3:
            return
        elif fault == "short":
            del lines[1 + k % (len(lines) - 2)]
            archive.touch(path, "\n".join(lines))
        elif fault == "long":
            lines.insert(1 + k % (len(lines) - 2), lines[1])
            archive.touch(path, "\n".join(lines))
        else:
            if which == "Variables":
                return
            at = 1 + k % (len(lines) - 2)
            if fault == "other":
                lines[at] = "V" + lines[at][1:]
            else:
                lines[at] = lines[at][:lines[at].rindex(",")] + ",X"
            archive.touch(path, "\n".join(lines))
        t.nt()
        t.hit(fault + " " + which)
        must_raise(lambda: archive.run("tracking_qc", args), "tracking QC with %s file %s" % (fault, names[k % len(names)]), (UserWarning, ValueError) if fault == "flag" else (UserWarning,))
        expect_eq(files_below(top + "/out"), [], "files written")
    finally:
        shutil.rmtree(top, ignore_errors=True)


@law("C33", "split", tracking_cases, quick=250)
def _(c, t):
    """reports of other months and other drifters do not matter"""
    rows = rows_of(c)
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        args = write(c, rows, top)
        archive.run("tracking_qc", args)
        first = {n: open(top + "/out/" + n).read() for n in files_below(top + "/out")}
        months = month_list(c, rows)
        other = [[dict(r[0], SST=30.5, LAT=5.5, UID="X" + r[0]["UID"][1:])] + r[1:4] for r in rows[:9]]
        for k in (-1, len(months)):
            y, m = months[0][0] * 12 + months[0][1] - 1 + k, 0
            y, m = y // 12, y % 12 + 1
            out = "%s/in/%d/%02d" % (top, y, m)
            os.makedirs(out)
            load(archive_voyage, [[dict(r[0], YR=y, MO=m, DY=5)] + r[1:] for r in other]).write_output(c["runid"], out, y, m)
        for y, m in months:
            out = "%s/in/%d/%02d" % (top, y, m)
            os.makedirs(out, exist_ok=True)
            load(archive_voyage, [[dict(r[0], YR=y, MO=m, DY=5, ID="OTHER    ")] + r[1:] for r in other]).write_output(c["runid"], out, y, m)
            load(archive_voyage, [[dict(r[0], YR=y, MO=m, DY=5)] + r[1:] for r in other]).write_output("another", out, y, m)
        shutil.rmtree(top + "/out")
        os.makedirs(top + "/out")
        archive.run("tracking_qc", args)
        t.nt(len(rows) > 3)
        expect_eq({n: open(top + "/out/" + n).read() for n in files_below(top + "/out")}, first, "output with other files about")
    finally:
        shutil.rmtree(top, ignore_errors=True)
