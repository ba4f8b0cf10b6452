"""C31 chunks of months with data, C34 the tracking wrapper."""
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile

import Tracking_QC_wrapper as wrapper
import YMCounter as ym
from vlib import S, expect, expect_eq, law, must_raise, prop

prop("C31", "every series of up to ten months (twelve in the thorough tier) with every pattern of data and every gap, from start months that "
            "put a new year anywhere in it, and random series of up to thirty years set month by month in any order, with months set "
            "twice, taken back or outside the series; non-trivial = two chunks or more, or a gap as long as the series, or nothing at all",
     ["gaps are one month or more"])


def chunks(data, gap):
    """(first, last) month index of each chunk: data less than gap empty months apart belong together"""
    out = []
    for k in range(len(data)):
        if data[k]:
            if out and k - out[-1][1] - 1 < gap:
                out[-1][1] = k
            else:
                out.append([k, k])
    return out


def kinds(first, last, n, gap):
    """what a chunk is, by the empty months known before and after it"""
    before, after = first, n - 1 - last
    out = set()
    if before < gap:
        out.add("start_edge_case")
    if after < gap:
        out.add("end_edge_case")
    if after == gap:
        out.add("new")
    if before >= gap and after >= gap:
        out.add("regular")
    return out


def month_at(y, m, k):
    k += 12 * y + m - 1
    return k // 12, k % 12 + 1


def check_series(c, y, m, data, gap, what):
    n = len(data)
    want = []
    for a, b in chunks(data, gap):
        want.append(month_at(y, m, a) + month_at(y, m, b) + (sorted(kinds(a, b, n, gap)),))
    got = [(a, b, d, e, sorted(cl)) for a, b, d, e, cl in c.yield_start_and_end_dates(gap)]
    expect_eq(got, want, "chunks %s" % what)
    starts, ends = c.get_chunks(gap)
    expect_eq([[int(a), int(b)] for a, b in zip(starts, ends)] if len(starts) == len(ends) else (starts, ends), chunks(data, gap), "indices of the chunks %s" % what)
    return want


def series():
    top = 12 if os.environ.get("VERIF_TIER") == "thorough" else 10
    for n in range(1, top + 1):
        for gap in range(1, n + 3):
            for mask in range(2 ** n):
                yield [1999, 1 + (mask + gap) % 12, n, gap, mask]


@law("C31", "short", series, kind="enum")
def _(case, t):
    y, m, n, gap, mask = case
    y2, m2 = month_at(y, m, n - 1)
    c = ym.YMCounter(y, m, y2, m2)
    data = [mask >> k & 1 for k in range(n)]
    for k in range(n):
        if data[k]:
            a, b = month_at(y, m, k)
            c.setym(a, b, 1)
    want = check_series(c, y, m, data, gap, "with gap %d of %r from %d-%d" % (gap, data, y, m))
    t.nt(len(want) != 1 or gap >= n)
    for w in want:
        for x in w[4]:
            t.hit(x)


@law("C31", "long", lambda: S().fixed_dictionaries({
    "y": S().integers(1850, 2030), "m": S().integers(1, 12), "gap": S().one_of(S().integers(1, 14), S().integers(1, 60)),
    "runs": S().lists(S().tuples(S().integers(0, 30), S().integers(0, 30)).map(list), min_size=1, max_size=12),
    "fit": S().booleans(), "shuffle": S().integers(0, 1000),
    "take": S().lists(S().integers(-3, 400), max_size=4)}), quick=4000)
def _(c, t):
    data = []
    for full, empty in c["runs"]:
        # gaps just at the limit are what matters
        data += [1] * full + [0] * (c["gap"] + empty % 3 - 1 if c["fit"] else empty)
    data = data[:360] or [0]
    n = len(data)
    y, m = c["y"], c["m"]
    y2, m2 = month_at(y, m, n - 1)
    counter = ym.YMCounter(y, m, y2, m2)
    order = sorted(range(n), key=lambda k: (k * 7919 + c["shuffle"]) % 1009)
    for k in order:
        if data[k]:
            counter.setym(*month_at(y, m, k) + (1,))
    for k in c["take"]:
        counter.setym(*month_at(y, m, k) + (1,))
        counter.setym(*month_at(y, m, k) + (0,))
        if 0 <= k < n:
            data[k] = 0
    for k in range(n):
        got = counter.index(*month_at(y, m, k))
        if k % 37 == 0:
            expect_eq(list(got), [k], "index of month %d of the series" % k)
    want = check_series(counter, y, m, data, c["gap"], "with gap %d of %r from %d-%d" % (c["gap"], data, y, m))
    t.nt(len(want) != 1 or c["gap"] >= n)
    t.hit("%d chunks" % min(5, len(want)))
    # twice over gives the same
    check_series(counter, y, m, data, c["gap"], "told again")
    # and as it is once more has been counted
    for k in c["take"]:
        if 0 <= k < n:
            data[k] = 1 - data[k]
            counter.setym(*month_at(y, m, k) + (data[k],))
            check_series(counter, y, m, data, c["gap"] + k % 2, "with gap %d of %r, once a month was changed" % (c["gap"] + k % 2, data))
    # the time-reversed series has the same chunks mirrored
    other = ym.YMCounter(y, m, y2, m2)
    for k in range(n):
        if data[k]:
            other.setym(*month_at(y, m, n - 1 - k) + (1,))
    check_series(other, y, m, data[::-1], c["gap"], "of the mirrored series")


# ------------------------------------------------------------------ C34

prop("C34", "monthly lists of identifiers for up to three years drawn from runs of data and of the gap, any mode, gap and first month; the "
            "job file of every submission is parsed, and run by bash with a stand-in for python; scheduler and clock are stand-ins; "
            "non-trivial = chunks of two kinds or more and two identifiers or more, or an identifier with other characters than letters and digits",
     ["identifiers are made of letters, digits, blanks and - . _ / * #, with something else than blanks in them",
      "identifiers do not begin with -, which no argument parser could take for a value",
      "every month of the run has a list, as the main program leaves one for each"])

NAMES = ["51514", "A1", "1700001", "SHIP", "44137", "X", "ABCDEFGHI", "7.5"]
ODD = [" 5151", "A/B", "D*BU", "TWO WORD", "#12", "Q-1", "A_B", "A B*/C"]


def lists():
    st = S()
    run = st.tuples(st.integers(0, 6), st.integers(-1, 3)).map(list)
    ident = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(ODD))
    one = st.tuples(ident, st.lists(run, min_size=1, max_size=5)).map(list)
    return st.fixed_dictionaries({
        "y": st.integers(1985, 2013), "m": st.integers(1, 12), "n": st.integers(1, 30), "gap": st.integers(1, 5),
        "edge": st.sampled_from(["all", "standard", "new", "noend"]),
        "ids": st.lists(one, min_size=0, max_size=6, unique_by=lambda x: x[0]),
        "padded": st.booleans(), "runid": st.sampled_from(["run1", "standard_2", "x"]),
        "queue": st.one_of(st.just(0), st.integers(244, 260)), "shrink": st.integers(1, 4)})


class Scheduler(object):
    """stands in for sbatch, squeue and the clock"""

    def __init__(self, queue, shrink):
        self.queue, self.shrink = queue, shrink
        self.jobs, self.late, self.naps = [], [], 0

    def submit(self, command):
        words = shlex.split(command) if isinstance(command, str) else list(command)
        expect(words[:1] == ["sbatch"] and len(words) == 2, "unexpected command %r", command)
        if self.jobs and self.queue > 250:
            self.late.append(self.queue)
        self.queue += 1
        self.jobs.append((words[1], open(words[1]).read()))
        return 0

    def look(self, *a, **k):
        return "JOBID PARTITION USER\n" + "".join("%d rpp hadjj R\n" % i for i in range(self.queue))

    def sleep(self, s):
        self.naps += 1
        self.queue = max(0, self.queue - self.shrink)


def run_wrapper(sched, argv):
    kept = [(wrapper.os, "system"), (wrapper.subprocess, "check_output"), (wrapper.subprocess, "call"),
            (wrapper.subprocess, "check_call"), (wrapper.time, "sleep")]
    old = [getattr(m, a) for m, a in kept]
    new = [sched.submit, sched.look, lambda c, *a, **k: sched.submit(c), lambda c, *a, **k: sched.submit(c), sched.sleep]
    keep = sys.argv
    try:
        for (m, a), f in zip(kept, new):
            setattr(m, a, f)
        sys.argv = ["Tracking_QC_wrapper.py"] + argv
        wrapper.main(sys.argv[1:])
    finally:
        sys.argv = keep
        for (m, a), f in zip(kept, old):
            setattr(m, a, f)


def wanted(edge, cl):
    return (edge == "all" or edge == "standard" and "regular" in cl or edge == "new" and "new" in cl or
            edge == "noend" and "end_edge_case" not in cl)


def options(words):
    """-name value... of a command line"""
    out, name = {}, None
    for w in words:
        if w.startswith("-") and len(w) > 1 and not w[1].isdigit():
            name = w[1:]
            expect(name not in out, "option %s given twice in %r", name, words)
            out[name] = []
        else:
            expect(name is not None, "stray word %r in %r", w, words)
            out[name].append(w)
    return out


@law("C34", "jobs", lists, quick=800)
def _(c, t):
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        n, y, m, gap = c["n"], c["y"], c["m"], c["gap"]
        data = {}
        for ident, runs in c["ids"]:
            d = []
            for full, more in runs:
                d += [1] * full + [0] * max(0, gap + more)
            data[ident] = (d + [0] * n)[:n]
        months = [month_at(y, m, k) for k in range(n)]
        for k, (a, b) in enumerate(months):
            d = "%s/out/%d/%02d" % (top, a, b)
            os.makedirs(d)
            with open(d + "/ID_file.txt", "w") as f:
                for ident in sorted(data, key=lambda i: (hash(i) + k * 7) % 5):
                    if data[ident][k]:
                        name = ident.ljust(9) if c["padded"] else ident
                        f.write(name + "," + name.replace("/", "_").replace("*", "_") + "\n")
        os.makedirs(top + "/track")
        with open(top + "/par.json", "w") as f:
            json.dump({"runid": c["runid"]}, f)
        with open(top + "/conf.txt", "w") as f:
            f.write("[Directories]\nout_dir = %s/out\ntrack_out_dir = %s/track\n[Files]\nparameter_file = %s/par.json\n" % (top, top, top))
        (y1, m1), (y2, m2) = months[0], months[-1]
        want = []
        types = set()
        for ident, d in sorted(data.items()):
            for a, b in chunks(d, gap):
                cl = kinds(a, b, n, gap)
                types |= cl
                if wanted(c["edge"], cl):
                    want.append((ident,) + months[a] + months[b] + (tuple(sorted(cl)),))
        sched = Scheduler(c["queue"], c["shrink"])
        run_wrapper(sched, ["-config", top + "/conf.txt", "-gap", str(gap), "-yr1", str(y1), "-mn1", str(m1), "-yr2", str(y2), "-mn2", str(m2),
                            "-edge", c["edge"]])
        got = []
        lines = []
        for path, text in sched.jobs:
            expect(os.path.realpath(path).startswith(os.path.realpath(top) + "/track/"), "job file outside the tracking directory: %s", path)
            expect(text.startswith("#!/bin/bash"), "job file is no script: %r", text[:40])
            py = [l for l in text.split("\n") if l.startswith("python")]
            expect(len(py) == 1, "job file has %d commands", len(py))
            lines.append(py[0])
        out = run_lines(top, lines)
        for words in out:
            expect(words and words[0].endswith("tracking_qc.py"), "job runs %r", words[:1])
            o = options(words[1:])
            expect_eq(sorted(o), sorted(["id", "config", "yr1", "mn1", "yr2", "mn2", "edge", "runmonthid"]), "options of the command")
            for k in o:
                if k != "edge":
                    expect(len(o[k]) == 1, "option %s has values %r", k, o[k])
            expect_eq(o["config"], [top + "/conf.txt"], "configuration of the job")
            expect_eq(o["runmonthid"], ["%d%02d-%d%02d" % (y1, m1, y2, m2)], "run id of the job")
            got.append((o["id"][0].rstrip(),) + tuple(int(o[k][0]) for k in ("yr1", "mn1", "yr2", "mn2")) + (tuple(sorted(o["edge"])),))
        expect_eq(sorted(got), sorted(want), "jobs in mode %s with gap %d" % (c["edge"], gap))
        expect(not sched.late, "submitted with %r jobs queued", sched.late)
        expect(len(set(p for p, _ in sched.jobs)) == len(sched.jobs) or any(i in ODD for i in data), "two jobs share a file")
        t.nt(len(types) > 1 and len(data) > 1 or any(i in ODD for i in data))
        t.hit(c["edge"])
        if sched.naps:
            t.hit("waited for the queue")
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run_lines(top, lines):
    """the words each command line hands to python when bash runs it, and its output must go to a file that can be made"""
    if not lines:
        return []
    stub = top + "/words"
    with open(top + "/go.sh", "w") as f:
        f.write("python() { echo %s >> '%s'; printf '%%s\\n' \"$@\" >> '%s'; echo ran; }\ncd '%s'\n" % ("@@@", stub, stub, top))
        for l in lines:
            f.write(l + " || echo bad\n")
    p = subprocess.run(["bash", top + "/go.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    expect(p.stdout == b"", "bash could not run the command: %r", p.stdout.decode("utf8", "replace").replace(top, "..."))
    return [x.split("\n")[:-1] for x in open(stub).read().split("@@@\n")[1:]]


@law("C34", "unknown modes", lambda: S().fixed_dictionaries({"edge": S().sampled_from(["regular", "All", "start", "", "edge", "newer", "no end", "standard,new"])}), quick=16)
def _(c, t):
    top = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        os.makedirs(top + "/out/2000/01")
        os.makedirs(top + "/track")
        for name, text in (("par.json", '{"runid": "r"}'), ("out/2000/01/ID_file.txt", "51514,51514\n"), ("conf.txt",
                           "[Directories]\nout_dir = %s/out\ntrack_out_dir = %s/track\n[Files]\nparameter_file = %s/par.json\n" % (top, top, top))):
            with open(top + "/" + name, "w") as f:
                f.write(text)
        sched = Scheduler(0, 1)
        must_raise(lambda: run_wrapper(sched, ["-config", top + "/conf.txt", "-gap", "1", "-yr1", "2000", "-mn1", "1", "-yr2", "2000", "-mn2", "1", "-edge", c["edge"]]),
                   "mode %r" % c["edge"])
        expect(not sched.jobs, "mode %r submitted a job", c["edge"])
        t.nt()
    finally:
        shutil.rmtree(top, ignore_errors=True)
