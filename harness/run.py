"""Runs the check of one property: every law of it, in parallel, on generated cases."""
import argparse
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.dont_write_bytecode = True
import py2compat                                      # noqa: E402  (the import hook for /repo)
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")   # hypothesis only
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/nonexistent-hypothesis")

import vlib                                           # noqa: E402

NPROC = 8


def known_findings(pid):
    """lines 'known: property=<id> law=<law> key=<key> <text>' of KNOWN_FINDINGS.txt"""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.split(None, 4)
            if len(parts) == 5 and parts[0] == "known:" and parts[1] == "property=" + pid:
                out.append({"key": parts[3][4:], "text": parts[4].strip()})
    return out


def load(pid):
    for name in sorted(os.listdir(os.path.join(HERE, "laws"))):
        if name.endswith(".py") and not name.startswith("_"):
            src = open(os.path.join(HERE, "laws", name)).read()
            if "'%s'" % pid in src or '"%s"' % pid in src:
                importlib.import_module("laws." + name[:-3])
    laws = [l for l in vlib.LAWS if l.prop == pid]
    return laws + [vlib.sibling_law(l) for l in laws if l.kind == "hyp" and l.siblings and l.quick >= 50]


def worker(task):
    li, n, seed, deadline, shard, nshards = task
    lw = LAWS[li]
    work = tempfile.mkdtemp(prefix="w", dir=SCRATCH)
    os.chdir(work)
    os.environ["VERIF_WORK"] = work
    try:
        soft = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (soft, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    t0 = time.time()
    try:
        sys.stdout = open(os.devnull, "w")
        out = vlib.run_task(lw, n, seed, deadline, shard, nshards)
    except BaseException:
        out = {"law": lw.name, "error": traceback.format_exc(), "failure": None, "evaluations": 0,
               "keys": set(), "labels": {}, "samples": [], "cut_short": False}
    finally:
        sys.stdout = sys.__stdout__
        os.close(devnull)
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)
    out["li"] = li
    out["t"] = time.time() - t0
    return out


def main():
    global LAWS, SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--law", help="run only laws whose name contains this")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    LAWS = load(pid)
    if not LAWS:
        print("no law for property " + pid)
        return 2
    SCRATCH = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if a.replay:
            return replay(pid, os.path.abspath(a.replay))
        if a.law:
            LAWS = [l for l in LAWS if a.law in l.name]
        return run(pid, tier, seed, t0, a)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def replay(pid, path):
    import signal
    rec = json.load(open(path))
    lw = [l for l in LAWS if l.name == rec["law"]][0]
    os.chdir(SCRATCH)
    os.environ["VERIF_WORK"] = SCRATCH
    signal.signal(signal.SIGVTALRM, vlib._on_alarm)
    vlib.start_zygote()
    try:
        for case in rec.get("prelude", []):
            vlib.judge(lw, case, vlib.Tracker())
        vlib.judge(lw, rec["case"], vlib.Tracker())
    except vlib.Violation as v:
        print("law %s: %s" % (lw.name, v))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay passes")
    return 0


def run(pid, tier, seed, t0, a):
    budget = float(os.environ.get("VERIF_BUDGET_S", "400" if tier == "quick" else "780"))
    deadline = t0 + budget
    tasks = []
    for li, lw in enumerate(LAWS):
        n = int((lw.quick if tier == "quick" else lw.thorough) * a.scale)
        n = max(n, 5)
        if lw.kind == "enum":
            nshards = NPROC
        else:
            nshards = max(1, min(NPROC, n // 25)) if tier == "quick" else NPROC
        for s in range(nshards):
            sd = zlib.crc32(("%s/%s/%d/%d" % (pid, lw.name, seed, s)).encode())
            tasks.append((li, n // nshards + 1, sd, deadline, s, nshards))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(NPROC, initializer=vlib.start_zygote) as pool:
        results = pool.map(worker, tasks, chunksize=1)

    known = known_findings(pid)
    errors, failures = [], []
    laws = {}
    ev = 0
    keys = set()
    samples = []
    for r in results:
        lw = LAWS[r["li"]]
        d = laws.setdefault(lw.name, {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "kind": lw.kind,
                                      "cpu_s": 0.0, "_keys": set(), "_samples": []})
        d["evaluations"] += r["evaluations"]
        d["_keys"] |= r["keys"]
        d["cpu_s"] += r["t"]
        if r["cut_short"]:
            d["cut_short_by_time"] = True
        for k, v in r["labels"].items():
            d["classes"][k] = d["classes"].get(k, 0) + v
        d["_samples"] += r["samples"]
        if r["error"]:
            errors.append((lw.name, r["error"]))
        if r["failure"]:
            failures.append((lw.name, r["failure"]))
    for name, d in laws.items():
        ks = d.pop("_keys")
        d["distinct_nontrivial"] = len(ks)
        d["cpu_s"] = round(d["cpu_s"], 2)
        keys |= {(name, k) for k in ks}
        ev += d["evaluations"]
        ss = d.pop("_samples")
        for c in ss[:2]:
            samples.append({"law": name, "case": c})

    # one report per law: the smallest shrunk case
    best = {}
    for name, f in failures:
        if name not in best or len(json.dumps(f["case"])) < len(json.dumps(best[name]["case"])):
            best[name] = f
    viol = 0
    for name, f in sorted(best.items()):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, name.replace(" ", "-")))
        with open(path, "w") as fh:
            json.dump({"property": pid, "law": name, "message": f["msg"], "case": f["case"], "seed": seed,
                       "tier": tier, "prelude": f.get("prelude", [])}, fh, indent=1, sort_keys=True)
        hit = [k for k in known if "[" + k["key"] + "]" in f["msg"]]
        if hit:
            continue
        viol += 1
        print("law %s: %s" % (name, f["msg"][:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for name, e in errors[:4]:
        print("ERROR in law %s\n%s" % (name, e))
    meta = vlib.PROPS.get(pid, {"rule": "", "assumptions": []})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": meta["rule"],
                     "samples": samples[:12], "laws": laws},
        "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, ev, len(keys),
                                                                       time.time() - t0))
    if a.v:
        for name, d in sorted(laws.items()):
            print("  %-45s %7d cases %7d nt  %6.1f cpu s %s" % (name, d["evaluations"], d["distinct_nontrivial"],
                                                            d["cpu_s"], json.dumps(d["classes"], sort_keys=True)))
    if viol:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
