"""Core of the property-based checks.

A *law* is one executable relation of a property: a generator of JSON-serialisable cases and a function
that judges one case against an oracle which shares no code with /repo.  Cases are plain JSON so that the
shrunk counterexample is a replay file that re-runs exactly the same judgement.
"""
import collections
import gc
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = "/repo"
LAWS = []          # every registered law
PROPS = {}         # property id -> {"rule": ..., "assumptions": [...]}


class Violation(Exception):
    """The code under test broke the property on this case."""


class Hang(BaseException):
    """The code under test used more CPU on one case than any correct run could."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_eq(got, want, what):
    if type(got) is bool or type(want) is bool:
        same = bool(got) == bool(want) and got is not None and want is not None
    else:
        same = got == want
    try:
        same = bool(same)
    except Exception:
        same = False
    if not same:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def close(a, b, tol=1e-9, rel=1e-9):
    if a is None or b is None:
        return a is None and b is None
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))


def expect_close(got, want, what, tol=1e-9, rel=1e-9):
    if not close(got, want, tol, rel):
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def must_raise(fn, what, kinds=(Exception,)):
    try:
        r = fn()
    except kinds:
        return
    raise Violation("%s: accepted, returned %r" % (what, r))


class Law(object):
    def __init__(self, prop, name, strategy, check, quick, thorough, kind, siblings=0.15):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.kind = kind
        self.siblings = siblings


def law(prop, name, strategy, quick=2000, thorough=None, kind="hyp", siblings=0.15):
    """strategy: kind 'hyp' = zero-argument function giving a Hypothesis strategy;
    kind 'enum' = zero-argument function giving an iterable of cases, all of which are run.
    siblings: how many pairs of cases that differ in one part are judged one after the other, as a share of the cases."""
    def deco(fn):
        LAWS.append(Law(prop, name, strategy, fn, quick, thorough or quick * 12, kind, siblings))
        return fn
    return deco


def cross(a, b, k):
    """case a with one part of it taken from case b"""
    if isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b) and a:
        keys = sorted(a)
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a:
        keys = range(len(a))
    elif isinstance(a, str) and isinstance(b, str) and min(len(a), len(b)) > 1:
        n = 1 + k % (min(len(a), len(b)) - 1)
        return a[:n] + b[n:]
    else:
        return b
    differ = [i for i in keys if a[i] != b[i]]
    if not differ:
        return a
    i = differ[k % len(differ)]
    out = dict(a) if isinstance(a, dict) else list(a)
    deep = isinstance(a[i], (dict, list)) and type(a[i]) == type(b[i]) and len(a[i]) == len(b[i]) and (k // len(differ)) % 3 < 2
    out[i] = cross(a[i], b[i], k // len(differ)) if deep else b[i]
    return out


def tweak(a, k):
    """case a with one of its numbers changed a little, in its sign, or by one"""
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for i in sorted(x):
                walk(x[i], path + [i])
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, path + [i])
        elif isinstance(x, (int, float)) and not isinstance(x, bool) and x == x and abs(x) < 1e15:
            paths.append(path)
    walk(a, [])
    if not paths:
        return a
    path = paths[k % len(paths)]
    how = (k // len(paths)) % 6
    out = copy_of(a)
    if not path:
        return tweaked(out, how)
    x = out
    for i in path[:-1]:
        x = x[i]
    x[path[-1]] = tweaked(x[path[-1]], how)
    return out


def tweaked(v, how):
    if how < 2:
        return -v if v else v + 1
    if how == 2:
        return v + 1
    if how == 3:
        return v - 1
    if isinstance(v, int):
        return v + (10 if how == 4 else -10)
    return v + (0.05 if how == 4 else -0.4)


def sibling_law(lw):
    """Two cases alike but for one part, then the first again: what the code keeps from one must not show in the other.
    The crossed case need not be a valid one, so a failure counts only if, in fresh processes, each of the two cases
    passes by itself and the sequence fails."""
    def check(case, t):
        a, b, k = case
        c = tweak(a, k // 3) if k % 3 == 0 else cross(a, b, k // 3)
        seq = [a] if c == a else [a, c, a]
        spent = 0.
        for i, x in enumerate(seq):
            # an invalid case may well never end: it is given some time, but not much more than a valid one takes
            signal.setitimer(signal.ITIMER_VIRTUAL, max(0.3, 10 * spent) if i == 1 else CPU_LIMIT)
            start = time.process_time()
            try:
                lw.check(copy_of(x), t)
                spent = time.process_time() - start
            except (Exception, SystemExit, Hang) as e:
                if i == 1 and isinstance(e, Hang):
                    t.hit("crossed case takes too long")
                    return
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                if i == 0 or fresh(lw, [a]) is not None or fresh(lw, [c]) is not None:
                    t.hit("crossed case not valid")
                    return
                msg = fresh(lw, seq)
                if msg is None or msg.startswith("no answer"):
                    return
                raise Violation("passes by itself, but not after a case that differs in one part: " + msg)
        t.nt(c != a)
    return Law(lw.prop, lw.name + " - siblings",
               lambda: S().tuples(lw.strategy(), lw.strategy(), S().integers(0, 29999)).map(list), check,
               int(lw.quick * lw.siblings / 3.), int(lw.thorough * lw.siblings / 3.), "hyp", 0)


def copy_of(case):
    return json.loads(json.dumps(case))


# A process forked before any case was judged; it forks a child for every request, which so has no history.
_zygote = []


def start_zygote():
    req_r, req_w = os.pipe()
    ans_r, ans_w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(req_r)
        os.close(ans_w)
        _zygote[:] = [os.fdopen(req_w, "wb", 0), os.fdopen(ans_r, "rb", 0)]
        return
    try:
        os.close(req_w)
        os.close(ans_r)
        sys.stdout = open(os.devnull, "w")
        req = os.fdopen(req_r, "rb")
        while True:
            line = req.readline()
            if not line:
                break
            child = os.fork()
            if child == 0:
                msg = "no answer"
                try:
                    name, prop, cwd, seq = json.loads(line)
                    os.chdir(cwd)
                    os.environ["VERIF_WORK"] = cwd
                    signal.signal(signal.SIGVTALRM, _on_alarm)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(150)
                    lw = [l for l in LAWS if l.name == name and l.prop == prop][0]
                    msg = None
                    try:
                        for x in seq:
                            judge(lw, x, Tracker())
                    except Exception as e:
                        msg = str(e) or type(e).__name__
                except BaseException as e:
                    msg = "no answer: %r" % e
                finally:
                    os.write(ans_w, (json.dumps(msg and msg[:3000]) + "\n").encode())
                    os._exit(0)
            if os.waitpid(child, 0)[1]:
                os.write(ans_w, b'"no answer"\n')
    finally:
        os._exit(0)


def fresh(lw, seq):
    """Judges the cases one after the other in a process without history: None if they pass, else what failed."""
    if not _zygote:
        return "no fresh process"
    _zygote[0].write((json.dumps([lw.name, lw.prop, os.getcwd(), seq]) + "\n").encode())
    out = b""
    while not out.endswith(b"\n"):
        got = _zygote[1].read(65536)
        if not got:
            return "no fresh process"
        out += got
    return json.loads(out)


def prelude_of(lw, before, case, until):
    """The cases that must come before `case` for it to fail, if it passes by itself."""
    if fresh(lw, [case]) is not None:
        return []
    pre = list(before)
    if not pre or fresh(lw, pre + [case]) is None:
        return None
    size = max(1, len(pre) // 2)
    while time.time() < until:
        i, cut = 0, False
        while i < len(pre) and time.time() < until:
            less = pre[:i] + pre[i + size:]
            if fresh(lw, less + [case]) is not None:
                pre, cut = less, True
            else:
                i += size
        if size == 1 and not cut:
            break
        size = max(1, size // 2)
    return pre


def share(pid, source, name):
    """Judge law `name` of property `source` under property `pid` too: its statement covers the same ground.
    Called from the file that defines the law, after it."""
    for lw in [l for l in LAWS if l.prop == source and l.name == name]:
        LAWS.append(Law(pid, source + " " + name, lw.strategy, lw.check, lw.quick, lw.thorough, lw.kind, lw.siblings))
        return
    raise ValueError("no law %s of %s" % (name, source))


def prop(pid, rule, assumptions=()):
    PROPS[pid] = {"rule": rule, "assumptions": list(assumptions)}


class Tracker(object):
    """What one task covered; handed to every law's check function as `t`."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_keys = set()
        self.labels = {}
        self.samples = []
        self._nt = False
        self._skipped = False

    def begin(self):
        self._nt = False

    def hit(self, label, n=1):
        self.labels[label] = self.labels.get(label, 0) + n

    def nt(self, flag=True):
        """Mark the case as non-trivial."""
        if flag:
            self._nt = True

    def end(self, case, rng):
        self.evaluations += 1
        if self._nt:
            text = json.dumps(case, sort_keys=True)
            key = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if key not in self.nontrivial_keys:
                self.nontrivial_keys.add(key)
                if len(text) < 1200 and (len(self.samples) < 2 or
                                         rng.random() < 2.0 / len(self.nontrivial_keys)):
                    if len(self.samples) >= 2:
                        self.samples[rng.randrange(2)] = case
                    else:
                        self.samples.append(case)


def from_repo(exc):
    """True if the exception passed through a frame of the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    where = ""
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(fr.filename).startswith(REPO + os.sep):
            where = " at %s:%s" % (os.path.basename(fr.filename), fr.name)
    return "%s raised on valid input%s: %s" % (type(exc).__name__, where, exc)


CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "60"))


def _on_alarm(signum, frame):
    raise Hang("no result within %g s of CPU time" % CPU_LIMIT)


def judge(lw, case, t):
    """Runs one case. Raises Violation if the property is broken, anything else is a harness error."""
    t.begin()
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            lw.check(case, t)
        except MemoryError:
            # failures seen before, with all they hold, may be what fills the memory
            full = True
        else:
            full = False
        if full:
            gc.collect()
            lw.check(case, t)
    except Violation:
        raise
    except Hang as h:
        raise Violation(str(h))
    except AssertionError as e:
        if from_repo(e):
            raise Violation(describe(e)) from e
        raise
    except (Exception, SystemExit) as e:
        if from_repo(e):
            raise Violation(describe(e)) from e
        if isinstance(e, (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError, AttributeError)) \
                and not (isinstance(e, AttributeError) and "module" in str(e)):
            # the oracle was handed something it cannot even read (never so on a correct tree)
            raise Violation("result could not be judged: %s" % describe(e)) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Stop(BaseException):
    pass


def few_mutations(share):
    """Hypothesis follows every fresh case by up to five that repeat parts of it; most cases are to be fresh ones."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    full = getattr(ConjectureRunner, "_every_mutation", None) or ConjectureRunner.generate_mutations_from
    ConjectureRunner._every_mutation = full

    def some(self, data):
        if self.random.random() < share:
            full(self, data)
    ConjectureRunner.generate_mutations_from = some


def run_task(lw, n, seed, deadline, shard, nshards):
    """Runs n cases of a law. Returns a dict for the parent."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    t = Tracker()
    rng = random.Random(seed)
    out = {"law": lw.name, "error": None, "failure": None, "cut_short": False}
    last = {}
    before = collections.deque(maxlen=400)

    def one(case):
        if "case" in last and time.time() > last["until"]:
            raise Stop()
        if time.time() > deadline and "case" not in last:
            out["cut_short"] = True
            return
        try:
            judge(lw, case, t)
        except Violation as v:
            size = len(json.dumps(case))
            last.setdefault("until", time.time() + 45)
            last.setdefault("first", (copy_of(case), str(v)))
            if size <= last.get("size", size):
                last.update(case=json.loads(json.dumps(case)), msg=str(v), size=size)
            raise
        if "case" not in last:
            before.append(case)
        t.end(case, rng)

    try:
        if lw.kind == "enum":
            for i, case in enumerate(lw.strategy()):
                if i % nshards == shard:
                    one(case)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, settings
            few_mutations(0.15 if lw.quick > 1000 else 0.)
            st = lw.strategy()

            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)
            @hypothesis.given(st)
            def test(case):
                one(case)
            test()
    except Violation:
        pass
    except BaseException as e:
        if "case" not in last:      # else e.g. a flaky failure: the violation itself was observed
            out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    if "case" in last:
        out["failure"] = {"case": last["case"], "msg": last["msg"]}
        if _zygote and not lw.name.endswith(" - siblings"):
            pre = prelude_of(lw, before, last["case"], time.time() + 30)
            if pre is None:         # the shrunk case fails in this process only: fall back on the case as first met
                first, msg = last["first"]
                pre = prelude_of(lw, before, first, time.time() + 30)
                if pre is not None:
                    out["failure"] = {"case": first, "msg": msg}
            if pre:
                out["failure"]["prelude"] = pre
    out["evaluations"] = t.evaluations
    out["keys"] = t.nontrivial_keys
    out["labels"] = t.labels
    out["samples"] = t.samples
    return out


# ------------------------------------------------------------------ speed

def _quick_nonzero():
    """np.nonzero of a large, mostly empty grid of numbers: the same answer ten times faster by way of booleans"""
    import numpy as np
    real = np.nonzero

    def nonzero(a):
        if type(a) is np.ndarray and a.size > 100000 and a.dtype.kind in "fiu":
            a = a != 0
        return real(a)
    np.nonzero = nonzero


_quick_nonzero()


# ------------------------------------------------------------------ small strategy helpers

def S():
    import hypothesis.strategies as st
    return st


def dyadic(lo, hi, den=8):
    """Multiples of 1/den in [lo, hi]: sums and differences of these are exact in floating point."""
    st = S()
    return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / float(den))


def fl(lo, hi):
    return S().floats(lo, hi, allow_nan=False, allow_infinity=False)


def maybe(s, p_none=0.2):
    st = S()
    k = max(1, int(round(1 / p_none)))
    return st.integers(0, k - 1).flatmap(lambda i: st.none() if i == k - 1 else s)
