"""Generated archives of marine reports, the climatologies that go with them, and runs of the programs on them."""
import contextlib
import gzip as real_gzip
import importlib
import io
import json
import os
import sys

import numpy as np

from imma_layout import LAYOUT
from laws.j_readers import B36, put

MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


# ------------------------------------------------------------------------------------------ records and files
def scaled(v, kind):
    if v is None or kind in "cb":
        return v
    return int(round(v * 10 ** int(kind)))


def line(rec):
    """an IMMA record with attachments 1 and 98"""
    out = ""
    for a in (0, 1, 98):
        body = ""
        for name, width, kind in LAYOUT[a]:
            v = rec.get(name)
            if name == "UID":
                v = v.ljust(width)
            body += put(scaled(v, kind), width, kind)
        if a:
            n = len(body) + 4
            body = "%2d%s" % (a, "%2d" % n if n < 100 else B36[n // 36] + B36[n % 36]) + body
        out += body
    return out


# ------------------------------------------------------------------------------------------ fields
def _mix(*ks):
    h = np.uint64(0)
    for k in ks:
        h = (h ^ np.asarray(k, dtype=np.uint64)) * np.uint64(0x9E3779B97F4A7C15)
        h = h ^ (h >> np.uint64(29))
    return h


class Store(object):
    """all fields, made once; values depend on cell and time and every field has holes"""

    def __init__(self):
        self.fields = {}
        np.seterr(over="ignore")

    def hashed(self, n, ny, nx, salt):
        t = np.arange(n).reshape(n, 1, 1)
        y = np.arange(ny).reshape(1, ny, 1)
        x = np.arange(nx).reshape(1, 1, nx)
        return _mix(_mix(_mix(salt + 1, t + 1), y + 1), x + 1)

    def field(self, name, n, ny, lo, hi, holes=13, frost=False):
        """multiples of a half plus 1/32 between lo and hi; one cell in so many is a hole; near to freezing beyond 50 degrees if `frost`"""
        nx = 2 * ny
        salt = len(self.fields) * 77 + 5
        h = self.hashed(n, ny, nx, salt)
        v = lo + 0.5 * (h % np.uint64(int((hi - lo) * 2) + 1)).astype(float) + 1 / 32.
        if frost:
            cold = abs(np.arange(ny) - ny // 2) > ny * 50 // 180
            v[:, cold] = (-1.5 + 0.5 * (h[:, cold] % np.uint64(13)).astype(float) + 1 / 32.)
        mask = (h >> np.uint64(40)) % np.uint64(holes) == 0
        self.fields[name] = np.ma.array(v, mask=np.broadcast_to(mask, v.shape).copy())

    def spreads(self, name, n, lo=1, hi=6, negative=True):
        """spreads in quarters, some of them missing or negative"""
        h = self.hashed(n, 180, 360, len(self.fields) * 77 + 5)
        v = 0.25 * (lo + h % np.uint64(hi)).astype(float)
        if negative:
            v = np.where((h >> np.uint64(50)) % np.uint64(19) == 0, -1., v)
        self.fields[name] = np.ma.array(v, mask=(h >> np.uint64(40)) % np.uint64(13) == 0)

    def build(self):
        self.field("SST", 73, 180, 4, 22, frost=True)
        self.field("AT", 73, 180, 4, 22)
        self.field("AT2", 73, 180, 4, 22)
        self.field("DPT", 73, 180, 4, 16)
        self.field("SLP", 73, 180, 1000, 1020)
        self.spreads("DPTsd", 73)
        self.spreads("AT2sd", 73)
        self.spreads("SLPsd", 73, 4, 16, False)
        self.field("other", 1, 180, 0, 9)
        self.spreads("sstsd", 73)
        for k in (1, 2, 3):
            self.spreads("buddy%d" % k, 1, 1, 4)
        for s in ("DJF", "MAM", "JJA", "SON"):
            self.spreads("bg" + s, 1)
        self.field("hires0", 1, 720, 4, 22, frost=True)
        self.field("hires1", 365, 180, 4, 22, frost=True)
        y = np.arange(3600).reshape(1, 3600, 1)
        x = np.arange(7200).reshape(1, 1, 7200)
        # 16 square kilometres of sea in 30 are frozen or land; a value tells its row and column
        for k in (0, 1):
            v = (273.15 + 4 + (y * 7 + x * 3 + 11 * k) % 40 * 0.5).astype(float)
            self.fields["ostia%d" % k] = np.ma.array(v, mask=(y // 4 + x // 4 + k) % 30 == 0)
            v = ((y * 5 + x + 3 * k) % 5 * 0.25).astype(np.float32)
            self.fields["ice%d" % k] = np.ma.array(v, mask=self.fields["ostia%d" % k].mask)
        none = np.broadcast_to(np.float32(0), (1, 3600, 7200))
        self.fields["none"] = np.ma.array(none, mask=np.ones((1, 3600, 7200), bool), copy=False)
        return self


def cell(v):
    """a value of a field or None"""
    return None if np.ma.is_masked(v) else float(v)


# ------------------------------------------------------------------------------------------ runs
@contextlib.contextmanager
def shims(argv, fields):
    """the program's arguments, gzip files read as text (as under Python 2) and the fields instead of NetCDF files"""
    import Climatology
    old_argv, old_open = sys.argv, real_gzip.open
    old_from = Climatology.Climatology.__dict__["from_filename"]

    def text_open(name, mode="r", *a, **k):
        if mode in ("r", "rb"):
            return old_open(name, "rt", encoding="latin-1", newline="\n")
        return old_open(name, mode, *a, **k)

    def from_filename(cls, infile, var):
        return cls(fields(infile, var))
    sys.argv = argv
    real_gzip.open = text_open
    if fields is not None:
        Climatology.Climatology.from_filename = classmethod(from_filename)
    try:
        yield
    finally:
        sys.argv = old_argv
        real_gzip.open = old_open
        Climatology.Climatology.from_filename = old_from


def run(program, args, fields=None):
    """runs the program; what it prints is returned"""
    mod = importlib.import_module(program)
    out = io.StringIO()
    with shims([program + ".py"] + args, fields), contextlib.redirect_stdout(out):
        mod.main(args)
    return out.getvalue()


def write_gz(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(real_gzip.compress(text.encode("latin-1"), 1))


def touch(path, text="x"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def dump(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f)
