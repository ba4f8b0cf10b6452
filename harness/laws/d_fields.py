"""C04 climatology lookup, C05 interpolation, C30 files, names and directories."""
import bz2
import itertools
import os
import shutil
import subprocess
import tempfile
from fractions import Fraction

import numpy as np

import BackgroundField as bf
import Climatology as clm
import Extended_IMMA as ex
import Tracking_QC_wrapper as wrapper
import qc
import ref
import tracking_qc as tracking
from vlib import S, dyadic, expect, expect_close, expect_eq, law, maybe, must_raise, prop

prop("C04", "fields of every time and space resolution in use, each storing its own time step, row or column number or a hash "
            "of the cell with a tenth of the cells missing, in every file layout the reader says it takes; points on cell "
            "borders, poles and the date line; non-trivial = border, pole, date line, 29 February, missing cell, or a file not "
            "in the standard layout",
     ["netCDF4 for writing the files", "0 to 360 layouts only on 1-degree and finer grids, as in the files in use"])
prop("C05", "1-degree fields of hashed values with a share of the cells missing; points inside cells, on borders and centres, at "
            "the poles and the date line; non-trivial = a neighbour is missing, or the point is on a border, in the outermost "
            "row or across the date line",
     ["exact weights from rational arithmetic"])
prop("C30", "generated directory trees and name templates; non-trivial = several candidates, one missing, empty or compressed",
     ["bunzip2 on the PATH"])


# ------------------------------------------------------------------------------------------- C04
def lat_st():
    st = S()
    return st.one_of(st.integers(-90, 90).map(float), dyadic(-90, 90, 4), dyadic(-90, 90, 64),
                     st.sampled_from([90., -90., 0., 89.75, -89.75, 89.5, -89.5]),
                     st.integers(-9000, 9000).map(lambda k: k / 100.))


def lon_st(lo=-180, hi=180):
    st = S()
    return st.one_of(st.integers(lo, hi).map(float), dyadic(lo, hi, 4), dyadic(lo, hi, 64),
                     st.sampled_from([180., -180., 0., 179.75, -179.75, 179.5, -179.5]),
                     st.integers(lo * 100, hi * 100).map(lambda k: k / 100.))


def md_st(bad=0.05):
    st = S()
    good = st.one_of(st.sampled_from([[2, 28], [2, 29], [3, 1], [12, 31], [1, 1], [12, 26], [12, 27], [6, 30], [7, 1]]),
                     st.tuples(st.integers(1, 12), st.integers(1, 28)).map(list))
    odd = st.tuples(st.integers(-1, 14), st.integers(-1, 33)).map(list)
    return st.integers(0, 19).flatmap(lambda k: odd if k < bad * 20 else good)


def index_fields(n, ny, masked, dtype):
    """three fields that hold their own time step, row and column"""
    out = []
    for ax, size in ((0, n), (1, ny), (2, 2 * ny)):
        shape = [1, 1, 1]
        shape[ax] = size
        a = np.broadcast_to(np.arange(size, dtype=dtype).reshape(shape), (n, ny, 2 * ny))
        out.append(np.ma.masked_array(a, mask=False) if masked else a)
    return out


def steps(n, mo, dy):
    return 0 if n == 1 else ref.pentad(mo, dy) - 1 if n == 73 else ref.day_of_year(mo, dy) - 1


def edge(v, res):
    return (Fraction(v) / Fraction(res)).denominator == 1


@law("C04", "cell-and-time-step", lambda: S().tuples(
    lat_st(), lon_st(-180, 360), md_st(), S().sampled_from([1, 73, 365]), S().sampled_from([36, 90, 180, 360, 720]),
    S().booleans(), S().sampled_from(["f8", "f4"])).map(list), quick=4000)
def _(case, t):
    lat, lon, (mo, dy), n, ny, masked, dtype = case
    masked = masked and ny <= 90 and n < 365             # numpy copies a masked broadcast
    res = Fraction(180, ny)
    c = [clm.Climatology(f) for f in index_fields(n, ny, masked, dtype)]
    got = [k.get_value(lat, lon, mo, dy) for k in c]
    mds = [k.get_value_mds_style(lat, lon, mo, dy) for k in c] if ny == 180 else None
    if not ref.real_day(mo, dy):
        expect(got == [None] * 3 and mds in (None, [None] * 3), "%r on %d/%d", got, mo, dy)
        return
    own = lon if lon <= 180 else lon - 360.
    t.nt(edge(lat, res) or edge(lon, res) or (mo, dy) == (2, 29) or abs(own) == 180 or abs(lat) == 90)
    t.hit("n=%d" % n)
    want = [steps(n, mo, dy), ref.row(lat, res), ref.col(lon, res)]
    if (Fraction(lat).denominator < 5000 and Fraction(lon).denominator < 5000) or res.denominator == 1:
        expect_eq([float(g) for g in got], [float(w) for w in want], "time step, row and column read at %r" % case)
    expect_eq(c[0].get_tindex(mo, dy), want[0], "time step of %d/%d of %d" % (mo, dy, n))
    if mds:
        want = [steps(n, mo, dy), ref.mds_row(lat), ref.mds_col(own)]
        expect_eq([float(g) for g in mds], [float(w) for w in want], "step, row and column read the MDS way at %r" % case)


def all_masked(n, keep={}):
    if n not in keep:
        keep[n] = np.ma.masked_all((n, 180, 360))
    return keep[n]


@law("C04", "plain-arrays", lambda: S().tuples(lat_st(), lon_st(-180, 360), md_st(), S().sampled_from([1, 73]),
                                             S().booleans()).map(list), quick=2000)
def _(case, t):
    """the readers that work on bare arrays: pentads by 1 degree, days by 1 degree (MDS cells), days by 0.25 degrees"""
    lat, lon, (mo, dy), n, daily = case
    if not ref.real_day(mo, dy):
        f = index_fields(n, 180, False, "f8")[0]
        must_raise(lambda: qc.get_sst(lat, lon, mo, dy, f), "month %r day %r" % (mo, dy), (AssertionError,))
        must_raise(lambda: qc.get_sst_daily(lat, lon, mo, dy, f), "month %r day %r" % (mo, dy), (AssertionError,))
        r = ref.make(ex.MarineReport, YR=2004, LAT=lat, LON=lon, DY=dy, **({"MO": mo} if 1 <= mo <= 12 else {}))
        expect_eq(qc.get_clim(r, f), None, "climatology of a day that does not exist")
        expect_eq(qc.get_hires_clim(r, np.broadcast_to(np.array([4.]), (365, 1, 720, 1440))), None,
                  "quarter-degree climatology of a day that does not exist")
        return
    t.nt(edge(lat, 1) or edge(lon, 1) or (mo, dy) == (2, 29) or lon > 180)
    exact = Fraction(lon).denominator < 5000
    got = [float(qc.get_sst(lat, lon, mo, dy, f)) for f in index_fields(n, 180, False, "f8")]
    want = [float(steps(n, mo, dy)), float(ref.row(lat)), float(ref.col(lon))]
    if exact or lon < 180:
        expect_eq(got, want, "step, row and column of %r" % case)
    r = ref.make(ex.MarineReport, YR=2004, LAT=lat, LON=lon, DY=dy, MO=mo)
    own = lon if lon <= 180 else lon - 360.
    want = [float(steps(n, mo, dy)), float(ref.row(lat)), float(ref.col(own))]
    expect_eq([qc.get_clim(r, f) for f in index_fields(n, 180, False, "f8")], want, "climatology of a report at %r" % case)
    # fields of files come with cells without data masked
    hidden = all_masked(n)
    expect_eq(qc.get_sst(lat, lon, mo, dy, hidden), None, "value of a field all masked at %r" % case)
    at = (steps(n, mo, dy), ref.row(lat), ref.col(lon))
    hidden[at] = 4.5
    one = qc.get_sst(lat, lon, mo, dy, hidden)
    hidden[at] = np.ma.masked
    if exact or lon < 180:
        expect_eq(one, 4.5, "value of the only cell of a field that is not masked, at %r" % case)
    days = index_fields(365, 180, False, "f8")
    expect_eq(qc.get_sst_daily(lat, lon, mo, dy, all_masked(365)), None,
              "value of a daily field all masked at %r" % case)
    if lon <= 180:
        expect_eq([float(qc.get_sst_daily(lat, lon, mo, dy, f)) for f in days],
                  [float(ref.day_of_year(mo, dy) - 1), float(ref.mds_row(lat)), float(ref.mds_col(lon))],
                  "day, row and column of the daily field at %r" % case)
    if exact and Fraction(lat).denominator < 5000:
        hires = [f[:, None] for f in index_fields(365, 720, False, "f8")]
        q = Fraction(1, 4)
        expect_eq([qc.get_hires_clim(r, f) for f in hires],
                  [float(ref.day_of_year(mo, dy) - 1), float(ref.row(lat, q)), float(ref.col(own, q))],
                  "quarter-degree climatology of a report at %r" % case)
        gap = np.broadcast_to(np.array([-999.]), (365, 1, 720, 1440))
        expect_eq(qc.get_hires_clim(r, gap), None, "quarter-degree climatology over land")


LATN = ["lat", "lats", "latitude", "latitudes"]
LONN = ["lon", "lons", "long", "longs", "longitude", "longitudes"]


def hashed(n, ny, nx, salt):
    k = np.arange(n * ny * nx, dtype="f8").reshape(n, ny, nx)
    v = np.mod(k * 7919. + salt * 104729., 10007.) / 8.
    return np.ma.masked_array(v, mask=np.mod(k * 31. + salt, 11.) < 1.)


def layout_cases():
    st = S()
    return st.fixed_dictionaries({
        "n": st.sampled_from([1, 1, 1, 73, 365]), "ny": st.sampled_from([180, 18, 36]), "south": st.booleans(),
        "zero": st.booleans(), "swap": st.booleans(), "four": st.booleans(), "la": st.integers(0, 3), "lo": st.integers(0, 5),
        "dtype": st.sampled_from(["f4", "f8"]), "salt": st.integers(0, 50),
        "points": st.lists(st.tuples(lat_st(), lon_st(-180, 180), md_st(0)).map(list), min_size=4, max_size=12)})


@law("C04", "file-layouts", layout_cases, quick=500)
def _(case, t):
    import netCDF4
    n, ny = case["n"], case["ny"]
    if n > 1 and ny == 180:
        ny = 18 if n == 365 else 36
    nx = 2 * ny
    res = Fraction(180, ny)
    f = hashed(n, ny, nx, case["salt"]).astype(case["dtype"])
    lats = np.array([90. - float(res) * (i + .5) for i in range(ny)])
    lons = np.array([-180. + float(res) * (i + .5) for i in range(nx)])
    out = f
    if case["south"]:
        out, lats = out[:, ::-1, :], lats[::-1]
    zero = case["zero"] and res <= 1
    if zero:
        out, lons = np.ma.concatenate([out[:, :, nx // 2:], out[:, :, :nx // 2]], axis=2), \
            np.concatenate([lons[nx // 2:], lons[:nx // 2] + 360.])
    swap = case["swap"] and n == 1 and ny == 180
    four = case["four"]
    t.nt(case["south"] or zero or swap or four)
    t.hit("%s%s%s%s" % ("S->N " if case["south"] else "", "0-360 " if zero else "", "swapped " if swap else "",
                        "4-D" if four else ""))
    path = os.path.join(os.environ["VERIF_WORK"], "clim.nc")
    nc = netCDF4.Dataset(path, "w")
    dims = [("time", n), ("latitude_dim", ny), ("longitude_dim", nx)]
    if swap:
        dims = [dims[0], dims[2], dims[1]]
        out = out.transpose(0, 2, 1)
    if four:
        dims.insert(1, ("level", 1))
        out = out[:, None]
    for name, size in dims:
        nc.createDimension(name, size)
    v = nc.createVariable("sst", case["dtype"], [d[0] for d in dims], fill_value=-999.)
    v[:] = out
    nc.createVariable(LATN[case["la"]], "f8", ("latitude_dim",))[:] = lats
    nc.createVariable(LONN[case["lo"]], "f8", ("longitude_dim",))[:] = lons
    nc.close()
    try:
        c = clm.Climatology.from_filename(path, "sst")
    finally:
        os.unlink(path)
    expect_eq(c.n, n, "number of time steps")
    expect_close(float(c.res), float(res), "resolution")
    for lat, lon, (mo, dy) in case["points"]:
        want = f[steps(n, mo, dy), ref.row(lat, res), ref.col(lon, res)]
        want = None if want is np.ma.masked else float(want)
        got = c.get_value(lat, lon, mo, dy)
        expect_eq(None if got is None else float(got), want, "value at %r, %r on %d/%d" % (lat, lon, mo, dy))
        t.hit("missing cell" if want is None else "value")


def near_by(st, vs, lo, hi):
    """a few values, some of them close together, negated or a whole number apart"""
    def more(v):
        return st.lists(st.one_of(st.just(-v), st.sampled_from([1, -1, .25, -.25, .0625, 90, -90, 180, -180]).map(lambda d: v + d), vs),
                        min_size=1, max_size=2).map(lambda l: [v] + [w for w in l if lo <= w <= hi])
    return vs.flatmap(more)


def question_cases(fine=False):
    st = S()

    def asked(pools):
        return st.lists(st.tuples(st.sampled_from(pools[0]), st.sampled_from(pools[1]), st.sampled_from(pools[2]), st.integers(0, 1))
                        .map(list), min_size=4, max_size=12)
    days = st.lists(md_st(0.02), min_size=1, max_size=3)
    return st.tuples(st.tuples(near_by(st, dyadic(-90, 90, 64) if fine else lat_st(), -90, 90),
                               near_by(st, dyadic(-180, 180, 64) if fine else lon_st(), -180, 180), days).flatmap(asked),
                     st.sampled_from([1, 73])).map(list)


_big = {}


def big(n, salt):
    if (n, salt) not in _big:
        _big[n, salt] = hashed(n, 180, 360, salt)
    return _big[n, salt]


def cell(f, n, r, c):
    v = f[n, r, c]
    return None if v is np.ma.masked else float(v)


def plain(v):
    return None if v is None else float(v)


@law("C04", "one-climatology-many-questions", question_cases, quick=700)
def _(case, t):
    """every question to a climatology is answered for itself, whatever was asked before of it or of another one"""
    asked, n = case
    t.nt(len(asked) > 1)
    fs = [big(n, 0), big(n, 7)]
    cs = [clm.Climatology(f) for f in fs]
    for lat, lon, (mo, dy), k in asked:
        f, c, what = fs[k], cs[k], "of %d at %r, %r on %d/%d" % (k, lat, lon, mo, dy)
        if not ref.real_day(mo, dy):
            expect_eq([c.get_value(lat, lon, mo, dy), c.get_value_mds_style(lat, lon, mo, dy)], [None] * 2, "value " + what)
            continue
        i = steps(n, mo, dy)
        expect_eq(plain(c.get_value(lat, lon, mo, dy)), cell(f, i, ref.row(lat), ref.col(lon)), "value " + what)
        expect_eq(plain(c.get_value_mds_style(lat, lon, mo, dy)), cell(f, i, ref.mds_row(lat), ref.mds_col(lon)), "value, MDS, " + what)
        expect_eq(c.get_tindex(mo, dy), i, "time step " + what)
        r = ref.make(ex.MarineReport, YR=2004, LAT=lat, LON=lon, DY=dy, MO=mo)
        expect_eq(plain(qc.get_clim(r, f)), cell(f, i, ref.row(lat), ref.col(lon)), "value of a report " + what)
        expect_eq(plain(qc.get_sst(lat, lon, mo, dy, f)), cell(f, i, ref.row(lat), ref.col(lon)), "value in the field " + what)


_fine = {}


def fine():
    """two fields of 0.05 degrees, in which a cell holds its column plus a multiple of its row"""
    if not _fine:
        a = np.arange(7200, dtype="f4")[None, None, :] + np.arange(3600, dtype="f4")[None, :, None]
        _fine[0] = a
        _fine[1] = a[:, ::-1]
    return _fine


@law("C04", "one-fine-climatology-many-questions", lambda: question_cases(True), quick=400)
def _(case, t):
    asked = case[0]
    t.nt(len(asked) > 1)
    fs = fine()
    cs = [clm.Climatology(fs[k]) for k in (0, 1)]
    for lat, lon, _md, k in asked:
        if any((Fraction(v) * 20).denominator == 1 for v in (lat, lon)):
            continue                                      # floating point decides on which side of a border it is
        r, c = ref.mds_row(lat, Fraction(1, 20)), ref.mds_col(lon, Fraction(1, 20))
        expect_eq(float(cs[k].get_value_ostia(lat, lon)), float(fs[k][0, r, c]), "value of %d at %r, %r" % (k, lat, lon))


@law("C05", "one-climatology-many-questions", question_cases, quick=500)
def _(case, t):
    asked, n = case
    t.nt(len(asked) > 1)
    n = 73
    fs = [big(n, 0), big(n, 7)]
    cs = [clm.Climatology(f) for f in fs]
    for lat, lon, (mo, dy), k in asked:
        f, c, what = fs[k], cs[k], "of %d at %r, %r on %d/%d" % (k, lat, lon, mo, dy)
        if not ref.real_day(mo, dy):
            expect_eq(c.get_interpolated_value(lat, lon, mo, dy), None, "value " + what)
            continue
        i = steps(n, mo, dy)
        want = interpolated(f[i:i + 1], lat, lon)
        expect_close(c.get_interpolated_value(lat, lon, mo, dy), want, "value " + what, tol=1e-6)
        r = ref.make(ex.MarineReport, YR=2004, MO=mo, DY=dy, HR=0., LAT=lat, LON=lon)
        expect_close(qc.get_clim_interpolated(r, f), want, "value of a report " + what, tol=1e-6)


@law("C04", "no-file", lambda: S().tuples(lat_st(), lon_st(), md_st(0)).map(list), quick=16)
def _(case, t):
    lat, lon, (mo, dy) = case
    c = clm.Climatology.from_filename(None, "sst")
    t.nt()
    expect_eq(c.get_value(lat, lon, mo, dy), None, "value of a climatology that has no file")
    expect_eq(c.get_value_ostia(lat, lon), None, "OSTIA value of a climatology that has no file")


@law("C04", "nowhere", lambda: S().tuples(S().floats(-200, 200), S().floats(-400, 1000), md_st(0)).map(list), quick=1200)
def _(case, t):
    """a place that is none has no value"""
    lat, lon, (mo, dy) = case
    if -90 <= lat <= 90 and -180 <= lon <= 360:
        return
    t.nt()
    c = clm.Climatology(index_fields(73, 180, False, "f8")[0])
    expect_eq(c.get_value_mds_style(lat, lon, mo, dy), None, "value at %r, %r" % (lat, lon))
    c = clm.Climatology(index_fields(1, 3600, False, "f4")[0])
    expect_eq(c.get_value_ostia(lat, lon), None, "value at %r, %r" % (lat, lon))


@law("C04", "ostia-grid", lambda: S().tuples(S().one_of(lat_st(), S().floats(-90, 90)), S().one_of(
    lon_st(-180, 360), S().floats(-180, 360)), S().booleans()).map(list), quick=1000)
def _(case, t):
    lat, lon, hole = case
    fr, fc = (abs(Fraction(v)) * 20 for v in (lat, lon))
    got = [float(clm.Climatology(f).get_value_ostia(lat, lon)) for f in index_fields(1, 3600, False, "f4")]
    t.nt(fr.denominator == 1 or fc.denominator == 1)
    for name, g, frac, size, v in (("row", got[1], fr, 3600, lat), ("column", got[2], fc, 7200, lon)):
        v = v if v <= 180 else v - 360.
        want = (ref.mds_row if name == "row" else ref.mds_col)(v, Fraction(1, 20))
        if abs(frac - round(frac)) > Fraction(1, 10 ** 6):
            expect_eq(g, float(want), "%s of %r at 0.05 degrees" % (name, v))
        else:
            expect(abs(g - want) <= 1 and 0 <= g < size, "%s %r of %r at 0.05 degrees", name, g, v)


# ------------------------------------------------------------------------------------------- C05
def cells_value(salt, gaps):
    k = np.arange(180 * 360, dtype="f8").reshape(1, 180, 360)
    v = np.mod(k * 7919. + salt * 104729., 2003.) / 64. - 10.
    m = np.mod(k * 37. + np.floor(k / 360.) * 11. + salt, 97.) < gaps
    return np.ma.masked_array(v, mask=m)


_cache = {}


def field(salt, gaps):
    if (salt, gaps) not in _cache:
        if len(_cache) > 40:
            _cache.clear()
        _cache[salt, gaps] = cells_value(salt, gaps)
    return _cache[salt, gaps]


def filled(a, b, c, d):
    """the square of four (a and d opposite) with gaps filled from the two beside each, else from the one opposite"""
    def mean(*vs):
        vs = [v for v in vs if v is not None]
        return sum(vs) / len(vs) if vs else None
    out = []
    for own, s1, s2, opp in ((a, b, c, d), (b, a, d, c), (c, a, d, b), (d, b, c, a)):
        if own is None:
            own = mean(s1, s2)
        if own is None:
            own = opp
        out.append(own)
    return out


def at(f, r, c):
    if r < 0 or r > 179:
        r = min(max(r, 0), 179)                      # beyond the outermost row it goes on as it is
    v = f[0, r, c % 360]
    return None if v is np.ma.masked else Fraction(float(v))


def interpolated(f, lat, lon):
    near = Fraction(0.001)
    around = set()
    for dla in (-1, 1):
        la = Fraction(lat + dla * 0.001)
        if -90 < la < 90:
            for dlo in (-1, 1):
                around.add((ref.row(la), ref.col(Fraction(lon + dlo * 0.001))))
    if all(at(f, r, c) is None for r, c in around):
        return None
    y, x = Fraction(179, 2) - Fraction(lat), Fraction(lon) + Fraction(359, 2)
    r0, c0 = y // 1, x // 1
    wy, wx = y - r0, x - c0
    if wy == 0 and r0 > 178:                          # (the same value whichever row it is shared with)
        pass
    nw, ne, sw, se = at(f, int(r0), int(c0)), at(f, int(r0), int(c0) + 1), at(f, int(r0) + 1, int(c0)), \
        at(f, int(r0) + 1, int(c0) + 1)
    nw, ne, sw, se = filled(nw, ne, sw, se)
    return float(nw * (1 - wx) * (1 - wy) + ne * wx * (1 - wy) + sw * (1 - wx) * wy + se * wx * wy)


def interp_cases():
    st = S()
    lat = st.one_of(dyadic(-90, 90, 2), dyadic(-90, 90, 8), dyadic(-90, 90, 64),
                    st.sampled_from([90., -90., 89.5, -89.5, 89.75, -89.75, 0., 88.5, -88.5]), st.sampled_from([89., -89., 88., -88., 89.0005, -89.0005]),
                    st.integers(-9000, 9000).map(lambda k: k / 100.))
    lon = st.one_of(dyadic(-180, 180, 2), dyadic(-180, 180, 8), dyadic(-180, 180, 64),
                    st.sampled_from([180., -180., 179.5, -179.5, 179.75, -179.75, 0.]),
                    st.integers(-18000, 18000).map(lambda k: k / 100.))
    return st.tuples(lat, lon, st.integers(0, 30), st.sampled_from([0, 8, 30, 60]), st.booleans()).map(list)


@law("C05", "bilinear-with-gaps", interp_cases, quick=7000)
def _(case, t):
    lat, lon, salt, gaps, pentads = case
    f = field(salt, gaps)
    want = interpolated(f, lat, lon)
    # floating point decides which cell shares a point that sits within rounding of a border
    t.nt(gaps > 0 or abs(lat) > 89 or abs(lon) > 179.5 or edge(lat, 1) or edge(lon, 1))
    t.hit("missing" if want is None else "value")
    c = clm.Climatology(f)
    got = c.get_interpolated_value(lat, lon, 6, 15)
    r = ref.make(ex.MarineReport, YR=2004, MO=6, DY=15, HR=0., LAT=lat, LON=lon)
    other = qc.get_clim_interpolated(r, f)
    expect_close(got, want, "climatology interpolated to %r, %r" % (lat, lon), tol=1e-6)
    expect_close(other, want, "field interpolated to %r, %r" % (lat, lon), tol=1e-6)
    if got is not None:
        square = []
        for dla in (-.5, .5):
            for dlo in (-.5, .5):
                square.append(at(f, ref.row(max(min(lat + dla, 90.), -90.)), ref.col(lon + dlo)))
        square = [float(s) for s in square if s is not None]
        if square and not edge(lat * 2, 1) and not edge(lon * 2, 1):
            expect(min(square) - 1e-6 <= got <= max(square) + 1e-6, "%r is outside the values around it %r", got, square)
    expect_eq(c.get_interpolated_value(lat, lon, 13, 1), None, "interpolation in month 13")
    expect_eq(c.get_interpolated_value(lat, lon, 2, 30), None, "interpolation on 30 February")
    if abs(lon) == 180:
        expect_close(c.get_interpolated_value(lat, -lon, 6, 15), got, "the two sides of the date line", tol=1e-6)


@law("C05", "in-the-right-pentad", lambda: S().tuples(lat_st(), lon_st(), md_st(0)).map(list), quick=1000)
def _(case, t):
    lat, lon, (mo, dy) = case
    f = index_fields(73, 180, False, "f8")[0]
    t.nt((mo, dy) == (2, 29))
    expect_close(clm.Climatology(f).get_interpolated_value(lat, lon, mo, dy), ref.pentad(mo, dy) - 1., "pentad", tol=1e-6)
    r = ref.make(ex.MarineReport, YR=2004, MO=mo, DY=dy, HR=0., LAT=lat, LON=lon)
    expect_close(qc.get_clim_interpolated(r, f), ref.pentad(mo, dy) - 1., "pentad", tol=1e-6)


@law("C05", "plane", lambda: S().tuples(S().floats(-89.4, 89.4), S().floats(-179.4, 179.4), dyadic(-4, 4), dyadic(-4, 4)).map(list),
     quick=1500)
def _(case, t):
    """a field that is a plane is given back exactly"""
    lat, lon, a, b = case
    y = 89.5 - np.arange(180.)
    x = -179.5 + np.arange(360.)
    f = a * y[:, None] + b * x[None, :]
    t.nt(a != 0 or b != 0)
    expect_close(clm.Climatology(f[None]).get_interpolated_value(lat, lon, 1, 1), a * lat + b * lon, "plane", tol=1e-6)


@law("C05", "four-points", lambda: S().tuples(lat_st(), lon_st()).map(list), quick=3000)
def _(case, t):
    lat, lon = case
    t.nt(abs(lat) > 89 or abs(lon) > 179 or edge(lat * 2, 1))
    x1, x2, y1, y2 = qc.get_four_surrounding_points(lat, lon, 0)
    expect(x1 <= lon <= x2 and abs(x2 - x1 - 1) < 1e-9, "columns %r and %r around %r", x1, x2, lon)
    expect(y1 <= lat <= y2 and abs(y2 - y1 - 1) < 1e-9, "rows %r and %r around %r", y1, y2, lat)
    expect((x1 - .5) % 1 == 0 and (y1 - .5) % 1 == 0, "%r, %r is no centre of a cell", x1, y1)
    a1, a2, b1, b2 = qc.get_four_surrounding_points(lat, lon, 1)
    expect_eq([a1, a2, b1, b2], [x1, x2, max(y1, -89.5), min(y2, 89.5)], "the same within the grid")


# ------------------------------------------------------------------------------------------- C30
WORDS = ["a", "bb", "OSTIA", "YYYY", "MMMM", "DDDD", "YYYYMMMMDDDD", "x.y", "bad ids", "m-DDDD-MMMM-YYYY", "R3.0"]


def fill(s, y, m, d):
    return s.replace("YYYY", "%04d" % y).replace("MMMM", "%02d" % m).replace("DDDD", "%02d" % d)


def name_cases():
    st = S()
    plain = ["a", "bb", "OSTIA", "YYYY", "MMMM", "DDDD", "x.y", "YYYYMMMMDDDD", "m-DDDD-MMMM-YYYY",
             "a b", "it's", "a;b(c)&", "$HOME", "x.bz2", "-c"]
    comp = st.sampled_from(plain)
    one = st.fixed_dictionaries({"dir": st.lists(comp, min_size=1, max_size=3).map("/".join),
                                 "file": st.lists(comp, min_size=1, max_size=2).map("_".join).map(lambda s: s + ".nc"),
                                 "plain": st.sampled_from(["none", "empty", "full"]),
                                 "bz2": st.sampled_from(["none", "none", "empty", "full"])})
    return st.fixed_dictionaries({"y": st.one_of(st.integers(1850, 2020), st.integers(1, 9999)), "m": st.integers(1, 12),
                                  "d": st.integers(1, 31), "stubs": st.lists(one, min_size=1, max_size=4),
                                  "unpacked": st.booleans(), "missing": st.sampled_from([None] * 9 + ["y", "m", "d"])})


def tree(case, root):
    """builds the tree; the last one written to a path counts"""
    want = {}
    for i, s in enumerate(case["stubs"]):
        d = fill("%s/YYYY/%s" % (root, s["dir"]), case["y"], case["m"], case["d"])
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, fill(s["file"], case["y"], case["m"], case["d"]))
        for path, kind in ((base, s["plain"]), (base + ".bz2", s["bz2"])):
            if path in want:
                continue
            want[path] = kind
            if kind != "none":
                body = ("content of %d %s" % (i, os.path.basename(path))).encode() if kind == "full" else b""
                with open(path, "wb") as fh:
                    fh.write(bz2.compress(body) if body and path.endswith(".bz2") else body)
    return want


@law("C30", "background-file", name_cases, quick=500)
def _(case, t):
    work = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        root, scratch = os.path.join(work, "in"), os.path.join(work, "scratch")
        os.mkdir(scratch)
        want = tree(case, root)
        dirs = [root + "/YYYY/" + s["dir"] for s in case["stubs"]]
        files = [s["file"] for s in case["stubs"]]
        y, m, d = case["y"], case["m"], case["d"]
        paths = [os.path.join(fill(a, y, m, d), fill(b, y, m, d)) for a, b in zip(dirs, files)]
        t.nt(len(paths) > 1 or any(s["bz2"] == "full" for s in case["stubs"]))
        before = {p: open(p, "rb").read() for p in want if os.path.exists(p)}
        old = os.environ["SCRATCH"]
        os.environ["SCRATCH"] = scratch
        try:
            args = {"y": y, "m": m, "d": d}
            if case["missing"]:
                args[case["missing"]] = None
            got = bf.get_background_filename(dirs, files, args["y"], args["m"], args["d"])
            again = bf.get_background_filename(dirs, files, args["y"], args["m"], args["d"])
        finally:
            os.environ["SCRATCH"] = old
        expect_eq(again, got, "the same file asked for twice")
        if case["missing"]:
            expect_eq(got, None, "file of a date that is not complete")
            return
        chosen = None
        for p in paths:
            if want[p] == "full" or want[p + ".bz2"] == "full":
                chosen = p
                break
        if chosen is None:
            t.hit("no file")
            expect_eq(got, None, "file when there is none that holds anything")
            expect_eq(os.listdir(scratch), [], "scratch")
            return
        # the first place that has the file in either form wins; what it holds is what is read
        ok = set()
        if want[chosen] == "full":
            ok.add(before[chosen])
        if want[chosen + ".bz2"] == "full":
            ok.add(bz2.decompress(before[chosen + ".bz2"]))
            t.hit("compressed")
        expect(got is not None and os.path.isfile(got), "file %r is not there", got)
        expect(open(got, "rb").read() in ok, "%r holds %r, expected one of %r", got, open(got, "rb").read()[:60], ok)
        if want[chosen + ".bz2"] != "full":
            expect_eq(got, chosen, "file that needs no unpacking")
        for p, body in before.items():
            expect(open(p, "rb").read() == body, "original %r was changed", p)
        here = {p for p, k in want.items() if k != "none"}
        for a, _, fs in os.walk(root):
            for f in fs:
                expect(os.path.join(a, f) in here, "a file %r appeared beside the originals", f)
        if len(dirs) > 1:
            # each list is gone through for itself
            for i in range(len(dirs)):
                for name in os.listdir(scratch):             # what was unpacked from another place under this name
                    os.unlink(os.path.join(scratch, name))
                os.environ["SCRATCH"] = scratch
                try:
                    one = bf.get_background_filename(dirs[i:i + 1], files[i:i + 1], y, m, d)
                finally:
                    os.environ["SCRATCH"] = old
                full = "full" in (want[paths[i]], want[paths[i] + ".bz2"])
                expect_eq(one is not None, full, "whether there is a file in place %d alone" % i)
                if one is not None:
                    can = {before[p] for p in (paths[i],) if want[p] == "full"} | \
                        {bz2.decompress(before[p]) for p in (paths[i] + ".bz2",) if want[p] == "full"}
                    expect(open(one, "rb").read() in can, "%r is not the file in place %d", one, i)
    finally:
        shutil.rmtree(work)


@law("C30", "many-days", lambda: S().tuples(S().lists(S().lists(S().sampled_from(["none", "none", "full", "empty", "bz2"]), min_size=4, max_size=4),
                                                     min_size=2, max_size=3), S().lists(S().integers(0, 3), min_size=2, max_size=10)).map(list), quick=200)
def _(case, t):
    """in every place each day is there or not: the first place that has a day is taken, whatever was taken for the days before"""
    places, asked = case
    work = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    old = os.environ["SCRATCH"]
    try:
        os.environ["SCRATCH"] = work
        for k, days in enumerate(places):
            os.mkdir("%s/p%d" % (work, k))
            for d, kind in enumerate(days):
                name = "%s/p%d/%d_200306%02d" % (work, k, k, d + 1)
                if kind != "none":
                    body = b"" if kind == "empty" else b"%d %d" % (k, d)
                    with open(name + ".bz2" if kind == "bz2" else name, "wb") as fh:
                        fh.write(bz2.compress(body) if kind == "bz2" else body)
        dirs, files = ["%s/p%d" % (work, k) for k in range(len(places))], ["%d_YYYYMMMMDDDD" % k for k in range(len(places))]
        taken = []
        for d in asked:
            got = bf.get_background_filename(dirs, files, 2003, 6, d + 1)
            has = [k for k, days in enumerate(places) if days[d] in ("full", "bz2")]
            taken.append(has[:1])
            if has:
                expect(got is not None, "no file for day %d, which place %d has", d + 1, has[0])
                with open(got) as fh:
                    expect_eq(fh.read(), "%d %d" % (has[0], d), "what the file of day %d holds, of place %d" % (d + 1, has[0]))
            else:
                expect_eq(got, None, "file of day %d, which no place has" % (d + 1))
        there = ["%s/p%d" % (work, k) for k in range(len(places))]
        for d in asked:
            first = [k for k, days in enumerate(places) if days[d] in ("full", "empty")]
            expect_eq(bf.icoads_filename_from_stub(there, ["%d_YYYYMMMM%02d" % (k, d + 1) for k in range(len(places))], 2003, 6),
                      "%s/p%d/%d_200306%02d" % (work, first[0], first[0], d + 1) if first else None, "the first file there is")
        t.nt(len(set(map(str, taken))) > 1)
    finally:
        os.environ["SCRATCH"] = old
        shutil.rmtree(work)


def first_there(dirs, files, y, m, want):
    for a, b in zip(dirs, files):
        p = os.path.join(fill(a, y, m, 1), fill(b, y, m, 1))
        if want[p] != "none":
            return p
    return None


@law("C30", "icoads-file", name_cases, quick=300)
def _(case, t):
    work = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        root = os.path.join(work, "in")
        c2 = dict(case, d=1)
        want = tree(c2, root)
        dirs = [root + "/YYYY/" + s["dir"] for s in case["stubs"]]
        files = [s["file"] for s in case["stubs"]]
        y, m = case["y"], case["m"]
        first = first_there(dirs, files, y, m, want)
        t.nt(len(dirs) > 1)
        expect_eq(bf.icoads_filename_from_stub(dirs, files, y, m), first, "the first file there is")
        expect_eq(bf.icoads_filename_from_stub(dirs, files, None, m), None, "file of no year")
        expect_eq(bf.icoads_filename_from_stub(dirs, files, y, None), None, "file of no month")
        must_raise(lambda: bf.icoads_filename_from_stub(dirs + ["x"], files, y, m), "lists of different lengths")
        # what is there is looked for each time, and each list for itself
        expect_eq([bf.icoads_filename_from_stub(dirs[:i], files[:i], y, m) for i in range(1, len(dirs) + 1)],
                  [first_there(dirs[:i], files[:i], y, m, want) for i in range(1, len(dirs) + 1)], "the first file of shorter lists")
        back = dirs[::-1], files[::-1]
        expect_eq(bf.icoads_filename_from_stub(back[0], back[1], y, m), first_there(back[0], back[1], y, m, want), "the first, from behind")
        if first is not None:
            os.unlink(first)
            want[first] = "none"
            expect_eq(bf.icoads_filename_from_stub(dirs, files, y, m), first_there(dirs, files, y, m, want), "the first once it was removed")
        for a, b in zip(dirs, files):
            expect_eq(bf.make_filename(a, b, y, m, case["d"]), os.path.join(fill(a, y, m, case["d"]), fill(b, y, m, case["d"])),
                      "file name")
    finally:
        shutil.rmtree(work)


@law("C30", "icoads-versions", lambda: ([y, m, v] for y in range(1662, 2031) for m in (1, 9, 10, 12) for v in ("2.5", "3.0")),
     kind="enum")
def _(case, t):
    y, m, v = case
    t.nt(y in (2007, 2008, 2014, 2015))
    want = "/d/ICOADS.2.5.1/R2.5.1.%d.%02d.gz" if v == "2.5" else \
        "/d/ICOADS.3.0.0/IMMA1_R3.0.0_%d-%02d.gz" if y <= 2014 else "/d/ICOADS.3.0.1/IMMA1_R3.0.1_%d-%02d.gz"
    if v == "2.5" and 2008 <= y <= 2014:
        want = "/d/R2.5.2.%d.%02d.gz"
    expect_eq(bf.icoads_filename("/d", y, m, v), want % (y, m), "name")
    expect_eq(bf.icoads_filename("/elsewhere/x", y, m, v), want.replace("/d/", "/elsewhere/x/") % (y, m), "name in another directory")
    must_raise(lambda: bf.icoads_filename("/d", y, m, "2.6"), "version 2.6")


@law("C30", "directories", lambda: S().tuples(S().lists(S().sampled_from(["a", "b", "1999", "x y", "c"]), max_size=4),
                                            S().integers(1, 9999), S().integers(1, 12), S().integers(0, 4)).map(list), quick=200)
def _(case, t):
    subs, y, m, made = case
    work = tempfile.mkdtemp(dir=os.environ["VERIF_WORK"])
    try:
        t.nt(len(subs) > 1 and made > 0)
        want = [os.path.join(work, *subs[:i + 1]) for i in range(len(subs))]
        expect_eq(bf.build_completions(work, subs), want, "directories")
        for p in want[:made]:
            os.makedirs(p, exist_ok=True)
        if want and made:
            open(os.path.join(want[0], "kept"), "w").write("kept")
        got = bf.safe_make_dir_generic(work, subs)
        expect_eq(got, want[-1] if want else None, "directory made")
        for p in want:
            expect(os.path.isdir(p), "%r was not made", p)
        if want and made:
            expect_eq(open(os.path.join(want[0], "kept")).read(), "kept", "what was in the directory")
        expect_eq(bf.safe_make_dir_generic(work, subs), got, "directory made again")
        p = bf.safe_make_dir(work, y, m)
        expect_eq(p, os.path.join(work, str(y), "%02d" % m), "directory of a month")
        expect(os.path.isdir(p), "%r was not made", p)
        expect_eq(bf.safe_make_dir(work, y, m), p, "directory of a month again")
        # those of the tracking programs
        p = tracking.safe_make_tracking_dir(work, y, m)
        expect_eq(p, os.path.join(work, "TrackingQC", str(y), "%02d" % m), "directory of a month of tracking")
        expect(os.path.isdir(p), "%r was not made", p)
        e = tracking.safe_make_edge_dir(work, y, m, "new_edge_case", "198501-201412")
        expect_eq(e, os.path.join(p, "new_edge_case_198501-201412"), "directory of an edge case")
        expect(os.path.isdir(e), "%r was not made", e)
        open(os.path.join(e, "kept"), "w").write("kept")
        expect_eq(tracking.safe_make_edge_dir(work, y, m, "new_edge_case", "198501-201412"), e, "directory of an edge case again")
        expect_eq(tracking.safe_make_tracking_dir(work, y, m), p, "directory of a month of tracking again")
        expect_eq(open(os.path.join(e, "kept")).read(), "kept", "what was in the directory")
        expect_eq(os.path.normpath(wrapper.safe_dir(work, y, m)), os.path.join(work, str(y), "%02d" % m), "directory of a month, for the wrapper")
        f = os.path.join(work, "jobs")
        for _ in range(2):
            wrapper.safemake(f)
            expect(os.path.isdir(f), "%r was not made", f)
    finally:
        shutil.rmtree(work)


@law("C30", "safe-names", lambda: S().text(S().sampled_from("/*AZaz09 _.-\\?:"), max_size=12), quick=400)
def _(case, t):
    t.nt("/" in case or "*" in case)
    got = ex.safe_filename(case)
    expect_eq(got, "".join("_" if c in "/*" else c for c in case), "file name made of identifier %r" % case)


@law("C30", "bad-id-file", lambda: S().lists(S().one_of(
    S().text(alphabet="AB1 /*_", max_size=12), S().sampled_from(["", "   ", "ABCDEFGHI", "ABCDEFGHIJK", "A B"])), max_size=8),
     quick=300)
def _(case, t):
    path = os.path.join(os.environ["VERIF_WORK"], "ids")
    with open(path, "w") as fh:
        fh.write("".join(l + "\n" for l in case))
    t.nt(any(len(l.rstrip()) < 9 for l in case))
    want = [l.rstrip().ljust(9) for l in case if l.strip()]
    expect_eq(bf.process_bad_id_file(path), want, "identifiers read from %r" % case)
