"""C28 the IMMA reader and writer, C29 the other readers."""
import io
import os
from fractions import Fraction

import IMMA1
import NRT
import SimpleIMMA
import TestIMMA
from imma_layout import LAYOUT
from vlib import S, Violation, close, expect, expect_close, expect_eq, law, maybe, must_raise, prop

prop("C28", "records with the core and any attachments in any order, each field blank or filled to its width with any number, sign, base 36 "
            "digit or text; trailing blanks kept or dropped, lines cut anywhere, malformed lines in between; non-trivial = at least one "
            "attachment and one field set",
     ["layout as published for release 3.0 (attachments 2 to 4 as in earlier releases)", "attachments that share field names (2 and 5, 3 and 6, "
      "4 and 7) do not occur together"])
prop("C29", "lines of the three formats with any fields blank, signed or missing; non-trivial = some field missing or at an extreme")

B36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
TEXT = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -*/.,'abz"
ALIKE = {5: 2, 6: 3, 7: 4}


def mix(*ks):
    """a fixed pseudo-random number for each tuple of small integers"""
    h = 2166136261
    for k in ks:
        h = ((h ^ (k & 0xffffffff)) * 16777619 + 0x9e3779b9) & 0xffffffff
        h ^= h >> 15
        h = (h * 0x85ebca6b) & 0xffffffff
        h ^= h >> 13
    return h


def raw_value(seed, att, i, width, kind):
    """what a field holds: a number of units, a digit, or text with something in it"""
    h = mix(seed, att, i)
    if kind == "c":
        width = width or 1 + h % 40
        s = "".join(TEXT[mix(seed, att, i, k) % len(TEXT)] for k in range(width))
        s = s[:1 + h % width].ljust(width)      # left-justified
        if not s.strip():
            s = "X" + s[1:]
        return s
    if kind == "b":
        return h % 36
    hi = 10 ** width - 1
    lo = -(10 ** (width - 1) - 1) if width > 1 else 0
    return [lo, hi, 0, lo + h % (hi - lo + 1), lo + h // 7 % (hi - lo + 1), h % 10, -(h % 10) if width > 1 else h % 3][h // 11 % 7]


def put(v, width, kind, zeros=False):
    if v is None:
        return " " * (width or 0)
    if kind == "c":
        return v
    if kind == "b":
        return B36[v]
    if zeros:
        return "%0*d" % (width, v)
    return "%*d" % (width, v)


def tell(v, kind):
    """the value a user reads"""
    if v is None or kind == "c":
        return v
    if kind == "b":
        return v
    return v if kind == "0" else float(Fraction(v, 10 ** int(kind)))


def rec_cases():
    st = S()
    atts = st.lists(st.sampled_from([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 95, 96, 98, 98]), max_size=6, unique_by=lambda a: ALIKE.get(a, a))
    return st.fixed_dictionaries({
        "atts": atts, "supd": st.sampled_from([None, None, 0, 1]), "seed": st.integers(0, 10 ** 6), "full": st.sampled_from([0, 1, 1, 2, 3, 3]),
        "one": maybe(st.integers(0, 60), .8), "zeros": st.booleans()})


def contents(c, blank=False):
    """[(attachment, [raw value of each field])], and the pieces of the line"""
    parts, pieces = [], []
    for a in [0] + c["atts"] + ([99] if c["supd"] is not None else []):
        vals = []
        for i, (name, width, kind) in enumerate(LAYOUT[a]):
            on = mix(c["seed"], 77, a, i) % 3 < c["full"]
            if c["one"] is not None:
                on = i == c["one"] % len(LAYOUT[a])
            if width is None:
                on = True
            vals.append(raw_value(c["seed"], a, i, width, kind) if on else None)
        body = "".join(put(v, w, k, c["zeros"]) for v, (n, w, k) in zip(vals, LAYOUT[a]))
        if a == 0:
            head = ""
        elif a == 99:
            head = "99  " if c["supd"] == 1 and blank else "99 0"
        else:
            n = len(body) + 4
            head = "%2d%s" % (a, "%2d" % n if n < 100 else B36[n // 36] + B36[n % 36])
        parts.append((a, vals))
        pieces.append(head + body)
    return parts, pieces


def reader(line):
    r = IMMA1.IMMA()
    r.readstr(line)
    return r


def check_fields(r, parts, what):
    for a, vals in parts:
        for v, (name, width, kind) in zip(vals, LAYOUT[a]):
            expect(name in r.data, "%s of attachment %d not read %s" % (name, a, what))
            want, got = tell(v, kind), r.data[name]
            if width is None:
                expect_eq(got.rstrip() if got else got, want.rstrip(), "%s of attachment %d %s" % (name, a, what))
            elif want is None or isinstance(want, (str, int)):
                expect_eq(got, want, "%s of attachment %d %s" % (name, a, what))
            else:
                expect(got is not None and not isinstance(got, str) and close(float(got), want), "%s of attachment %d: got %r, expected %r %s" % (name, a, got, want, what))


@law("C28", "read", rec_cases, quick=4000)
def _(c, t):
    parts, pieces = contents(c, True)      # the length of supplementary data is 0 or blank
    line = "".join(pieces)
    t.nt(len(parts) > 1 and any(v is not None for a, vs in parts for v in vs))
    for a, _ in parts:
        t.hit("attachment %d" % a)
    for tail in ("", "\n"):
        r = reader(line + tail)
        check_fields(r, parts, "in %r" % line)
        expect_eq(list(r.attachments), [a for a, _ in parts], "attachments of %r" % line)
        names = set(n for a, _ in parts for n, w, k in LAYOUT[a])
        expect_eq(sorted(set(r.data) - names), [], "fields that are in no attachment of %r" % line)
    # a line whose blanks at the end were dropped is the same record
    if c["supd"] is None and line.rstrip() and len(line.rstrip()) > len("".join(pieces[:-1])) + (4 if len(pieces) > 1 else 0):
        check_fields(reader(line.rstrip() + "\n"), parts, "in %r cut at the last character" % line)


@law("C28", "write", rec_cases, quick=3000)
def _(c, t):
    c = dict(c, zeros=False)
    parts, pieces = contents(c)
    line = "".join(pieces)
    t.nt(len(parts) > 1 and any(v is not None for a, vs in parts for v in vs))
    r = reader(line)
    out = io.StringIO()
    r.write(out)
    expect_eq(out.getvalue(), line.rstrip() + "\n", "record written as it was read")
    # numbers told with leading zeros are written without
    other = "".join(contents(dict(c, zeros=True))[1])
    out = io.StringIO()
    reader(other).write(out)
    expect_eq(out.getvalue(), line.rstrip() + "\n", "record %r written" % other)
    # a record put together by hand
    r = IMMA1.IMMA()
    r.attachments = [a for a, _ in parts]
    for a, vals in parts:
        for v, (name, width, kind) in zip(vals, LAYOUT[a]):
            x = tell(v, kind)
            r[name] = x.rstrip() if kind == "c" and v is not None else x
    out = io.StringIO()
    r.write(out)
    expect_eq(out.getvalue(), line.rstrip() + "\n", "record of %r written" % parts)


@law("C28", "cut", lambda: S().tuples(rec_cases(), S().integers(0, 1000), S().sampled_from(["core", "any", "any"])).map(list), quick=3000)
def _(case, t):
    c, at, where = case
    parts, pieces = contents(c)
    line = "".join(pieces)
    at %= min(108, len(line)) if where == "core" else len(line)
    at = max(1, at)
    try:
        r = reader(line[:at])
    except Exception:
        # only a cut through a heading or a number may make a record unreadable
        start = 0
        ok = False
        for (a, vals), piece in zip(parts, pieces):
            pos = start + (4 if a else 0)
            if a and start < at < pos + 1:
                ok = True
            for v, (n, w, k) in zip(vals, LAYOUT[a]):
                w = w or len(v)
                if pos < at < pos + w and k not in "bc":
                    ok = True
                pos += w
            start += len(piece)
        expect(ok, "unreadable when cut after %d characters: %r" % (at, line))
        t.hit("refused")
        return
    start = 0
    t.nt()
    for (a, vals), piece in zip(parts, pieces):
        pos = start + (4 if a else 0)
        for v, (n, w, k) in zip(vals, LAYOUT[a]):
            if w is None:
                break
            got = r.data.get(n)
            want = tell(v, k)
            if pos + w <= at:
                expect(got == want or (isinstance(want, float) and got is not None and close(float(got), want)),
                       "%s: got %r, expected %r from %r cut after %d" % (n, got, want, line, at))
            elif pos >= at:
                expect_eq(got, None, "%s beyond the end of %r cut after %d" % (n, line, at))
            pos += w
        start += len(piece)


@law("C28", "error-attachment", lambda: S().tuples(rec_cases(), S().integers(0, 9999)).map(list), quick=60)
def _(case, t):
    """attachment 97 tells an erroneous value as wide as the field it was found in; here core field 35, SST"""
    c, v = case
    parts, pieces = contents(dict(c, supd=None))
    line = "".join(pieces) + "97240350%4dABCD201401011" % v
    t.nt()
    try:
        r = reader(line)
    except Exception as e:
        raise Violation("[attachment97] a record with an error attachment cannot be read: %s: %r" % (e, line))
    check_fields(r, parts, "in %r" % line)
    expect_eq((r["ARCE"], r["CDE"], r["ASIE"]), ("ABCD", 20140101, 1), "[attachment97] archive, date and indicator of the error attachment")


BAD = ["letters", "unknown", "blank", "short", "empty core", "none"]


@law("C28", "archive", lambda: S().lists(S().tuples(rec_cases(), S().sampled_from(BAD + ["none"] * 4)).map(list), min_size=1, max_size=6), quick=1000)
def _(case, t):
    """each record of a file is read as if it were alone in it"""
    lines = []
    for c, bad in case:
        parts, pieces = contents(c)
        line = "".join(pieces)
        if bad == "letters":
            line = line[:69] + "1X4" + line[72:]                  # in air temperature
        elif bad == "unknown":
            line = pieces[0] + "42 9ABCDE"
        elif bad == "blank":
            line = ""
        elif bad == "short":
            line = line[:40]
        elif bad == "empty core":
            line = " " * 108
        lines.append((line, bad, parts))
    t.nt(any(b != "none" for _, b, _ in lines))
    fh = io.StringIO("".join(l + "\n" for l, _, _ in lines))
    for k, (line, bad, parts) in enumerate(lines):
        r = IMMA1.IMMA()
        t.hit(bad)
        if bad in ("letters", "unknown"):
            must_raise(lambda: r.read(fh), "record with %s: %r" % (bad, line))
            continue
        try:
            done = r.read(fh)
        except Exception:
            expect(bad == "short", "record %d not read: %r" % (k, line))
            continue
        expect(done, "record %d taken for the end of the file" % k)
        if bad == "none":
            check_fields(r, parts, "in record %d, %r" % (k, line))
        elif bad == "blank":
            expect(all(v is None for v in r.data.values()), "an empty line gave values %r" % r.data)
        elif bad == "empty core":
            expect_eq(set(r.data.values()), {None}, "values of a blank record")
    r = IMMA1.IMMA()
    expect(not r.read(fh) and not r.data, "values read past the end of the file: %r" % r.data)
    fh.seek(0)
    if lines[0][1] == "none":
        check_fields(IMMA1.read(fh), lines[0][2], "in the first record")


# ------------------------------------------------------------------------------------------------ C29

SIMPLE = [("YR", 4, 0), ("MO", 2, 0), ("DY", 2, 0), ("HR", 4, 2), ("LAT", 5, 2), ("LON", 6, 2), ("DS", 1, 0), ("VS", 1, 0), ("ID", 9, "c"),
          ("AT", 4, 1), ("SST", 4, 1), ("DPT", 4, 1), ("DCK", 3, 0), ("SID", 3, 0), ("PT", 2, 0), ("UID", 6, "c")]


@law("C29", "simple", lambda: S().tuples(S().integers(0, 10 ** 6), S().sampled_from([0, 1, 2, 2, 3, 3, 3]), S().sampled_from([None, None, "X", ".", "-", "1 2"]), S().booleans(),
                                         S().integers(0, 59)).map(list), quick=3000)
def _(case, t):
    seed, full, junk, newline, cut = case
    line, want = "", {}
    for i, (name, w, k) in enumerate(SIMPLE):
        kind = k if k == "c" else str(k)
        v = raw_value(seed, 50, i, w, kind) if mix(seed, 78, i) % 3 < full else None
        s = put(v, w, kind)
        if v is None and kind == "c":
            v = " " * w
        if junk and kind != "c" and mix(seed, 79, i) % 4 == 0:
            v, s = None, junk * w
            if junk == "1 2":
                # digits with a gap, where there is room for one
                s = "1" + " " * (w - 2) + "2" if w > 2 else "+-"[:w]
        line += s
        want[name] = tell(v, kind)
    t.nt(full < 3 or junk)
    r = SimpleIMMA.IMMA()
    r.readstr(line + ("\n" if newline else ""))
    expect_eq(sorted(r.data), sorted(want), "fields read from %r" % line)
    for n in want:
        if isinstance(want[n], float):
            expect(r.data[n] is not None and close(r.data[n], want[n]), "%s: got %r, expected %r in %r" % (n, r.data[n], want[n], line))
        else:
            expect_eq(r.data[n], want[n], "%s in %r" % (n, line))
    # what lies wholly beyond the end of a short line is missing, what lies before it is as told
    r = SimpleIMMA.IMMA()
    r.readstr(line[:cut] + ("\n" if newline else ""))
    pos = 0
    for name, w, k in SIMPLE:
        if pos + w <= cut:
            expect(r.data[name] == want[name] or close(r.data[name], want[name]), "%s of a line cut at %d: %r" % (name, cut, r.data[name]))
        elif pos >= cut:
            expect(r.data[name] in (None, ""), "%s beyond the end of a line cut at %d: %r" % (name, cut, r.data[name]))
        pos += w


@law("C29", "near-real-time", lambda: S().lists(S().tuples(
    S().text("ABC0123456789_-", min_size=1, max_size=9), S().integers(1950, 2035), S().integers(1, 12), S().integers(1, 28), S().integers(0, 1439),
    S().one_of(S().integers(-9000, 9000), S().integers(-20100, 20100), S().sampled_from([20000, 20001, 9999999])), S().one_of(S().integers(-18000, 36000), S().integers(-40100, 40100), S().sampled_from([40000, 40001, 9999999])),
    S().one_of(S().none(), S().integers(-300, 4500)), S().sampled_from(["T", " "]), S().sampled_from(["", "Z", ":00", ":00Z"]), S().booleans()).map(list),
    min_size=1, max_size=3), quick=2500)
def _(case, t):
    for ident, y, m, d, minute, la, lo, sst, sep, tail, newline in case:
        iso = "%04d-%02d-%02d%s%02d:%02d%s" % (y, m, d, sep, minute // 60, minute % 60, tail)
        line = "%s,x,%s,%s,%s,%s" % (ident, iso, la / 100., lo / 100., "nan" if sst is None else repr(sst / 100.))
        r = NRT.NRT()
        r.readstr(line + ("\n" if newline else ""))
        t.nt(sst is None or la > 9000 or lo > 36000 or tail)
        want = {"UID": "NRT" + ident + iso, "ID": ident, "YR": y, "MO": m, "DY": d, "SST": None if sst is None else sst / 100., "AT": None, "DPT": None,
                "SIM": None, "DS": None, "VS": None, "C1": None, "SI": None, "DCK": 9999, "SID": 9999, "PT": 7,
                "LAT": min(la / 100., 200.), "LON": min(lo / 100., 400.)}
        for n in want:
            expect_eq(r.data[n], want[n], "%s in %r" % (n, line))
        expect_close(r.data["HR"], minute / 60., "HR in %r" % line)


@law("C29", "test", lambda: S().lists(S().tuples(S().text("ABC0123456789 ", max_size=9), S().integers(-9000, 9000), S().integers(-18000, 36000), S().integers(1850, 2020),
                                                 S().integers(1, 12), S().integers(1, 31), S().one_of(S().none(), S().integers(0, 2399)),
                                                 S().one_of(S().none(), S().integers(-300, 4000)), S().booleans()).map(list), min_size=1, max_size=3), quick=1500)
def _(case, t):
    for ident, la, lo, y, m, d, hr, sst, point in case:
        num = (lambda x: "%.1f" % x) if point else str
        cols = [ident, "U" + ident, str(la / 100.), str(lo / 100.), num(y), num(m), num(d), "-32768." if hr is None else str(hr / 100.), "a", "b", "c",
                "-32768." if sst is None else str(sst / 100.)]
        r = TestIMMA.IMMA()
        r.readstr(cols)
        t.nt(hr is None or sst is None or point)
        want = {"ID": ident, "UID": "U" + ident, "LAT": la / 100., "LON": lo / 100., "YR": y, "MO": m, "DY": d, "HR": None if hr is None else hr / 100.,
                "SST": None if sst is None else sst / 100., "DCK": 999}
        for n in want:
            expect_eq(r.data[n], want[n], "%s in %r" % (n, cols))
