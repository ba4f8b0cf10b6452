"""Reference pieces shared by the laws: written from the documented behaviour, sharing no code with /repo."""
import calendar
import math
from datetime import date, datetime, timedelta
from fractions import Fraction

R = 6371.0088
KNOT = 0.539957


# ---------------------------------------------------------------------------------------- grids
def row(lat, res=1):
    """row from the north; a border belongs to the cell south of it (the south pole to the last row)"""
    n = int(180 / Fraction(res))
    return min(int((90 - Fraction(lat)) / Fraction(res)), n - 1)


def col(lon, res=1):
    """column from 180 W; a border belongs to the cell east of it"""
    return int(((Fraction(lon) + 180) % 360) / Fraction(res))


def mds_row(lat, res=1):
    n = int(180 / Fraction(res))
    band = min(int(abs(Fraction(lat)) / Fraction(res)), n // 2 - 1)
    return n // 2 - 1 - band if lat > 0 else n // 2 + band


def mds_col(lon, res=1):
    n = int(360 / Fraction(res))
    band = min(int(abs(Fraction(lon)) / Fraction(res)), n // 2 - 1)
    return n // 2 + band if lon > 0 else n // 2 - 1 - band


def day_of_year(mo, dy):
    """of a year without 29 February, which counts as 1 March"""
    if (mo, dy) == (2, 29):
        mo, dy = 3, 1
    return (date(2003, mo, dy) - date(2003, 1, 1)).days + 1


def pentad(mo, dy):
    return (day_of_year(mo, dy) + 4) // 5


def real_day(mo, dy):
    """a day of some year"""
    return mo is not None and dy is not None and 1 <= mo <= 12 and 1 <= dy <= calendar.monthrange(2004, mo)[1]


# ---------------------------------------------------------------------------------------- sphere
def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def _norm(x):
    return math.sqrt(sum(k * k for k in x))


def _cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def _dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def km(lat1, lon1, lat2, lon2):
    u, v = vec(lat1, lon1), vec(lat2, lon2)
    return math.atan2(_norm(_cross(u, v)), _dot(u, v)) * R


def course(lat1, lon1, lat2, lon2):
    """degrees clockwise from north, 0 <= course < 360; None where it has no meaning"""
    u, v = vec(lat1, lon1), vec(lat2, lon2)
    la, lo = math.radians(lat1), math.radians(lon1)
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    east = (-math.sin(lo), math.cos(lo), 0.)
    a, b = _dot(v, east), _dot(v, north)
    if math.hypot(a, b) < 1e-9:
        return None
    return math.degrees(math.atan2(a, b)) % 360.


def onward(lat, lon, tc, dist):
    """the point reached along a great circle, by vectors; longitude in -180..180"""
    u = vec(lat, lon)
    la, lo, a, d = math.radians(lat), math.radians(lon), math.radians(tc), dist / R
    north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    east = (-math.sin(lo), math.cos(lo), 0.)
    w = [u[i] * math.cos(d) + (north[i] * math.cos(a) + east[i] * math.sin(a)) * math.sin(d) for i in range(3)]
    return math.degrees(math.atan2(w[2], math.hypot(w[0], w[1]))), math.degrees(math.atan2(w[1], w[0]))


def between(lat1, lon1, lat2, lon2, f):
    u, v = vec(lat1, lon1), vec(lat2, lon2)
    d = math.atan2(_norm(_cross(u, v)), _dot(u, v))
    if d == 0:
        return lat1, lon1
    a, b = math.sin((1 - f) * d) / math.sin(d), math.sin(f * d) / math.sin(d)
    w = [a * u[i] + b * v[i] for i in range(3)]
    return math.degrees(math.atan2(w[2], math.hypot(w[0], w[1]))), math.degrees(math.atan2(w[1], w[0]))


# ---------------------------------------------------------------------------------------- reports
class Record(object):
    def __init__(self, data):
        self.data = data


def make(cls, **data):
    return cls(Record(data))


def moment(rec):
    """the date and time of a report, or None"""
    try:
        return datetime(int(rec["YR"]), int(rec["MO"]), int(rec["DY"])) + timedelta(hours=rec["HR"])
    except (TypeError, ValueError, KeyError):
        return None


def hours(rec):
    """exact hours since year 1, or None"""
    try:
        return (date(int(rec["YR"]), int(rec["MO"]), int(rec["DY"])).toordinal() * 24 + rec["HR"])
    except (TypeError, ValueError, KeyError):
        return None


def winsorised(xs):
    """the mean with the lower and upper quarters pulled in to the quartiles"""
    ys = sorted(xs)
    n = len(ys)
    q = n // 4
    ys = [ys[q]] * q + ys[q:n - q] + [ys[n - 1 - q]] * q
    return math.fsum(ys) / n
