"""Arbitrary instants, intervals and timezones for the contracts on epsilon/extime.py.

An instant is a day number, a second of the day and a microsecond; both modes
of a contract (proof and concrete evaluation) use the same construction."""
import datetime
from epsilon import extime

FIRST = datetime.datetime.min
DAYS = datetime.date.max.toordinal()       # 0001-01-01 .. 9999-12-31
ONE = datetime.timedelta(microseconds=1)
DAY = datetime.timedelta(days=1)
EPOCH_DAY = datetime.date(1970, 1, 1).toordinal() - 1
RES = [('microsecond', datetime.timedelta(microseconds=1)), ('second', datetime.timedelta(seconds=1)),
       ('minute', datetime.timedelta(minutes=1)), ('hour', datetime.timedelta(hours=1)),
       ('day', datetime.timedelta(days=1)), ('month', datetime.timedelta(days=31)),
       ('year', datetime.timedelta(days=366))]


def near(h, name, lo, hi, marks):
    """an integer; when it is drawn at random, often near a mark"""
    if not h.sym and h.rng.random() < 0.4:
        m = h.rng.choice(marks)
        return h.int(name, max(lo, m - 1), min(hi, m + 1)) if lo <= m <= hi else h.int(name, lo, hi)
    return h.int(name, lo, hi)


_MARKS = [datetime.date(y, m, d).toordinal() - 1 for y in (1, 4, 1900, 1970, 1999, 2000, 2004, 2005, 2100, 9999)
          for m, d in ((1, 1), (2, 28), (3, 1), (12, 31))]


def naive(h, name, lo=0, hi=DAYS - 1):
    """any naive datetime, days lo..hi"""
    d = near(h, name + ': day', lo, hi, _MARKS)
    s = near(h, name + ': second of the day', 0, 86399, [0, 3600, 43200, 86399])
    u = near(h, name + ': microsecond', 0, 999999, [0, 100000, 999999])
    return FIRST + datetime.timedelta(days=d, seconds=s, microseconds=u)


def interval(h, name, days=DAYS):
    """any interval up to `days` days either way"""
    d = near(h, name + ': days', -days, days, [0, 1, -1])
    s = near(h, name + ': seconds', 0, 86399, [0])
    u = near(h, name + ': microseconds', 0, 999999, [0])
    return datetime.timedelta(days=d, seconds=s, microseconds=u)


def span(h, name, days=400):
    """any length of a period"""
    d = near(h, name + ': days', 0, days, [0, 1, 7, 31])
    s = near(h, name + ': seconds', 0, 86399, [0])
    u = near(h, name + ': microseconds', 0, 999999, [0])
    return datetime.timedelta(days=d, seconds=s, microseconds=u)


def zone(h, name):
    """any fixed timezone of whole minutes; its offset"""
    hours = h.int(name + ': hours', -24, 24)
    minutes = h.int(name + ': minutes', -1500, 1500)
    m = hours * 60 + minutes
    h.assume(h.And(m > -1440, m < 1440))
    tz = h.call(extime.FixedOffset, hours, minutes)
    h.ensure('a timezone can be made', tz.ok, tz)
    return tz.value, datetime.timedelta(minutes=m)


def maybe_zone(h, name):
    if h.choice(name + ': given', 2):
        return zone(h, name)
    return None, datetime.timedelta(0)


def time(h, name, resolution=None, **k):
    """any Time: the instant it starts at (naive UTC), itself"""
    n = naive(h, name, **k)
    o = h.call(extime.Time.fromDatetime, n)
    h.ensure('a naive datetime is taken as UTC', h.And(o.ok, isinstance(o.value, extime.Time)), o)
    t = o.value
    if resolution is not None:
        t.resolution = resolution
    return n, t


def utc(h, t):
    """the instant a Time starts at, observed through its interface"""
    r, t.resolution = t.resolution, ONE
    o = h.call(t.asNaiveDatetime)
    t.resolution = r
    h.ensure('the instant can be read', o.ok, o)
    return o.value


def inrange(h, us):
    """is this number of microseconds since 0001-01-01 a representable instant?"""
    return h.And(us >= 0, us < DAYS * 86400 * 10 ** 6)


def us(d):
    """microseconds of an interval or of a naive datetime"""
    if isinstance(d, datetime.datetime):
        d = d - FIRST
    return d // ONE
