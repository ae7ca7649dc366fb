"""C23: ISO 8601 formatting and parsing of times are inverse (epsilon/extime.py)."""
import datetime
from pyded.api import contract, search
from epsilon import extime
from contracts import times as T

Time = extime.Time
HOUR = datetime.timedelta(hours=1)
MINUTE = datetime.timedelta(minutes=1)
SECOND = datetime.timedelta(seconds=1)
MAXDAYS = T.DAYS


def aligned(h, unit):
    """any clock reading that is a whole number of the unit"""
    if unit == 'year':
        return datetime.datetime(h.int('year', 1, 9999), 1, 1)
    if unit == 'month':
        return datetime.datetime(h.int('year', 1, 9999), h.int('month', 1, 12), 1)
    if unit == 'microsecond':
        return T.naive(h, 'reading')
    d = T.near(h, 'day', 0, T.DAYS - 1, T._MARKS)
    if unit == 'day':
        return T.FIRST + datetime.timedelta(days=d)
    n = {'hour': 24, 'minute': 1440, 'second': 86400}[unit]
    k = T.near(h, unit + ' of the day', 0, n - 1, [0, n - 1, n // 2])
    return T.FIRST + datetime.timedelta(days=d, seconds=k * (86400 // n))


def round_trip(h, unit, r):
    local = aligned(h, unit)
    if r < T.DAY:
        tz, off = T.maybe_zone(h, 'timezone')
    else:
        # the timezone is insignificant
        tz, off = T.maybe_zone(h, 'timezone')[0], datetime.timedelta(0)
    h.assume(T.inrange(h, T.us(local) - T.us(off)))
    a = local - off
    t = Time.fromDatetime(a)
    t.resolution = r
    delims = h.choice('delimiters', 2) == 1
    withtz = h.choice('timezone in the text', 2) == 1
    o = h.call(t.asISO8601TimeAndDate, delims, tz, withtz)
    h.ensure('the time is formatted', h.And(o.ok, isinstance(o.value, str)), o)
    text = o.value
    if withtz:
        # the default timezone is overridden
        default = T.zone(h, 'default timezone')[0] if (delims if h.sym else h.choice('default', 2)) else None
    else:
        default = tz
    o = h.call(Time.fromISO8601TimeAndDate, text, default)
    h.ensure('the text is parsed', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('the instant comes back', h.eq(T.utc(h, o.value), a), (text, o))
    h.ensure('an equal time comes back', o.value == t)
    h.ensure('the time itself is not changed', h.And(h.eq(T.utc(h, t), a), h.eq(t.resolution, r)))


@contract('C23', 'round trip of days, months and years')
def c_round_day(h):
    round_trip(h, *h.choice('resolution', T.RES[4:]))


@contract('C23', 'round trip of hours, minutes and seconds')
def c_round_hour(h):
    round_trip(h, *h.choice('resolution', T.RES[1:4]))


@contract('C23', 'round trip of microseconds')
def c_round_microsecond(h):
    unit, r = T.RES[0]
    if not h.sym or h.thorough:
        r = h.choice('resolution', [r, datetime.timedelta(0)])
    round_trip(h, unit, r)


# ------------------------------------------------------------------- parsing
def number(h, name, width):
    """a decimal number of `width` digits, and its text"""
    n = h.int(name, 0, 10 ** width - 1)
    return n, '%0*i' % (width, n) if not h.sym else ('%%0%ii' % width) % (n,)


def field(h, name, width, lo, hi):
    """like number, but usually (in a search) within lo..hi"""
    if not h.sym and h.rng.random() < 0.9:
        n = h.int(name, lo, hi)
        return n, ('%%0%ii' % width) % (n,)
    return number(h, name, width)


def clock(h, sep, shapes):
    """a time of day: text, (hour, minute, second, microsecond), resolution"""
    shape = h.choice('time', shapes)
    if shape == 0:
        return '', (0, 0, 0, 0), None
    hh, text = field(h, 'hour', 2, 0, 23)
    text = 'T' + text
    mi = s = u = 0
    res = HOUR
    if shape >= 2:
        mi, x = field(h, 'minute', 2, 0, 59)
        text = text + sep + x
        res = MINUTE
    if shape >= 3:
        s, x = field(h, 'second', 2, 0, 59)
        text = text + sep + x
        res = SECOND
    if shape >= 4:
        k = shape - 3
        f, x = number(h, 'fraction', k)
        text = text + h.choice('point', ['.', ',']) + x
        u = f * 10 ** (6 - k)
        res = T.ONE * 10 ** (6 - k)
    return text, (hh, mi, s, u), res


def suffix(h, sep, shapes):
    """a timezone: text, offset in minutes or None"""
    shape = h.choice('suffix', shapes)
    if shape == '':
        return '', None
    if shape == 'Z':
        return 'Z', 0
    sign = h.choice('sign', ['+', '-'])
    hh, text = field(h, 'timezone hour', 2, 0, 23)
    m = 0
    if shape == 'hm':
        m, x = field(h, 'timezone minute', 2, 0, 59)
        h.assume(m <= 59)
        text = text + sep + x
    off = hh * 60 + m
    return sign + text, off if sign == '+' else -off


def judge(h, text, day, cl, off, default, defoff, res, valid=None):
    """parsing `text` gives day (None if there is none) at time cl in the timezone"""
    hh, mi, s, u = cl
    ok = h.And(day is not None, hh <= 23, mi <= 59, s <= 59)
    if off is not None:
        ok = h.And(ok, off > -1440, off < 1440)
    if valid is not None:
        h.assume(ok if valid else h.Not(ok))
    o = h.call(Time.fromISO8601TimeAndDate, text, default)
    if not bool(ok):
        h.ensure('parts out of range are a ValueError', o.raised(ValueError), o)
        return
    at = day + datetime.timedelta(hours=hh, minutes=mi, seconds=s, microseconds=u)
    off = defoff if off is None else datetime.timedelta(minutes=off)
    if not bool(T.inrange(h, T.us(at) - T.us(off))):
        return          # not an instant that can be represented
    h.ensure('a valid text is parsed', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('it denotes the instant its offset implies', h.eq(T.utc(h, o.value), at - off), (text, o))
    if res is not None:
        h.ensure('with the resolution of its last part', h.eq(o.value.resolution, res))


def date_of(h, y, m, d):
    """the day, or None if there is no such day"""
    o = h.call(datetime.datetime, y, m, d)
    return o.value if o.ok else None


def default_zone(h):
    tz, off = T.maybe_zone(h, 'default timezone')
    return tz, off


ALLTIMES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]


@contract('C23', 'calendar dates')
def c_calendar(h):
    tz, defoff = default_zone(h)
    sep, dsep = h.choice('separators', [(':', '-'), ('', '')])
    y, ty = field(h, 'year', 4, 1, 9999)
    m, tm = field(h, 'month', 2, 1, 12)
    d, td = field(h, 'day', 2, 1, 31)
    text, cl, res = clock(h, sep, ALLTIMES if not h.sym or h.thorough else [0, 1, 2, 3, 6, 9])
    zt, off = suffix(h, sep, ['', 'Z', 'h', 'hm']) if text else ('', 0)
    valid = True if h.sym else None
    h.assume(h.Or(valid is None, h.And(y >= 1, m >= 1, m <= 12, d >= 1)))
    judge(h, ty + dsep + tm + dsep + td + text + zt, date_of(h, y, m, d), cl, off, tz, defoff, res or T.DAY, valid)


@contract('C23', 'calendar dates out of range')
def c_calendar_bad(h):
    y, ty = number(h, 'year', 4)
    m, tm = number(h, 'month', 2)
    d, td = number(h, 'day', 2)
    text, cl, res = clock(h, ':', [0, 3])
    zt, off = suffix(h, ':', ['hm']) if text else ('', 0)
    tz = T.zone(h, 'default timezone')[0] if not text else None
    judge(h, ty + '-' + tm + '-' + td + text + zt, date_of(h, y, m, d), cl, off, tz, datetime.timedelta(0), res or T.DAY, False)


@contract('C23', 'months and years')
def c_month(h):
    tz, _ = default_zone(h)
    y, ty = field(h, 'year', 4, 1, 9999)
    if h.choice('month', 2):
        m, tm = field(h, 'month', 2, 1, 12)
        first = date_of(h, y, m, 1)
        text = ty + h.choice('separator', ['-', '']) + tm
        res = None
        if first is not None:
            lens = [31, 29 if bool(leap(h, y)) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
            res = datetime.timedelta(days=lens[m - 1])
    else:
        first = date_of(h, y, 1, 1)
        text = ty
        res = None
        if first is not None:
            res = datetime.timedelta(days=366 if bool(leap(h, y)) else 365)
    judge(h, text, first, (0, 0, 0, 0), 0, tz, 0, res)


def leap(h, y):
    return h.And(y % 4 == 0, h.Or(y % 100 != 0, y % 400 == 0))


@contract('C23', 'ordinal dates')
def c_ordinal(h):
    tz, defoff = default_zone(h)
    sep, dsep = h.choice('separators', [(':', '-'), ('', '')])
    y, ty = field(h, 'year', 4, 1, 9999)
    n, tn = field(h, 'day of the year', 3, 1, 366)
    text, cl, res = clock(h, sep, ALLTIMES if not h.sym or h.thorough else [0, 3])
    zt, off = suffix(h, sep, ['', 'Z', 'h', 'hm'] if not h.sym or h.thorough else ['', 'hm']) if text else ('', 0)
    first = date_of(h, y, 1, 1)
    day = None
    if first is not None and bool(h.And(n >= 1, n <= h.Ite(leap(h, y), 366, 365))):
        day = first + datetime.timedelta(days=n - 1)
    judge(h, ty + dsep + tn + text + zt, day, cl, off, tz, defoff, res or T.DAY)


@contract('C23', 'week dates')
def c_week(h):
    tz, defoff = default_zone(h)
    sep, dsep = h.choice('separators', [(':', '-'), ('', '')])
    y, ty = field(h, 'year', 4, 1, 9999)
    w, tw = field(h, 'week', 2, 1, 53)
    base = T.DAY * 7
    wd = 1
    text = ty + dsep + 'W' + tw
    cl, off = (0, 0, 0, 0), 0
    res = None
    if h.choice('weekday', 2):
        wd, x = field(h, 'day of the week', 1, 1, 7)
        text = text + dsep + x
        base = T.DAY
        x, cl, res = clock(h, sep, ALLTIMES if not h.sym or h.thorough else [0, 3])
        zt, off = suffix(h, sep, ['', 'Z', 'h', 'hm'] if not h.sym or h.thorough else ['', 'hm']) if x else ('', 0)
        text = text + x + zt
    jan4 = date_of(h, y, 1, 4)
    day = None
    if jan4 is not None and bool(h.And(w >= 1, w <= 53, wd >= 1, wd <= 7)):
        # 4 January is in week 1; a week belongs to the year its Thursday is in
        monday = jan4.weekday()
        if bool(h.Or(w <= 52, monday == 6, h.And(monday == 5, leap(h, y)))):
            n = (w - 1) * 7 + wd - 1 - monday
            if not bool(T.inrange(h, T.us(jan4) + n * 86400 * 10 ** 6)):
                return
            day = jan4 + datetime.timedelta(days=n)
    judge(h, text, day, cl, off, tz, defoff, res or base)


@contract('C23', 'anything else')
def c_junk(h):
    tz, off = T.maybe_zone(h, 'default timezone')
    text = h.choice('text', ['', '20', '20050', '2005-1', '2005-W1', '2005-13-1', 'x', '2005-01-01T', '2005-01-01T1', '2005-01-01T10:3',
                             '2005-01-01Z', '2005-01T10', '2005-01-01T10:30:20.', '2005-01-01T10+5', '2005-01-01 10:30',
                             ' 2005', '2005 ', '2005-W01T10', '-2005', '2005-01-01T10:30:20.5+', '2005--01', '2005-01-01T10:30z'])
    o = h.call(Time.fromISO8601TimeAndDate, text, tz)
    h.ensure('what is no ISO 8601 text is a ValueError', o.raised(ValueError), o)
