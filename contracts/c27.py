"""C27: RFC 2822 dates (epsilon/extime.py)."""
import datetime
from pyded.api import contract, search
from epsilon import extime
from contracts import times as T

Time = extime.Time
SECOND = datetime.timedelta(seconds=1)
WEEKDAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
Y1000 = datetime.datetime(1000, 1, 1)
LO = (Y1000 - T.FIRST).days


def which(h, names, k):
    """names[k], one path each"""
    for i in range(len(names) - 1):
        if k == i:
            return names[i]
    return names[-1]


def sign(h, off):
    """an offset as RFC 2822 writes it"""
    m = T.us(off) // (60 * 10 ** 6)
    if m < 0:
        return '-%02i%02i' % (-m // 60, -m % 60)
    return '+%02i%02i' % (m // 60, m % 60)


def shown(h, local, off, weekday):
    """the text for a clock reading"""
    text = '%i %s %i %02i:%02i:%02i ' % (local.day, which(h, MONTHS, local.month - 1), local.year, local.hour, local.minute, local.second)
    text = text + ('-0000' if off is None else sign(h, off))
    if weekday:
        text = which(h, WEEKDAYS, local.weekday()) + ', ' + text
    return text


def round_trip(h, weekday, given):
    local = T.naive(h, 'reading', lo=LO)
    h.assume(local.year >= 1000)
    r = T.span(h, 'resolution', 0)          # finer than a day
    if given:
        tz, off = T.zone(h, 'timezone')
    else:
        tz, off = None, None
    a = local
    if given:
        h.assume(T.inrange(h, T.us(local) - T.us(off)))
        a = local - off
    t = Time.fromDatetime(a)
    t.resolution = r
    o = h.call(t.asRFC2822, tz, weekday)
    h.ensure('a text', h.And(o.ok, isinstance(o.value, str)), o)
    text = o.value
    h.ensure('shows the reading, the month, the weekday and the offset', h.eq(text, shown(h, local, off, weekday)), text)
    o = h.call(Time.fromRFC2822, text)
    h.ensure('can be read back', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('the same second comes back', h.eq(T.utc(h, o.value), a.replace(microsecond=0)), (text, o))
    h.ensure('with a resolution of a second', h.eq(o.value.resolution, SECOND))
    h.ensure('the time itself is not changed', h.And(h.eq(T.utc(h, t), a), h.eq(t.resolution, r)))


@contract('C27', 'round trip, with the weekday')
def c_round(h):
    round_trip(h, True, True)


@contract('C27', 'round trip, without the weekday')
def c_round_plain(h):
    round_trip(h, False, True)


@contract('C27', 'round trip, no timezone')
def c_round_utc(h):
    round_trip(h, h.choice('weekday', 2) == 1, False)


@contract('C27', 'whole days')
def c_day(h):
    r = T.span(h, 'resolution')
    h.assume(r >= T.DAY)
    a = T.naive(h, 'a', lo=LO)
    h.assume(a.year >= 1000)
    t = Time.fromDatetime(a)
    t.resolution = r
    tz, off = T.zone(h, 'timezone')
    o = h.call(t.asRFC2822, tz, False)
    h.ensure('a text', h.And(o.ok, isinstance(o.value, str)), o)
    h.ensure('shows the same reading in every timezone', h.eq(o.value, shown(h, a, off, False)), o.value)


LIMITS = [(1, 9999), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59)]


@contract('C27', 'invalid fields are clamped')
def c_clamp(h):
    n = h.choice('extra fields', 5)
    st = tuple(T.near(h, 'field %d' % i, -(1 << 40), 1 << 40, [0, 1, 12, 23, 31, 59, 60, 9999]) if not h.sym else h.int('field %d' % i)
               for i in range(6)) + tuple(h.any('extra %d' % i) for i in range(n))
    o = h.call(extime.sanitizeStructTime, st)
    h.ensure('a tuple of the same length', h.And(o.ok, isinstance(o.value, tuple), len(o.value or ()) == len(st)), o)
    for x, y, (lo, hi) in zip(st, o.value, LIMITS):
        h.ensure('within the range of the field', h.And(y >= lo, y <= hi))
        h.ensure('unchanged if it is valid', h.Implies(h.And(x >= lo, x <= hi), y == x))
        h.ensure('the nearest valid value if it is not', h.And(h.Implies(x < lo, y == lo), h.Implies(x > hi, y == hi)))
    for x, y in zip(st[6:], o.value[6:]):
        h.ensure('nothing else changes', h.same(x, y))


@contract('C27', 'fields of a text are clamped')
def c_clamped(h):
    def field(name, width, lo, hi):
        n = T.near(h, name, 0, 10 ** width - 1, [lo, hi])
        return n, h.Ite(n < lo, lo, h.Ite(n > hi, hi, n)), ('%%0%ii' % width) % (n,)
    y, cy, ty = field('year', 4, 100, 9999)
    h.assume(y >= 100)
    d, cd, td = field('day', 2, 1, 31)
    hh, ch, th = field('hour', 2, 0, 23)
    mi, cm, tm = field('minute', 2, 0, 59)
    s, cs, ts = field('second', 2, 0, 59)
    m = h.choice('month', 12) if not h.sym or h.thorough else h.choice('month', [0, 1, 10])
    oh, om = h.int('offset hours', 0, 23), h.int('offset minutes', 0, 59)
    west = h.choice('west', 2)
    off = oh * 60 + om
    text = td + ' ' + MONTHS[m] + ' ' + ty + ' ' + th + ':' + tm + ':' + ts + ' ' + '+-'[west] + '%02i%02i' % (oh, om)
    if h.choice('weekday', 2):
        text = WEEKDAYS[h.choice('named weekday', 7) if not h.sym else 0] + ', ' + text
    o = h.call(Time.fromRFC2822, text)
    day = h.call(datetime.datetime, cy, m + 1, cd, ch, cm, cs)
    if not day.ok:
        h.ensure('a day the month does not have is a ValueError', o.raised(ValueError), o)
        return
    want = T.us(day.value) - (-off if west else off) * 60 * 10 ** 6
    if not bool(T.inrange(h, want)):
        return
    h.ensure('can be read', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('it denotes the instant its clamped fields and its offset imply', T.us(T.utc(h, o.value)) == want, (text, o))


@contract('C27', 'what is no date')
def c_junk(h):
    text = h.choice('text', ['', ' ', 'x', 'tomorrow', 'Thu', 'Thu, ', '1 Jan', '1 Jan 2004', '1 Foo 2004 00:00:00 +0000', '2004-01-01T00:00:00Z',
                             'a b c d e', '1 Jan 2004 x +0000', '1 Jan 2004 00 +0000', '1 Jan 2004 1:2:3:4 +0000', 'x Jan 2004 00:00:00 +0000',
                             '31 Feb 2004 00:00:00 +0000', '30 Feb 2004 00:00:00 -0000'])
    o = h.call(Time.fromRFC2822, text)
    h.ensure('what is no date is a ValueError', o.raised(ValueError), o)
