"""C24: Time converts to and from datetime, timestamp and struct without drift (epsilon/extime.py)."""
import datetime
from pyded.api import contract, search
from epsilon import extime
from contracts import times as T

Time = extime.Time
EPOCH = datetime.datetime(1970, 1, 1)
# a float holds microseconds exactly enough between these days (years 1700 to 2200)
LO = datetime.date(1700, 1, 1).toordinal()
HI = datetime.date(2200, 1, 1).toordinal()


def at(h, name, **k):
    """any time of a resolution finer than a day"""
    r = T.span(h, name + ': resolution', 1)
    h.assume(r < T.DAY)
    return T.time(h, name, r, **k)


def fields(d):
    return (d.year, d.month, d.day, d.hour, d.minute, d.second)


@contract('C24', 'aware datetimes')
def c_aware(h):
    a, t = at(h, 'a')
    tz, off = T.maybe_zone(h, 'timezone')
    h.assume(T.inrange(h, T.us(a) + T.us(off)))
    o = h.call(t.asDatetime, tz)
    h.ensure('a datetime', h.And(o.ok, isinstance(o.value, datetime.datetime)), o)
    d = o.value
    h.ensure('aware', d.tzinfo is not None)
    if tz is not None:
        h.ensure('of the timezone asked for', d.tzinfo is tz)
    h.ensure('at its offset', h.eq(d.utcoffset(), off))
    h.ensure('the same instant, on the clock of the timezone', h.eq(d.replace(tzinfo=None), a + off))
    o = h.call(Time.fromDatetime, d)
    h.ensure('back to a time', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('an equal time', o.value == t)
    h.ensure('the same instant', h.eq(T.utc(h, o.value), a))
    h.ensure('the time itself is not changed', h.eq(T.utc(h, t), a))
    o = h.call(t.asNaiveDatetime, tz)
    h.ensure('a naive datetime', h.And(o.ok, isinstance(o.value, datetime.datetime)), o)
    n = o.value
    h.ensure('naive', n.tzinfo is None)
    h.ensure('on the clock of the timezone', h.eq(n, a + off))
    if tz is not None:
        o = h.call(Time.fromDatetime, n.replace(tzinfo=tz))
    else:
        o = h.call(Time.fromDatetime, n)
    h.ensure('back to an equal time', h.And(o.ok, o.ok and o.value == t), o)


@contract('C24', 'any aware datetime')
def c_from(h):
    a = T.naive(h, 'a')
    tz, off = T.zone(h, 'timezone')
    h.assume(T.inrange(h, T.us(a) - T.us(off)))
    o = h.call(Time.fromDatetime, a.replace(tzinfo=tz))
    h.ensure('an aware datetime is a time', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('the instant it denotes', h.eq(T.utc(h, o.value), a - off))
    h.ensure('of the finest resolution', h.eq(o.value.resolution, T.ONE))


@contract('C24', 'whole days ignore the timezone')
def c_day(h):
    r = T.span(h, 'resolution')
    h.assume(r >= T.DAY)
    a, t = T.time(h, 'a', r)
    tz, off = T.maybe_zone(h, 'timezone')
    o = h.call(t.asDatetime, tz)
    h.ensure('a datetime of a day', o.ok, o)
    h.ensure('of the timezone asked for', h.eq(o.value.utcoffset(), off))
    h.ensure('with the same fields in every timezone', h.eq(o.value.replace(tzinfo=None), a))
    o = h.call(t.asNaiveDatetime, tz)
    h.ensure('a naive datetime of a day', h.And(o.ok, o.ok and h.eq(o.value, a)), o)
    if tz is not None:
        o = h.call(t.asStructTime, tz)
        h.ensure('a struct_time of a day', o.ok, o)
        for x, y in zip(o.value[:6], fields(a)):
            h.ensure('with the same fields in every timezone (struct)', h.eq(x, y))


@contract('C24', 'struct_time')
def c_struct(h):
    a, t = at(h, 'a')
    tz, off = T.maybe_zone(h, 'timezone')
    h.assume(T.inrange(h, T.us(a) + T.us(off)))
    o = h.call(t.asStructTime, tz)
    h.ensure('a struct_time', h.And(o.ok, len(o.value or ()) == 9), o)
    st = o.value
    local = a + off
    for x, y in zip(st[:6], fields(local)):
        h.ensure('the fields on the clock of the timezone', h.eq(x, y))
    h.ensure('the weekday', h.eq(st[6], local.weekday()))
    o = h.call(Time.fromStructTime, st, tz)
    h.ensure('back to a time', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('the same second', h.eq(T.utc(h, o.value), a.replace(microsecond=0)))
    h.ensure('of a resolution of a second', h.eq(o.value.resolution, datetime.timedelta(seconds=1)))


@contract('C24', 'any time tuple')
def c_tuple(h):
    a = T.naive(h, 'a').replace(microsecond=0)
    tz, off = T.maybe_zone(h, 'timezone')
    h.assume(T.inrange(h, T.us(a) - T.us(off)))
    n = h.choice('extra fields', 4)
    st = fields(a) + tuple(h.int('extra %d' % i) for i in range(n))
    o = h.call(Time.fromStructTime, st, tz)
    h.ensure('a time from a tuple', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('the fields are read on the clock of the timezone', h.eq(T.utc(h, o.value), a - off))


@contract('C24', 'POSIX timestamps')
def c_posix(h):
    a, t = T.time(h, 'a', T.span(h, 'resolution'), lo=LO, hi=HI)
    o = h.call(t.asPOSIXTimestamp)
    h.ensure('a timestamp', o.ok, o)
    s = o.value
    exact = T.us(a) - T.us(EPOCH)
    d = s * 1000000 - exact
    h.ensure('the number of seconds since the epoch, to the microsecond', h.And(d < 1, d > -1))
    o = h.call(Time.fromPOSIXTimestamp, s)
    h.ensure('back to a time', h.And(o.ok, isinstance(o.value, Time)), o)
    h.ensure('the same instant', h.eq(T.utc(h, o.value), a))


@contract('C24', 'any timestamp')
def c_stamp(h):
    if h.choice('kind of number', 2):
        n = h.int('seconds', (LO - T.EPOCH_DAY) * 86400, (HI - T.EPOCH_DAY) * 86400)
        exact = n * 1000000
        o = h.call(Time.fromPOSIXTimestamp, n)
    else:
        n = h.real('seconds', (LO - T.EPOCH_DAY) * 86400, (HI - T.EPOCH_DAY) * 86400)
        exact = n * 1000000
        o = h.call(Time.fromPOSIXTimestamp, n)
    h.ensure('a timestamp gives a time', h.And(o.ok, isinstance(o.value, Time)), o)
    d = T.us(T.utc(h, o.value)) - T.us(EPOCH) - exact
    h.ensure('that many seconds after the epoch, to the microsecond', h.And(d <= 0.6, d >= -0.6))
