"""C25: times are totally ordered instants with consistent arithmetic (epsilon/extime.py)."""
import datetime
import operator
from pyded.api import contract, search
from epsilon import extime
from contracts import times as T

OPS = [('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge), ('==', operator.eq),
       ('!=', operator.ne)]


@contract('C25', 'ordering')
def c_order(h):
    a, ta = T.time(h, 'a', T.span(h, 'resolution of a'))
    b, tb = T.time(h, 'b', T.span(h, 'resolution of b'))
    for name, op in OPS:
        o = h.call(op, ta, tb)
        h.ensure('times can be compared with ' + name, o.ok, o)
        h.ensure('the order of times is the order of the instants they start at: ' + name, h.Iff(o.value, op(a, b)))


@contract('C25', 'not a time')
def c_other(h):
    a, ta = T.time(h, 'a', T.span(h, 'resolution of a'))
    other = h.choice('other', [None, 0, 'x', (), 1.5, 'datetime', 'interval', 'object'])
    if other == 'datetime':
        other = a
    elif other == 'interval':
        other = T.interval(h, 'other')
    elif other == 'object':
        other = object()
    for name, op in OPS:
        for x, y in ((ta, other), (other, ta)):
            o = h.call(op, x, y)
            if name == '==':
                h.ensure('a time is never equal to anything else', h.And(o.ok, h.Not(o.value)), o)
            elif name == '!=':
                h.ensure('a time is never equal to anything else (!=)', h.And(o.ok, o.value), o)
            else:
                h.ensure('a time cannot be ordered against anything else: ' + name, o.raised(TypeError), o)


@contract('C25', 'adding an interval')
def c_add(h):
    a, ta = T.time(h, 'a', T.span(h, 'resolution of a'))
    d = T.interval(h, 'd')
    h.assume(T.inrange(h, T.us(a) + T.us(d)))
    o = h.call(operator.add, ta, d)
    h.ensure('a time plus an interval is a time', h.And(o.ok, isinstance(o.value, extime.Time)), o)
    h.ensure('moved by exactly the interval', h.eq(T.utc(h, o.value), a + d))
    h.ensure('and the time added to stays', h.eq(T.utc(h, ta), a))
    o = h.call(operator.sub, o.value, d)
    h.ensure('a time minus an interval is a time', h.And(o.ok, isinstance(o.value, extime.Time)), o)
    h.ensure('adding and subtracting an interval cancel', h.eq(T.utc(h, o.value), a))


@contract('C25', 'subtracting')
def c_sub(h):
    a, ta = T.time(h, 'a', T.span(h, 'resolution of a'))
    if h.choice('subtract', 2):
        b, tb = T.time(h, 'b', T.span(h, 'resolution of b'))
        o = h.call(operator.sub, ta, tb)
        h.ensure('the difference of two times is an interval', h.And(o.ok, isinstance(o.value, datetime.timedelta)), o)
        h.ensure('exactly the interval between them', h.eq(o.value, a - b))
    else:
        d = T.interval(h, 'd')
        h.assume(T.inrange(h, T.us(a) - T.us(d)))
        o = h.call(operator.sub, ta, d)
        h.ensure('a time minus an interval is a time (2)', h.And(o.ok, isinstance(o.value, extime.Time)), o)
        h.ensure('moved back by exactly the interval', h.eq(T.utc(h, o.value), a - d))


@contract('C25', 'nothing else can be added')
def c_bad(h):
    a, ta = T.time(h, 'a')
    other = h.choice('other', [None, 3, 'x', 1.5])
    h.ensure('adding anything else is a TypeError', h.call(operator.add, ta, other).raised(TypeError))
    h.ensure('subtracting anything else is a TypeError', h.call(operator.sub, ta, other).raised(TypeError))


@contract('C25', 'containment')
def c_in(h):
    ra, rb = T.span(h, 'resolution of a'), T.span(h, 'resolution of b')
    a, ta = T.time(h, 'a', ra)
    if not h.sym and h.bool('close to a'):
        d = h.choice('off by', [T.ONE * 0, T.ONE, -T.ONE, ra, ra - rb, ra - rb + T.ONE])
        h.assume(T.inrange(h, T.us(a) + T.us(d)))
        b = a + d
        tb = extime.Time.fromDatetime(b)
        tb.resolution = rb
    else:
        b, tb = T.time(h, 'b', rb)
    h.assume(T.inrange(h, T.us(a) + T.us(ra)))
    h.assume(T.inrange(h, T.us(b) + T.us(rb)))
    o = h.call(operator.contains, ta, tb)
    h.ensure('containment is decided', o.ok, o)
    h.ensure("containment holds exactly when the other's whole period lies in this one's",
             h.Iff(o.value, h.And(b >= a, b + rb <= a + ra)))
    o = h.call(operator.contains, ta, h.choice('not a time', [None, 3, 'x']))
    h.ensure('containment of anything else is a TypeError', o.raised(TypeError), o)


@contract('C25', 'bounds')
def c_bounds(h):
    r = T.span(h, 'resolution')
    a, t = T.time(h, 'a', r)
    tz, off = T.maybe_zone(h, 'timezone')
    h.assume(T.inrange(h, T.us(a) + T.us(r)))
    h.assume(T.inrange(h, T.us(a) - T.us(off)))
    h.assume(T.inrange(h, T.us(a) + T.us(r) - T.us(off)))
    o = h.call(t.getBounds, tz)
    h.ensure('bounds are found', h.And(o.ok, len(o.value or ()) == 2), o)
    lo, hi = [T.utc(h, x) for x in o.value]
    h.ensure("the bounds enclose the time's period in UTC", h.And(lo <= a, hi >= a + r))
    if tz is not None and r >= T.DAY:
        # a day or more: the period on the clock of the timezone
        h.ensure("the bounds enclose the time's period in the timezone", h.And(lo <= a - off, hi >= a + r - off))
        h.ensure('and are no wider', h.And(h.Or(h.eq(lo, a), h.eq(lo, a - off)), h.Or(h.eq(hi, a + r), h.eq(hi, a + r - off))))
    else:
        h.ensure('a time that depends on the timezone has exactly its own period', h.And(h.eq(lo, a), h.eq(hi, a + r)))
    h.ensure('the time itself is not changed', h.And(h.eq(T.utc(h, t), a), h.eq(t.resolution, r)))


@search('C25', 'sorting')
def s_sort(h):
    n = h.int('n', 0, 6)
    ts = []
    for i in range(n):
        ts.append(T.time(h, 't%d' % i, T.span(h, 'r%d' % i)))
    o = h.call(sorted, [t for _, t in ts])
    h.ensure('times can be sorted', o.ok, o)
    h.ensure('sorting times sorts the instants', [T.utc(h, t) for t in o.value] == sorted(a for a, _ in ts))
    if ts:
        h.ensure('min', T.utc(h, min(t for _, t in ts)) == min(a for a, _ in ts))
        h.ensure('max', T.utc(h, max(t for _, t in ts)) == max(a for a, _ in ts))
