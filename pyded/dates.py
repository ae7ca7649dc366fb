"""Assumed contract of the standard library's datetime module, over symbolic
instants: a timedelta is a number of microseconds, a datetime a number of
microseconds since 0001-01-01 on its own clock plus a tzinfo.  tools/datecheck.py
compares this with the real module on random values."""
import datetime as _dt
import types
import z3
from . import core, ops, values as V
from .core import Prog
from .values import SBase, SInt, SReal, it, rt, mkint, mkbool, decide, unsup

US = 1000000
DAY = 86400 * US
MAXDAY = _dt.date.max.toordinal()          # ordinals are 1..MAXDAY
TDMAX = _dt.timedelta.max // _dt.timedelta(microseconds=1)
TDMIN = _dt.timedelta.min // _dt.timedelta(microseconds=1)
ONE = _dt.timedelta(microseconds=1)
NAIVE_MIN = _dt.datetime.min


def note():
    core.E.assumed.add('the datetime module: proleptic Gregorian calendar, microsecond arithmetic, range and type '
                       'errors as documented (model in pyded/dates.py, compared with CPython by tools/datecheck.py)')


def lit(t):
    """python int of a constant term, or None"""
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def split(t, *units):
    """mixed-radix digits of t: t = q*prod(units) + ... with each digit in range"""
    e = core.E
    v = lit(t)
    if v is not None:
        out = []
        for u in reversed(units):
            out.append(z3.IntVal(v % u))
            v //= u
        return [z3.IntVal(v)] + out[::-1]
    qs = [e.fresh('q', V.INT)]
    tot = qs[0]
    for u in units:
        x = e.fresh('r', V.INT)
        e.add(z3.And(x >= 0, x < u))
        qs.append(x)
        tot = tot * u + x
    e.add(tot == t)
    return qs


# ------------------------------------------------------------------- timedelta
def is_td(x):
    return type(x) is TD or isinstance(x, _dt.timedelta)


def td_us(x):
    """term: the microseconds of a timedelta"""
    if type(x) is TD:
        return x.us
    return z3.IntVal(x // ONE)


def mktd(us):
    v = lit(us)
    if v is not None:
        if not TDMIN <= v <= TDMAX:
            raise Prog(OverflowError('days out of range'))
        return _dt.timedelta(microseconds=v)
    if decide(z3.Or(us < TDMIN, us > TDMAX)):
        raise Prog(OverflowError('days out of range'))
    return TD(us)


def _tdcmp(fn):
    def op(self, o):
        if not is_td(o):
            return NotImplemented
        return mkbool(fn(self.us, td_us(o)))
    return op


class TD(SBase):
    __class__ = property(lambda self: _dt.timedelta)
    pytype = _dt.timedelta
    resolution, min, max = _dt.timedelta.resolution, _dt.timedelta.min, _dt.timedelta.max

    def __init__(self, us):
        self.us = us
        self._parts = None
        note()

    def parts(self):
        if self._parts is None:
            self._parts = split(self.us, 86400, US)
        return self._parts

    days = property(lambda self: mkint(self.parts()[0]))
    seconds = property(lambda self: mkint(self.parts()[1]))
    microseconds = property(lambda self: mkint(self.parts()[2]))

    def total_seconds(self):
        return SReal(z3.ToReal(self.us) / z3.RealVal(US))

    def __add__(self, o):
        if is_td(o):
            return mktd(self.us + td_us(o))
        if isinstance(o, _dt.datetime) and type(o) is not DT:
            return DT.lift(o) + self
        return NotImplemented

    def __radd__(self, o):
        if is_td(o):
            return mktd(self.us + td_us(o))
        if isinstance(o, _dt.datetime):
            return DT.lift(o) + self
        return NotImplemented

    def __sub__(self, o):
        if is_td(o):
            return mktd(self.us - td_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if is_td(o):
            return mktd(td_us(o) - self.us)
        if isinstance(o, _dt.datetime):
            return DT.lift(o) - self
        return NotImplemented

    def __neg__(self):
        return mktd(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if decide(self.us < 0) else self

    def __mul__(self, o):
        if V.is_intlike(o):
            return mktd(self.us * it(o))
        if type(o) is SReal or isinstance(o, float):
            return mktd(V.real_round(z3.ToReal(self.us) * rt(o)))
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if V.is_intlike(o):
            return mktd(it(V._floordiv(self.us, it(o))))
        if is_td(o):
            return V._floordiv(self.us, td_us(o))
        return NotImplemented

    def __rfloordiv__(self, o):
        if is_td(o):
            return V._floordiv(td_us(o), self.us)
        return NotImplemented

    def __truediv__(self, o):
        if is_td(o):
            return V._rdiv(z3.ToReal(self.us), z3.ToReal(td_us(o)))
        if V.is_intlike(o) or type(o) is SReal or isinstance(o, float):
            return mktd(V.real_round(V._rdiv(z3.ToReal(self.us), rt(o)).t))
        return NotImplemented

    def __rtruediv__(self, o):
        if is_td(o):
            return V._rdiv(z3.ToReal(td_us(o)), z3.ToReal(self.us))
        return NotImplemented

    def __mod__(self, o):
        if is_td(o):
            return mktd(it(V._mod(self.us, td_us(o))))
        return NotImplemented

    def __rmod__(self, o):
        if is_td(o):
            return mktd(it(V._mod(td_us(o), self.us)))
        return NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    __lt__ = _tdcmp(lambda a, b: a < b)
    __le__ = _tdcmp(lambda a, b: a <= b)
    __gt__ = _tdcmp(lambda a, b: a > b)
    __ge__ = _tdcmp(lambda a, b: a >= b)

    def __eq__(self, o):
        return mkbool(self.us == td_us(o)) if is_td(o) else False

    def __ne__(self, o):
        return V.Not(self == o)

    __hash__ = SBase.__hash__

    def __bool__(self):
        return decide(self.us != 0)


UNITS = [('days', DAY), ('seconds', US), ('microseconds', 1), ('milliseconds', 1000), ('minutes', 60 * US),
         ('hours', 3600 * US), ('weeks', 7 * DAY)]


def m_timedelta(*a, **k):
    names = [n for n, _ in UNITS]
    if len(a) > 7 or any(x not in names for x in k):
        raise Prog(TypeError('timedelta() arguments'))
    given = dict(zip(names, a))
    for x in k:
        if x in given:
            raise Prog(TypeError('timedelta() got multiple values'))
        given[x] = k[x]
    tot, real = z3.IntVal(0), None
    for n, u in UNITS:
        if n not in given:
            continue
        v = given[n]
        if type(v) is V.SAny:
            v = v.resolve()
        if V.is_intlike(v):
            tot = tot + it(v) * u
        elif type(v) is SReal or isinstance(v, float):
            x = rt(v) * u
            real = x if real is None else real + x
        else:
            raise Prog(TypeError('unsupported type for timedelta component'))
    if real is not None:
        tot = V.real_round(z3.ToReal(tot) + real)
        x = core.E.fresh('rounded', V.INT)
        core.E.add(x == tot)
        tot = x
    note()
    return mktd(tot)


# -------------------------------------------------------------------- calendar
def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


_DBM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_dby = V.uf('days_before_year', V.INT, V.INT)
_leap = V.uf('leap_year', V.INT, V.BOOL)


def year_facts(y):
    """dby and leap at year y; monotone against the years met before"""
    e = core.E
    v = lit(y)
    y = z3.simplify(y)
    years = e.ghost.get('years')
    if years is None:
        years = e.ghost['years'] = []
    if any(x.eq(y) for x in years):
        return
    if v is not None and v >= 1:
        e.add(_dby(y) == _dt.date(v, 1, 1).toordinal() - 1 if v <= 9999 else MAXDAY)
        e.add(_leap(y) == bool(v % 4 == 0 and (v % 100 != 0 or v % 400 == 0)))
    else:
        e.add(_leap(y) == leap(y), True)
        # the exact sum, through named quotients
        q4, q100, q400 = [e.fresh('quot', V.INT) for _ in range(3)]
        for q, n in ((q4, 4), (q100, 100), (q400, 400)):
            e.add(z3.And(n * q <= y - 1, y - 1 < n * q + n), 2)
        e.add(_dby(y) == (y - 1) * 365 + q4 - q100 + q400, 2)
    for x in years:
        e.add(z3.Implies(x < y, _dby(x) + z3.If(_leap(x), 366, 365) <= _dby(y)), True)
        e.add(z3.Implies(y < x, _dby(y) + z3.If(_leap(y), 366, 365) <= _dby(x)), True)
        e.add(z3.Implies(x + 1 == y, _dby(x) + z3.If(_leap(x), 366, 365) == _dby(y)), True)
        e.add(z3.Implies(y + 1 == x, _dby(y) + z3.If(_leap(y), 366, 365) == _dby(x)), True)
    years.append(y)


def table(m, vals, default):
    t = z3.IntVal(default)
    for k in range(len(vals) - 1, 0, -1):
        t = z3.If(m == k, z3.IntVal(vals[k]), t)
    return t


def dim(y, m):
    """days in month"""
    return z3.If(m == 2, z3.If(_leap(y), z3.IntVal(29), z3.IntVal(28)),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


_ordf = V.uf('ordinal', V.INT, V.INT, V.INT, V.INT)


def ordinal(y, m, d):
    """the day number (0001-01-01 is 1) of a valid date"""
    vs = [lit(x) for x in (y, m, d)]
    if None not in vs:
        return z3.IntVal(_dt.date(*vs).toordinal())
    year_facts(y)
    y, m, d = [z3.simplify(x) for x in (y, m, d)]
    r = _ordf(y, m, d)
    core.E.add(r == _dby(y) + table(m, _DBM, 334) + z3.If(z3.And(m > 2, _leap(y)), 1, 0) + d, True)
    core.E.add(z3.And(r >= 1, r <= MAXDAY))
    return r


_yf = V.uf('year_of', V.INT, V.INT)
_mf = V.uf('month_of', V.INT, V.INT)
_df = V.uf('day_of', V.INT, V.INT)


def ymd(n):
    """the date with day number n (1..MAXDAY)"""
    v = lit(n)
    if v is not None:
        x = _dt.date.fromordinal(v)
        return [z3.IntVal(q) for q in (x.year, x.month, x.day)]
    e = core.E
    n = z3.simplify(n)
    y, m, d = _yf(n), _mf(n), _df(n)
    e.add(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1))
    year_facts(y)
    e.add(d <= dim(y, m))
    e.add(ordinal(y, m, d) == n)
    return [y, m, d]


def valid_date(y, m, d):
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim(y, m))


_wk1 = V.uf('week1', V.INT, V.INT)
_jan1 = V.uf('jan1_weekday', V.INT, V.INT)


def iso_week1_monday(y):
    """day number of the Monday of week 1 of year y (y in 1..10000): that of 4 January"""
    e = core.E
    year_facts(y)
    y = z3.simplify(y)
    weeks = e.ghost.get('isoyears')
    if weeks is None:
        weeks = e.ghost['isoyears'] = []
    if not any(x.eq(y) for x in weeks):
        wd = _jan1(y)
        q = e.fresh('quot', V.INT)
        e.add(z3.And(wd >= 0, wd < 7))
        e.add(_dby(y) == 7 * q + wd, True)
        e.add(_wk1(y) == _dby(y) + 1 - wd + z3.If(wd > 3, 7, 0), True)
        for x in weeks:
            e.add(z3.Implies(x < y, _wk1(x) + 364 <= _wk1(y)), True)
            e.add(z3.Implies(y < x, _wk1(y) + 364 <= _wk1(x)), True)
        weeks.append(y)
    return _wk1(y)


# -------------------------------------------------------------------- datetime
def is_dt(x):
    return type(x) is DT or isinstance(x, _dt.datetime)


class Fields(object):
    """calendar fields of an instant, shared between datetimes with the same clock reading"""

    def __init__(self, us, clock=None, date=None):
        self.us = us
        self._clock = clock
        self._date = date

    @staticmethod
    def of(us):
        """the fields of a reading; those of a reading met before are reused, also whole days apart"""
        e = core.E
        us = z3.simplify(us, som=True)
        memo = e.ghost.get('fields')
        if memo is None:
            memo = e.ghost['fields'] = []
        near = None
        for f in memo:
            d = lit(us - f.us)
            if d == 0:
                return f
            if d is not None and d % DAY == 0 and f._clock is not None:
                near = f, d // DAY
        f = Fields(us)
        if near is not None:
            c = near[0]._clock
            f._clock = [z3.simplify(c[0] + near[1])] + c[1:]
        memo.append(f)
        return f

    @staticmethod
    def known(us, clock, date):
        f = Fields.of(us)
        if f._clock is None:
            f._clock = clock
        else:
            for x, y in zip(f._clock, clock):
                core.E.add(x == y)
        if f._date is None:
            f._date = date
        elif date is not None:
            for x, y in zip(f._date, date):
                core.E.add(x == y)
        return f

    @property
    def clock(self):
        if self._clock is None:
            self._clock = split(self.us, 24, 60, 60, US)      # day (0-based), h, m, s, us
        return self._clock

    @property
    def date(self):
        if self._date is None:
            self._date = ymd(self.clock[0] + 1)
        return self._date


def clock_offset(tz, dt, which='utcoffset'):
    """tz.utcoffset(dt): None or a timedelta strictly within a day"""
    if tz is None:
        return None
    if isinstance(tz, _dt.timezone):
        off = getattr(tz, which)(None)
    else:
        off = ops.call(getattr(tz, which), dt)
    if off is None:
        return None
    if not is_td(off):
        raise Prog(TypeError('tzinfo.%s() must return None or a timedelta' % which))
    us = td_us(off)
    if decide(z3.Or(us <= -DAY, us >= DAY)):
        raise Prog(ValueError('offset must be a timedelta strictly between -24 and 24 hours'))
    return off


def mkdt(us, tz, fields=None):
    if fields is None:
        if decide(z3.Or(us < 0, us >= MAXDAY * DAY)):
            raise Prog(OverflowError('date value out of range'))
    return DT(us, tz, fields)


def _dtcmp(fn):
    def op(self, o):
        if not is_dt(o):
            if isinstance(o, _dt.date):
                raise Prog(TypeError("can't compare datetime.datetime to datetime.date"))
            return NotImplemented
        a, b, mixed = compare_terms(self, DT.lift(o))
        if mixed:
            raise Prog(TypeError("can't compare offset-naive and offset-aware datetimes"))
        return mkbool(fn(a, b))
    return op


def compare_terms(a, b):
    if a.tzinfo is b.tzinfo:
        return a.us, b.us, False
    x, y = clock_offset(a.tzinfo, a), clock_offset(b.tzinfo, b)
    if (x is None) != (y is None):
        return a.us, b.us, True
    if x is None:
        return a.us, b.us, False
    return a.us - td_us(x), b.us - td_us(y), False


class StructTime(tuple):
    """time.struct_time with symbolic fields"""
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


class DT(SBase):
    __class__ = property(lambda self: _dt.datetime)
    pytype = _dt.datetime
    resolution, min, max = _dt.datetime.resolution, _dt.datetime.min, _dt.datetime.max
    fold = 0

    def __init__(self, us, tz=None, fields=None):
        self.us = us
        self.tzinfo = tz
        self.fields = fields or Fields.of(us)
        note()

    @staticmethod
    def lift(o):
        if type(o) is DT:
            return o
        us = (o.replace(tzinfo=None) - NAIVE_MIN) // ONE
        return DT(z3.IntVal(us), o.tzinfo)

    year = property(lambda s: mkint(s.fields.date[0]))
    month = property(lambda s: mkint(s.fields.date[1]))
    day = property(lambda s: mkint(s.fields.date[2]))
    hour = property(lambda s: mkint(s.fields.clock[1]))
    minute = property(lambda s: mkint(s.fields.clock[2]))
    second = property(lambda s: mkint(s.fields.clock[3]))
    microsecond = property(lambda s: mkint(s.fields.clock[4]))

    def toordinal(self):
        return mkint(self.fields.clock[0] + 1)

    def weekday(self):
        return mkint(self.fields.clock[0] % 7)

    def isoweekday(self):
        return mkint(self.fields.clock[0] % 7 + 1)

    def isocalendar(self):
        e = core.E
        n = self.fields.clock[0] + 1
        y, w, wd = e.fresh('isoyear', V.INT), e.fresh('isoweek', V.INT), e.fresh('isoday', V.INT)
        e.add(z3.And(y >= 1, y <= 9999, w >= 1, w <= 53, wd >= 1, wd <= 7))
        for x in list(e.ghost.get('years', ())):
            if lit(x) is None:
                iso_week1_monday(x)
        e.add(n == iso_week1_monday(y) + 7 * (w - 1) + wd - 1)
        e.add(n < iso_week1_monday(y + 1), True)
        return (mkint(y), mkint(w), mkint(wd))

    def utcoffset(self):
        return clock_offset(self.tzinfo, self)

    def dst(self):
        return clock_offset(self.tzinfo, self, 'dst')

    def tzname(self):
        if self.tzinfo is None:
            return None
        unsup('datetime.tzname')

    def date(self):
        return DA(self.fields)

    def replace(self, *a, **k):
        names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
        if len(a) > 8:
            raise Prog(TypeError('replace() arguments'))
        given = dict(zip(names, a))
        given.update(k)
        fold = given.pop('fold', 0)
        if any(x not in names for x in given):
            raise Prog(TypeError('replace() got an unexpected keyword argument'))
        if fold != 0:
            unsup('datetime fold')
        tz = given.pop('tzinfo', self.tzinfo)
        check_tz(tz)
        if not given:
            return DT(self.us, tz, self.fields)
        cl = [it(given.get(n, mkint(c))) if V.is_intlike(given.get(n, 0)) else bad()
              for n, c in zip(names[3:7], self.fields.clock[1:])]
        check_clock(*cl)
        if any(n in given for n in names[:3]):
            ymd3 = [it(given.get(n, mkint(c))) if V.is_intlike(given.get(n, 0)) else bad()
                    for n, c in zip(names[:3], self.fields.date)]
            return build(ymd3, cl, tz)
        return build(None, cl, tz, day=self.fields.clock[0], date0=self.fields._date)

    def __add__(self, o):
        if not is_td(o):
            return NotImplemented
        return mkdt(self.us + td_us(o), self.tzinfo)
    __radd__ = __add__

    def __sub__(self, o):
        if is_td(o):
            return mkdt(self.us - td_us(o), self.tzinfo)
        if is_dt(o):
            a, b, mixed = compare_terms(self, DT.lift(o))
            if mixed:
                raise Prog(TypeError("can't subtract offset-naive and offset-aware datetimes"))
            return mktd(a - b)
        return NotImplemented

    def __rsub__(self, o):
        if is_dt(o):
            return DT.lift(o) - self
        return NotImplemented

    __lt__ = _dtcmp(lambda a, b: a < b)
    __le__ = _dtcmp(lambda a, b: a <= b)
    __gt__ = _dtcmp(lambda a, b: a > b)
    __ge__ = _dtcmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if not is_dt(o):
            return False
        a, b, mixed = compare_terms(self, DT.lift(o))
        return False if mixed else mkbool(a == b)

    def __ne__(self, o):
        return V.Not(self == o)

    __hash__ = SBase.__hash__

    def __bool__(self):
        return True

    def astimezone(self, tz=None):
        if tz is None or self.tzinfo is None:
            unsup('astimezone through the system timezone')
        check_tz(tz)
        if tz is self.tzinfo:
            return self
        off = clock_offset(self.tzinfo, self)
        if off is None:
            unsup('astimezone through the system timezone')
        utc = mkdt(self.us - td_us(off), tz)
        if isinstance(tz, _dt.timezone):
            return utc + tz.utcoffset(None)
        if type(tz).fromutc is not _dt.tzinfo.fromutc:
            return ops.call(tz.fromutc, utc)
        return fromutc(tz, utc)

    def _tuple(self, isdst):
        y, m, d = self.fields.date
        yday = self.fields.clock[0] + 1 - ordinal(y, z3.IntVal(1), z3.IntVal(1)) + 1
        c = self.fields.clock
        return StructTime([mkint(x) for x in (y, m, d, c[1], c[2], c[3])] + [self.weekday(), mkint(yday), isdst])

    def timetuple(self):
        dst = self.dst()
        return self._tuple(-1 if dst is None else (1 if dst else 0))

    def utctimetuple(self):
        off = self.utcoffset()
        x = self
        if off is not None:
            x = mkdt(self.us - td_us(off), None)
        return x._tuple(0)

    def timestamp(self):
        if self.tzinfo is None:
            unsup('timestamp of a naive datetime')
        d = self - _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
        return d.total_seconds()

    def isoformat(self, *a, **k):
        unsup('isoformat')

    def strftime(self, f):
        unsup('strftime')


def fromutc(tz, dt):
    off = clock_offset(tz, dt)
    dst = clock_offset(tz, dt, 'dst')
    if off is None or dst is None:
        raise Prog(ValueError('fromutc: utcoffset() and dst() must not be None'))
    r = mkdt(dt.us + td_us(off) - td_us(dst), tz)
    dst = clock_offset(tz, r, 'dst')
    if dst is None:
        raise Prog(ValueError('fromutc: tz.dst() gave inconsistent results'))
    return r if not ops.cmp('!=', dst, _dt.timedelta()) else mkdt(r.us + td_us(dst), tz)


def bad():
    raise Prog(TypeError("'object' cannot be interpreted as an integer"))


def check_tz(tz):
    if tz is not None and not isinstance(tz, _dt.tzinfo):
        raise Prog(TypeError('tzinfo argument must be None or of a tzinfo subclass'))


def check_clock(h, m, s, us):
    for x, n in ((h, 24), (m, 60), (s, 60), (us, US)):
        if decide(z3.Or(x < 0, x >= n)):
            raise Prog(ValueError('time field out of range'))


def build(date, cl, tz, day=None, date0=None):
    """a datetime from checked clock fields and a date (checked here) or a day"""
    if day is None:
        y, m, d = date
        if decide(z3.Or(y < 1, y > 9999)):
            raise Prog(ValueError('year is out of range'))
        if decide(z3.Or(m < 1, m > 12)):
            raise Prog(ValueError('month must be in 1..12'))
        year_facts(y)
        if decide(z3.Or(d < 1, d > dim(y, m))):
            raise Prog(ValueError('day is out of range for month'))
        day = ordinal(y, m, d) - 1
        date0 = date
    us = day
    for x, n in zip(cl, (24, 60, 60, US)):
        us = us * n + x
    return DT(us, tz, Fields.known(us, [day] + list(cl), date0))


class DA(SBase):
    """datetime.date"""
    __class__ = property(lambda self: _dt.date)
    pytype = _dt.date

    def __init__(self, fields):
        self.fields = fields

    year = property(lambda s: mkint(s.fields.date[0]))
    month = property(lambda s: mkint(s.fields.date[1]))
    day = property(lambda s: mkint(s.fields.date[2]))

    def toordinal(self):
        return mkint(self.fields.clock[0] + 1)

    def weekday(self):
        return mkint(self.fields.clock[0] % 7)

    def isoweekday(self):
        return mkint(self.fields.clock[0] % 7 + 1)

    def __eq__(self, o):
        if type(o) is DA:
            return mkbool(self.fields.clock[0] == o.fields.clock[0])
        if type(o) is _dt.date:
            return mkbool(self.fields.clock[0] + 1 == o.toordinal())
        return False

    def __ne__(self, o):
        return V.Not(self == o)

    __hash__ = SBase.__hash__

    def __bool__(self):
        return True


def instrumented_tz(tz):
    return tz is not None and not isinstance(tz, _dt.timezone)


def m_datetime(*a, **k):
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
    given = dict(zip(names, a))
    given.update(k)
    act = core.E is not None and core.E.active
    if not act or not (any(isinstance(x, SBase) for x in given.values()) or instrumented_tz(given.get('tzinfo'))):
        return _dt.datetime(*a, **k)
    if len(a) > 8 or any(x in dict(zip(names, a)) for x in k):
        raise Prog(TypeError('datetime() arguments'))
    if given.pop('fold', 0) != 0:
        unsup('datetime fold')
    for x in given:
        if x not in names:
            raise Prog(TypeError('datetime() got an unexpected keyword argument'))
    for x in names[:3]:
        if x not in given:
            raise Prog(TypeError('datetime() missing required argument'))
    for x in names[:7]:
        v = given.get(x, 0)
        if type(v) is V.SAny:
            v = given[x] = v.resolve()
        if not V.is_intlike(v):
            raise Prog(TypeError('integer argument expected'))
    tz = given.get('tzinfo')
    check_tz(tz)
    # CPython checks the date first, then the time
    y, m, d = [it(given[x]) for x in names[:3]]
    if decide(z3.Or(y < 1, y > 9999)):
        raise Prog(ValueError('year is out of range'))
    if decide(z3.Or(m < 1, m > 12)):
        raise Prog(ValueError('month must be in 1..12'))
    year_facts(y)
    if decide(z3.Or(d < 1, d > dim(y, m))):
        raise Prog(ValueError('day is out of range for month'))
    cl = [it(given.get(x, 0)) for x in names[3:7]]
    check_clock(*cl)
    return build([y, m, d], cl, tz)


m_datetime._always = True


def m_combine(date, time, tz=None):
    unsup('datetime.combine')


def arbitrary(name='now', tz=None):
    us = core.E.fresh(name, V.INT)
    core.E.add(z3.And(us >= 0, us < MAXDAY * DAY))
    return DT(us, tz)


def m_utcnow():
    if core.E is None or not core.E.active:
        return _dt.datetime.utcnow()
    core.E.assumed.add('datetime.utcnow() may return any instant')
    return arbitrary()


m_utcnow._always = True


def native_replace(o, *a, **k):
    if instrumented_tz(k.get('tzinfo', a[7] if len(a) > 7 else None)) or any(isinstance(x, SBase) for x in list(a) + list(k.values())):
        return DT.lift(o).replace(*a, **k)
    return o.replace(*a, **k)


def native_astimezone(o, *a, **k):
    tz = a[0] if a else k.get('tz')
    if instrumented_tz(tz) or instrumented_tz(o.tzinfo):
        return DT.lift(o).astimezone(tz)
    return o.astimezone(*a, **k)


def native_tzmethod(name):
    def f(o, *a, **k):
        if instrumented_tz(o.tzinfo):
            return getattr(DT.lift(o), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    return f


def install():
    ops.MODELS[id(_dt.timedelta)] = (_dt.timedelta, m_timedelta)
    ops.MODELS[id(_dt.datetime)] = (_dt.datetime, m_datetime)
    always = ops.METHOD_ALWAYS
    always[(_dt.datetime, 'replace')] = native_replace
    always[(_dt.datetime, 'astimezone')] = native_astimezone
    for n in ('utcoffset', 'dst', 'timetuple', 'utctimetuple', 'tzname', 'timestamp'):
        always[(_dt.datetime, n)] = native_tzmethod(n)
    ops.TYPE_METHODS[(_dt.datetime, 'utcnow')] = m_utcnow
    ops.TYPE_METHODS[(_dt.datetime, 'combine')] = m_combine
