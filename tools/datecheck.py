"""Compare the assumed contract of the datetime module (pyded/dates.py) with
CPython's datetime on random values: each operation is run on symbolic values
constrained to one point and must prove the value, or raise the exception, that
the real operation gives.  Usage: datecheck.py [N] [SEED]"""
import os, random, sys, datetime as D, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyded import core, ops, values as V
core.Engine()
from pyded import dates
dates.install()
E = core.E
US = D.timedelta(microseconds=1)


class Fixed(D.tzinfo):
    _pd_ok_ = True

    def __init__(self, off):
        self.off = off

    def utcoffset(self, dt):
        return self.off

    def dst(self, dt):
        return D.timedelta(0)


def pin(v):
    """a symbolic copy of native value v"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        x = E.fresh('pin', V.INT)
        E.add(x == v)
        return V.SInt(x)
    if isinstance(v, float):
        x = E.fresh('pin', V.REAL)
        E.add(x == V.rt(v))
        return V.SReal(x)
    if isinstance(v, D.datetime):
        x = E.fresh('pin', V.INT)
        E.add(x == (v.replace(tzinfo=None) - D.datetime.min) // US)
        return dates.DT(x, pintz(v.tzinfo))
    if isinstance(v, D.timedelta):
        x = E.fresh('pin', V.INT)
        E.add(x == v // US)
        return dates.TD(x)
    if isinstance(v, Fixed):
        return pintz(v)
    return v


TZ = {}


def pintz(tz):
    if tz is None or isinstance(tz, D.timezone):
        return tz
    if id(tz) not in TZ:
        TZ[id(tz)] = Fixed(pin(tz.off))
    return TZ[id(tz)]


def matches(sym, nat):
    if isinstance(nat, tuple) and isinstance(sym, tuple):
        return V.And([len(nat) == len(sym)] + [matches(a, b) for a, b in zip(sym, nat)])
    if isinstance(nat, D.datetime):
        if not isinstance(sym, D.datetime):
            return False
        s = dates.DT.lift(sym)
        return V.And([V.mkbool(s.us == (nat.replace(tzinfo=None) - D.datetime.min) // US), s.tzinfo is pintz(nat.tzinfo)])
    if isinstance(nat, D.date):
        return sym == nat
    if isinstance(nat, D.timedelta):
        return V.mkbool(dates.td_us(sym) == nat // US)
    if isinstance(nat, float):
        return V.And([sym >= nat - 1e-3 - abs(nat) * 1e-12, sym <= nat + 1e-3 + abs(nat) * 1e-12])
    return ops.cmp('==', sym, nat)


def rdt(r, tzs):
    k = r.random()
    if k < .2:
        x = r.choice([D.datetime.min, D.datetime.max, D.datetime(2000, 2, 29), D.datetime(1999, 12, 31, 23, 59, 59, 999999)])
        x += r.choice([0, 1, -1]) * US if D.datetime.min < x < D.datetime.max else 0 * US
    else:
        x = D.datetime.min + D.timedelta(microseconds=r.randrange(3652059 * 86400 * 10 ** 6))
        if k < .5:
            x = x.replace(hour=0, minute=0, second=0, microsecond=0)
        if k < .3:
            x = x.replace(month=r.choice([1, 2, 12]), day=r.choice([1, 28]))
    return x.replace(tzinfo=r.choice(tzs))


def rtd(r):
    k = r.random()
    if k < .2:
        return D.timedelta(0)
    if k < .3:
        return r.choice([D.timedelta.max, D.timedelta.min])
    return D.timedelta(days=r.choice([0, 0, r.randint(-400, 400)]), seconds=r.randint(-90000, 90000), microseconds=r.choice([0, r.randint(0, 999999)]))


def cases(r):
    tzs = [None, Fixed(D.timedelta(minutes=r.randint(-1439, 1439))), Fixed(D.timedelta(minutes=r.randint(-1500, 1500))), D.timezone.utc]
    d1, d2, t1, t2 = rdt(r, tzs), rdt(r, tzs), rtd(r), rtd(r)
    if r.random() < .3:
        d2 = d2.replace(tzinfo=d1.tzinfo)
    n = r.randint(-5, 5)
    tz = r.choice(tzs[1:])
    y, mo, da = r.choice([d1.year, 0, 10000, 4, 100, 400]), r.randint(0, 13), r.randint(0, 32)
    h, mi, s, us = r.randint(-1, 24), r.randint(-1, 60), r.randint(-1, 61), r.choice([0, 999999, 1000000, r.randint(0, 999999)])
    x = r.choice([r.uniform(-1e9, 1e9), r.randint(-10**9, 10**9)])
    import operator as o
    yield 'replace tz', lambda a: a.replace(tzinfo=tz) if a is d1 else a.replace(tzinfo=pintz(tz)), (d1,)
    for nm, op in (('+', o.add), ('-', o.sub), ('<', o.lt), ('<=', o.le), ('==', o.eq), ('!=', o.ne), ('>', o.gt), ('>=', o.ge)):
        for p, q in ((d1, d2), (d1, t1), (t1, d1), (t1, t2), (d1, 3), (t1, 'x')):
            yield '%s%s%s' % (type(p).__name__, nm, type(q).__name__), op, (p, q)
    for nm, op in (('*', o.mul), ('//', o.floordiv), ('/', o.truediv)):
        yield 'td%sint' % nm, op, (t1, n)
    yield 'td//td', o.floordiv, (t1, t2)
    yield 'td%td', o.mod, (t1, t2)
    yield 'td/td', o.truediv, (t1, t2)
    yield 'td*float', o.mul, (t1, 0.5)
    for u in ('neg', 'abs', 'pos'):
        yield u, getattr(o, u), (t1,)
    yield 'bool', lambda a: bool(a), (t1,)
    yield 'tdparts', lambda a: (a.days, a.seconds, a.microseconds), (t1,)
    yield 'total', lambda a: a.total_seconds(), (t1,)
    for nm in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
        yield nm, lambda a, nm=nm: getattr(a, nm), (d1,)
    for nm in ('toordinal', 'weekday', 'isoweekday', 'utcoffset', 'date'):
        yield nm, lambda a, nm=nm: getattr(a, nm)(), (d1,)
    yield 'isocalendar', lambda a: tuple(a.isocalendar()), (d1,)
    yield 'timetuple', lambda a: tuple(a.timetuple()), (d1,)
    yield 'utctimetuple', lambda a: tuple(a.utctimetuple()), (d1,)
    if d1.tzinfo is not None:
        yield 'astimezone', lambda a, z: a.astimezone(z), (d1, tz)
        yield 'timestamp', lambda a: a.timestamp(), (d1,)
    yield 'replace clock', lambda a, h, s: a.replace(hour=h, second=s), (d1, h, s)
    yield 'replace date', lambda a, y, m: a.replace(year=y, month=m), (d1, y, mo)
    yield 'replace day', lambda a, y: a.replace(day=y), (d1, da)
    yield 'datetime', lambda *a: ops.call(D.datetime, *a), (y, mo, da, h, mi, s, us, tz)
    yield 'datetime2', lambda *a: ops.call(D.datetime, *a), (max(1, min(y, 9999)), max(1, min(mo, 12)), da)
    yield 'timedelta', lambda a, b, c: ops.call(D.timedelta, days=a, seconds=b, microseconds=c), (n, x, us)
    yield 'timedelta2', lambda a, b: ops.call(D.timedelta, days=a, microseconds=b), (n, r.randint(-40, 40) / 2)
    yield 'timedelta3', lambda a, b, c: ops.call(D.timedelta, hours=a, minutes=b, weeks=c), (n, s, mo)


def one(name, fn, args, res):
    try:
        nat = ('ok', fn(*args))
    except Exception as e:
        nat = ('exc', type(e))
    seen = []

    def run():
        TZ.clear()
        sargs = [pin(a) for a in args]
        try:
            out = ('ok', fn(*sargs))
        except core.Prog as p:
            out = ('exc', type(p.exc))
        except core.EngineSignal:
            raise
        except Exception as e:
            out = ('exc', type(e))
        if E.contradictory(20000):
            E.abort(core.PathEnd())
        seen.append(1)
        ok = out[0] == nat[0] and (out[1] is nat[1] if out[0] == 'exc' else matches(out[1], nat[1]))
        if ok is True:
            return
        st = E.prove(V.bt(ok))[0] if ok is not False else 'refuted'
        if st != 'proved':
            res.append((name, args, nat, out, st))
    try:
        E.explore('datecheck', run)
    except core.EngineSignal as s:
        res.append((name, args, nat, repr(s), 'signal'))
    if not seen:
        res.append((name, args, nat, 'no path', 'vacuous'))


def main(n=30, seed=1):
    warnings.simplefilter('ignore')
    E.debug = True
    r = random.Random(seed)
    res, k = [], 0
    for i in range(n):
        for name, fn, args in cases(r):
            k += 1
            one(name, fn, args, res)
            if len(res) > 10:
                break
    for x in res[:10]:
        print('MISMATCH', x)
    print('%d operations compared, %d mismatches' % (k, len(res)))
    return 1 if res else 0


if __name__ == '__main__':
    sys.exit(main(*[int(x) for x in sys.argv[1:]]))
