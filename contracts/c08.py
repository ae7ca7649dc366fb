"""C08: a pending event fires every current waiter exactly once (epsilon/pending.py)."""
from twisted.internet import defer
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from pyded.api import contract, search
from epsilon.pending import PendingEvent


class Boom(Exception):
    pass


@contract('C08', 'any number of waiters')
def c_many1(h):
    c_many(h, False)


@contract('C08', 'any number of waiters, which ask again while being fired')
def c_many2(h):
    c_many(h, True)


class waiting(object):
    """the list in which a pending event keeps its waiters"""

    def __init__(self, h, p):
        ls = [n for n, v in p.__dict__.items() if isinstance(v, list)]
        h.require(len(ls) == 1 and len(p.__dict__[ls[0]]) == 0)
        self.p, self.n = p, ls[0]

    value = property(lambda me: getattr(me.p, me.n), lambda me, v: setattr(me.p, me.n, v))


def c_many(h, asks):
    """Deferreds are modelled as objects that record how often and with what they
    are fired, so that there may be any number of them"""
    if not h.sym:
        return c_conc(h)
    fires = h.obj_class('Waiter', fired='int', how='int', value='val', order='int')
    log = h.ghost('clock', 0)
    p = PendingEvent()
    kept = waiting(h, p)
    kept.value = h.list('waiters', fires.kind)
    ws = h.copy(kept.value)
    n = h.len(ws)
    # distinct, never fired
    h.assume(h.forall_int(0, n, lambda i: h.eq(fires.get(h.at(ws, i), 'fired'), 0)))
    h.assume(h.forall_int(0, n, lambda i: h.Not(fires.fresh(h.at(ws, i)))))
    pos = h.func('position', fires.kind, 'int')
    h.assume(h.forall_int(0, n, lambda i: h.eq(pos(h.at(ws, i)), i)))

    def fire(how):
        def f(w, v=None):
            w.fired = w.fired + 1
            w.how = how
            w.value = v
            w.order = log.get()
            log.set(log.get() + 1)
            if asks:
                # a waiter may ask for another Deferred while it is being fired
                if h.bool('asks again'):
                    p.deferred()
            return None
        return f
    fires.method('callback', fire(1))
    fires.method('errback', fire(2))
    result = h.val('result')
    how = h.choice('how', ['callback', 'errback'])
    if asks:
        def make():
            w = fires.new()
            w.fired = 0
            return w
        h.model(Deferred, make)
    h.root(p)

    def inv(ctx):
        i = ctx.i
        return [('the first i waiters were fired once', h.forall_int(0, i, lambda j: h.eq(fires.get(h.at(ws, j), 'fired'), 1))),
                ('with the result', h.forall_int(0, i, lambda j: h.And(h.eq(fires.get(h.at(ws, j), 'how'), 1 if how == 'callback' else 2),
                                                                   h.same(fires.get(h.at(ws, j), 'value'), result)))),
                ('in order', h.forall_int(0, i, lambda j: h.eq(fires.get(h.at(ws, j), 'order'), j))),
                ('the clock counts firings', h.eq(log.get(), i)),
                ('Deferreds asked for meanwhile are new and not fired', h.forall_int(0, h.len(kept.value), lambda j: h.And(h.eq(fires.get(h.at(kept.value, j), 'fired'), 0), fires.fresh(h.at(kept.value, j))))),
                ('nobody asks', True if asks else h.len(kept.value) == 0),
                ('the others were not', h.forall_int(i, n, lambda j: h.eq(fires.get(h.at(ws, j), 'fired'), 0)))]
    h.invariant(inv)
    o = h.call(getattr(p, how), result)
    h.ensure('firing returns', o.ok, o)
    h.ensure('every waiter is fired exactly once', h.forall_int(0, n, lambda j: h.eq(fires.get(h.at(ws, j), 'fired'), 1)))
    h.ensure('with exactly that result, the right way', h.forall_int(0, n, lambda j: h.And(
        h.eq(fires.get(h.at(ws, j), 'how'), 1 if how == 'callback' else 2), h.same(fires.get(h.at(ws, j), 'value'), result))))
    h.ensure('in the order they were handed out', h.forall_int(0, n, lambda j: h.eq(fires.get(h.at(ws, j), 'order'), j)))
    if asks:
        h.ensure('Deferreds handed out during the firing are not fired by it',
                 h.forall_int(0, h.len(kept.value), lambda j: h.eq(fires.get(h.at(kept.value, j), 'fired'), 0)))
        h.ensure('no earlier waiter is left waiting', h.forall_int(0, h.len(kept.value), lambda j: fires.fresh(h.at(kept.value, j))))
    else:
        h.ensure('and nobody is left waiting', h.len(kept.value) == 0)


def c_conc(h):
    p = PendingEvent()
    got = []
    n = h.int('n', 0, 6)
    ds = [p.deferred() for _ in range(n)]
    for i, d in enumerate(ds):
        d.addBoth(lambda r, i=i: got.append((i, r)))
    if h.bool('fail'):
        f = Failure(Boom())
        p.errback(f)
        h.ensure('each once, in order, with the failure', [i for i, r in got] == list(range(n)) and all(r is f or r.value is f.value for i, r in got), got)
    else:
        v = h.any('v')
        p.callback(v)
        h.ensure('each once, in order, with the result', [i for i, r in got] == list(range(n)) and all(r is v for i, r in got), got)


@contract('C08', 'handing out')
def c_deferred(h):
    """each call hands out a new waiter, after all the others"""
    p = PendingEvent()
    n = h.choice('n', 3)
    ds = [p.deferred() for _ in range(n + 1)]
    h.ensure('a fresh Deferred each time', all(isinstance(d, Deferred) and not d.called for d in ds)
             and all(ds[i] is not ds[j] for i in range(n + 1) for j in range(i)))


@contract('C08', 'handing out, any number')
def c_deferred_any(h):
    h.require(h.sym)
    p = PendingEvent()
    kept = waiting(h, p)
    cls = h.obj_class('Waiter', fired='int')
    kept.value = h.list('waiters', cls.kind)
    old = h.copy(kept.value)
    made = []

    def make():
        made.append(cls.new())
        return made[-1]
    h.model(Deferred, make)
    o = h.call(p.deferred)
    h.ensure('one Deferred is made and handed out', o.ok and len(made) == 1 and h.same(o.value, made[0]), o)
    h.ensure('it waits last', h.And(h.len(kept.value) == h.len(old) + 1, h.same(h.at(kept.value, h.len(old)), made[0])))
    h.ensure('the others keep their places', h.forall_int(0, h.len(old), lambda i: h.same(h.at(kept.value, i), h.at(old, i))))


@contract('C08', 'firing while firing')
def c_reenter(h):
    """waiters that, while being fired, ask for another Deferred, or fire the
    event again, or fail"""
    p = PendingEvent()
    n = h.choice('n', 3) + 1
    v1, v2 = h.any('v1'), h.any('v2')
    got = []
    late = []
    acts = [h.choice('act%d' % i, ['nothing', 'ask again', 'fire again', 'raise']) for i in range(n)]

    def waiter(i, act):
        def f(r):
            got.append((i, r))
            if act == 'ask again':
                d = p.deferred()
                k = len(late)
                late.append([])
                d.addBoth(late[k].append)
            elif act == 'fire again':
                p.callback(v2)
            elif act == 'raise':
                raise Boom()
        return f
    for i in range(n):
        d = p.deferred()
        d.addBoth(waiter(i, acts[i]))
        d.addErrback(lambda f: f.trap(Boom) and None)
    o = h.call(p.callback, v1)
    h.ensure('firing returns', o.ok, o)
    h.ensure('each waiter once, in order', [i for i, r in got] == list(range(n)))
    for i, r in got:
        h.ensure('with the result', h.same(r, v1))
    fired = []
    # a Deferred asked for during the firing waits for the next firing
    pending = 0
    for i in range(n):
        if acts[i] == 'ask again':
            again = 'fire again' in acts[i + 1:]
            k = len([a for a in acts[:i] if a == 'ask again'])
            if again:
                h.ensure('a later firing fires it', len(late[k]) == 1 and h.same(late[k][0], v2))
            else:
                h.ensure('it is not fired by this firing', late[k] == [])
                pending += 1
    v3 = h.any('v3')
    p.callback(v3)
    for l in late:
        h.ensure('fired exactly once in the end', len(l) == 1)
    p.callback(v3)
    for l in late:
        h.ensure('never twice', len(l) == 1)


@contract('C08', 'errback with the current exception')
def c_current(h):
    p = PendingEvent()
    got = []
    for i in range(h.choice('n', 3)):
        p.deferred().addErrback(got.append)
    b = Boom()
    try:
        raise b
    except Boom:
        p.errback()
    h.ensure('the current exception is the failure', all(f.value is b for f in got))
    h.ensure('nobody waits', True)


@search('C08', 'histories')
def s_hist(h):
    r = h.rng
    p = PendingEvent()
    fired = {}
    waiting = []
    ops = []
    current = []
    counter = [0]

    def ask():
        k = counter[0]
        counter[0] += 1
        fired[k] = []
        d = p.deferred()
        waiting.append(k)
        act = r.choice(['none', 'none', 'ask', 'fire'])

        def cb(x):
            fired[k].append(x)
            order.append(k)
            if act == 'ask' and counter[0] < 30:
                ask()
            elif act == 'fire' and depth[0] < 3:
                fire()
        d.addBoth(cb)
        d.addErrback(lambda f: None)
    order = []
    depth = [0]

    def fire():
        depth[0] += 1
        due = list(waiting)
        del waiting[:]
        start = len(order)
        if r.random() < .5:
            val = r.choice([None, 0, object()])
            p.callback(val)
            ok = lambda x: x is val
        else:
            f = Failure(Boom())
            p.errback(f)
            ok = lambda x: isinstance(x, Failure) and x.value is f.value
        for k in due:
            h.ensure('each waiter fired exactly once with it', len(fired[k]) == 1 and ok(fired[k][0]), (k, fired[k]))
        mine = [k for k in order[start:] if k in due]
        h.ensure('in order', mine == due, (mine, due))
        depth[0] -= 1
    for _ in range(r.randint(1, 12)):
        op = r.choice(['ask', 'ask', 'fire'])
        ops.append(op)
        h.note('ops', ops)
        (ask if op == 'ask' else fire)()
        for k in waiting:
            h.ensure('waiters not fired yet', fired[k] == [], k)
        h.ensure('never twice', all(len(v) <= 1 for v in fired.values()))
