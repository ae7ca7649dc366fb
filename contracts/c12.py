"""C12: route receivers start once, only when both ends are ready, and all stop (epsilon/amprouter.py)."""
from pyded.api import contract, search
from contracts.routing import Recv, Sender, World, Route, Router


def counting(h, w):
    """receivers record starts and stops on the route (their sender), and check who is started with what"""
    P, R = w.P, w.R
    bad = h.ghost('bad', False)

    def start(me, sender, *rest):
        bad.set(h.Or(bad.get(), bool(rest), h.Not(h.same(P.get(sender, 'receiver'), me)),
                     w.get_sender() is not w.sender, h.Not(w.connected(sender))))
        sender.starts = sender.starts + 1
        w.act(sender)
    R.method('startReceivingBoxes', start)
    w.act = lambda p: None
    w.bad = bad


def collected(h, w, ctx, due, C):
    """while the table is walked: nothing is started, and a list may collect the connected routes met so far"""
    P, t0, i = w.P, w.t0, ctx.i
    name = lambda l, j: P.get(h.at(l, j), 'localRouteName')
    # C counts the connected routes before a position
    h.assume(h.And(h.eq(C(0), 0), h.forall('any', lambda k: h.Implies(
        k in t0, h.eq(C(ctx.pos(k) + 1), C(ctx.pos(k)) + h.Ite(due(h.item(t0, k)), 1, 0))))))
    out = [('nothing is started yet', h.forall(P.kind, lambda p: h.eq(P.get(p, 'starts'), 0)))]
    for n, l in sorted(ctx.locals.items()):
        if isinstance(l, list):
            out += [(n + ' is no longer than the routes met', h.len(l) <= i),
                    (n + ' holds connected routes met, in order', h.forall_int(0, h.len(l), lambda j: h.And(
                        due(h.at(l, j)), name(l, j) in t0, h.same(h.item(t0, name(l, j)), h.at(l, j)),
                        ctx.pos(name(l, j)) < i, ctx.pos(name(l, j)) >= j,
                        h.Implies(j > 0, ctx.pos(name(l, j)) > ctx.pos(name(l, j - 1)))))),
                    (n + ' is strictly ordered', h.forall_int(0, h.len(l), lambda j: h.forall_int(0, j, lambda m: ctx.pos(name(l, m)) < ctx.pos(name(l, j))))),
                    (n + ' has a place for every connected route met', h.eq(h.len(l), C(i))),
                    (n + ' holds every connected route met', h.forall('any', lambda k: h.Implies(
                        h.And(k in t0, ctx.pos(k) < i, due(h.item(t0, k))),
                        h.And(C(ctx.pos(k)) >= 0, C(ctx.pos(k)) < h.len(l), h.same(h.at(l, C(ctx.pos(k))), h.item(t0, k))))))]
    return out


@contract('C12', 'starting a router with any number of routes')
def c_start(h):
    if not h.sym:
        return s_trial(h)
    w = World(h, False)
    counting(h, w)
    P, t0 = w.P, w.t0
    h.assume(h.forall(P.kind, lambda p: h.eq(P.get(p, 'starts'), 0)))

    C = h.func('connected before', 'int', 'int')

    def inv(ctx):
        i = ctx.i
        out = [('only right starts', h.Not(w.bad.get())),
               ('routes are started at most once', h.forall('any', lambda k: h.Implies(k in t0, P.get(h.item(t0, k), 'starts') <= 1))),
               ('only connected routes are started', h.forall('any', lambda k: h.Implies(h.And(k in t0, h.Not(w.connected(h.item(t0, k)))), h.eq(P.get(h.item(t0, k), 'starts'), 0))))]
        s = ctx.seq
        if hasattr(s, 'p'):
            out += [('the connected routes met so far are started', h.forall('any', lambda k: h.Implies(
                        h.And(k in t0, w.connected(h.item(t0, k))), h.eq(P.get(h.item(t0, k), 'starts'), h.Ite(ctx.pos(k) < i, 1, 0)))))]
            out += collected(h, w, ctx, w.connected, C)
        else:
            # walking a list of routes
            out += [('the first i are started', h.forall_int(0, i, lambda j: h.eq(P.get(ctx.at(j), 'starts'), 1))),
                    ('the others are not', h.forall_int(i, ctx.n, lambda j: h.eq(P.get(ctx.at(j), 'starts'), 0)))]
        return out
    h.invariant(inv)
    o = h.call(w.router.startReceivingBoxes, w.sender)
    h.ensure('started', o.ok, o)
    h.ensure('each receiver started with its own route, the router ready', h.Not(w.bad.get()))
    h.ensure('every connected route is started exactly once', h.forall('any', lambda k: h.Implies(
        h.And(k in t0, w.connected(h.item(t0, k))), h.eq(P.get(h.item(t0, k), 'starts'), 1))))
    h.ensure('no other route is started', h.forall('any', lambda k: h.Implies(
        h.And(k in t0, h.Not(w.connected(h.item(t0, k)))), h.eq(P.get(h.item(t0, k), 'starts'), 0))))
    h.ensure('the router is started', w.get_sender() is w.sender and h.dict_same(w.mapping(), t0))


@contract('C12', 'connecting a route')
def c_connect(h):
    """a route connects: started now if the router is started, otherwise left to the router's start"""
    if not h.sym:
        return s_trial(h)
    started = h.choice('started', 2) == 1
    w = World(h, started)
    counting(h, w)
    P = w.P
    p = P.some('route')
    h.assume(h.Not(w.connected(p)))
    h.assume(h.forall(P.kind, lambda q: h.eq(P.get(q, 'starts'), 0)))
    name = h.str('name') if h.choice('named', 2) else None
    o = h.call(Route.connectTo, p, name)
    h.ensure('connected', o.ok, o)
    h.ensure('connected indeed', w.connected(p))
    h.ensure('the right receiver, with the route as sender, connected, the router ready', h.Not(w.bad.get()))
    h.ensure('started exactly when the router is', h.eq(P.get(p, 'starts'), 1 if started else 0))
    q = P.some('other')
    h.ensure('no other route is started', h.Or(h.same(p, q), h.eq(P.get(q, 'starts'), 0)))


@contract('C12', 'binding starts nothing')
def c_bind(h):
    if not h.sym:
        return s_trial(h)
    w = World(h, h.choice('started', 2) == 1)
    counting(h, w)
    P = w.P
    h.assume(h.forall(P.kind, lambda q: h.eq(P.get(q, 'starts'), 0)))
    recv = w.R.some('receiver')
    o = h.call(w.router.bindRoute, recv, h.any('name'))
    h.ensure('bound, not connected', o.ok and h.same(o.value.remoteRouteName, w.unspecified), o)
    h.ensure('nothing is started', h.And(h.Not(w.bad.get()), h.forall(P.kind, lambda q: h.eq(P.get(q, 'starts'), 0))))


def meanwhile(h, w, *more):
    """what a receiver may do while it is started or stopped (by the contracts of connecting, binding, unbinding): the
    routes not connected before may be connected, and so started once; routes may be bound and unbound"""
    P = w.P
    old = P.havoc('remoteRouteName', 'starts')
    was = lambda p: h.Not(h.same(old(p, 'remoteRouteName'), w.unspecified))
    h.assume(h.forall(P.kind, lambda p: h.And(
        h.Implies(was(p), h.And(w.connected(p), h.eq(P.get(p, 'starts'), old(p, 'starts')))),
        h.Implies(h.Not(was(p)), h.eq(P.get(p, 'starts'), old(p, 'starts') + h.Ite(w.connected(p), 1, 0))))))
    t = w.mapping()
    h.havoc_dict(t)
    h.assume(h.forall('any', lambda k: h.Implies(k in t, h.same(P.get(h.item(t, k), 'localRouteName'), k))))


@contract('C12', 'starting a router whose receivers act meanwhile')
def c_start_acting(h):
    if not h.sym:
        return s_trial(h)
    w = World(h, False)
    counting(h, w)
    P, t0 = w.P, w.t0
    h.assume(h.forall(P.kind, lambda p: h.eq(P.get(p, 'starts'), 0)))
    before = P.snapshot()
    due = lambda p: h.Not(h.same(before(p, 'remoteRouteName'), w.unspecified))
    w.act = lambda p: meanwhile(h, w)

    C = h.func('connected before', 'int', 'int')

    def inv(ctx):
        i = ctx.i
        out = [('only right starts', h.Not(w.bad.get())),
               ('routes connected before stay so', h.forall(P.kind, lambda p: h.Implies(due(p), w.connected(p)))),
               ('routes connected meanwhile are started once', h.forall(P.kind, lambda p: h.Implies(
                   h.Not(due(p)), h.eq(P.get(p, 'starts'), h.Ite(w.connected(p), 1, 0)))))]
        s = ctx.seq
        if hasattr(s, 'p'):
            out += collected(h, w, ctx, due, C)
        else:
            out += [('the first i are started', h.forall_int(0, i, lambda j: h.eq(P.get(ctx.at(j), 'starts'), 1))),
                    ('the others are not', h.forall_int(i, ctx.n, lambda j: h.eq(P.get(ctx.at(j), 'starts'), h.Ite(due(ctx.at(j)), 0, h.Ite(w.connected(ctx.at(j)), 1, 0)))))]
        return out
    h.invariant(inv)
    o = h.call(w.router.startReceivingBoxes, w.sender)
    h.ensure('started', o.ok, o)
    h.ensure('each receiver started with its own route, the router ready', h.Not(w.bad.get()))
    h.ensure('every route connected before is started exactly once', h.forall('any', lambda k: h.Implies(
        h.And(k in t0, due(h.item(t0, k))), h.eq(P.get(h.item(t0, k), 'starts'), 1))))
    h.ensure('every route connected meanwhile is started exactly once, no other is', h.forall('any', lambda k: h.Implies(
        h.And(k in t0, h.Not(due(h.item(t0, k)))), h.eq(P.get(h.item(t0, k), 'starts'), h.Ite(w.connected(h.item(t0, k)), 1, 0)))))


@contract('C12', 'stopping a router with any number of routes')
def c_stop(h):
    if not h.sym:
        return s_trial(h)
    stopping(h, False)


@contract('C12', 'stopping a router whose receivers act meanwhile')
def c_stop_acting(h):
    if not h.sym:
        return s_trial(h)
    stopping(h, True)


def stopping(h, acting):
    w = World(h, True)
    P, R, t0 = w.P, w.R, w.t0
    # receivers count their stops; each route has its own receiver here
    rec = h.func('route of receiver', R.kind, P.kind)
    h.assume(h.forall('any', lambda k: h.Implies(k in t0, h.same(rec(P.get(h.item(t0, k), 'receiver')), h.item(t0, k)))))
    h.assume(h.forall(P.kind, lambda p: h.eq(P.get(p, 'stops'), 0)))
    why = h.val('reason')

    def stop(me, reason):
        p = rec(me)
        p.stops = p.stops + 1
        p.reason = reason
        if acting:
            meanwhile(h, w)
    R.method('stopReceivingBoxes', stop)

    def bound(l, j):
        return P.get(h.at(l, j), 'localRouteName')

    def inv(ctx):
        i = ctx.i
        out = []
        if hasattr(ctx.seq, 'p'):
            out += [('exactly those met are stopped', h.forall('any', lambda k: h.Implies(k in t0, h.eq(
                        P.get(h.item(t0, k), 'stops'), h.Ite(ctx.pos(k) < i, 1, 0))))),
                    ('with the reason', h.forall('any', lambda k: h.Implies(h.And(k in t0, ctx.pos(k) < i), h.same(P.get(h.item(t0, k), 'reason'), why)))),
                    ('none is stopped yet', h.forall('any', lambda k: h.Implies(k in t0, h.eq(P.get(h.item(t0, k), 'stops'), 0))))]
            for n, l in sorted(ctx.locals.items()):
                if isinstance(l, list):
                    out += [(n + ' is as long as the routes met', h.eq(h.len(l), i)),
                            (n + ' holds the routes met', h.forall('any', lambda k, l=l: h.Implies(h.And(k in t0, ctx.pos(k) < i), h.same(h.at(l, ctx.pos(k)), h.item(t0, k))))),
                            (n + ' holds routes of the table', h.forall_int(0, h.len(l), lambda j, l=l: h.And(
                                bound(l, j) in t0, h.same(h.item(t0, bound(l, j)), h.at(l, j)), h.eq(ctx.pos(bound(l, j)), j))))]
        else:
            out += [('the first i are stopped', h.forall_int(0, i, lambda j: h.And(h.eq(P.get(ctx.at(j), 'stops'), 1), h.same(P.get(ctx.at(j), 'reason'), why)))),
                    ('the others are not', h.forall_int(i, ctx.n, lambda j: h.eq(P.get(ctx.at(j), 'stops'), 0)))]
        return out
    h.invariant(inv)
    o = h.call(w.router.stopReceivingBoxes, why)
    h.ensure('stopped', o.ok, o)
    h.ensure('every bound receiver is stopped exactly once', h.forall('any', lambda k: h.Implies(k in t0, h.eq(P.get(h.item(t0, k), 'stops'), 1))))
    h.ensure('with the reason given', h.forall('any', lambda k: h.Implies(k in t0, h.same(P.get(h.item(t0, k), 'reason'), why))))


def s_trial(h):
    s_reent(h)


def s_reent(h, h_ops=None):
    """bind, connect, start, stop in any order, with receivers that do the same while started or stopped"""
    r = h.rng
    log = []
    router = Router()
    routes = []           # (route, recv)
    connected = {}        # recv -> True when its route is connected (once)
    state = ['new']
    names = [u'a', u'b', u'c', None, u'd', u'e', u'f', u'g']
    bound = {}
    snapshot = []
    ops = []

    def bind(depth):
        free = [n for n in names if n not in bound]
        if not free or len(routes) > 7 or state[0] == 'stopped':
            return
        n = r.choice(free)
        acts = {}
        if r.random() < .5 and depth < 2:
            acts['start'] = lambda me: action(depth + 1)
        if r.random() < .5 and depth < 2:
            acts['stop'] = lambda me: action(depth + 1)
        v = Recv(log, len(routes), acts)
        ops.append(('bind', len(routes), n, depth))
        p = router.bindRoute(v, n)
        routes.append((p, v, n))
        bound[n] = v

    def connect(depth):
        todo = [(p, v) for p, v, n in routes if v not in connected]
        if todo:
            p, v = r.choice(todo)
            ops.append(('connect', v.name, depth))
            connected[v] = True
            p.connectTo(r.choice([None, u'x', u'']))

    def unbind(depth):
        todo = [(p, v, n) for p, v, n in routes if bound.get(n) is v]
        if todo:
            p, v, n = r.choice(todo)
            ops.append(('unbind', v.name, depth))
            p.unbind()
            del bound[n]

    def action(depth):
        if state[0] == 'stopped':
            return
        for _ in range(r.randint(0, 2)):
            r.choice([bind, connect, connect, unbind])(depth)

    def check():
        for p, v, n in routes:
            starts = [x for x in log if x[0] == 'start' and x[1] is v]
            want = v in connected and state[0] != 'new'
            if v in gone:
                continue
            h.ensure('started exactly once, when connected and the router is started', len(starts) == (1 if want else 0), (v, starts, ops))
            h.ensure('with its route', all(x[2] is p for x in starts))
    gone = set()
    h.inputs['ops'] = ops
    sender = Sender(log)
    for _ in range(r.randint(1, 10)):
        op = r.choice(['bind', 'bind', 'connect', 'connect', 'unbind', 'start', 'stop'])
        if op == 'bind':
            bind(0)
        elif op == 'connect':
            connect(0)
        elif op == 'unbind':
            before = dict(bound)
            unbind(0)
            if state[0] == 'new':
                gone.update(v for n, v in before.items() if n not in bound)
        elif op == 'start' and state[0] == 'new':
            ops.append('start')
            state[0] = 'started'
            o = h.call(router.startReceivingBoxes, sender)
            h.ensure('start returns', o.ok, (o, ops))
        elif op == 'stop' and state[0] == 'started':
            ops.append('stop')
            due = list(bound.values())
            why = object()
            start = len(log)
            o = h.call(router.stopReceivingBoxes, why)
            h.ensure('stop returns', o.ok, (o, ops))
            state[0] = 'stopped'
            for v in due:
                h.ensure('stopped exactly once, with the reason', [x[2] for x in log[start:] if x[0] == 'stop' and x[1] is v] == [why], (v, ops))
            return
        check()


@search('C12', 'interleavings with re-entrant receivers', weight=2)
def s_h(h):
    s_reent(h)
