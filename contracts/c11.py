"""C11: boxes sent through a route carry exactly its remote name (epsilon/amprouter.py)."""
from pyded.api import contract, search
from contracts.routing import Recv, Sender, World, Route, Router, RouteNotConnected, _ROUTE, unspecified


def setup(h, started=True):
    log = []
    router = Router()
    recv = Recv(log, 'r')
    route = router.bindRoute(recv, h.choice('local name', [u'a', None]))
    sender = Sender(log)
    if started:
        router.startReceivingBoxes(sender)
    return log, router, recv, route, sender


@contract('C11', 'sending')
def c_send(h):
    """any box, any remote name (the latest of any two connections)"""
    log, router, recv, route, sender = setup(h)
    box = h.dict('box', 'str', 'str')
    b0 = h.copy(box)
    how = h.choice('connected', ['never', 'once', 'twice'])
    remote = None
    for _ in range({'never': 0, 'once': 1, 'twice': 2}[how]):
        remote = h.str('remote') if h.choice('named', 2) else None
        route.connectTo(remote)
    del log[:]
    o = h.call(route.sendBox, box)
    if how == 'never':
        h.ensure('refused when not connected', o.raised(RouteNotConnected), o)
        h.ensure('nothing is sent', log == [])
        h.ensure('and the box is untouched', h.dict_same(box, b0))
        return
    h.ensure('accepted', o.ok, o)
    h.ensure('passed on exactly once', len(log) == 1 and log[0][0] == 'send')
    sent = log[0][1]
    if remote is None:
        h.ensure('unchanged when the remote name is None', h.dict_same(sent, b0))
    else:
        h.ensure('with the remote name as its route', _ROUTE in sent and h.eq(sent[_ROUTE], remote))
        h.ensure('everything else unchanged', h.dict_same(sent, b0, but=[_ROUTE]))


@contract('C11', 'sending in any state')
def c_send_any(h):
    """a route in an arbitrary state of connection, in an arbitrary table"""
    if not h.sym:
        return s_trial(h)
    w = World(h, True)
    p = w.P.some('route')
    box = h.dict('box', 'str', 'any')
    b0 = h.copy(box)
    remote = w.P.get(p, 'remoteRouteName')
    sent = []
    w.set_sender(type('S', (object,), {'sendBox': lambda self, b: sent.append(b)})())
    o = h.call(Route.sendBox, p, box)
    if o.ok:
        h.ensure('only through a connected route', w.connected(p))
        h.ensure('passed on exactly once', len(sent) == 1)
        h.ensure('stamped with the remote name', h.Or(h.same(remote, None), h.And(_ROUTE in sent[0], h.same(h.item(sent[0], _ROUTE), remote))))
        h.ensure('no route added when it is None', h.Or(h.Not(h.same(remote, None)), h.dict_same(sent[0], b0)))
        h.ensure('everything else unchanged', h.dict_same(sent[0], b0, but=[_ROUTE]))
    else:
        h.ensure('RouteNotConnected', o.raised(RouteNotConnected), o)
        h.ensure('only when not connected', h.Not(w.connected(p)))
        h.ensure('nothing sent', sent == [])
    h.ensure('the name stays', h.same(w.P.get(p, 'remoteRouteName'), remote))


@contract('C11', 'connecting')
def c_connect(h):
    if not h.sym:
        return s_trial(h)
    w = World(h, h.choice('started', 2) == 1)
    w.R.method('startReceivingBoxes', lambda me, s: None)
    p, q = w.P.some('route'), w.P.some('other')
    h.assume(h.Not(h.same(p, q)))
    old = w.P.get(q, 'remoteRouteName')
    name = h.any('name')
    o = h.call(Route.connectTo, p, name)
    h.ensure('connected', o.ok, o)
    h.ensure('the remote name is the one given', h.same(w.P.get(p, 'remoteRouteName'), name))
    h.ensure('other routes keep theirs', h.same(w.P.get(q, 'remoteRouteName'), old))
    h.ensure('the bindings are unchanged', h.dict_same(w.mapping(), w.t0))


@contract('C11', 'errors')
def c_error(h):
    log, router, recv, route, sender = setup(h)
    f = h.any('failure')
    if h.choice('connected', 2):
        route.connectTo(u'x')
    del log[:]
    o = h.call(route.unhandledError, f)
    h.ensure('accepted', o.ok, o)
    h.ensure('passed on once, unchanged', len(log) == 1 and log[0][0] == 'error' and h.same(log[0][1], f))


def s_trial(h):
    r = h.rng
    log = []
    router = Router()
    sender = Sender(log)
    routes = [router.bindRoute(Recv(log, i), n) for i, n in enumerate([u'a', None, u'b'])]
    remote = ['unset'] * 3
    started = False
    ops = []
    for _ in range(12):
        i = r.randrange(3)
        op = r.choice(['connect', 'send', 'send', 'error', 'start', 'unbind'])
        ops.append((op, i))
        h.inputs['ops'] = ops
        if op == 'connect':
            remote[i] = r.choice([None, u'', u'x', u'y', u'0'])
            ops[-1] = (op, i, remote[i])
            routes[i].connectTo(remote[i])
        elif op == 'start' and not started:
            started = True
            router.startReceivingBoxes(sender)
        elif op == 'send' and (started or remote[i] == 'unset'):
            box = {k: r.choice(['', '1']) for k in r.sample(['a', 'b', '_x', 'route', _ROUTE], r.randint(0, 3))}
            want = dict(box)
            del log[:]
            o = h.call(routes[i].sendBox, box)
            sent = [x for x in log if x[0] == 'send']
            if remote[i] == 'unset':
                h.ensure('RouteNotConnected', o.raised(RouteNotConnected) and not sent and box == want, (o, ops))
            else:
                if remote[i] is not None:
                    want[_ROUTE] = remote[i]
                h.ensure('sent once, stamped', o.ok and len(sent) == 1 and sent[0][2] == want, (sent, want, ops))
        elif op == 'error' and started:
            f = object()
            del log[:]
            routes[i].unhandledError(f)
            h.ensure('error passed on', log == [('error', f)])


@search('C11', 'histories')
def s_h(h):
    s_trial(h)
