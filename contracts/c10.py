"""C10: a routed box reaches exactly the receiver bound to its route (epsilon/amprouter.py)."""
from pyded.api import contract, search
from contracts.routing import Recv, Sender, World, Route, Router, _ROUTE


@contract('C10', 'delivery')
def c_deliver(h):
    """any table of routes, any box"""
    if not h.sym:
        return s_trial(h)
    w = World(h, True)
    got = []
    w.R.method('ampBoxReceived', lambda me, box: got.append((me, box, h.copy(box))))
    box = h.dict('box', 'str', 'str')
    b0 = h.copy(box)
    routed = h.bool('routed')
    h.assume(h.Iff(routed, _ROUTE in b0))
    o = h.call(w.router.ampBoxReceived, box)
    if routed:
        name = h.item(b0, _ROUTE)
    else:
        name = None
    if o.ok:
        h.ensure('delivered only if the route is bound', name in w.t0)
        h.ensure('delivered exactly once', len(got) == 1)
        h.ensure('to the receiver bound to the route', h.same(got[0][0], w.P.get(h.item(w.t0, name), 'receiver')))
        h.ensure('the route key is removed', h.Not(_ROUTE in got[0][2]))
        h.ensure('everything else is unchanged', h.dict_same(got[0][2], b0, but=[_ROUTE]))
    else:
        h.ensure('undeliverable boxes raise KeyError', o.raised(KeyError), o)
        h.ensure('only when the route is not bound', h.Not(name in w.t0))
        h.ensure('and reach nobody', got == [])
    h.ensure('the bindings are unchanged', h.dict_same(w.mapping(), w.t0))


@contract('C10', 'binding')
def c_bind(h):
    """any table; a new name or one bound before; before and after the router's start"""
    if not h.sym:
        return s_trial(h)
    w = World(h, h.choice('started', 2) == 1)
    recv = w.R.some('receiver')
    name = h.any('name')
    o = h.call(w.router.bindRoute, recv, name)
    h.ensure('bound', o.ok, o)
    m = w.mapping()
    r = o.value
    h.ensure('the name is bound to the new route', h.And(name in m, h.same(h.item(m, name), r)))
    h.ensure('a route to that receiver, under that name', h.And(h.same(r.receiver, recv), h.eq(r.localRouteName, name), r.router is w.router))
    h.ensure('not connected', h.same(r.remoteRouteName, w.unspecified))
    h.ensure('no other binding changes', h.dict_same(m, w.t0, but=[name]))


@contract('C10', 'unbinding')
def c_unbind(h):
    if not h.sym:
        return s_trial(h)
    w = World(h, h.choice('started', 2) == 1)
    name = h.any('name')
    h.assume(name in w.t0)
    r = h.item(w.t0, name)
    o = h.call(Route.unbind, r)
    h.ensure('unbound', o.ok, o)
    m = w.mapping()
    h.ensure('the name is no longer bound', h.Not(name in m))
    h.ensure('no other binding changes', h.dict_same(m, w.t0, but=[name]))


@contract('C10', 'starting keeps the bindings')
def c_start(h):
    if not h.sym:
        return s_trial(h)
    w = World(h, False)
    w.R.method('startReceivingBoxes', lambda me, s: None)
    o = h.call(w.router.startReceivingBoxes, w.sender)
    h.ensure('started', o.ok, o)
    h.ensure('every binding made before is in force', h.dict_same(w.mapping(), w.t0))


def s_trial(h):
    r = h.rng
    log = []
    router = Router()
    names = [None, u'', u'a', u'b', u'0', u'1', u'_route', u'\xe9']
    bound = {}
    routes = []
    started = False
    ops = []
    for _ in range(r.randint(2, 14)):
        op = r.choice(['bind', 'bind', 'auto', 'unbind', 'start', 'box', 'box', 'box', 'connect'])
        ops.append(op)
        h.inputs['ops'] = ops
        if op in ('bind', 'auto'):
            v = Recv(log, len(routes))
            if op == 'bind':
                n = r.choice(names)
                p = router.bindRoute(v, n)
            else:
                p = router.bindRoute(v)
                n = p.localRouteName
                h.ensure('fresh name', n not in bound and isinstance(n, str), n)
            ops[-1] = (op, n)
            bound[n] = v
            routes.append((n, p, v))
        elif op == 'unbind' and routes:
            n, p, v = r.choice(routes)
            if bound.get(n) is v:
                ops[-1] = (op, n)
                p.unbind()
                del bound[n]
        elif op == 'start' and not started:
            router.startReceivingBoxes(Sender(log))
            started = True
        elif op == 'connect' and routes:
            n, p, v = r.choice(routes)
            p.connectTo(r.choice([None, u'r']))
        elif op == 'box' and started:
            n = r.choice(names + list(bound))
            box = {'k%d' % i: r.choice(['', 'v']) for i in range(r.randint(0, 3))}
            want = dict(box)
            if n is not None:
                box[_ROUTE] = n
            ops[-1] = (op, n)
            del log[:]
            o = h.call(router.ampBoxReceived, box)
            seen = [x for x in log if x[0] == 'box']
            if n in bound:
                h.ensure('delivered exactly once to the receiver bound', o.ok and len(seen) == 1 and seen[0][1] is bound[n], (o, seen, ops))
                h.ensure('with the route removed and the rest unchanged', seen[0][3] == want and seen[0][2] is box, (seen, want))
            else:
                h.ensure('KeyError and nobody sees it', o.raised(KeyError) and not seen, (o, seen, ops))


@search('C10', 'histories')
def s_h(h):
    s_trial(h)
