"""C13: generated route identifiers never collide (epsilon/amprouter.py)."""
import itertools
from pyded.api import contract, search
from contracts.routing import Recv, Sender, World, Route, Router


class Counter(object):
    """itertools.count() at an arbitrary position (proof mode)"""
    _pd_ok_ = True

    def __init__(self, at):
        self.at = at

    def __next__(self):
        v = self.at
        self.at = v + 1
        return v
    next = __next__

    def __iter__(self):
        return self


def advancing(h, ctx, c, n):
    out = [('the counter only advances', c.at >= n), ('the counter has advanced', c.at > n)]
    for name, v in sorted(ctx.locals.items()):
        if isinstance(v, str):
            out.append((name + ' is the identifier drawn last', h.eq(v, str(c.at - 1))))
        elif isinstance(v, int) and not isinstance(v, bool):
            out.append((name + ' is the number drawn last', h.eq(v, c.at - 1)))
    return out


@contract('C13', 'fresh identifiers')
def c_fresh(h):
    """any set of bound names, any number of identifiers generated before: the
    identifiers generated before are those of numbers below the counter"""
    if not h.sym:
        return s_trial(h)
    w = World(h, h.choice('started', 2) == 1)
    n = h.int('generated so far', 0)
    c = w.set_counter(Counter(n))
    text = lambda i: str(i)

    h.invariant(lambda ctx: advancing(h, ctx, c, n))
    o = h.call(w.router.createRouteIdentifier)
    h.ensure('an identifier is returned', o.ok, o)
    h.ensure('a text', isinstance(o.value, str))
    h.ensure('not the name of a bound route', h.Not(o.value in w.t0))
    h.ensure('it is the text of a number at or after the counter, which moves past it',
             h.And(c.at > n, h.eq(o.value, text(c.at - 1))))
    j = h.int('any number drawn before', 0)
    h.assume(j < n)
    h.ensure('different from every identifier generated before', h.Not(h.eq(o.value, text(j))))
    h.ensure('generating binds nothing', h.dict_same(w.mapping(), w.t0))


@contract('C13', 'binding without a name')
def c_bind(h):
    if not h.sym:
        return s_trial(h)
    w = World(h, h.choice('started', 2) == 1)
    n = h.int('generated so far', 0)
    c = w.set_counter(Counter(n))
    h.invariant(lambda ctx: advancing(h, ctx, c, n))
    recv = w.R.some('receiver')
    o = h.call(w.router.bindRoute, recv)
    h.ensure('bound', o.ok, o)
    name = o.value.localRouteName
    m = w.mapping()
    h.ensure('under a name that was not bound', h.Not(name in w.t0))
    h.ensure('a text', isinstance(name, str))
    h.ensure('bound under it', h.And(name in m, h.same(h.item(m, name), o.value), h.same(o.value.receiver, recv)))
    h.ensure('no existing route is replaced', h.dict_same(m, w.t0, but=[name]))


def s_trial(h):
    r = h.rng
    log = []
    router = Router()
    seen = set()
    bound = {}
    started = False
    ops = []
    for _ in range(r.randint(1, 25)):
        op = r.choice(['make', 'auto', 'explicit', 'explicit', 'unbind', 'start'])
        ops.append(op)
        h.inputs['ops'] = ops
        if op == 'make':
            n = router.createRouteIdentifier()
            ops[-1] = (op, n)
            h.ensure('text', isinstance(n, str))
            h.ensure('never generated before', n not in seen, (n, ops))
            h.ensure('not bound', n not in bound, (n, ops))
            seen.add(n)
        elif op == 'auto':
            v = Recv(log, len(ops))
            p = router.bindRoute(v)
            n = p.localRouteName
            ops[-1] = (op, n)
            h.ensure('new name', isinstance(n, str) and n not in seen and n not in bound, (n, ops))
            seen.add(n)
            bound[n] = (v, p)
        elif op == 'explicit':
            n = r.choice([None, u'a'] + [str(i) for i in range(12)])
            ops[-1] = (op, n)
            v = Recv(log, len(ops))
            bound[n] = (v, router.bindRoute(v, n))
        elif op == 'unbind' and bound:
            n = r.choice(list(bound))
            bound.pop(n)[1].unbind()
        elif op == 'start' and not started:
            started = True
            router.startReceivingBoxes(Sender(log))
    if not started:
        router.startReceivingBoxes(Sender(log))
    for n, (v, p) in bound.items():
        del log[:]
        router.ampBoxReceived({'_route': n} if n is not None else {})
        h.ensure('every route still gets its boxes', [(x[0], x[1]) for x in log] == [('box', v)], (n, log, ops))


@search('C13', 'a long life', once=True)
def s_long(h):
    router = Router()
    seen = set()
    for i in range(140000):
        n = router.createRouteIdentifier()
        if n in seen:
            h.ensure('never generated before', False, (n, i))
        seen.add(n)
    h.ensure('identifiers are new', len(seen) == 140000)


@search('C13', 'histories')
def s_h(h):
    s_trial(h)
