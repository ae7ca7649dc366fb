"""C19: each juice request is resolved exactly once, by its own answer (epsilon/juice.py)."""
from twisted.internet.defer import Deferred
from twisted.internet.main import CONNECTION_LOST
from twisted.python.failure import Failure
from pyded.api import contract, search
from epsilon import juice
from epsilon.juice import Juice, JuiceBox, RemoteJuiceError, ASK, ANSWER, ERROR, ERROR_CODE, ERROR_DESCRIPTION, COMMAND
from contracts.juicing import Transport, Wire, connected, parse1


class World(object):
    """a connection with any number of outstanding requests, after any number of
    requests made (proof mode).  Deferreds are objects that record how often and
    how they are fired."""

    def __init__(self, h, live=True):
        self.h = h
        self.p, self.t = connected()
        p = self.p
        h.require(isinstance(getattr(p, '_outstandingRequests', None), dict) and hasattr(p, '_counter'))
        D = self.D = h.obj_class('Request', fired='int', how='int', right='int', puke='int')
        n = self.n = h.int('requests made', 0)
        p._counter = n
        out = self.table = h.dict('outstanding', 'str', D.kind)
        o0 = self.o0 = h.copy(out)
        tag = self.tag = lambda i: '%x' % (i,)
        num = self.num = h.func('number of tag', 'str', 'int')
        own = self.own = h.func('tag of request', D.kind, 'str')
        # the outstanding tags are tags of earlier requests; each request waits under its own tag, unfired
        h.assume(h.forall('str', lambda k: h.Implies(k in o0, h.And(
            num(k) >= 1, num(k) <= n, h.eq(k, tag(num(k))), h.eq(own(h.item(o0, k)), k),
            h.eq(D.get(h.item(o0, k), 'fired'), 0), h.Not(D.fresh(h.item(o0, k)))))))
        p._outstandingRequests = out if live else None
        self.value = None

        def fire(how):
            def f(d, v=None):
                d.fired = d.fired + 1
                d.how = how
                d.right = h.Ite(self.judge(how, v), 1, 0)
            return f
        D.method('callback', fire(1))
        D.method('errback', fire(2))
        D.method('addErrback', lambda d, f, *a: d)
        D.method('addCallback', lambda d, f, *a: d)
        self.made = []

        def make(*a):
            d = D.new()
            d.fired = 0
            self.made.append(d)
            return d
        h.model(Deferred, make)
        h.root(p)

    def judge(self, how, v):
        return True

    def outstanding(self):
        return self.p._outstandingRequests


@contract('C19', 'sending a request')
def c_send(h):
    if not h.sym:
        return s_trial(h)
    w = World(h)
    wire = Wire(h)
    p = w.p
    box = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    cmd = h.str('command')
    ask = h.choice('wants an answer', 2) == 1
    o = h.call(p.sendBoxCommand, cmd, box, ask)
    h.ensure('sent', o.ok, o)
    sent = wire.sent(w.t)
    h.ensure('exactly one box is written', len(sent) == 1 and sent[0] is not None)
    b = sent[0]
    h.ensure('it names the command', h.And(COMMAND in b, h.eq(h.item(b, COMMAND), cmd)))
    h.ensure('everything else is unchanged', h.dict_same(b, b0, but=[COMMAND, ASK]))
    out = w.outstanding()
    if ask:
        t = h.item(b, ASK)
        h.ensure('it asks', ASK in b)
        m = h.int('the number of any request made before', 1)
        h.assume(m <= w.n)
        h.ensure('with a tag no earlier request had', h.Not(h.eq(t, w.tag(m))))
        h.ensure('that the counter passes', h.And(p._counter > w.n, h.eq(t, w.tag(p._counter))))
        h.ensure('the Deferred is new and waits under that tag', len(w.made) == 1 and h.And(
            h.same(o.value, w.made[0]), t in out, h.same(h.item(out, t), o.value), h.eq(w.D.get(o.value, 'fired'), 0)))
        h.ensure('no other request is touched', h.dict_same(out, w.o0, but=[t]))
    else:
        h.ensure('nothing waits for it', h.dict_same(out, w.o0))
        h.ensure('there is no Deferred', o.value is None)
        h.ensure('and it does not ask', h.Implies(h.Not(ASK in b0), h.Not(ASK in b)))
        h.ensure('the counter never goes back', p._counter >= w.n)
    k = h.str('any outstanding tag')
    h.assume(k in w.o0)
    h.ensure('no waiting request is fired', h.eq(w.D.get(h.item(w.o0, k), 'fired'), 0))


@contract('C19', 'an answer or error arrives')
def c_answer(h):
    if not h.sym:
        return s_trial(h)
    w = World(h)
    p = w.p
    box = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    kind = h.choice('kind', ['answer', 'error', 'incomplete error'])
    if kind == 'answer':
        h.assume(ANSWER in b0)
        tag = h.item(b0, ANSWER)
    else:
        h.assume(h.Not(ANSWER in b0))
        h.assume(ERROR in b0)
        whole = h.And(ERROR_CODE in b0, ERROR_DESCRIPTION in b0)
        h.assume(whole if kind == 'error' else h.Not(whole))
        tag = h.item(b0, ERROR)

    def judge(how, v):
        if kind == 'answer':
            return how == 1 and v is box
        if not (how == 2 and isinstance(v, Failure) and isinstance(v.value, RemoteJuiceError)):
            return False
        return h.And(h.eq(v.value.errorCode, h.item(b0, ERROR_CODE)), h.eq(v.value.description, h.item(b0, ERROR_DESCRIPTION)))
    w.judge = judge
    o = h.call(p.juiceBoxReceived, box)
    k = h.str('any tag')
    h.assume(k in w.o0)
    d = h.item(w.o0, k)
    out = w.outstanding()
    mine = h.eq(k, tag)
    if kind == 'incomplete error':
        # it resolves nothing, or its own request: either way none is lost
        fired = h.eq(w.D.get(d, 'fired'), 1)
        h.ensure('an incomplete error fires no other request', h.Or(h.eq(w.D.get(d, 'fired'), 0), h.And(mine, fired)))
        h.ensure('no request stops waiting without being fired', h.Iff(h.Not(k in out), fired))
        h.ensure('the others still wait', h.dict_same(out, w.o0, but=[tag]))
        h.ensure('nothing is sent', w.t.written == [])
        return
    h.ensure('a request is fired exactly when the answer bears its tag', h.eq(w.D.get(d, 'fired'), h.Ite(mine, 1, 0)))
    h.ensure('with that answer, or that error', h.Implies(mine, h.eq(w.D.get(d, 'right'), 1)))
    h.ensure('and waits no longer; the others still do', h.dict_same(out, w.o0, but=[tag]))
    h.ensure('not any more', h.Not(tag in out))
    h.ensure('an answer to a request that is waiting is accepted', h.Implies(tag in w.o0, o.ok), o)
    h.ensure('nothing is sent', w.t.written == [])


@contract('C19', 'the connection is lost')
def c_lost(h):
    if not h.sym:
        return s_trial(h)
    w = World(h)
    p, D, o0 = w.p, w.D, w.o0
    why = Failure(CONNECTION_LOST.value if isinstance(CONNECTION_LOST, Failure) else CONNECTION_LOST)
    seen = []

    def judge(how, v):
        # meanwhile, no new request can be made
        return how == 2 and v is why and p._outstandingRequests is None
    w.judge = judge

    def inv(ctx):
        i = ctx.i
        s = ctx.seq
        if hasattr(s, 'p'):
            return [('exactly those met were fired', h.forall('str', lambda k: h.Implies(k in o0, h.eq(
                        D.get(h.item(o0, k), 'fired'), h.Ite(ctx.pos(k) < i, 1, 0))))),
                    ('with the reason', h.forall('str', lambda k: h.Implies(h.And(k in o0, ctx.pos(k) < i), h.eq(D.get(h.item(o0, k), 'right'), 1))))]
        return [('the first i were fired', h.forall_int(0, i, lambda j: h.eq(D.get(req(ctx.at(j)), 'fired'), 1))),
                ('with the reason', h.forall_int(0, i, lambda j: h.eq(D.get(req(ctx.at(j)), 'right'), 1))),
                ('the others were not', h.forall_int(i, ctx.n, lambda j: h.eq(D.get(req(ctx.at(j)), 'fired'), 0)))]

    def req(x):
        return x[1] if isinstance(x, tuple) else x
    h.invariant(inv)
    o = h.call(p.connectionLost, why)
    h.ensure('handled', o.ok, o)
    h.ensure('every waiting request is fired exactly once', h.forall('str', lambda k: h.Implies(k in o0, h.eq(D.get(h.item(o0, k), 'fired'), 1))))
    h.ensure('with the reason, and after the connection is closed to new requests', h.forall('str', lambda k: h.Implies(k in o0, h.eq(D.get(h.item(o0, k), 'right'), 1))))
    h.ensure('nothing is sent', w.t.written == [])
    h.ensure('no request is left waiting', not p._outstandingRequests)
    box = JuiceBox()
    o = h.call(p.sendBoxCommand, h.str('command'), box, h.bool('asks'))
    h.ensure('a new request fails at once', o.ok and len(w.made) == 1 and h.eq(D.get(w.made[0], 'fired'), 1) if w.made else o.ok and failed(o.value), o)
    h.ensure('without being sent', w.t.written == [])
    h.ensure('or registered', not p._outstandingRequests)


def failed(d):
    out = []
    d.addErrback(out.append)
    return len(out) == 1


# ------------------------------------------------------------------ concrete
def s_trial(h):
    """requests, answers, errors and connection loss in any order, with handlers that make further requests"""
    r = h.rng
    ops = []
    h.inputs['ops'] = ops
    p, t = connected(r.random() < .5)
    reqs = []           # [tag, deferred, results]
    tags = []
    lost = [False]

    def request(depth=0):
        n = len(t.written)
        ask = r.random() < .8
        box = JuiceBox(a='b') if r.random() < .5 else JuiceBox()
        how = r.random()
        if how < .5:
            d = p.sendBoxCommand('cmd', box, ask)
        else:
            d = p.sendCommand('cmd', **({} if ask else {'_Juice__answer': False}))
        if lost[0]:
            h.ensure('after the loss nothing is sent', len(t.written) == n, ops)
            out = []
            h.ensure('a Deferred that has failed is returned', isinstance(d, Deferred), ops)
            d.addErrback(out.append)
            h.ensure('it has failed at once', len(out) == 1, ops)
            return
        h.ensure('one box is sent', len(t.written) == n + 1, ops)
        b = parse1(t.written[-1])[0]
        if d is None:
            h.ensure('no tag when no answer is wanted', '_ask' not in b, b)
            return
        ops.append(('request', b.get('_ask'), depth))
        h.ensure('the tag is new', b['_ask'] not in tags, (b, tags))
        tags.append(b['_ask'])
        got = []
        again = depth < 2 and r.random() < .3
        handled = r.random() < .8

        def done(x):
            got.append(x)
            if again:
                request(depth + 1)
            if r.random() < .1:
                raise Boom()
            return None
        if handled:
            d.addBoth(done)
            d.addErrback(lambda f: None)
        else:
            d.addBoth(done)
        reqs.append([b['_ask'], d, got])
    for _ in range(r.randint(1, 12)):
        op = r.choice(['request', 'request', 'request', 'answer', 'answer', 'error', 'halferror', 'bogus', 'lose'])
        if op == 'request':
            request()
        elif op in ('answer', 'error') and not lost[0]:
            todo = [q for q in reqs if not q[2]]
            if todo:
                q = r.choice(todo)
                before = [len(x[2]) for x in reqs]
                ops.append((op, q[0]))
                if op == 'answer':
                    b = JuiceBox(_answer=q[0], x='y')
                else:
                    b = JuiceBox(_error=q[0], _error_code='C', _error_description='D')
                n = len(reqs)
                o = h.call(p.juiceBoxReceived, b)
                h.ensure('an answer is accepted', o.ok, (o, ops))
                h.ensure('it fires exactly its own request', [len(x[2]) for x in reqs[:n]] == [c + (x is q) for c, x in zip(before, reqs)], ops)
                if op == 'answer':
                    h.ensure('with the box', q[2][0] is b)
                else:
                    h.ensure('with the error', q[2][0].check(RemoteJuiceError) and (q[2][0].value.errorCode, q[2][0].value.description) == ('C', 'D'))
        elif op == 'halferror' and not lost[0]:
            todo = [q for q in reqs if not q[2]]
            if todo:
                # the request it names may be resolved now, or when the connection is lost, which follows
                q = r.choice(todo)
                ops.append(('halferror', q[0]))
                b = JuiceBox(_error=q[0], **r.choice([{}, {'_error_code': 'C'}, {'_error_description': 'D'}]))
                before = [len(x[2]) for x in reqs]
                n = len(reqs)
                o = h.call(p.juiceBoxReceived, b)
                h.ensure('an incomplete error fires no other request', all(
                    len(x[2]) == c or x is q for x, c in zip(reqs[:n], before)), ops)
        elif op == 'bogus' and not lost[0]:
            before = [len(x[2]) for x in reqs]
            done = [q for q in reqs if q[2]]
            tag = r.choice(done)[0] if done and r.random() < .7 else 'zz'
            ops.append(('bogus', tag))
            o = h.call(p.juiceBoxReceived, JuiceBox(_answer=tag))
            h.ensure('an answer nobody waits for fires nobody', before == [len(x[2]) for x in reqs], ops)
        elif op == 'lose' and not lost[0]:
            ops.append('lose')
            why = Failure(Boom())
            lost[0] = True
            before = [len(x[2]) for x in reqs]
            n = len(reqs)
            o = h.call(p.connectionLost, why)
            h.ensure('the loss is handled', o.ok, (o, ops))
            h.ensure('every waiting request fails once', all(len(x[2]) == 1 for x in reqs), ops)
            h.ensure('with the reason', all(x[2][0].value is why.value for x, c in zip(reqs, before) if c == 0), ops)
    for q in reqs:
        q[1].addErrback(lambda f: None)


class Boom(Exception):
    pass


@search('C19', 'a long connection', once=True)
def s_long(h):
    p, t = connected()
    t.write = lambda data: None
    box = JuiceBox()
    d = p.sendBoxCommand('waits', box)
    d.addErrback(lambda f: None)
    first = box[ASK]
    for i in range(70000):
        box = JuiceBox()
        e = p.sendBoxCommand('x', box)
        if box[ASK] == first:
            h.ensure('no waiting request has that tag', False, (first, i))
        p.juiceBoxReceived(JuiceBox(**{ANSWER: box[ASK]}))
    out = []
    d.addBoth(out.append)
    p.juiceBoxReceived(JuiceBox(**{ANSWER: first}))
    h.ensure('the first request gets its own answer', len(out) == 1 and isinstance(out[0], JuiceBox), out)


@search('C19', 'histories')
def s_h(h):
    s_trial(h)
