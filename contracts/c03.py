"""C03: record repr is cycle-safe and leaves no residue (epsilon/structlike.py)."""
from pyded.api import contract, search, Odd
from epsilon import structlike
from epsilon.structlike import StructBehavior, record
from twisted.python import context


_RecursiveReprer = getattr(structlike, '_RecursiveReprer', None)
_contextualize = getattr(structlike, '_contextualize', None)


def reprer(h):
    """the object that holds the marks, with its table of marks"""
    h.require(_RecursiveReprer is not None and isinstance(getattr(_RecursiveReprer(), 'active', None), dict))
    return _RecursiveReprer()


class Boom(Exception):
    pass


class Thing(Odd):
    pass


@contract('C03', 'recursiveRepr')
def c_rr(h):
    """for every set of objects in progress: an object in progress is
    abbreviated, any other is entered exactly once while marked, and the marks
    are afterwards what they were, whether the thunk returns or raises"""
    rr = reprer(h)
    h.ensure('nothing is in progress initially', len(rr.active) == 0)
    stuff = Thing()
    rr.active = h.dict('active', 'int', 'any')
    if not h.sym and h.rng.random() < .5:
        rr.active[id(stuff)] = stuff
    old = h.copy(rr.active)
    me = id(stuff)
    text = h.str('text')
    fails = h.choice('thunk', ['returns', 'raises', 'raises BaseException'])
    calls = []

    def thunk(x):
        calls.append(x)
        h.ensure('the object is marked while its repr runs', me in rr.active)
        h.ensure('no other mark changes', h.dict_same(rr.active, old, but=[me]))
        if fails == 'raises':
            raise Boom()
        if fails == 'raises BaseException':
            raise KeyboardInterrupt()
        return text
    was = me in old
    try:
        o = h.call(rr.recursiveRepr, stuff, h.callable(thunk))
    except KeyboardInterrupt:
        o = None
    if was:
        h.ensure('an object in progress is abbreviated', o is not None and o.ok and h.eq(o.value, 'Thing(...)'), o)
        h.ensure('and not entered again', calls == [])
    else:
        h.ensure('any other object is entered once, itself', len(calls) == 1 and calls[0] is stuff)
        if fails == 'returns':
            h.ensure('its text is the result', o is not None and o.ok and h.eq(o.value, text), o)
        elif fails == 'raises':
            h.ensure('its exception propagates', o is not None and o.raised(Boom), o)
        else:
            h.ensure('its exception propagates', o is None, o)
    h.ensure('no mark is left and none is lost', h.dict_same(rr.active, old))


@contract('C03', 'contextualize')
def c_ctx(h):
    """the receiver gets the context's value, created once when absent"""
    h.require(_contextualize is not None)
    made = []
    text = h.any('result')
    fails = h.choice('receiver', ['returns', 'raises'])
    seen = []

    def factory():
        made.append(Thing())
        return made[-1]

    def receiver(v):
        seen.append(v)
        if fails == 'raises':
            raise Boom()
        return text
    present = h.choice('present', 2)
    value = Thing()
    if present:
        def go():
            return _contextualize(factory, receiver)
        o = h.call(context.call, {factory: value}, go)
        h.ensure('the value in the context is used', len(seen) == 1 and seen[0] is value and made == [])
    else:
        o = h.call(_contextualize, factory, receiver)
        h.ensure('a value is created once and used', len(made) == 1 and len(seen) == 1 and seen[0] is made[0])
        h.ensure('it is gone from the context afterwards', context.get(factory) is None)
    if fails == 'raises':
        h.ensure('exceptions propagate', o.raised(Boom), o)
    else:
        h.ensure('the result is the receiver\'s', o.ok and h.same(o.value, text), o)


class Shown(object):
    """a value whose repr is a given text, or that fails"""

    def __init__(self, text=None, exc=None, hook=None):
        self.text, self.exc, self.hook = text, exc, hook

    def __repr__(self):
        if self.hook:
            self.hook()
        if self.exc:
            raise self.exc
        return self.text


@contract('C03', 'record repr')
def c_repr(h):
    n = h.choice('names', 4)
    names = ['a', 'bb', 'c0'][:n]
    texts = [h.str('t%d' % i) for i in range(n)]
    fails = h.choice('fails', n + 1)      # the index that raises, n: none

    class Point(StructBehavior):
        __names__ = names
    vals = [Shown(texts[i], Boom() if i == fails else None) for i in range(n)]
    p = Point(*vals)
    selfref = h.choice('cyclic', 2) if n else 0
    if selfref:
        p.a = p
    missing = h.choice('an attribute is missing', 2) if n > 1 else 0
    if missing:
        del p.bb

    def shown(i):
        if selfref and i == 0:
            return 'Point(...)'
        if missing and i == 1:
            return 'None'
        return texts[i]
    want = 'Point('
    for i in range(n):
        want = want + (', ' if i else '') + names[i] + '=' + shown(i)
    want = want + ')'
    raises = fails < n and not (selfref and fails == 0) and not (missing and fails == 1)
    for again in range(2):
        o = h.call(repr, p)
        if raises:
            h.ensure('an exception of an attribute propagates', o.raised(Boom), o)
        else:
            h.ensure('the class and every attribute, in order', o.ok and h.eq(o.value, want), o)
    h.ensure('no context is left', _RecursiveReprer is None or context.get(_RecursiveReprer) is None)


@contract('C03', 'any marks, any outcome')
def c_inner(h):
    """inside an outer repr: arbitrary marks survive the inner repr"""
    class Point(StructBehavior):
        __names__ = ['a']
    t = h.str('t')
    fails = h.choice('fails', 2)
    p = Point(Shown(t, Boom() if fails else None))
    rr = reprer(h)
    rr.active = h.dict('active', 'int', 'any')
    if not h.sym and h.rng.random() < .5:
        rr.active[id(p)] = p
    old = h.copy(rr.active)
    inside = id(p) in old

    def go():
        return repr(p)
    o = h.call(context.call, {_RecursiveReprer: rr}, go)
    if inside:
        h.ensure('abbreviated when in progress', o.ok and h.eq(o.value, 'Point(...)'), o)
    elif fails:
        h.ensure('the exception propagates', o.raised(Boom), o)
    else:
        h.ensure('complete when not in progress', o.ok and h.eq(o.value, 'Point(a=' + t + ')'), o)
    h.ensure('the marks are as before', h.dict_same(rr.active, old))


class Bad(object):
    armed = False

    def __repr__(self):
        if Bad.armed:
            raise Boom('bad')
        return 'Bad'


@search('C03', 'graphs of records', weight=3)
def s_graph(h):
    r = h.rng
    A, B = record('x y'), record('p q r')
    class Named(A):
        pass
    class Other(B):
        pass
    nodes = []
    for _ in range(r.randint(1, 5)):
        c = r.choice([A, B, Named, Other])
        nodes.append(c(*[None for _ in c.__names__]))
    leaves = ['s', 1, None, Bad(), Bad()]
    for nd in nodes:
        for n in nd.__names__:
            k = r.random()
            v = r.choice(nodes) if k < .5 else [r.choice(nodes), r.choice(leaves)] if k < .65 else \
                {'k': r.choice(nodes)} if k < .7 else r.choice(leaves)
            setattr(nd, n, v)
    h.note('shape', [[(type(getattr(nd, n)).__name__, nodes.index(getattr(nd, n)) if getattr(nd, n) in nodes else None)
                      for n in nd.__names__] for nd in nodes])

    def spec(v, active):
        if isinstance(v, StructBehavior):
            if any(v is a for a in active):
                return v.__class__.__name__ + '(...)'
            return '%s(%s)' % (v.__class__.__name__, ', '.join('%s=%s' % (n, spec(getattr(v, n), active + [v])) for n in v.__names__))
        if type(v) is list:
            return '[' + ', '.join(spec(x, active) for x in v) + ']'
        if type(v) is dict:
            return '{' + ', '.join('%r: %s' % (k, spec(x, active)) for k, x in v.items()) + '}'
        return repr(v)
    seq = []
    for _ in range(5):
        nd = r.choice(nodes)
        Bad.armed = r.random() < .3
        seq.append(Bad.armed)
        try:
            want = spec(nd, [])
        except Boom:
            want = None
        try:
            o = h.call(repr, nd)
        finally:
            Bad.armed = False
        if want is None:
            h.ensure('exception propagates', o.raised(Boom), o)
        else:
            h.ensure('complete and cycle-safe', o.ok and o.value == want, (o, want))
        h.ensure('no context left', _RecursiveReprer is None or context.get(_RecursiveReprer) is None)


@search('C03', 'shared outer context')
def s_shared(h):
    r = h.rng
    A = record('x')
    rr = reprer(h)
    a, b = A(None), A(Bad())
    a.x = r.choice([b, a, [a, b], (b, b)])
    def go():
        for _ in range(4):
            Bad.armed = r.random() < .5
            try:
                o = h.call(repr, r.choice([a, b]))
            finally:
                Bad.armed = False
            h.ensure('no residue', rr.active == {}, (rr.active, o))
            o = h.call(repr, b)
            h.ensure('complete again', o.ok and o.value.endswith('(x=Bad)'), o)
    context.call({_RecursiveReprer: rr}, go)
