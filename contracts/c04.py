"""C04: only methods exposed by this exposer for this key can be retrieved (epsilon/expose.py)."""
import inspect
from pyded.api import contract, search
from epsilon.expose import Exposer, MethodNotExposed, NameRequired


class Klass(object):
    """a class of the hierarchy, in proof mode: only its dict and MRO are visible"""
    _pd_ok_ = _pd_opaque_ = True

    def __init__(self, d, mro=None):
        self._d, self._m = d, mro

    @property
    def __dict__(self):
        return self._d

    @property
    def __mro__(self):
        return self._m

    def mro(self):
        return self._m


class Instance(object):
    _pd_ok_ = _pd_opaque_ = True

    def __init__(self, T):
        self._T = T

    @property
    def __class__(self):
        return self._T


def uses_lists(x):
    return isinstance(getattr(x, '_exposed', None), dict)


@contract('C04', 'get over any hierarchy')
def c_get(h):
    """any MRO length, any class contents, any functions exposed under the key"""
    if not h.sym:
        return s_hier(h)
    F = h.obj_class('Func', tag='int')
    N = h.int('classes', 1)
    D = h.dicts('class', 'str', F.kind)
    mro = h.seq(N, lambda i: Klass(D(i)))
    T = Klass(D(0), mro)
    obj = Instance(T)
    h.model(inspect.getmro, lambda t: t.__mro__)
    bound = []

    def get(f, o, t=None):
        bound.append((f, o, t))
        return ('bound', f)
    F.method('__get__', get)
    x = Exposer('doc')
    h.require(uses_lists(x))
    exposed = h.choice('key was exposed', 2)
    right = h.list('right', F.kind) if exposed else h.list('right', F.kind)
    other = h.list('other', F.kind)
    k1, k2 = h.key('k1'), h.key('k2')
    h.assume(h.Not(h.eq(k1, k2)))
    x._exposed = {k2: other}
    if exposed:
        x._exposed[k1] = right
    # where a name is first defined, and membership of the exposed list
    first = h.func('first', 'str', 'int')
    h.assume(h.forall('str', lambda n: h.And(first(n) >= 0, first(n) <= N)))
    h.assume(h.forall('int', lambda c: h.forall('str', lambda n: h.Implies(h.And(c >= 0, c < N, n in D(c)), first(n) <= c))))
    h.assume(h.forall('str', lambda n: h.Implies(first(n) < N, n in D(first(n)))))
    isright = h.func('isright', F.kind, 'bool')
    rpos = h.func('rpos', F.kind, 'int')
    h.assume(h.forall_int(0, h.len(right), lambda j: isright(h.at(right, j))))
    h.assume(h.forall(F.kind, lambda f: h.Implies(isright(f), h.And(rpos(f) >= 0, rpos(f) < h.len(right), h.same(h.at(right, rpos(f)), f)))))
    r0 = h.copy(right)

    def inv(ctx):
        i = ctx.i
        out = []
        dicts = [(n, v) for n, v in sorted(ctx.locals.items()) if isinstance(v, dict)]
        if hasattr(ctx.seq, 'p'):
            # over the items of one class
            out.append(('no item of this class so far is exposed', h.forall('str', lambda k: h.Implies(
                h.And(k in ctx.seq.dict, ctx.pos(k) < i), h.Not(isright(h.item(ctx.seq.dict, k)))))))
            for n, d in dicts:
                if n != 'subT' and d is not ctx.seq.dict:
                    o = ctx.old(d)
                    out.append((n + ' gains the names of the items so far', h.forall('str', lambda k: h.Iff(
                        dk(d, k), h.Or(dk(o, k), h.And(k in ctx.seq.dict, ctx.pos(k) < i))))))
        elif ctx.seq is mro:
            out.append(('no class so far has an exposed item', h.forall('int', lambda c: h.forall('str', lambda k: h.Implies(
                h.And(c >= 0, c < i, k in D(c)), h.Not(isright(h.item(D(c), k))))))))
            for n, d in dicts:
                out.append((n + ' holds the names defined so far', h.forall('str', lambda k: h.Iff(dk(d, k), first(k) < i))))
        else:
            v = [l for l in ctx.locals.values() if getattr(l, '_pd_ref', None) is not None]
            for n, v in sorted(ctx.locals.items()):
                if hasattr(v, '_pd_ref'):
                    out.append(('%s is none of the functions so far' % n, h.forall_int(0, i, lambda j: h.Not(h.same(h.at(r0, j), v)))))
        return out

    def dk(d, k):
        return k in d if getattr(d, '_sym', False) else False
    h.invariant(inv)
    o = h.call(x.get, obj, k1)
    inD = lambda c, n: h.And(c >= 0, c < N, n in D(c))
    if o.ok:
        h.ensure('something is bound, to obj and its class', len(bound) == 1 and bound[0][1] is obj and bound[0][2] is T and h.same(o.value[1], bound[0][0]))
        f = bound[0][0]
        h.ensure('the key was exposed', bool(exposed))
        h.ensure('only what this exposer exposed under this key', isright(f))
        h.ensure("obj's class has it under a name no more-derived class redefines",
                 h.Not(h.forall('str', lambda n: h.Not(h.And(first(n) < N, h.same(h.item(D(first(n)), n), f))))))
    else:
        h.ensure('otherwise MethodNotExposed', o.raised(MethodNotExposed), o)
        if exposed:
            some = h.Not(h.forall('int', lambda c: h.forall('str', lambda n: h.Implies(inD(c, n), h.Not(isright(h.item(D(c), n)))))))
            hidden = h.Not(h.forall('int', lambda c: h.forall('str', lambda n: h.Implies(
                h.And(inD(c, n), isright(h.item(D(c), n))), first(n) == c))))
            h.ensure('refused only if nothing exposed is there, or an exposed method is overridden', h.Or(h.Not(some), hidden))
    h.ensure('retrieval exposes nothing', h.And(h.list_same(right, r0), x._exposed[k2] is other, len(x._exposed) == 1 + exposed, (not exposed) or x._exposed[k1] is right))


@contract('C04', 'expose')
def c_expose(h):
    x = Exposer('doc')
    if h.sym:
        h.require(uses_lists(x))
        F = h.obj_class('Func', tag='int')
        k1, k2 = h.key('k1'), h.key('k2')
        h.assume(h.Not(h.eq(k1, k2)))
        l1, l2 = h.list('l1', F.kind), h.list('l2', F.kind)
        x._exposed = {k2: l2}
        had = h.choice('key used before', 2)
        if had:
            x._exposed[k1] = l1
        old1, old2 = h.copy(l1), h.copy(l2)
        f = F.some('f')
        o = h.call(x.expose, k1)
        h.ensure('a decorator is made', o.ok, o)
        h.ensure('nothing is exposed before a function is decorated', h.And(h.list_same(l1, old1), h.list_same(l2, old2), len(x._exposed) == 1 + had))
        d = h.call(o.value, f)
        h.ensure('the function is returned', d.ok and h.same(d.value, f), d)
        l = x._exposed[k1]
        n = h.len(old1) if had else 0
        h.ensure('one function more under this key', h.len(l) == n + 1)
        h.ensure('that function', h.same(h.at(l, n), f))
        h.ensure('the others stay', h.forall_int(0, n, lambda i: h.same(h.at(l, i), h.at(old1, i))))
        h.ensure('other keys are unaffected', h.And(x._exposed[k2] is l2, h.list_same(l2, old2), len(x._exposed) == 2))
        return
    s_hier(h)


@contract('C04', 'default keys')
def c_default(h):
    """without a key the function's own name is used, and only functions have one"""
    x = Exposer('doc')
    y = Exposer('other')

    def foo(self):
        return 'foo'

    class Callable(object):
        __name__ = 'foo'

        def __call__(self):
            return 1

        def __get__(self, o, t):
            return 'got'
    what = h.choice('what', 3)
    if what == 0:
        deco = x.expose()
        h.ensure('the function is returned', deco(foo) is foo)

        class C(object):
            bar = foo
        c = C()
        g = h.call(x.get, c, 'foo')
        h.ensure('retrievable under its own name', g.ok and g.value() == 'foo', g)
        h.ensure('not under the attribute name', h.call(x.get, c, 'bar').raised(MethodNotExposed))
        h.ensure('not by another exposer', h.call(y.get, c, 'foo').raised(MethodNotExposed))
        k = h.key('k')
        g = h.call(x.get, c, k)
        h.ensure('only under that key', h.Iff(g.ok, h.eq(k, 'foo')), g)
    elif what == 1:
        n = h.call(x.expose(), Callable())
        h.ensure('a key is required for anything but a function', n.raised(NameRequired), n)
        h.ensure('and nothing is exposed', h.call(x.get, Callable(), 'foo').raised(MethodNotExposed))
    else:
        f = Callable()
        k = h.key('k')
        o = h.call(lambda: x.expose(k)(f))
        h.ensure('the object is returned', o.ok and o.value is f, o)

        class C(object):
            bar = f

        class D(C):
            pass

        class E(D):
            bar = None
        h.ensure('retrievable', h.call(x.get, D(), k).value == 'got')
        h.ensure('overridden', h.call(x.get, E(), k).raised(MethodNotExposed))
        h.ensure('elsewhere', h.call(x.get, object(), k).raised(MethodNotExposed))


def s_hier(h):
    """random hierarchies, exposers, keys, late redefinitions"""
    r = h.rng
    exposers = [Exposer('a'), Exposer('b')]
    keys = ['k', 'f', 'g', None, ('t', 1), 0, False, '']
    pool = []           # (function, [(exposer index, key)...])

    def make(n):
        kind = r.choice(['fn', 'fn', 'fn', 'obj', 'prop'])
        if kind == 'fn':
            def f(self):
                return (f, self)
            f.__name__ = n
            f.unbind = lambda got, o: got.__func__ is f and got.__self__ is o
        elif kind == 'obj':
            class Desc(object):
                __name__ = n

                def __get__(self, o, t):
                    return ('desc', self, o, t)

                def __eq__(self, other):
                    return isinstance(other, Desc)
                __hash__ = None
            f = Desc()
            f.unbind = lambda got, o: got == ('desc', f, o, type(o)) and got[1] is f and got[2] is o
        else:
            class P(object):
                def __get__(self, o, t):
                    return ('p', self, o)
            f = P()
            f.unbind = lambda got, o: got[0] == 'p' and got[1] is f and got[2] is o
        exp = []
        for _ in range(r.choice([0, 1, 1, 2])):
            e = r.randrange(2)
            k = r.choice(keys)
            if k is None:
                if kind != 'fn':
                    h.ensure('NameRequired', h.call(exposers[e].expose(), f).raised(NameRequired))
                    continue
                h.ensure('decorator returns it', exposers[e].expose()(f) is f)
                exp.append((e, n))
            else:
                h.ensure('decorator returns it', exposers[e].expose(k)(f) is f)
                exp.append((e, k))
        pool.append((f, exp))
        return f
    classes = [object]
    for i in range(r.randint(1, 5)):
        ns = {}
        for n in ['f', 'g', 'h', 'zz']:
            c = r.random()
            if c < .4:
                ns[n] = make(n)
            elif c < .5 and pool:
                ns[n] = r.choice(pool)[0]
            elif c < .6:
                ns[n] = r.choice([None, 1, lambda self: 0])
        items = list(ns.items())
        r.shuffle(items)
        bases = r.sample(classes, min(len(classes), r.choice([1, 1, 2])))
        try:
            t = type('C%d' % i, tuple(bases), dict(items))
        except TypeError:
            t = type('C%d' % i, (classes[-1],), dict(items))
        classes.append(t)
    def verify():
        for t in classes[1:]:
            o = t()
            for e in range(2):
                for k in keys[:3] + keys[4:] + ['h', 'zz']:
                    right = [f for f, exp in pool for (e2, k2) in exp if e2 == e and k2 == k and hash(k2) == hash(k)]
                    got = h.call(exposers[e].get, o, k)
                    visible, hidden, seen = [], False, set()
                    for s in t.__mro__:
                        for n, v in s.__dict__.items():
                            if any(v is f for f in right):
                                if n in seen:
                                    hidden = True
                                else:
                                    visible.append(v)
                        seen.update(s.__dict__)
                    h.inputs['query'] = (t.__mro__, e, k)
                    if got.ok:
                        h.ensure('bound, exposed, visible', any(f.unbind(got.value, o) for f in visible), (t.__mro__, e, k, got))
                    else:
                        h.ensure('MethodNotExposed', got.raised(MethodNotExposed), got)
                        h.ensure('retrievable', not visible or hidden, (t.__mro__, e, k))
    verify()
    if len(classes) > 2 and r.random() < .6:
        t = r.choice(classes[1:])
        n = r.choice(['f', 'g', 'h'])
        if n in t.__dict__ and r.random() < .5:
            delattr(t, n)
        else:
            setattr(t, n, r.choice([None, lambda self: 1, make('f')]))
        verify()


@search('C04', 'hierarchies')
def s_h(h):
    s_hier(h)
