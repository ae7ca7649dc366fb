"""C06: lazy and required attributes (epsilon/remember.py, epsilon/descriptor.py)."""
from pyded.api import contract, search
from epsilon.remember import remembered
from epsilon.descriptor import attribute, requiredAttribute


class Boom(Exception):
    pass


def instance(h):
    """a base for instances that may be false, and equal to each other"""
    falsy = h.choice('instances are false', 2) == 1

    class Blank(object):
        def __bool__(self):
            return not falsy

        def __eq__(self, o):
            return isinstance(o, Blank)

        def __ne__(self, o):
            return not isinstance(o, Blank)

        def __hash__(self):
            return 1
    return Blank


def unchanged(h, objs, snap):
    for o, d in zip(objs, snap):
        if sorted(list(o.__dict__)) != sorted(list(d)) or not all(h.same(o.__dict__[k], d[k]) for k in d):
            return False
    return True


@contract('C06', 'remembered')
def c_remember(h):
    """two instances, two attributes, any values (None included), any order of access"""
    vals = {}
    for i in ('x', 'y'):
        for n in ('one', 'two'):
            vals[i, n] = h.any('v_%s_%s' % (i, n))
    calls = []

    class Host(instance(h)):
        def __init__(self, name):
            self.name = name

        def one(self):
            calls.append((self, 'one'))
            return vals[self.name, 'one']
        one = remembered(one)

        def two(self):
            calls.append((self, 'two'))
            return vals[self.name, 'two']
        two = remembered(two)
    x, y = Host('x'), Host('y')
    done = []
    for step in range(4):
        k = h.choice('access', 4)
        o, n = [(x, 'one'), (x, 'two'), (y, 'one'), (y, 'two')][k]
        before = len(calls)
        snap = (dict(x.__dict__), dict(y.__dict__))
        r = h.call(getattr, o, n)
        h.ensure('the attribute has its own value', r.ok and h.same(r.value, vals[o.name, n]), r)
        if k in done:
            h.ensure('later accesses call nothing', len(calls) == before)
            # so every further access starts from the same state again: induction over histories
            h.ensure('later accesses change nothing', unchanged(h, (x, y), snap))
        else:
            h.ensure('the first access calls its creation function once, with the instance',
                     len(calls) == before + 1 and calls[-1][0] is o and calls[-1][1] == n)
        done.append(k)


@contract('C06', 'any names')
def c_names(h):
    """attributes of any two different names, on one instance with any other
    attributes set, remembered or required, accessed in any order"""
    names = [h.str('a', NAMES), h.str('b', NAMES)]
    h.assume(h.Not(h.eq(names[0], names[1])))
    kind = h.choice('kind', ['remembered', 'required'])
    vals = [h.any('va'), h.any('vb')]
    calls = []

    class Host(object):
        pass
    if h.sym:
        store = {}

        class Host(object):
            __dict__ = property(lambda self: store)
    o = Host()

    def creator(i):
        def f(self):
            calls.append(i)
            return vals[i]
        if not h.sym:
            f.__name__ = names[i]
            return f
        c = h.callable(f)
        c.__name__ = names[i]
        return c
    if kind == 'remembered':
        ds = [remembered(creator(i)) for i in range(2)]
        for step in range(3):
            i = h.choice('access', 2)
            before = len(calls)
            first = i not in calls
            r = h.call(ds[i].__get__, o, Host)
            h.ensure('each attribute has its own value', r.ok and h.same(r.value, vals[i]), r)
            h.ensure('created on the first access only', len(calls) == before + (1 if first else 0))
    else:
        ds = [requiredAttribute(n) for n in names]
        got = {}
        for step in range(3):
            i = h.choice('access', 2)
            if h.choice('op', 2):
                v = h.any('v%d' % step)
                h.ensure('setting works', h.call(ds[i].__set__, o, v).ok)
                got[i] = (v,)
            else:
                r = h.call(ds[i].__get__, o, Host)
                if i in got:
                    h.ensure('each attribute has the value last set', r.ok and h.same(r.value, got[i][0]), r)
                else:
                    h.ensure('AttributeError until set', r.raised(AttributeError), r)


NAMES = ['x', '_x', '__x', 'x_', 'X', 'xx', 'x1', 'y', 'remembered', 'value', 'name', 'long_name', 'longname']


@contract('C06', 'remembered: errors are not remembered')
def c_remember_exc(h):
    v = h.any('v')
    fail = [True]
    calls = []

    class Host(instance(h)):
        def one(self):
            calls.append(self)
            if fail[0]:
                raise Boom()
            return v
        one = remembered(one)
    x = Host()
    r = h.call(getattr, x, 'one')
    h.ensure('an exception propagates', r.raised(Boom), r)
    fail[0] = False
    r = h.call(getattr, x, 'one')
    h.ensure('and the value is created on the next access', r.ok and h.same(r.value, v) and len(calls) == 2, r)
    r = h.call(getattr, x, 'one')
    h.ensure('once', r.ok and h.same(r.value, v) and len(calls) == 2, r)


@contract('C06', 'required attribute')
def c_required(h):
    """arbitrary sequences of get and set of two required attributes on two instances"""
    class Base(instance(h)):
        need = requiredAttribute('need')
        other = requiredAttribute('other')
    a, b = Base(), Base()
    state = {}
    for step in range(3):
        k = h.choice('target', 4)
        o, n = [(a, 'need'), (a, 'other'), (b, 'need'), (b, 'other')][k]
        if h.choice('op', 2):
            v = h.any('v%d' % step)
            r = h.call(setattr, o, n, v)
            h.ensure('setting works', r.ok, r)
            state[k] = (v,)
        else:
            r = h.call(getattr, o, n)
            if k in state:
                h.ensure('yields the value last set', r.ok and h.same(r.value, state[k][0]), r)
            else:
                h.ensure('raises AttributeError until set', r.raised(AttributeError), r)
    for k, (o, n) in enumerate([(a, 'need'), (a, 'other'), (b, 'need'), (b, 'other')]):
        r = h.call(getattr, o, n)
        if k in state:
            h.ensure('finally the value last set', r.ok and h.same(r.value, state[k][0]), r)
        else:
            h.ensure('finally AttributeError if never set', r.raised(AttributeError), r)


@contract('C06', 'one-shot attributes')
def c_attribute(h):
    """every combination of definitions routes to its own and rejects the rest"""
    has_get, has_set, has_del = [h.choice(x, 2) for x in ('get', 'set', 'delete')]
    log = []
    v, r0 = h.any('value'), h.any('result')

    if has_get:
        class G(object):
            def get(self):
                log.append(('get', self))
                return r0
        fget = G.__dict__['get']
    ns = {}

    def get(self):
        log.append(('get', self))
        return r0

    def set(self, value):
        log.append(('set', self, value))

    def delete(self):
        log.append(('delete', self))
    if has_get:
        ns['get'] = get
    if has_set:
        ns['set'] = set
    if has_del:
        ns['delete'] = delete
    meta = attribute.__class__
    attr = meta('attr', (attribute,), ns)

    class Host(instance(h)):
        pass
    Host.attr = attr
    o = Host()
    r = h.call(getattr, o, 'attr')
    if has_get:
        h.ensure('get runs the definition with the instance', r.ok and h.same(r.value, r0) and len(log) == 1 and log[0][0] == 'get' and log[0][1] is o, r)
    else:
        h.ensure('get is rejected', r.raised(AttributeError) and log == [], r)
    del log[:]
    r = h.call(setattr, o, 'attr', v)
    if has_set:
        h.ensure('set runs the definition with the instance and the value',
                 r.ok and len(log) == 1 and log[0][0] == 'set' and log[0][1] is o and h.same(log[0][2], v), r)
    else:
        h.ensure('set is rejected', r.raised(AttributeError) and log == [], r)
    del log[:]
    r = h.call(delattr, o, 'attr')
    if has_del:
        h.ensure('delete runs the definition with the instance', r.ok and len(log) == 1 and log[0][0] == 'delete' and log[0][1] is o, r)
    else:
        h.ensure('delete is rejected', r.raised(AttributeError) and log == [], r)
    h.ensure('nothing is stored on the instance', o.__dict__ == {})
    h.ensure('access through the class gives the attribute itself', Host.attr is attr)


@search('C06', 'class syntax, inheritance, any values')
def s_all(h):
    r = h.rng
    vals = [None, 0, '', False, [], (), float('nan'), object(), Boom(), {}]
    ns = {}
    counts = {}
    names = r.sample(NAMES, r.randint(1, 4))
    def mk(n):
        def f(self):
            counts[(id(self), n)] = counts.get((id(self), n), 0) + 1
            self.log.append(n)
            return r.choice(vals)
        f.__name__ = n
        return remembered(f)
    for n in names:
        ns[n] = mk(n)
    ns['needed'] = requiredAttribute('needed')
    class Host(instance(h)):
        def __init__(self):
            self.log = []
    C = type('C', (Host,), ns)
    D = type('D', (C,), {})
    objs = [r.choice([C, D])() for _ in range(3)]
    seen = {}
    req = {}
    ops = []
    for _ in range(12):
        o = r.choice(objs)
        k = r.random()
        if k < .6:
            n = r.choice(names)
            ops.append(('get', objs.index(o), n))
            h.note('ops', ops)
            v = getattr(o, n)
            if (id(o), n) in seen:
                h.ensure('same object again', v is seen[id(o), n], (n, v))
            seen[id(o), n] = v
            h.ensure('called once', counts[id(o), n] == 1, n)
        elif k < .8:
            v = r.choice(vals)
            ops.append(('set', objs.index(o)))
            o.needed = v
            req[id(o)] = v
        else:
            ops.append(('need', objs.index(o)))
            h.note('ops', ops)
            g = h.call(getattr, o, 'needed')
            if id(o) in req:
                h.ensure('last value set', g.ok and g.value is req[id(o)], g)
            else:
                h.ensure('AttributeError', g.raised(AttributeError), g)


@search('C06', 'attribute class statement')
def s_attr(h):
    r = h.rng
    class Dyn(object):
        class a(attribute):
            def get(self):
                return self.store.get('a', 'unset')
            def set(self, v):
                self.store['a'] = v
        class b(attribute):
            def get(self):
                return self.store.get('b', 'unset')
            def delete(self):
                self.store.pop('b', None)
        class c(attribute):
            def set(self, v):
                self.store['c'] = v
        def __init__(self):
            self.store = {}
    d, e = Dyn(), Dyn()
    model = {id(d): {}, id(e): {}}
    for _ in range(8):
        o = r.choice([d, e])
        m = model[id(o)]
        n = r.choice('abc')
        op = r.choice(['get', 'set', 'del'])
        v = r.choice([None, 0, 5])
        h.note('op', (op, n))
        if op == 'get':
            g = h.call(getattr, o, n)
            if n == 'c':
                h.ensure('no get', g.raised(AttributeError), g)
            else:
                h.ensure('get', g.ok and g.value == m.get(n, 'unset'), g)
        elif op == 'set':
            g = h.call(setattr, o, n, v)
            if n == 'b':
                h.ensure('no set', g.raised(AttributeError), g)
            else:
                h.ensure('set', g.ok, g)
                m[n] = v
        else:
            g = h.call(delattr, o, n)
            if n == 'b':
                h.ensure('del', g.ok, g)
                m.pop(n, None)
            else:
                h.ensure('no del', g.raised(AttributeError), g)
        h.ensure('only its own', o.store == m)
