"""C07: modal methods always run the current mode's implementation (epsilon/modal.py)."""
import types
from pyded.api import contract, search, Odd
from epsilon.modal import ModalMethod, ModalType, Modal, mode


class Obj(Odd):
    pass


@contract('C07', 'dispatch over any mode table')
def c_dispatch(h):
    """any table of implementations, any current mode, any instance"""
    if not h.sym:
        return s_trial(h)
    F = h.obj_class('Implementation', tag='int')
    made = []

    def bind(f, inst, *owner):
        made.append((f, inst))
        return ('bound', f, inst)
    F.method('__get__', bind)
    h.model(types.MethodType, bind)
    table = h.dict('table', 'str', F.kind)
    t0 = h.copy(table)
    attr = h.choice('mode attribute', ['mode', 'state', '_m'])
    m = ModalMethod('meth', table, attr)
    inst = Obj()
    has = h.choice('the instance has a mode', 2)
    cur = h.str('current mode')
    if has:
        setattr(inst, attr, cur)
    # a decoy under another name
    setattr(inst, 'mode' if attr != 'mode' else 'other', h.str('decoy'))
    o = h.call(m.__get__, inst, Obj)
    if o.ok:
        h.ensure('there is a mode', bool(has))
        h.ensure('the current mode defines the method', cur in t0)
        h.ensure('its implementation, bound to the instance', len(made) == 1 and made[0][1] is inst and o.value[2] is inst
                 and h.And(h.same(o.value[1], h.item(t0, cur)), h.same(made[0][0], o.value[1])))
    else:
        h.ensure('refused with AttributeError', o.raised(AttributeError), o)
        h.ensure('only if the current mode defines none', h.Or(not has, h.Not(cur in t0)))
    h.ensure('the table is unchanged', h.dict_same(table, t0))
    c = h.call(m.__get__, None, Obj)
    h.ensure('no access through the class', c.raised(AttributeError), c)


@contract('C07', 'transition')
def c_transition(h):
    """any old and new mode: exit of the old mode, then enter of the new mode"""
    if not h.sym:
        return s_trial(h)
    attr = h.choice('mode attribute', ['mode', 'state'])
    F = h.obj_class('Hook', tag='int')
    log = []
    sub = type(Modal)('Sub', (Modal,), {'modeAttribute': attr, 'initialMode': 'start', '__module__': 'x'})
    exits, enters = h.dict('exit hooks', 'str', F.kind), h.dict('enter hooks', 'str', F.kind)
    old, new = h.str('old'), h.str('new')
    h.assume(h.And(old in exits, new in enters))

    def bind(f, inst, *owner):
        return h.callable(lambda: log.append((f, inst, getattr(inst, attr))))
    F.method('__get__', bind)
    h.model(types.MethodType, bind)
    sub.__exit__ = ModalMethod('__exit__', exits, attr)
    sub.__enter__ = ModalMethod('__enter__', enters, attr)
    o = sub()
    h.ensure('instances start in the declared mode', h.eq(getattr(o, attr), 'start'))
    setattr(o, attr, old)
    r = h.call(o.transitionTo, new)
    h.ensure('the transition happens', r.ok, r)
    h.ensure('the mode is the new one', h.eq(getattr(o, attr), new))
    h.ensure('two hooks run, on the instance', len(log) == 2 and log[0][1] is o and log[1][1] is o)
    h.ensure("first the old mode's exit, in the old mode", h.And(h.same(log[0][0], h.item(exits, old)), h.eq(log[0][2], old)))
    h.ensure("then the new mode's enter, in the new mode", h.And(h.same(log[1][0], h.item(enters, new)), h.eq(log[1][2], new)))
    other = sub()
    h.ensure('other instances are unaffected', h.eq(getattr(other, attr), 'start'))


def build(attr, initial, table, where, log):
    """a modal class with the given table {mode: {method: tag}}, as a user would write it"""
    body = {'__module__': 'x', 'initialMode': initial}
    if attr is not None:
        body['modeAttribute'] = attr
    for m, meths in table.items():
        ns = {}
        for n, tag in meths.items():
            def f(self, tag=tag):
                log.append((tag, self, getattr(self, attr or 'mode')))
                return tag
            ns[n] = f
        # a mode goes by its name in the class, whatever its own class was called
        body[m] = type(m + 'Mode', (mode,), ns)
    body['plain'] = 17
    body['helper'] = lambda self: 'helper'
    base = {'modal': (Modal, Odd), 'meta': (Odd,)}[where]
    return ModalType('C', base, body)


@contract('C07', 'class construction')
def c_class(h):
    """tables of two modes and two methods, every shape; both ways to make a
    modal class; symbolic current mode"""
    log = []
    attr = h.choice('mode attribute', ['mode', 'state', 'nil2'])
    where = h.choice('base', ['modal', 'meta'])
    table = {}
    for m in ('alpha', 'beta'):
        table[m] = {}
        for n in ('foo', 'bar', '__enter__', '__exit__'):
            if n in ('foo', 'bar') and h.choice('%s.%s' % (m, n), 2) or n[0] == '_':
                table[m][n] = (m, n)
    initial = h.choice('initial', ['alpha', 'beta'])
    cls = build(attr, initial, table, where, log)
    o = cls()
    h.ensure('starts in the initial mode', getattr(o, attr) == initial)
    h.ensure('other attributes are kept', cls.plain == 17 and o.helper() == 'helper')
    h.ensure('the modes are kept', isinstance(cls.alpha, type) and issubclass(cls.beta, mode))
    cur = h.key('cur')
    if h.choice('assigned', 2):
        setattr(o, attr, cur)
    else:
        cur = initial
    for n in ('foo', 'bar'):
        del log[:]
        r = h.call(getattr, o, n)
        defined = h.Or(*[h.eq(cur, m) for m in ('alpha', 'beta') if n in table[m]])
        if r.ok:
            v = r.value()
            h.ensure('defined by the current mode', defined)
            h.ensure("the current mode's implementation ran with the instance as self",
                     len(log) == 1 and log[0][1] is o and v is log[0][0] and h.And(h.eq(v[0], cur), v[1] == n))
        else:
            h.ensure('AttributeError', r.raised(AttributeError), r)
            h.ensure('only when not defined by the current mode', h.Not(defined))
        h.ensure('no access through the class', (not any(n in t for t in table.values())) or h.call(getattr, cls, n).raised(AttributeError))
    p = cls()
    h.ensure('another instance still starts in the initial mode', getattr(p, attr) == initial)
    if where == 'modal':
        del log[:]
        to = h.choice('to', ['alpha', 'beta'])
        t = h.call(p.transitionTo, to)
        h.ensure('transition', t.ok and getattr(p, attr) == to and [(x[0], x[2]) for x in log] == [
            ((initial, '__exit__'), initial), ((to, '__enter__'), to)] and all(x[1] is p for x in log), log)


@contract('C07', 'required declarations')
def c_missing(h):
    body = {'__module__': 'x'}
    a, i = h.choice('modeAttribute', 2), h.choice('initialMode', 2)
    if a:
        body['modeAttribute'] = 'state'
    if i:
        body['initialMode'] = 'alpha'
    deep = h.choice('inherited', 2)
    o = h.call(ModalType, 'C', (object,), body)
    h.ensure('both are required', (o.ok if a and i else o.raised(TypeError)), o)
    if o.ok and deep:
        D = ModalType('D', (o.value,), {'__module__': 'x'})
        E = ModalType('E', (D,), {'__module__': 'x', 'initialMode': 'beta'})
        h.ensure('inherited', D().state == 'alpha' and E().state == 'beta' and D().state == 'alpha')


def s_trial(h):
    r = h.rng
    log = []
    modes = r.sample(['a', 'b', 'c', 'd', 'mode1'], r.randint(1, 4))
    meths = ['foo', 'bar', 'baz']
    attr = r.choice([None, 'mode', 'state', '_mode', 'current'])
    table = {}
    for m in modes:
        table[m] = {n: (m, n) for n in meths if r.random() < .6}
        table[m].update({n: (m, n) for n in ('__enter__', '__exit__')})
    initial = r.choice(modes)
    where = 'modal' if attr is None else r.choice(['modal', 'meta'])
    h.inputs['case'] = (attr, where, initial, table)
    C = build(attr, initial, table, where, log)
    if r.random() < .4:
        C = type(C)('Sub', (C,), {'__module__': 'x', 'extra': 1})
    A = attr or 'mode'
    objs = [C(), C()]
    cur = [initial, initial]
    ops = []
    for _ in range(12):
        i = r.randrange(2)
        o = objs[i]
        h.ensure('mode', getattr(o, A) == cur[i], (cur, ops))
        op = r.choice(['call', 'call', 'to', 'set'])
        if op == 'call':
            n = r.choice(meths)
            ops.append((i, n))
            del log[:]
            x = h.call(lambda: getattr(o, n)())
            if n in table.get(cur[i], {}):
                h.ensure('ran', x.ok and x.value == (cur[i], n) and len(log) == 1 and log[0][1] is o, (x, ops))
            else:
                h.ensure('AttributeError', x.raised(AttributeError) and not log, (x, ops))
        elif op == 'set':
            cur[i] = r.choice(modes + ['bogus'])
            ops.append((i, 'set', cur[i]))
            setattr(o, A, cur[i])
        elif where == 'modal' and cur[i] in table:
            m = r.choice(modes)
            ops.append((i, 'to', m))
            del log[:]
            x = h.call(o.transitionTo, m)
            h.ensure('transition', x.ok and getattr(o, A) == m and [(y[0], y[2]) for y in log] == [
                ((cur[i], '__exit__'), cur[i]), ((m, '__enter__'), m)] and all(y[1] is o for y in log), (log, ops))
            cur[i] = m
    for n in meths:
        if any(n in t for t in table.values()):
            h.ensure('not through the class', h.call(getattr, C, n).raised(AttributeError))


@search('C07', 'mode histories')
def s_h(h):
    s_trial(h)
