"""C02: record construction binds every attribute exactly once, or refuses (epsilon/structlike.py)."""
from pyded.api import contract, search
from epsilon.structlike import StructBehavior, record

NAMES = ['a', 'b', 'c', 'd', 'e', 'f0', '_x', 'zeta', 'value', 'args', 'kw', 'n', 'v', 'name']


def declared(h):
    """an arbitrary list of distinct names, with pos the inverse of indexing"""
    if h.sym:
        names = h.list('names', 'str')
        pos = h.func('pos', 'str', 'int')
        h.assume(h.forall_int(0, h.len(names), lambda j: h.eq(pos(h.at(names, j)), j)))
        n0 = h.copy(names)
        return names, n0, lambda k: h.And(pos(k) >= 0, pos(k) < h.len(n0), h.eq(h.at(n0, pos(k)), k)), pos
    n = h.int('n', 0, 6)
    names = h.rng.sample(NAMES, n)
    h.inputs['names'] = names
    return names, list(names), None, None


def dicts(h, ctx):
    return [(n, v) for n, v in sorted(ctx.locals.items()) if isinstance(v, dict) and v._sym]


@contract('C02', 'construction')
def c_init(h):
    names, n0, isname, pos = declared(h)
    if h.sym:
        defaults = h.list('defaults', 'val')
        h.assume(h.len(defaults) <= h.len(names))
        args = h.list('args', 'val')
        kw = h.dict('kw', 'str', 'val')
    else:
        k = h.int('defaults', 0, len(names))
        defaults = [h.rng.choice([object(), object(), None, 0]) for _ in range(k)]
        args = tuple(h.rng.choice([object(), None, 0]) for _ in range(h.int('args', 0, len(names) + (h.rng.random() < .2))))
        kw = {}
        for x in names[len(args):]:
            if h.rng.random() < .6:
                kw[x] = object()
        if h.rng.random() < .2:
            kw[h.rng.choice(NAMES)] = object()
        if h.rng.random() < .1:
            kw['unknown'] = object()
        h.inputs['args'], h.inputs['kw'] = args, kw
    d0 = h.copy(defaults)
    kw0 = h.copy(kw)

    class R(StructBehavior):
        __names__ = names
        __defaults__ = defaults
    obj = R.__new__(R)
    store = h.attrs(obj) if h.sym else obj.__dict__
    n, m, p = h.len(names), h.len(defaults), h.len(args)
    if h.sym:
        def arg(q):
            return h.at(args, q)

        def dflt(q):
            return h.at(d0, q - (n - m))

        def inv(ctx):
            if not ctx.func.endswith('StructBehavior.__init__'):
                ctx.skip()
            i = ctx.i
            out = [('no argument so far was also given by keyword', h.forall_int(0, h.Ite(i < p, i, p), lambda j: h.Not(h.at(n0, j) in kw0)))]
            for name, d in dicts(h, ctx):
                o = ctx.old(d)
                out += [
                    (name + ' gains the first i names', h.forall('str', lambda k: h.Iff(k in d, h.Or(k in o, h.And(isname(k), pos(k) < i))))),
                    (name + ' holds the arguments', h.forall('str', lambda k: h.Implies(k in d, h.Ite(h.And(isname(k), pos(k) < i), h.same(h.item(d, k), arg(pos(k))), h.same(h.item(d, k), h.item(o, k)))))),
                    (name + ' gains the last i names', h.forall('str', lambda k: h.Iff(k in d, h.Or(k in o, h.And(isname(k), pos(k) >= n - i))))),
                    (name + ' gains the first i of the names with defaults', h.forall('str', lambda k: h.Iff(k in d, h.Or(k in o, h.And(isname(k), pos(k) >= n - m, pos(k) < n - m + i))))),
                    (name + ' keeps what it had', h.forall('str', lambda k: h.Implies(k in o, h.And(k in d, h.same(h.item(d, k), h.item(o, k)))))),
                    (name + ' is filled with defaults', h.forall('str', lambda k: h.Implies(h.And(k in d, h.Not(k in o)), h.same(h.item(d, k), dflt(pos(k)))))),
                    (name + ' loses the first i names', h.forall('str', lambda k: h.Iff(k in d, h.And(k in o, h.Not(h.And(isname(k), pos(k) < i)))))),
                    (name + ' otherwise unchanged', h.forall('str', lambda k: h.Implies(k in d, h.same(h.item(d, k), h.item(o, k))))),
                    (name + ' had the first i names', h.forall_int(0, i, lambda j: h.at(n0, j) in o)),
                    ('attributes come from ' + name, h.forall('str', lambda k: h.Implies(h.And(isname(k), pos(k) < i), h.And(k in store, h.same(h.item(store, k), h.item(o, k)))))),
                ]
            out.append(('only the first i attributes are set', h.forall('str', lambda k: h.Implies(k in store, h.And(isname(k), pos(k) < i)))))
            return out
        h.invariant(inv)
    o = h.call(R.__init__, obj, *args, **kw)
    dup = h.exists_int(0, h.Ite(p < n, p, n), lambda j: h.at(n0, j) in kw0)
    missing = h.exists_int(p, n - m, lambda j: h.Not(h.at(n0, j) in kw0))
    if h.sym:
        unknown = h.Not(h.forall('str', lambda k: h.Implies(k in kw0, isname(k))))
    else:
        unknown = any(k not in n0 for k in kw0)
    bad = h.Or(p > n, dup, missing, unknown)
    if o.ok:
        h.ensure('refused: too many positional arguments', h.Not(p > n), o)
        h.ensure('refused: value given twice', h.Not(dup), o)
        h.ensure('refused: value missing', h.Not(missing), o)
        h.ensure('refused: unknown keyword', h.Not(unknown), o)
        h.ensure('every positional value is bound to its attribute',
                 h.forall_int(0, p, lambda j: h.And(h.at(n0, j) in store, h.same(h.item(store, h.at(n0, j)), h.at(args, j)))))
        h.ensure('every keyword value is bound to its attribute',
                 h.forall_int(p, n, lambda j: h.Implies(h.at(n0, j) in kw0, h.And(h.at(n0, j) in store, h.same(h.item(store, h.at(n0, j)), h.item(kw0, h.at(n0, j)))))))
        h.ensure('every other attribute has its default',
                 h.forall_int(p, n, lambda j: h.Implies(h.Not(h.at(n0, j) in kw0), h.And(
                     h.at(n0, j) in store, h.same(h.item(store, h.at(n0, j)), h.at(d0, j - (n - m)))))))
        if h.sym:
            h.ensure('nothing else is set', h.forall('str', lambda k: h.Implies(k in store, isname(k))))
        else:
            h.ensure('nothing else is set', set(store) == set(n0), store)
    else:
        h.ensure('refusals are TypeError', o.raised(TypeError), o)
        h.ensure('refused only when the arguments do not fit', bad, o)
    h.ensure('the declaration is unchanged', h.And(h.list_same(names, n0), h.list_same(defaults, d0)))


class Words(object):
    """a text that splits into the given words"""

    def __init__(self, words):
        self.words = words

    def split(self):
        return self.words


@contract('C02', 'declaration')
def c_record(h):
    names, n0, isname, pos = declared(h)
    if h.sym:
        kw = h.dict('kw', 'str', 'val')
        text = Words(names)
    else:
        kw = {}
        for x in names:
            if h.rng.random() < .3 or kw:
                kw[x] = h.rng.choice([object(), object(), None, 0, False, ''])
        if kw and h.rng.random() < .3:
            kw.pop(h.rng.choice(sorted(kw)))
        if h.rng.random() < .15:
            kw['unknown'] = object()
        text = h.rng.choice([' ', '  ', '\n']).join(names)
        h.inputs['kw'] = kw
    kw0 = h.copy(kw)
    n = h.len(n0)
    if h.sym:
        def inv(ctx):
            if not ctx.func.endswith('record'):
                ctx.skip()
            out = []
            i = ctx.i
            for name, d in dicts(h, ctx):
                out += [(name + ' loses the names handled', h.forall('str', lambda k: h.Iff(k in d, h.And(k in kw0, h.Not(h.And(isname(k), pos(k) < i)))))),
                        (name + ' otherwise unchanged', h.forall('str', lambda k: h.Implies(k in d, h.same(h.item(d, k), h.item(kw0, k)))))]
            for name, l in sorted(ctx.locals.items()):
                if isinstance(l, list) and l is not names and not hasattr(l, 'n'):
                    s = i - h.len(l)
                    out += [(name + ' is no longer than the names handled', s >= 0),
                            (name + ' holds the trailing defaults', h.forall_int(s, i, lambda j: h.And(
                                h.at(n0, j) in kw0, h.same(h.at(l, j - s), h.item(kw0, h.at(n0, j)))))),
                            (name + ' is empty unless the last name had a default', h.Implies(h.len(l) > 0, h.And(
                                i > 0, h.at(n0, i - 1) in kw0))),
                            (name + ' leaves out names without default', h.forall_int(0, s, lambda j: h.Not(h.at(n0, j) in kw0)))]
            return out
        h.invariant(inv)
    o = h.call(record, text, **kw)
    if h.sym:
        unknown = h.Not(h.forall('str', lambda k: h.Implies(k in kw0, isname(k))))
    else:
        unknown = any(k not in n0 for k in kw0)
    gap = h.exists_int(0, n - 1, lambda j: h.And(h.at(n0, j) in kw0, h.Not(h.at(n0, j + 1) in kw0)))
    if o.ok:
        c = o.value
        h.ensure('a default for no attribute is refused', h.Not(unknown), o)
        h.ensure('a gap in the defaults is refused', h.Not(gap), o)
        h.ensure('the attributes are those named, in order', h.list_same(c.__names__, n0))
        d = c.__defaults__
        k = n - h.len(d)
        h.ensure('no more defaults than attributes', k >= 0)
        h.ensure('the defaults are those given', h.forall_int(k, n, lambda j: h.And(h.at(n0, j) in kw0, h.same(h.at(d, j - k), h.item(kw0, h.at(n0, j))))))
        h.ensure('and all of those given', h.forall_int(0, k, lambda j: h.Not(h.at(n0, j) in kw0)))
        h.ensure('the class is a record', issubclass(c, StructBehavior))
    else:
        h.ensure('refusals are TypeError', o.raised(TypeError), o)
        h.ensure('refused only when the defaults do not fit', h.Or(unknown, gap), o)


@contract('C02', 'declaration by defaults only')
def c_record0(h):
    given = [x for x in ['b', 'a', 'c', 'Z'] if h.choice(x, 2)]
    vals = {x: h.any('v_' + x) for x in given}
    o = h.call(record, **vals)
    if not given:
        h.ensure('a record without attributes is refused', o.raised(TypeError), o)
        return
    h.ensure('declared', o.ok, o)
    h.ensure('sorted attribute names', list(o.value.__names__) == sorted(given))
    for i, x in enumerate(sorted(given)):
        h.ensure('each default is its own', h.same(o.value.__defaults__[i], vals[x]))
    obj = o.value()
    for x in given:
        h.ensure('default bound', h.same(getattr(obj, x), vals[x]))
    two = h.call(record, 'a', 'b')
    h.ensure('more than one positional is refused', two.raised(TypeError), two)


class Anything(object):
    """a value equal to everything, as those of mock libraries are"""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False
    __hash__ = None


@search('C02', 'record end to end', weight=2)
def s_end(h):
    r = h.rng
    names = r.sample(NAMES, r.randint(1, 7))
    nd = r.randint(0, len(names))
    marks = {x: object() for x in names}
    dfl = {x: marks[x] for x in names[len(names) - nd:]}
    if r.random() < .3:
        for x in dfl:
            if r.random() < .5:
                dfl[x] = r.choice([None, Anything()])
    h.note('names', names), h.note('defaults', list(dfl))
    if nd == len(names) and r.random() < .5:
        cls = record(**dfl)
        names = sorted(names)
    else:
        cls = record(' '.join(names), **dfl)
    if r.random() < .5:
        class Sub(cls):
            extra = 1
        cls = Sub
    for _ in range(6):
        p = r.randint(0, len(names) + (r.random() < .1))
        args = [r.choice([None, 0, object(), Anything()]) for _ in range(p)]
        kw = {}
        for x in names[p:]:
            if r.random() < .7:
                kw[x] = r.choice([None, False, object(), Anything()])
        if r.random() < .1 and p:
            kw[r.choice(names[:p] or ['x'])] = object()
        if r.random() < .07:
            kw['bogus'] = 1
        h.note('args', args), h.note('kw', kw)
        kwc = dict(kw)
        o = h.call(cls, *args, **kw)
        bad = p > len(names) or any(x in kwc for x in names[:p]) or any(k not in names for k in kwc) or \
            any(x not in kwc and x not in dfl for x in names[p:])
        if bad:
            h.ensure('TypeError', o.raised(TypeError), o)
            continue
        h.ensure('constructed', o.ok, o)
        want = dict(dfl)
        want.update(kwc)
        want.update(zip(names, args))
        h.ensure('attributes', set(o.value.__dict__) == set(want) and all(o.value.__dict__[k] is want[k] for k in want), o.value.__dict__)
        for x in names:
            h.ensure('attribute readable', getattr(o.value, x) is want[x])
