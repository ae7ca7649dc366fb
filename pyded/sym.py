"""Proof mode of the contract API."""
import os
import traceback
import z3
from . import core, values as V, ops
from .api import Outcome, Odd
from .core import EngineSignal, PathEnd, Prog


class NamedList(object):
    """model extraction for a symbolic list"""

    def __init__(self, kind, n, arr):
        self.kind, self.n, self.arr = kind, n, arr


class Sym(object):
    sym = True
    KINDS = {'int': V.KInt, 'bool': V.KBool, 'str': V.KStr, 'bytes': V.KBytes, 'real': V.KReal, 'val': V.KVal}

    def __init__(self):
        self.names = {}
        Odd.world = self

    @property
    def E(self):
        return core.E

    def _name(self, name):
        k = self.names.get(name, 0) + 1
        self.names[name] = k
        return name if k == 1 else '%s#%d' % (name, k)

    def kind(self, k):
        if isinstance(k, V.Kind):
            return k
        if k == 'any':
            return V.KAny()
        if isinstance(k, tuple):
            return V.KTuple(*[self.kind(x) for x in k])
        return self.KINDS[k]

    def of(self, kind, name):
        k = self.kind(kind)
        n = self._name(name)
        c = z3.Const('in_' + n, k.sort)
        core.E.named[n] = (k, c)
        if isinstance(k, V.KObj):
            core.E.add(c >= 0)
            core.E.add(c < core.E.alloc)
        if isinstance(k, V.KAnyC):
            core.E.add(z3.Implies(V.PyVal.is_ref(c), z3.And(V.PyVal.rref(c) >= 0, V.PyVal.rref(c) < core.E.alloc)))
        return k.wrap(c)

    def int(self, name, lo=None, hi=None):
        v = self.of('int', name)
        if lo is not None:
            core.E.add(v.t >= V.it(lo))
        if hi is not None:
            core.E.add(v.t <= V.it(hi))
        return v

    def bool(self, name):
        return self.of('bool', name)

    def real(self, name, lo=None, hi=None):
        v = self.of('real', name)
        if lo is not None:
            core.E.add(v.t >= lo)
        if hi is not None:
            core.E.add(v.t <= hi)
        return v

    def str(self, name, pool=None):
        return self.of('str', name)

    def bytes(self, name, pool=None):
        return self.of('bytes', name)

    def val(self, name):
        return self.of('val', name)

    def any(self, name):
        return self.of('any', name)

    def key(self, name, kind='str'):
        return self.of(kind, name)

    def list(self, name, kind='val', lo=0, hi=None):
        k = self.kind(kind)
        n = self._name(name)
        ln = z3.Const('in_%s_len' % n, z3.IntSort())
        arr = z3.Const('in_%s' % n, z3.ArraySort(z3.IntSort(), k.sort))
        core.E.add(ln >= lo)
        core.E.named[n] = (ListModel(k, arr), ln)
        return V.MList.symbolic(k, ln, arr)

    def dict(self, name, kk='str', vk='val', hi=None, cls=None):
        kk, vk = self.kind(kk), self.kind(vk)
        n = self._name(name)
        dom = z3.Const('in_%s_dom' % n, z3.ArraySort(kk.sort, z3.BoolSort()))
        val = z3.Const('in_%s_val' % n, z3.ArraySort(kk.sort, vk.sort))
        return V.MDict.symbolic(kk, vk, dom, val, cls)

    def havoc_dict(self, d):
        """anything may happen to a dict; also new objects may have been made"""
        d._set_sym(d._kk, d._vk, core.E.fresh('rely_dom', d._dom.sort()), core.E.fresh('rely_val', d._val.sort()))
        a = core.E.fresh('alloc', z3.IntSort())
        core.E.add(a >= core.E.alloc)
        core.E.alloc = a

    def set(self, name, kind='str'):
        """any set of values of a kind"""
        k = self.kind(kind)
        m = V.MSet()
        m._d._set_sym(k, V.KBool, z3.Const('in_%s_members' % self._name(name), z3.ArraySort(k.sort, z3.BoolSort())),
                      z3.K(k.sort, z3.BoolVal(True)))
        return m

    def set_copy(self, s):
        return V.MSet(s)

    def member(self, x, s):
        return self._c(ops.contains(s, x))

    def set_same(self, a, b, *but):
        """the same members, but for those given"""
        return self.dict_same(V.MSet(a)._d, V.MSet(b)._d, but)

    def cleanup(self, fn):
        core.E.resets.append(fn)

    def dicts(self, name, kk='str', vk='val'):
        """a family of dicts indexed by integers"""
        kk, vk = self.kind(kk), self.kind(vk)
        n = self._name(name)
        dom = V.uf('in_%s_doms' % n, z3.IntSort(), z3.ArraySort(kk.sort, z3.BoolSort()))
        val = V.uf('in_%s_vals' % n, z3.IntSort(), z3.ArraySort(kk.sort, vk.sort))
        return lambda i: V.MDict.symbolic(kk, vk, dom(V.it(i)), val(V.it(i)))

    def seq(self, n, at, pytype=tuple):
        """a sequence given by its length and a function from indices"""
        return V.VSeq(n, at, pytype=pytype)

    def choice(self, name, n):
        if not type(n) is int:
            return n[self.choice(name, len(n))]
        c = core.E.choose(n, name)
        nm = self._name(name)
        core.E.named[nm] = (V.KInt, z3.IntVal(c))
        return c

    # ----------------------------------------------------------------- logic
    def _c(self, c):
        if c is True or c is False or isinstance(c, V.SBool):
            return c
        return bool(c)

    def assume(self, c):
        core.E.assume(self._c(c))

    def ensure(self, name, c, info=''):
        core.E.ensure(name, self._c(c), '')

    def And(self, *cs):
        return V.And([self._c(c) for c in cs])

    def Or(self, *cs):
        return V.Or([self._c(c) for c in cs])

    def Not(self, c):
        return V.Not(self._c(c))

    def Implies(self, a, b):
        return V.Implies(self._c(a), self._c(b))

    def Iff(self, a, b):
        return V.Iff(self._c(a), self._c(b))

    def Ite(self, c, a, b):
        return V.Ite(self._c(c), a, b)

    def forall_int(self, lo, hi, fn):
        if type(lo) is int and type(hi) is int and hi - lo <= 8:
            return V.And([self._c(fn(i)) for i in range(lo, hi)])
        return V.ForAll(V.KInt, lambda i: V.Implies(V.And([V.mkbool(V.it(lo) <= V.it(i)), V.mkbool(V.it(i) < V.it(hi))]),
                                                    self._c(fn(i))))

    def exists_int(self, lo, hi, fn):
        if type(lo) is int and type(hi) is int and hi - lo <= 8:
            return V.Or([self._c(fn(i)) for i in range(lo, hi)])
        return V.Exists(V.KInt, lambda i: V.And([V.mkbool(V.it(lo) <= V.it(i)), V.mkbool(V.it(i) < V.it(hi)),
                                                 self._c(fn(i))]))

    def forall(self, kind, fn):
        return V.ForAll(self.kind(kind), fn)

    def len(self, x):
        return ops.m_len(x)

    def at(self, xs, i):
        return V.as_vseq(xs).raw(i)

    def same_term(self, x, t):
        return isinstance(x, V.SText) and x.t.eq(t)

    def holds_text(self, l):
        """is l a list known to hold text only?"""
        if not isinstance(type(l), type) or not issubclass(type(l), V.MList):
            return isinstance(getattr(l, 'kind', None), V.KTextC)
        if l._sym:
            return isinstance(l._kind, V.KTextC)
        return all(V.is_text(x) for x in list.__iter__(l))

    def words(self, name, tokens):
        """any text whose blank-separated words are these"""
        kind = 'bytes' if V.is_text(tokens[0]) and not isinstance(tokens[0], str) else 'str'
        x = self.of(kind, name)
        old = core.E.ghost.get('split_hook')

        def split(text):
            if text.t.eq(x.t):
                return V.MList(list(tokens))
            if old:
                return old(text)
            core.E.unsupported('split() of symbolic text')
        core.E.ghost['split_hook'] = split
        return x

    def numeral(self, n, kind='str'):
        """n in decimal"""
        t = ops.int_text(n)
        if kind == 'bytes':
            if type(t) is str:
                return t.encode('ascii')
            if type(t) is not V.SText:
                t = t.as_text()
            return V.SText('bytes', t.t)
        return t

    def known(self, name, **obs):
        """bytes of which only these observations are known"""
        from . import spans
        return spans.Known(name, **obs)

    def stream(self, name, delimiter=None):
        """an arbitrary stream of bytes in which only the places of a delimiter are known"""
        from . import spans
        if delimiter is None:
            n = self.int(name + ' delimiter length', 1)
            delimiter = spans.Token(n)
        else:
            n = len(delimiter)
        return spans.Stream(self._name(name), delimiter, n)

    def of_term(self, t):
        return V.mkint(t)

    def sub(self, x, a, b=None):
        """x[a:b] for 0 <= a <= b <= len(x)"""
        t = V.st(x)
        b = z3.Length(t) if b is None else V.it(b)
        return V.mktext(V.textkind(x), z3.SubString(t, V.it(a), b - V.it(a)))

    def valid(self, x, enc='utf8'):
        """does x decode?"""
        return V.mkbool(V.uf('valid_' + enc, V.STR, V.BOOL)(V.st(x)))

    def indexof(self, x, y, a=0):
        """x.find(y, a) for 0 <= a <= len(x)"""
        return V.mkint(z3.IndexOf(V.st(x), V.st(y), V.it(a)))

    def item(self, d, k):
        if d._sym:
            return d._vk.wrap(d._val[d._kk.unwrap(k)])
        if isinstance(k, V.SBase):
            # arbitrary where k is absent
            keys = list(dict.__iter__(d))
            if not keys:
                return V.KAny().fresh('absent')
            r = dict.__getitem__(d, keys[-1])
            for x in keys[:-1]:
                r = V.Ite(self.eq(k, x), dict.__getitem__(d, x), r)
            return r
        return d[k]

    def texty(self, x):
        """None, text, or a value of any type"""
        return x is None or type(x) is V.SAny or V.is_text(x)

    def same_span(self, x, y):
        """the same place in the stream"""
        if x is None or y is None:
            return False
        return V.mkbool(z3.And(x.a == y.a, x.b == y.b))

    def is_dict(self, x):
        return isinstance(x, V.MDict) if type(x) is not V.SAny else False

    def is_list(self, x):
        return isinstance(x, V.MList) if type(x) is not V.SAny else False

    def is_bytes(self, x):
        return V.is_text(x) and V.textkind(x) == 'bytes' if type(x) is not V.SAny else False

    def joins(self, stream=None):
        """b''.join() of lists of any length"""
        from . import spans
        core.E.ghost['join_hook'] = lambda sep, seq: spans.joined(seq, stream) if isinstance(sep, bytes) and not isinstance(sep, V.SBase) \
            and len(sep) == 0 else None

    def joined_is(self, l, x):
        from . import spans
        if getattr(l, '_sym', False) or isinstance(x, spans.Span):
            j = spans.joined(l, x.stream if isinstance(x, spans.Span) else None)
            if j is None:
                return False
            if isinstance(x, spans.Span):
                return self.is_span(j, x.a, x.b)
        else:
            if any(not (V.is_text(y) and V.textkind(y) == 'bytes') for y in list.__iter__(l)):
                return False
            j = V.text_join(b'', V.MList(list.__iter__(l)))
        return self.eq(j, x)

    def is_span(self, x, a, b):
        """is x the bytes from a to b of the stream?"""
        from . import spans
        if x is None:
            return False
        return x.is_(a, b) if isinstance(x, spans.Span) else self.And(not len(x), self.eq(self.of_term(V.it(a)), self.of_term(V.it(b))))

    def maps(self, d, k, v):
        """k in d and d[k] == v"""
        if getattr(d, '_sym', False):
            return V.And([k in d, self.eq(self.item(d, k), v)]) if not core.E.in_quant else \
                V.And([ops.contains(d, k), self.eq(self.item(d, k), v)])
        return V.Or([False] + [V.And([self.eq(k, x), self.eq(v, dict.__getitem__(d, x))]) for x in dict.__iter__(d)])

    def is_value(self, a, b):
        """are a and b, one of which may be a value of any type, the same None, bool, number, text or object?"""
        k = V.KAny()
        return V.mkbool(k.unwrap(a) == k.unwrap(b))

    def same(self, a, b):
        return V.is_same(a, b)

    def eq(self, a, b):
        if a is b:
            return True
        return self._c(ops.cmp('==', a, b))

    def copy(self, c):
        if isinstance(c, V.MDict):
            m = V.MDict()
            m._become(c)
            return m
        return c.copy()

    def dict_same(self, a, b, but=()):
        s = a if getattr(a, '_sym', False) else b
        if not getattr(s, '_sym', False):
            ka = [k for k in dict.__iter__(a)]
            kb = [k for k in dict.__iter__(b)]
            if any(isinstance(x, V.SBase) for x in but):
                core.E.unsupported('symbolic exception key on concrete dict')
            ka = [k for k in ka if k not in but]
            kb = [k for k in kb if k not in but]
            return V.And([set(ka) == set(kb)] + [self.eq(dict.__getitem__(a, k), dict.__getitem__(b, k))
                                                 for k in ka if dict.__contains__(b, k)])
        kk, vk = s._kk, s._vk
        for d in (a, b):
            for k in ([] if getattr(d, '_sym', False) else dict.__iter__(d)):
                vk = V.unify(vk, V.kind_of(dict.__getitem__(d, k)))
        if vk != s._vk:
            core.E.unsupported('dict_same over different kinds')
        da, va = V.dict_arrays(a, kk, vk)
        db, vb = V.dict_arrays(b, kk, vk)
        k = core.E.fresh('eqk', kk.sort)
        ex = [k != kk.unwrap(x) for x in but]
        return V.mkbool(z3.ForAll([k], z3.Implies(z3.And(ex) if ex else z3.BoolVal(True),
                                                  z3.And(da[k] == db[k], z3.Implies(da[k], va[k] == vb[k])))))

    def list_same(self, a, b):
        return self._c(V.seq_equal(a, b))

    # ------------------------------------------------------------------ calls
    def call(self, f, *a, **k):
        try:
            return Outcome(ops.call(f, *a, **k))
        except EngineSignal:
            raise
        except Exception as e:
            core.E.check_abort()
            if os.environ.get('PYDED_DEBUG') == '3':
                traceback.print_exception(e)
            return Outcome(None, e)

    def callable(self, fn, name='stub'):
        return V.Stub(fn, name)

    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        setattr(obj, name, value)
        core.E.resets.append(undo)

    def summary(self, fn, handler):
        """use a contract in place of the body of fn (only for calls through instrumented code)"""
        code = getattr(fn, '__func__', fn).__code__
        core.E.summaries[code] = handler
        core.E.resets.append(lambda: core.E.summaries.pop(code, None))

    def attrs(self, obj, vk='val'):
        """attributes of obj whose names are symbolic live in the returned dict"""
        kk, vk = self.kind('str'), self.kind(vk)
        store = V.MDict.symbolic(kk, vk, z3.K(kk.sort, z3.BoolVal(False)),
                                 core.E.fresh('attrs', z3.ArraySort(kk.sort, vk.sort)))

        def access(op, n, *v):
            if op == 'set':
                store[n] = v[0]
                return
            if decide_in(store, n):
                return store[n]
            if v:
                return v[0]
            raise AttributeError('attribute')

        def decide_in(d, n):
            return core.E.decide(V.bt(d._pd_contains(n)))
        core.E.symattrs[id(obj)] = (obj, access)
        core.E.roots.append(store)
        return store

    def quiet(self):
        """logging is outside the property"""
        from twisted.python import log
        import warnings
        for f in (log.msg, log.err, warnings.warn):
            self.model(f, lambda *a, **k: None)
        core.E.assumed.add('twisted.python.log.msg/err and warnings.warn return and do not touch the program')

    def open_attrs(self, obj):
        """getattr(obj, symbolic name) branches over all the attributes obj has"""
        names = dir(obj)

        def access(op, n, *v):
            if op == 'set':
                core.E.unsupported('setting an attribute of symbolic name')
            for x in names:
                if core.E.decide(V.bt(V.mkbool(n.t == V.st(x)))):
                    return getattr(obj, x)
            if v:
                return v[0]
            raise AttributeError('attribute')
        core.E.symattrs[id(obj)] = (obj, access)

    def obj_class(self, name, pytype=None, **fields):
        """objects of which there may be any number; fields live in the symbolic heap"""
        fields = {n: self.kind(k) for n, k in fields.items()}
        cm = core.E.classmodels.get(name)
        if cm is None:
            cm = core.E.classmodels[name] = V.ClassModel(name, pytype, fields)
        else:
            # the same model on every path: what is remembered about loops refers to it
            cm.__init__(name, pytype, fields)
        # a user's object may be false; one of the code's own is what its class says
        cm.truthy = pytype is not None
        return ObjClass(self, cm)

    def ghost(self, name, value):
        core.E.ghost[name] = value
        return Ghost(name)

    def func(self, name, *kinds):
        """an uninterpreted function"""
        ks = [self.kind(k) for k in kinds]
        f = V.uf(self._name(name), *[k.sort for k in ks])
        return lambda *a: ks[-1].wrap(f(*[k.unwrap(x) for k, x in zip(ks, a)]))

    def model(self, fn, handler):
        core.E.models[id(fn)] = (fn, handler)

    # hashing and randomness: SHA-1 is an uninterpreted function, randomness a fresh value
    def sha1(self, x):
        return V.SText('bytes', V.uf('sha1', V.STR, V.STR)(V.st(x)))

    def crypto(self):
        import hashlib
        from twisted.python import randbytes
        h = self
        h.draws = []

        class Hash(object):
            _pd_ok_ = True

            def __init__(self, data=b''):
                self.data = data

            def update(self, more):
                self.data = ops.binop('+', self.data, more)

            def digest(self):
                return h.sha1(self.data)

        def rand(n, *a, **k):
            v = V.KBytes.fresh('random')
            core.E.add(z3.Length(v.t) == V.it(n))
            h.draws.append(v)
            return v
        self.model(hashlib.sha1, Hash)
        self.model(randbytes.secureRandom, rand)
        import os
        self.model(os.urandom, rand)
        core.E.assumed.add('SHA-1 is treated as an arbitrary function of its input; random sources as arbitrary bytes of the requested length')

    def invariant(self, fn):
        core.E.invariants.append(fn)

    def require(self, c, why='the internal representation this contract speaks about has changed'):
        if not c:
            core.E.unsupported(why)

    def root(self, *objs):
        core.E.roots.extend(objs)

    def done(self):
        pass


class ObjClass(object):
    _pd_ok_ = True

    def __init__(self, h, cm):
        self.h, self.cm = h, cm
        self.kind = V.KObj(cm)

    def get(self, o, field):
        return V.heap_read(o, field)

    def set(self, o, field, v):
        V.heap_write(o, field, v)

    def snapshot(self):
        """a reader of the fields as they are now"""
        e = core.E
        now = {f: V.heap_arr(self.cm, f) for f in self.cm.fields}

        def read(o, f):
            return self.cm.fields[f].wrap(z3.Select(now[f], o._pd_ref))
        return read

    def havoc(self, *fields):
        """anything may happen to these fields of all objects; the reader of the fields before is given back"""
        old = self.snapshot()
        for f in fields:
            a = V.heap_arr(self.cm, f)
            core.E.heap[(self.cm.name, f)] = core.E.fresh('rely_' + f, a.sort())
        return old

    def method(self, name, fn):
        self.cm.methods[name] = fn

    def attr(self, name, value):
        """an attribute with the same value on all objects"""
        self.cm.classattrs[name] = value

    def some(self, name):
        """an arbitrary existing object"""
        return self.h.of(self.kind, name)

    def new(self):
        return V.alloc(self.cm)

    def exists(self, o):
        """has o been made yet?"""
        return V.mkbool(z3.And(o._pd_ref >= 0, o._pd_ref < core.E.alloc))

    def fresh(self, o):
        """was o made after the contract started?"""
        return V.mkbool(o._pd_ref >= z3.Int('alloc0'))


class Ghost(object):
    _pd_ok_ = True

    def __init__(self, name):
        self.name = name

    def get(self):
        return core.E.ghost[self.name]

    def set(self, v):
        core.E.ghost[self.name] = v


class ListModel(V.Kind):
    def __init__(self, k, arr):
        self.k, self.arr = k, arr
        self.model = None
        self.name = 'list'

    def concrete(self, v):
        raise NotImplementedError


def extract_model(self, m):
    out = {}
    for name, (kind, term) in self.named.items():
        try:
            v = m.eval(term, model_completion=True)
            if isinstance(kind, ListModel):
                n = min(v.as_long(), 12)
                out[name] = [kind.k.concrete(m.eval(kind.arr[i], model_completion=True)) for i in range(n)]
            else:
                out[name] = kind.concrete(v)
        except Exception:
            out[name] = None
    return out


core.Engine.extract_model = extract_model
