"""Hooks called by the instrumented code, and models of library functions."""
import builtins, datetime, os, functools, inspect, itertools, operator, re, sys, types
import z3
from . import core
from .core import EngineSignal, Prog, EngineBug, Unsupported, PathEnd, LoopRestart
from .values import *
from .values import SBase, VSeq, SymIter, DictView, bt, it, rt, st, mkint, mkbool, mktext, uf, \
    is_text, textkind, is_intlike, NoFit, Kind, KTuple, Poison
from . import values as V

MODELS = {}          # id(function) -> (function, model)
METHOD_MODELS = {}   # (type, name) -> model
METHOD_ALWAYS = {}   # (type, name) -> model used whatever the arguments are
TYPE_METHODS = {}    # (type, name) -> model of a built-in class method


def model(*fns):
    def d(m):
        for f in fns:
            MODELS[id(f)] = (f, m)
        return m
    return d


def guard(fn):
    """models raise Prog for program exceptions; anything else is an engine bug"""
    @functools.wraps(fn)
    def g(*a, **k):
        try:
            return fn(*a, **k)
        except EngineSignal:
            raise
        except Prog as p:
            raise p.exc
    return g


def symbolic(x, depth=2):
    """does x contain symbolic data (shallowly)?"""
    if isinstance(type(x), type) and issubclass(type(x), SBase):
        return True
    if type(x) in (int, str, bytes, bool, float, type(None)):
        return False
    if isinstance(x, (MList, MDict)) and x._sym:
        return True
    if isinstance(x, V.MSet):
        return symbolic(x._d, depth)
    if depth:
        if type(x) in (tuple, list, MList):
            return any(symbolic(y, depth - 1) for y in (list.__iter__(x) if isinstance(x, list) else x))
        if type(x) is slice:
            return any(symbolic(y, 0) for y in (x.start, x.stop, x.step))
        if isinstance(x, dict) and type(x) in (dict, MDict):
            return any(symbolic(dict.__getitem__(x, y), depth - 1) or symbolic(y, depth - 1) for y in dict.__iter__(x))
    return False


# ---------------------------------------------------------------------- calls
class StarSym(object):
    def __init__(self, seq):
        self.seq = seq


def star(x):
    if isinstance(x, SBase) or (isinstance(x, MList) and x._sym):
        if isinstance(x, SymIter):
            x = x.seq
        if isinstance(x, VSeq) and type(x.n) is int:
            return [x.raw(i) for i in range(x.n)]
        if isinstance(x, SChars):
            return list(x)
        return [StarSym(x)]
    return x


def starstar(d):
    if isinstance(d, MDict) and d._sym:
        return {'_pd_star': StarSym(d)}
    if isinstance(d, MDict):
        return {k: dict.__getitem__(d, k) for k in dict.__iter__(d)}
    return d


def varargs(a):
    if len(a) == 1 and type(a[0]) is StarSym:
        return V.as_vseq(a[0].seq)
    if any(type(x) is StarSym for x in a):
        # fixed part followed by symbolic tail
        if type(a[-1]) is StarSym and not any(type(x) is StarSym for x in a[:-1]):
            return V.seq_concat(tuple(a[:-1]), V.as_vseq(a[-1].seq))
        core.E.unsupported('mixed symbolic *args')
    return a


def kwargs(k):
    if '_pd_star' in k:
        c = k.pop('_pd_star').seq
        m = MDict()
        m._become(c)
        for x, y in k.items():
            m[x] = y
        return m
    m = MDict()
    for x, y in k.items():
        dict.__setitem__(m, x, y)
    return m


OK_MODULES = ('twisted.internet.defer', 'twisted.python.failure', 'twisted.python.context', 'twisted.internet.error',
              'pyded', 'contracts', 'twisted.python.log', 'zope.interface', 'twisted.python.threadable',
              'twisted.cred.error', 'operator', '__main__')


def _native_ok(f):
    """may native callable f receive symbolic arguments?"""
    if f is _slice or f is set or f is property or f is functools.partial or getattr(f, '_pd_ok_', False) is True:
        return f is not set
    if isinstance(f, types.MethodType):
        s = f.__self__
        if isinstance(s, (SBase, MList, MDict, V.MSet)):
            return True
        f = f.__func__
        if getattr(f, '_pd_ok_', False) is True:
            return True
        if isinstance(f, Stub):
            return True
    if isinstance(f, types.FunctionType):
        return '_pd_' in f.__globals__ or f.__module__.split('.')[0] in ('pyded', 'contracts') or \
            any(f.__module__ == m or f.__module__.startswith(m + '.') for m in OK_MODULES)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return True
        m = sys.modules.get(f.__module__)
        if m is not None and '_pd_' in m.__dict__:
            return True
        return any(f.__module__ == m or f.__module__.startswith(m + '.') for m in OK_MODULES)
    if isinstance(f, functools.partial):
        return _native_ok(f.func)
    if isinstance(f, operator.methodcaller):
        return True
    if isinstance(f, types.BuiltinMethodType):
        s = f.__self__
        if isinstance(s, (MList, MDict, V.MSet)) or type(s) in (list, set, dict):
            # list.append of a native list etc.: stores without looking
            if f.__name__ in ('append', 'extend', 'insert') and type(s) is list:
                return True
            if isinstance(s, (MList, MDict, V.MSet)):
                return True
        if isinstance(s, type) and f.__name__ == '__new__':
            return True
        return False
    if isinstance(f, types.WrapperDescriptorType):
        # Exception.__init__ only stores its arguments
        return f.__name__ == '__init__' and issubclass(f.__objclass__, BaseException)
    if isinstance(f, types.MethodWrapperType):
        s = f.__self__
        return isinstance(s, (SBase, MList, MDict)) or f.__name__ in ('__init__', '__get__', '__new__') or \
            isinstance(s, types.FunctionType)
    if isinstance(f, (Stub,)) or isinstance(f, SBase):
        return True
    cls = type(f)
    m = sys.modules.get(cls.__module__)
    if m is not None and '_pd_' in m.__dict__:
        return True
    if cls.__module__.split('.')[0] in ('pyded', 'contracts'):
        return True
    if cls.__module__.startswith('zope.interface'):
        return True
    return False


def _fname(f):
    return getattr(f, '__qualname__', None) or getattr(f, '__name__', None) or repr(type(f))


def call(f, *args, **kw):
    e = core.E
    if e is None or not e.active:
        m = MODELS.get(id(f))
        if m is not None and getattr(m[1], '_always', False):
            return m[1](*args, **kw)
        return f(*args, **kw)
    if e.aborting is not None:
        raise e.aborting
    e.depth += 1
    try:
        if e.depth > 150:
            e.unsupported('recursion deeper than 150 calls (unbounded recursion on symbolic data?)')
        r = _call(e, f, args, kw)
    except Prog as p:
        raise p.exc
    finally:
        e.depth -= 1
    if e.aborting is not None:
        raise e.aborting
    return r


def _call(e, f, args, kw):
    if type(f) is SAny:
        f = f.resolve()
    m = e.models.get(id(f))
    if m is not None:
        return m[1](*args, **kw)
    # function summaries (contracts used instead of bodies)
    if e.summaries:
        g = getattr(f, '__func__', f)
        code = getattr(g, '__code__', None)
        s = e.summaries.get(code) if code is not None else None
        if s is not None:
            if isinstance(f, types.MethodType):
                return s(f.__self__, *args, **kw)
            return s(*args, **kw)
    if isinstance(f, types.BuiltinMethodType) and f.__name__ == 'join' and len(args) == 1 and \
            type(args[0]) in (types.GeneratorType, map, filter):
        args = (list(args[0]),)
    issym = any(symbolic(a) for a in args) or any(symbolic(a) for a in kw.values())
    if not issym and isinstance(f, types.BuiltinMethodType) and type(f.__self__) is _slice and symbolic(f.__self__):
        issym = True
    m = MODELS.get(id(f))
    if m is not None and (issym or getattr(m[1], '_always', False)):
        return m[1](*args, **kw)
    if type(f) is types.BuiltinMethodType:
        s = f.__self__
        mm = METHOD_ALWAYS.get((type(s), f.__name__))
        if mm is not None:
            return mm(s, *args, **kw)
        if isinstance(s, type):
            mm = TYPE_METHODS.get((s, f.__name__))
            if mm is not None:
                return mm(*args, **kw)
    if not issym:
        return f(*args, **kw)
    if any(type(a) is StarSym for a in args) or '_pd_star' in kw:
        g = getattr(f, '__func__', f)
        if isinstance(f, type):
            g = getattr(f.__init__, '__func__', f.__init__)
        if not (isinstance(g, types.FunctionType) and '_pd_' in g.__globals__) and not isinstance(g, Stub):
            e.unsupported('symbolic *args to native %s' % _fname(f))
        return f(*args, **kw)
    if isinstance(f, types.BuiltinMethodType) and not isinstance(f.__self__, types.ModuleType):
        mm = METHOD_MODELS.get((type(f.__self__), f.__name__))
        if mm is not None:
            return mm(f.__self__, *args, **kw)
    if isinstance(f, types.MethodDescriptorType) or isinstance(f, types.WrapperDescriptorType):
        # str.lower(x), dict.__init__(x)
        if args and isinstance(args[0], (SBase, MDict, MList)):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
    if isinstance(f, types.MethodType):
        mm = MODELS.get(id(f.__func__))
        if mm is not None:
            return mm[1](f.__self__, *args, **kw)
    if _native_ok(f):
        return f(*args, **kw)
    e.unsupported('native call of %s with symbolic arguments' % _fname(f))


# ------------------------------------------------------------------ operators
_OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
        '%': operator.mod, '**': operator.pow, '<<': operator.lshift, '>>': operator.rshift, '&': operator.and_,
        '|': operator.or_, '^': operator.xor, '@': operator.matmul}
_IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '//': operator.ifloordiv,
         '%': operator.imod, '**': operator.ipow, '<<': operator.ilshift, '>>': operator.irshift, '&': operator.iand,
         '|': operator.ior, '^': operator.ixor, '@': operator.imatmul}
_CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


@guard
def binop(op, a, b):
    if type(a) is SAny:
        a = a.resolve()
    if type(b) is SAny:
        b = b.resolve()
    if op == '%' and isinstance(a, (str, bytes)) and not isinstance(a, SBase) and symbolic(b):
        return percent(a, b)
    if op == '%' and isinstance(a, (str, bytes)) and not isinstance(a, SBase):
        return percent_native(a, b)
    if op == '+' and is_text(a) and is_text(b):
        if textkind(a) != textkind(b):
            raise TypeError('can only concatenate %s' % textkind(a))
        return V.concat(a, b)
    if op == '*' and (isinstance(a, SBase) or isinstance(b, SBase)) and (is_text(a) or is_text(b)):
        core.E.unsupported('text repetition')
    return _OPS[op](a, b)


def percent_native(a, b):
    bs = b if type(b) is tuple else (b,)
    if core.E is not None and core.E.active and isinstance(a, str) and \
            any(dunder(x, '__str__') or dunder(x, '__repr__') for x in bs):
        return percent(a, b)
    return a % b


@guard
def iop(op, a, b):
    if type(a) is SAny:
        a = a.resolve()
    if type(b) is SAny:
        b = b.resolve()
    if isinstance(a, SBase) or isinstance(b, SBase) or isinstance(a, (str, bytes)):
        if isinstance(a, MList):
            return _IOPS[op](a, b)
        return binop(op, a, b)
    return _IOPS[op](a, b)


def iattr(op, obj, name, v):
    setattr(obj, name, iop(op, getattr(obj, name), v))


def iitem(op, obj, k, v):
    setitem(obj, k, iop(op, getitem(obj, k), v))


@guard
def cmp(op, a, b):
    if op == 'is':
        return V.is_same(a, b)
    if op == 'is not':
        return V.Not(V.is_same(a, b))
    if op == 'in':
        return contains(b, a)
    if op == 'not in':
        return V.Not(_b(contains(b, a)))
    if isinstance(a, (str, bytes)) and not isinstance(a, SBase) and isinstance(b, (SText, SChars)):
        sw = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
        if textkind(a) != textkind(b):
            if op in ('==', '!='):
                return op == '!='
            raise TypeError('not comparable')
        return _CMP[sw](b, a)
    if isinstance(a, tuple) and isinstance(b, tuple) and (symbolic(a) or symbolic(b)):
        return tuple_cmp(op, a, b)
    return _CMP[op](a, b)


def _b(x):
    return x if (x is True or x is False or type(x) is SBool) else bool(x)


def tuple_cmp(op, a, b):
    if op in ('==', '!='):
        r = False if len(a) != len(b) else V.And([_b(cmp('==', x, y)) for x, y in zip(a, b)])
        return r if op == '==' else V.Not(r)
    for x, y in zip(a, b):
        if not cmp('==', x, y):
            return cmp(op, x, y)
    return _CMP[op](len(a), len(b))


def contains(c, x):
    if type(c) is SAny:
        c = c.resolve()
    if isinstance(c, (MDict, MList, SText, SChars, VSeq, DictView, V.AssocView)) or hasattr(type(c), '_pd_contains'):
        return c._pd_contains(x)
    if isinstance(x, SBase) or (type(x) is tuple and symbolic(x)):
        if isinstance(c, (str, bytes)):
            if type(x) is SAny:
                x = x.resolve()
            if not is_text(x):
                raise TypeError('requires string as left operand')
            return mkbool(z3.Contains(V.sv(c), st(x)))
        if isinstance(c, (tuple, list, set, frozenset)):
            return V.Or([_b(cmp('==', x, y)) if y is not x else True for y in c])
        if isinstance(c, (dict, types.MappingProxyType)) or type(c).__name__ in ('dict_keys',):
            return V.Or([_b(cmp('==', x, y)) for y in c])
        if type(c).__contains__ if hasattr(type(c), '__contains__') else False:
            f = type(c).__contains__
            if isinstance(f, types.FunctionType):
                return f(c, x)
        core.E.unsupported('symbolic value in %s' % type(c).__name__)
    f = getattr(type(c), '__contains__', None)
    if isinstance(f, types.FunctionType):
        r = f(c, x)
        return r if type(r) is SBool else bool(r)
    return x in c


def chain(ops, a, *rights):
    res = True
    for o, r in zip(ops, rights):
        b = r()
        res = cmp(o, a, b)
        if not res:
            return res
        a = b
    return res


_slice = builtins.slice


def slice(a, b, c):
    return _slice(a, b, c)


def _nativeidx(k):
    return k


@guard
def getitem(o, k):
    if type(o) is SAny:
        o = o.resolve()
    if type(k) is SAny and not isinstance(o, MDict):
        k = k.resolve()
    if isinstance(o, (SBase, MList, MDict)):
        return type(o).__getitem__(o, k)
    if symbolic(k):
        if isinstance(o, (list, tuple)):
            if isinstance(k, _slice):
                return V.seq_slice(V.as_vseq(o), k)
            n = len(o)
            i = it(k)
            if V.decide(i < 0):
                i = i + n
            if V.decide(z3.Or(i < 0, i >= n)):
                raise IndexError('index out of range')
            return V.seq_at_concrete(o, mkint(i))
        if isinstance(o, (str, bytes)):
            return type(SText(textkind(o), V.sv(o))).__getitem__(SText(textkind(o), V.sv(o)), k)
        if isinstance(o, range):
            n = len(o)
            i = it(k)
            if V.decide(i < 0):
                i = i + n
            if V.decide(z3.Or(i < 0, i >= n)):
                raise IndexError('range object index out of range')
            return mkint(o.start + i * o.step)
        if isinstance(o, (dict, types.MappingProxyType)):
            for c in list(o):
                if cmp('==', k, c):
                    return o[c]
            raise KeyError(k)
        f = getattr(type(o), '__getitem__', None)
        if isinstance(f, types.FunctionType):
            return f(o, k)
        core.E.unsupported('%s indexed by a symbolic value' % type(o).__name__)
    return o[k]


@guard
def setitem(o, k, v):
    e = core.E
    if e is not None and e.aborting is not None:
        raise e.aborting
    if type(o) is SAny:
        o = o.resolve()
    if symbolic(k) and not isinstance(o, (SBase, MList, MDict)):
        if isinstance(o, dict):
            for c in list(o):
                if cmp('==', k, c):
                    o[c] = v
                    return
            core.E.unsupported('symbolic key stored in a native dict')
        f = getattr(type(o), '__setitem__', None)
        if isinstance(f, types.FunctionType):
            return f(o, k, v)
        core.E.unsupported('symbolic index store')
    o[k] = v


@guard
def delitem(o, k):
    e = core.E
    if e is not None and e.aborting is not None:
        raise e.aborting
    if type(o) is SAny:
        o = o.resolve()
    if symbolic(k) and not isinstance(o, (SBase, MList, MDict)):
        if isinstance(o, dict):
            for c in list(o):
                if cmp('==', k, c):
                    del o[c]
                    return
            raise KeyError(k)
        core.E.unsupported('symbolic index delete')
    del o[k]


def mklist(x):
    return MList(x)


def mkdict(x):
    m = MDict()
    if isinstance(x, dict):
        for k in x:
            m[k] = x[k]
        return m
    for k, v in x:
        m[k] = v
    return m


def base(t):
    return {dict: MDict, list: MList}.get(t, t)   # set: no model of subclasses


@guard
def unpack(v, n):
    if type(v) is SAny:
        v = v.resolve()
    if isinstance(v, (VSeq, SymIter)) or (isinstance(v, MList) and v._sym):
        s = V.as_vseq(v)
        if V.decide(it(s.n) != n):
            raise ValueError('wrong number of values to unpack (expected %d)' % n)
        return tuple(s.raw(i) for i in range(n))
    return v


def fmt(v, conv, spec):
    if symbolic(v):
        if conv == -1 and spec == '' and is_text(v):
            return v
        return percent('%s', (v,)) if conv in (-1, 115) and spec == '' else opaque_text()
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    return format(v, spec)


def fstr(parts):
    out = ''
    for p in parts:
        out = V.concat(out, p)
    return out


def opaque_text(kind='str'):
    return SText(kind, core.E.fresh('text', V.STR))


_FMT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])')


def percent(f, args):
    """'...' % args with symbolic args."""
    byts = isinstance(f, bytes)
    s = f.decode('latin-1') if byts else f
    kind = 'bytes' if byts else 'str'
    mapping = None
    if isinstance(args, MDict) or (isinstance(args, dict)):
        mapping = args
        args = ()
    if isinstance(args, VSeq):
        core.E.unsupported('% with symbolic tuple')
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out = b'' if byts else ''
    pos = 0
    for m in _FMT.finditer(s):
        lit = s[pos:m.start()]
        if lit:
            out = V.concat(out, lit.encode('latin-1') if byts else lit)
        pos = m.end()
        key, flags, width, prec, c = m.groups()
        if c == '%':
            out = V.concat(out, b'%' if byts else '%')
            continue
        if key is not None:
            a = getitem(mapping, key)
        else:
            if not args:
                raise TypeError('not enough arguments for format string')
            a = args.pop(0)
        out = V.concat(out, fmt1(kind, flags, width, prec, c, a))
    if pos < len(s):
        lit = s[pos:]
        out = V.concat(out, lit.encode('latin-1') if byts else lit)
    if args and mapping is None:
        raise TypeError('not all arguments converted during string formatting')
    return out


def fmt1(kind, flags, width, prec, c, a):
    if type(a) is SAny:
        a = a.resolve()
    if not symbolic(a) and c in 'sr' and not flags and not width and not prec and kind == 'str' and core.E.active:
        return m_str(a) if c == 's' else m_repr(a)
    if c == 'r' and not flags and not width and not prec and kind == 'str':
        return m_repr(a)
    if not symbolic(a):
        spec = '%' + flags + (width or '') + ('.' + prec if prec else '') + c
        if kind == 'bytes':
            return spec.encode() % (a,)
        if isinstance(a, str) and c == 's' and not width:
            return a
        return spec % (a,)
    if c == 's' and not width and not prec:
        if is_text(a) and textkind(a) == kind:
            return a
        if kind == 'str':
            return to_str(a)
        if is_text(a):
            raise TypeError("%b requires a bytes-like object")
    if c in 'di':
        if type(a) is SReal:
            # int() truncation
            a = real_trunc(a)
        if not is_intlike(a):
            raise TypeError('%d format: a real number is required')
        w = int(width or 0)
        if '0' in flags and w > 1 and kind == 'str':
            return int_padded(a, w)
        if w > 1 and not flags and kind == 'str':
            return int_padded(a, w, ' ')
        if flags in ('', '0') and w <= 1:
            return int_text(a)
    if c in 'xX' and is_intlike(a) and not flags and not width:
        return SText('str', _inj('int_hex', it(a)))
    return opaque_text(kind)


def _inj(name, t):
    """an injective rendering of an integer (assumed of %x and str(int))"""
    f = uf(name, V.INT, V.STR)
    g = uf(name + '_inv', V.STR, V.INT)
    core.E.add(g(f(t)) == t)
    core.E.add(z3.Length(f(t)) >= 1)
    core.E.assumed.add('integer rendering (%s) is injective and non-empty' % name)
    return f(t)


def int_text(a):
    """str(int): digits when the magnitude is known to be small, else an injective text"""
    e = core.E
    t = it(a)
    if e.ghost.get('digits', True):
        for lim, w in ((10, 1), (100, 2), (10000, 4), (1000000, 6)):
            if not e.feasible(z3.Or(t < 0, t >= lim)):
                for k in range(1, w + 1):
                    if k == w or V.decide(t < 10 ** k):
                        return SChars.make(V.digits(a, k))
    r = _inj('int_str', t)
    e.add(uf('is_int', V.STR, V.BOOL)(r))
    e.add(uf('str_int', V.STR, V.INT)(r) == t)
    e.assumed.add('int(str(n)) == n')
    return SText('str', r)


def int_padded(a, w, fill='0'):
    t = it(a)
    if V.decide(t < 0):
        if V.decide(t > -(10 ** (w - 1))) and fill == '0':
            return SChars(['-'] + V.digits(mkint(-t), w - 1))
        return opaque_text()
    if fill == '0':
        if V.decide(t < 10 ** w):
            return SChars.make(V.digits(a, w))
        return opaque_text()
    for k in range(1, w + 1):
        if V.decide(t < 10 ** k):
            return SChars.make([' '] * (w - k) + V.digits(a, k))
    return opaque_text()


def real_trunc(a):
    t = rt(a)
    return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def to_str(a):
    if type(a) is SAny:
        a = a.resolve()
    if isinstance(a, SText) and a.kind == 'str' or isinstance(a, SChars):
        return a
    if type(a) is SInt:
        return int_text(a)
    if type(a) is SBool:
        return 'True' if a else 'False'
    if isinstance(a, SObj):
        for k in (a._pd_cm.pytype.__mro__ if a._pd_cm.pytype else ()):
            if '__str__' in k.__dict__ and isinstance(k.__dict__['__str__'], types.FunctionType):
                return k.__dict__['__str__'](a)
        if a._pd_cm is OPAQUE:
            return SText('str', uf('opaque_str', V.INT, V.STR)(a._pd_ref))
    return opaque_text()


def genexp(iterable, native, eager):
    if isinstance(iterable, (SBase, MList, MDict, V.MSet)) and symbolic(iterable, 0):
        return eager(iterable)
    return native(iterable)


def gencall(name, f, iterable, native, short, *rest):
    """any/all/next of a generator expression"""
    if f is getattr(builtins, name) and isinstance(iterable, (SBase, MList, MDict, V.MSet)) and symbolic(iterable, 0):
        r = short(iterable)
        if name != 'next':
            return r
        if r is None:
            if rest:
                return rest[0]
            raise StopIteration()
        return r[0]
    return call(f, native(iterable), *rest)


def mkset(x):
    if core.E is None or not core.E.active:
        return set(x)
    return V.MSet(x)


def m_set(x=()):
    if core.E is None or not core.E.active:
        return set(x)
    return V.MSet(x)


m_set._always = True
MODELS[id(set)] = (set, m_set)


def m_filter(f, x):
    if symbolic(x, 0):
        return SymIter(V.as_vseq(_filter_loop(f, V.as_vseq(x))))
    if isinstance(x, V.MSet):
        x = list(x)
    return filter(f if f is None else lambda v: call(f, v), x)


m_filter._always = True
MODELS[id(filter)] = (filter, m_filter)


def _filter_loop(f, seq):
    R = MList()
    L = for_enter('pyded:filter#0', seq, ())
    while True:
        L.top({'R': R})
        if not L.next():
            break
        v = L.value
        if (v if f is None else call(f, v)):
            R.append(v)
    return R


def dunder(x, name):
    """the special method of x when it is instrumented Python code"""
    if isinstance(x, SBase):
        return None
    f = getattr(type(x), name, None)
    if isinstance(f, types.FunctionType) and '_pd_' in f.__globals__:
        return f
    return None


# ---------------------------------------------------------------------- models
@model(len)
def m_len(x):
    if type(x) is SAny:
        x = x.resolve()
    if isinstance(x, (SText, SChars, VSeq, DictView, MList, MDict)) or hasattr(type(x), '_pd_len'):
        return x._pd_len()
    if hasattr(type(x), '__len__') and isinstance(type(x).__len__, types.FunctionType):
        return type(x).__len__(x)
    if isinstance(x, SObj):
        return x.__getattr__('__len__')()
    if isinstance(x, SBase):
        raise Prog(TypeError('object has no len()'))
    return len(x)


def _len_always(x):
    return m_len(x)


_len_always._always = True
MODELS[id(len)] = (len, _len_always)


def m_isinstance(x, c):
    if type(x) is SAny:
        x = x.resolve()
    if isinstance(x, SBase):
        return isinstance(x, c)
    return isinstance(x, c)


MODELS[id(isinstance)] = (isinstance, m_isinstance)


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SAny:
            x = x.resolve()
        if isinstance(x, SBase):
            return x.__class__
        if type(x) in (MList, MDict, V.MSet):
            return {MList: list, MDict: dict, V.MSet: set}[type(x)]
        return type(x)
    name, bases, d = a
    if isinstance(name, SBase):
        name = 'Symbolic'
    return type(name, bases, dict((k, dict.__getitem__(d, k)) for k in dict.__iter__(d)))


m_type._always = True
MODELS[id(type)] = (type, m_type)


@model(int)
def m_int(x=0, base=10):
    if type(x) is SAny:
        x = x.resolve()
    if type(x) in (SInt,):
        return x
    if type(x) is SBool:
        return V.as_int(x)
    if type(x) is SReal:
        return real_trunc(x)
    if isinstance(x, SChars):
        return x.to_int()
    if type(x) is SText:
        e = core.E
        p = uf('is_int', V.STR, V.BOOL)(x.t)
        e.assumed.add('int(text): ValueError unless the text is an integer literal')
        if V.decide(z3.Not(p)):
            raise Prog(ValueError('invalid literal for int()'))
        return mkint(uf('str_int', V.STR, V.INT)(x.t))
    if isinstance(x, SBase):
        raise Prog(TypeError('int() argument'))
    return int(x)


@model(float)
def m_float(x=0.0):
    if type(x) is SAny:
        x = x.resolve()
    if type(x) in (SInt, SBool):
        return SReal(rt(V.as_int(x)))
    if type(x) is SReal:
        return x
    if isinstance(x, SChars):
        return x.to_float()
    if type(x) is SText:
        e = core.E
        if V.decide(z3.Not(uf('is_float', V.STR, V.BOOL)(x.t))):
            raise Prog(ValueError('could not convert string to float'))
        return SReal(uf('str_float', V.STR, V.REAL)(x.t))
    return float(x)


@model(str)
def m_str(x='', *enc):
    if not symbolic(x):
        if isinstance(x, BaseException) and type(x).__str__ is BaseException.__str__ and any(symbolic(a) for a in x.args):
            return m_str(x.args[0]) if len(x.args) == 1 else core.E.unsupported('str of an exception with several arguments')
        f = dunder(x, '__str__') or (dunder(x, '__repr__') if type(x).__str__ is object.__str__ else None)
        if f is not None:
            return f(x)
        return str(x, *enc) if not isinstance(x, SBase) else x
    if enc:
        return V.text_decode(x, *enc)
    if type(x) is SReal:
        e = core.E
        r = uf('float_str', V.REAL, V.STR)(x.t)
        e.add(uf('str_float', V.STR, V.REAL)(r) == x.t)
        e.add(uf('is_float', V.STR, V.BOOL)(r))
        e.assumed.add('float(str(x)) == x')
        return SText('str', r)
    return to_str(x)


@model(repr)
def m_repr(x):
    if not symbolic(x):
        f = dunder(x, '__repr__')
        return f(x) if f is not None else repr(x)
    if isinstance(x, SObj):
        for k in (x._pd_cm.pytype.__mro__ if x._pd_cm.pytype else ()):
            if '__repr__' in k.__dict__ and isinstance(k.__dict__['__repr__'], types.FunctionType):
                return k.__dict__['__repr__'](x)
        m = x._pd_cm.methods.get('__repr__')
        if m:
            return m(x)
        return SText('str', uf('opaque_repr', V.INT, V.STR)(x._pd_ref))
    return opaque_text()


@model(bool)
def m_bool(x=False):
    if not isinstance(x, SBase):
        f = dunder(x, '__bool__')
        if f is not None:
            return f(x)
    if type(x) is SBool:
        return x
    return bool(x)


@model(bytes)
def m_bytes(x=b'', *a):
    if a:
        return V.text_encode(x, *a)
    if type(x) is SText and x.kind == 'bytes':
        return x
    core.E.unsupported('bytes()')


@model(hash)
def m_hash(x):
    if not symbolic(x):
        f = dunder(x, '__hash__')
        return f(x) if f is not None else hash(x)
    if type(x) is SAny:
        x = x.resolve()
    if is_text(x):
        return SInt(uf('py_hash_' + textkind(x), V.STR, V.INT)(st(x)))
    if type(x) is SInt:
        return SInt(uf('py_hash_int', V.INT, V.INT)(x.t))
    if isinstance(x, SObj):
        return SInt(uf('py_hash_obj', V.INT, V.INT)(x._pd_ref))
    core.E.unsupported('hash of symbolic value')


for _m in (m_str, m_repr, m_hash, m_bool):
    _m._always = True


@model(id)
def m_id(x):
    if type(x) is SAny:
        x = x.resolve()
    if isinstance(x, SObj):
        return SInt(uf('py_id', V.INT, V.INT)(x._pd_ref))
    core.E.unsupported('id of symbolic value')


def m_list(x=()):
    if isinstance(x, V.MSet):
        x = x._d
    if isinstance(x, (VSeq, SymIter, DictView)) or (isinstance(x, MList) and x._sym) or (isinstance(x, MDict) and x._sym):
        return V.materialise(x)
    if isinstance(x, SBase) and not isinstance(x, SChars):
        core.E.unsupported('list() of symbolic value')
    return MList(x)


m_list._always = True
MODELS[id(list)] = (list, m_list)


def m_dict(*a, **k):
    d = MDict()
    d.update(*a, **k)
    return d


m_dict._always = True
MODELS[id(dict)] = (dict, m_dict)


@model(tuple)
def m_tuple(x=()):
    if isinstance(x, V.MSet):
        return m_tuple(m_list(x))
    if isinstance(x, MList) and not x._sym:
        return tuple(list.__iter__(x))
    if isinstance(x, (VSeq, SymIter, DictView, MList)):
        m = V.as_vseq(V.materialise(x))
        if type(m.n) is int and not isinstance(m, V.ListView):
            return tuple(m.raw(i) for i in range(m.n))
        m.pt = tuple
        return m
    if isinstance(x, SBase):
        core.E.unsupported('tuple() of symbolic value')
    return tuple(x)


@model(iter)
def m_iter(x):
    f = dunder(x, '__iter__')
    if f is not None:
        return f(x)
    if isinstance(x, (VSeq, DictView)) or (isinstance(x, (MList, MDict)) and x._sym):
        return SymIter(V.as_vseq(x))
    if isinstance(x, SymIter):
        return x
    return iter(x)


m_iter._always = True


@model(reversed)
def m_reversed(x):
    if isinstance(x, (VSeq,)) or (isinstance(x, MList) and x._sym):
        v = V.as_vseq(x)
        return SymIter(V.seq_slice(v, _slice(None, None, -1)))
    return reversed(x)


@model(zip)
def m_zip(*xs, **kw):
    vs = [V.as_vseq(x) if not isinstance(x, (tuple, list)) or symbolic(x, 0) else V.as_vseq(x) for x in xs]
    n = vs[0].n
    for v in vs[1:]:
        n = mkint(z3.If(it(v.n) < it(n), it(v.n), it(n)))
    return SymIter(VSeq(n, lambda i: tuple(v.raw(i) for v in vs))) if not type(n) is int else \
        iter([tuple(v.raw(i) for v in vs) for i in range(n)])


@model(enumerate)
def m_enumerate(x, start=0):
    v = V.as_vseq(x)
    if type(v.n) is int and not isinstance(v, V.ListView):
        return iter([(i + start, v.raw(i)) for i in range(v.n)])
    return SymIter(VSeq(v.n, lambda i: (mkint(it(i) + it(start)), v.raw(i))))


@model(map)
def m_map(f, *xs):
    vs = [V.as_vseq(x) for x in xs]
    if all(type(v.n) is int and not isinstance(v, V.ListView) for v in vs):
        n = min(v.n for v in vs)
        return iter([call(f, *[v.raw(i) for v in vs]) for i in range(n)])
    if len(vs) == 1:
        # eager, through an ordinary loop (so the loop machinery applies)
        return SymIter(V.as_vseq(_map_loop(f, vs[0])))
    core.E.unsupported('map over symbolic sequences')


def _map_loop(f, seq):
    R = MList()
    L = for_enter('pyded:map#0', seq, ())
    while True:
        L.top({'R': R})
        if not L.next():
            break
        R.append(call(f, L.value))
    return R


@model(range)
def m_range(*a):
    if len(a) == 1:
        a = (0, a[0], 1)
    elif len(a) == 2:
        a = (a[0], a[1], 1)
    for x in a:
        if not is_intlike(x):
            raise Prog(TypeError('range() integer expected'))
    return V.SymRange(*a)


def _fold_minmax(pick, args, kw):
    if kw:
        core.E.unsupported('min/max with keywords')
    if len(args) == 1:
        args = list(args[0])
    best = args[0]
    for x in args[1:]:
        if type(x) in (int, SInt) and type(best) in (int, SInt) and not (type(x) is type(best) is int) \
                and not core.E.in_quant:
            a, b = it(x), it(best)
            t, u = (a < b, b < a) if pick == '<' else (b < a, a < b)
            if not core.E.either(z3.simplify(t))[0]:
                best = mkint(b)
            elif not core.E.either(z3.simplify(u))[0]:
                best = mkint(a)
            else:
                best = mkint(z3.If(t, a, b))
        elif cmp(pick, x, best):
            best = x
    return best


@model(min)
def m_min(*a, **k):
    return _fold_minmax('<', a, k)


@model(max)
def m_max(*a, **k):
    return _fold_minmax('>', a, k)


@model(sum)
def m_sum(x, start=0):
    r = start
    if isinstance(x, MList) and not x._sym:
        for y in list.__iter__(x):
            r = binop('+', r, y)
        return r
    core.E.unsupported('sum of symbolic sequence')


@model(abs)
def m_abs(x):
    return abs(x)


@model(round)
def m_round(x, *a):
    return round(x, *a)


@model(divmod)
def m_divmod(a, b):
    return (binop('//', a, b), binop('%', a, b))


@model(sorted)
def m_sorted(x, **k):
    if isinstance(x, V.MSet):
        x = x._d
    if isinstance(x, MDict) and not x._sym:
        x = MList(dict.__iter__(x))
    if type(x) in (tuple, list):
        x = MList(x)
    if isinstance(x, MList) and not x._sym and not any(isinstance(y, SBase) for y in list.__iter__(x)) and not symbolic(x):
        return MList(sorted(list.__iter__(x), **k))
    if isinstance(x, MList) and not x._sym and not k:
        xs = list(list.__iter__(x))
        out = []
        for v in xs:
            i = len(out)
            while i > 0 and cmp('<', v, out[i - 1]):
                i -= 1
            out.insert(i, v)
        return MList(out)
    core.E.unsupported('sorted of symbolic data')


@model(any)
def m_any(x):
    for y in _finite(x):
        if y:
            return True
    return False


@model(all)
def m_all(x):
    for y in _finite(x):
        if not y:
            return False
    return True


def _finite(x):
    v = V.as_vseq(x)
    if isinstance(v, V.ListView) or not type(v.n) is int:
        core.E.unsupported('any/all over symbolic sequence')
    return [v.raw(i) for i in range(v.n)]


@model(getattr)
def m_getattr(o, n, *d):
    if type(n) is SAny:
        n = n.resolve()
    if isinstance(n, SBase):
        h = core.E.symattrs.get(id(o))
        if h is None:
            core.E.unsupported('getattr with symbolic name')
        return h[1]('get', n, *d)
    if type(o) is SAny:
        o = o.resolve()
    try:
        return getattr(o, n, *d)
    except Prog as p:
        raise p.exc


@model(setattr)
def m_setattr(o, n, v):
    if type(n) is SAny:
        n = n.resolve()
    if isinstance(n, SBase):
        h = core.E.symattrs.get(id(o))
        if h is None:
            core.E.unsupported('setattr with symbolic name')
        return h[1]('set', n, v)
    setattr(o, n, v)


@model(hasattr)
def m_hasattr(o, n):
    if type(o) is SAny:
        o = o.resolve()
    try:
        m_getattr(o, n)
        return True
    except AttributeError:
        return False


@model(callable)
def m_callable(x):
    if isinstance(x, SObj):
        return '__call__' in x._pd_cm.methods
    return False


@model(issubclass)
def m_issubclass(a, b):
    return issubclass(a, b)


@model(print)
def m_print(*a, **k):
    return None


@model(ord)
def m_ord(x):
    if type(x) is SText:
        return mkint(z3.StrToCode(x.t))
    return ord(x)


def m_next(x, *d):
    if isinstance(x, SymIter):
        core.E.unsupported('next() of symbolic iterator')
    if isinstance(x, SObj):
        return x.__getattr__('__next__')()
    if hasattr(x, '_pd_next'):
        return x._pd_next()
    return next(x, *d)


m_next._always = True
MODELS[id(next)] = (next, m_next)


def slice_indices_method(s, n):
    return V.slice_indices(s.start, s.stop, s.step, n)


METHOD_MODELS[(_slice, 'indices')] = slice_indices_method
for _t in (str, bytes):
    METHOD_MODELS[(_t, 'join')] = V.text_join
    for _m in ('startswith', 'endswith', 'find', 'replace', 'count', 'index', 'rfind', 'split', 'encode'):
        def _mk(m, t):
            def f(s, *a):
                return getattr(SText('str' if t is str else 'bytes', V.sv(s)), m)(*a)
            return f
        METHOD_MODELS[(_t, _m)] = _mk(_m, _t)


def str_format(s, *a, **k):
    return opaque_text()


METHOD_MODELS[(str, 'format')] = str_format


def dict_get(d, k, default=None):
    for c in list(d):
        if cmp('==', k, c):
            return d[c]
    return default


METHOD_MODELS[(dict, 'get')] = dict_get


def list_index(l, v, *a):
    for i, x in enumerate(l):
        if cmp('==', v, x):
            return i
    raise ValueError('not in list')


METHOD_MODELS[(list, 'index')] = list_index
METHOD_MODELS[(tuple, 'index')] = list_index


for _o, _f in list(_OPS.items()):
    MODELS[id(_f)] = (_f, functools.partial(binop, _o))
for _o, _f in list(_IOPS.items()):
    MODELS[id(_f)] = (_f, functools.partial(iop, _o))
for _o, _f in list(_CMP.items()):
    MODELS[id(_f)] = (_f, functools.partial(cmp, _o))
MODELS[id(operator.contains)] = (operator.contains, lambda c, x: _b(contains(c, x)))
MODELS[id(operator.getitem)] = (operator.getitem, lambda o, k: getitem(o, k))


def install_lib_models():
    """models of library functions used by the repository"""
    import six

    @model(six.ensure_binary)
    def m_ensure_binary(s, encoding='utf-8', errors='strict'):
        if type(s) is SAny:
            s = s.resolve()
        if is_text(s):
            if textkind(s) == 'bytes':
                return s
            return V.text_encode(s if type(s) is SText else s.as_text(), encoding, errors) if isinstance(s, SBase) \
                else six.ensure_binary(s)
        if isinstance(s, bytes) and isinstance(s, SBase):
            return s
        raise Prog(TypeError("not expecting type"))

    @model(six.ensure_str)
    def m_ensure_str(s, encoding='utf-8', errors='strict'):
        if type(s) is SAny:
            s = s.resolve()
        if is_text(s):
            if textkind(s) == 'str':
                return s
            return V.text_decode(s, encoding, errors)
        if isinstance(s, bytes) and isinstance(s, SBase):
            return s.decode(encoding, errors)
        raise Prog(TypeError("not expecting type"))
    MODELS[id(six.ensure_text)] = (six.ensure_text, m_ensure_str)

    @model(six.iteritems)
    def m_iteritems(d, **k):
        return iter(d.items())

    @model(six.itervalues)
    def m_itervalues(d, **k):
        return iter(d.values())

    @model(six.iterkeys)
    def m_iterkeys(d, **k):
        return iter(d.keys())
    for n in ('viewitems', 'viewkeys', 'viewvalues'):
        f = getattr(six, n)
        MODELS[id(f)] = (f, (lambda which: lambda d: getattr(d, which)())(n[4:]))
    core.E.assumed.add('six.viewitems/iteritems/ensure_binary/ensure_str: Python 3 semantics as documented')


# ----------------------------------------------------------------------- loops
_ATOM = (int, str, bytes, bool, float, type(None), type, types.FunctionType, types.ModuleType, types.CodeType,
         types.BuiltinFunctionType, frozenset, range, complex, re.Pattern, datetime.timedelta, datetime.datetime)


def _is_atom(v):
    if isinstance(v, (MList, MDict, V.MSet)):
        return False
    if isinstance(type(v), type) and issubclass(type(v), SBase):
        return True
    return isinstance(v, _ATOM)


class Snap(object):
    """names of all concrete mutable locations reachable from the roots"""

    def __init__(self):
        self.loc = {}       # name -> (getter value, setter info)
        self.objs = {}      # id -> name
        self.keep = []
        self.refs = {}      # id -> number of references seen
        self.opaque = []

    def add_root(self, name, v):
        self.queue.append((name, v))

    def walk(self, roots):
        self.queue = []
        for n, v in roots:
            self.queue.append((n, v))
        qi = 0
        while qi < len(self.queue):
            name, v = self.queue[qi]
            qi += 1
            self.visit(name, v)
            if qi > 20000:
                core.E.unsupported('heap too large to cut a loop')
        return self

    def visit(self, name, v):
        if type(v) is tuple:
            for i, x in enumerate(v):
                self.queue.append(('%s(%d)' % (name, i), x))
            return
        if type(v) is types.CellType:
            try:
                self.queue.append((name, v.cell_contents))
            except ValueError:
                pass
            return
        if type(v) is types.FunctionType:
            if v.__closure__ and '_pd_' in v.__globals__:
                k = id(v)
                if k in self.objs:
                    return
                self.objs[k] = name
                self.keep.append(v)
                for n, c in zip(v.__code__.co_freevars, v.__closure__):
                    try:
                        cv = c.cell_contents
                    except ValueError:
                        continue
                    self.loc['%s^%s' % (name, n)] = (cv, ('cell', c))
                    self.queue.append(('%s^%s' % (name, n), cv))
            return
        if type(v) is types.MethodType:
            self.queue.append((name + '.__self__', v.__self__))
            self.queue.append((name + '.__func__', v.__func__))
            return
        if isinstance(v, functools.partial):
            self.queue.append((name + '.args', v.args))
            return
        if getattr(type(v), '_pd_opaque_', False):
            return
        if isinstance(v, Stub) or _is_atom(v):
            if isinstance(v, VSeq) and hasattr(v, 'l'):
                pass
            return
        k = id(v)
        self.refs[k] = self.refs.get(k, 0) + 1
        if k in self.objs:
            return
        self.objs[k] = name
        self.keep.append(v)
        if isinstance(v, MList):
            self.loc[name + '[*]'] = (v._content(), ('list', v))
            if not v._sym:
                for i, x in enumerate(list.__iter__(v)):
                    self.queue.append(('%s[%d]' % (name, i), x))
            return
        if isinstance(v, V.MSet):
            self.queue.append((name + '.elements', v._d))
            return
        if isinstance(v, MDict):
            self.loc[name + '{*}'] = (v._content(), ('dict', v))
            if not v._sym:
                for kk in list(dict.__iter__(v)):
                    self.queue.append(('%s{%r}' % (name, kk if not isinstance(kk, SBase) else '?'), dict.__getitem__(v, kk)))
            d = getattr(v, '__dict__', None)
            if d:
                for n in sorted(d):
                    if n.startswith('_') and n in ('_sym', '_kk', '_vk', '_dom', '_val', '_en', '_assoc'):
                        continue
                    self.loc['%s.%s' % (name, n)] = (d[n], ('attr', v, n))
                    self.queue.append(('%s.%s' % (name, n), d[n]))
            return
        if isinstance(v, list):
            self.loc[name + '[*]'] = (('con',) + tuple(v), ('native', v))
            for i, x in enumerate(v):
                self.queue.append(('%s[%d]' % (name, i), x))
            return
        if isinstance(v, dict):
            self.loc[name + '{*}'] = (('con',) + tuple(v.items()), ('native', v))
            for kk, x in list(v.items()):
                self.queue.append(('%s{%r}' % (name, kk), x))
            return
        if isinstance(v, (set, bytearray)):
            self.loc[name + '{s}'] = (('con',) + tuple(v), ('native', v))
            return
        if isinstance(v, itertools.count):
            self.loc[name + '.count'] = (repr(v), ('native', v))
            return
        if isinstance(v, BaseException):
            d = v.__dict__
            return
        d = getattr(v, '__dict__', None)
        if isinstance(d, dict):
            for n in sorted(d):
                self.loc['%s.%s' % (name, n)] = (d[n], ('attr', v, n))
                self.queue.append(('%s.%s' % (name, n), d[n]))
            return
        if type(v).__module__ in ('builtins', 'operator', '_io', 're', '_thread', '_sre', 'zope.interface', 'datetime',
                                  'functools'):
            self.opaque.append((name, type(v).__name__))
            return


def same(a, b):
    """do two location values denote the same value (syntactically)?"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(type(a), type) and issubclass(type(a), SBase):
        if isinstance(a, SObj):
            return a._pd_cm is b._pd_cm and a._pd_ref.eq(b._pd_ref)
        if isinstance(a, SText):
            return a.kind == b.kind and a.t.eq(b.t)
        t = getattr(a, 't', None)
        if t is not None:
            return t.eq(b.t)
        return False
    if type(a) is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Kind):
        return a == b
    if isinstance(a, (int, str, bytes, float)):
        return a == b
    return False


class LoopInfo(object):
    def __init__(self):
        self.havoc = {}      # location name -> kind spec
        self.dropped = set()
        self.cut = False
        self.why = {}


class Loop(object):
    hav = False
    nl = ()
    cutting = False

    def __init__(self, lid, names):
        self.lid, self.names = lid, names
        self.visits = 0

    # -- invariants ----------------------------------------------------------
    def candidates(self, ctx):
        out = []
        e = core.E
        if isinstance(getattr(self, 'seq', None), V.ListView):
            out.append(('(automatic) index within the list', mkbool(it(ctx.i) <= it(self.seq.n))))
        out += self.automatic(ctx)
        for fn, seq, over in [(fn, seq, over) for seq, over in self.over(ctx) for fn in e.invariants]:
            ctx.seq = seq
            try:
                r = fn(ctx)
            except SkipInv:
                if os.environ.get('PYDED_DEBUG') == '2':
                    print('invariant skipped for', ctx.func)
                continue
            except (Prog, V.NoFit):
                if os.environ.get('PYDED_DEBUG') == '2':
                    import traceback
                    traceback.print_exc()
                continue
            except EngineSignal:
                raise
            except Exception as x:
                e.check_abort()
                import traceback
                e.abort(core.EngineBug('invariant raised: ' + traceback.format_exc()[-800:]))
            if r:
                for n, c in r:
                    out.append((n + over, c))
        return out

    def over(self, ctx):
        """the sequences the loop may be walking"""
        return [(ctx.seq, '')]

    def automatic(self, ctx):
        """candidates tried for every loop: counters, and lists used up or walked by position"""
        out = []
        i = it(ctx.i)
        lists = [(n, v) for n, v in sorted(ctx.locals.items()) if type(v) is MList]
        for n in sorted(self.names):
            v, v0 = ctx.locals.get(n), ctx.entry.locals.get(n)
            if type(v) in (int, SInt) and type(v0) in (int, SInt):
                out += [('(automatic) %s counts up' % n, mkbool(it(v) == it(v0) + i)),
                        ('(automatic) %s counts down' % n, mkbool(it(v) == it(v0) - i))]
                if isinstance(self, WhileLoop):
                    out += [('(automatic) %s is no negative number' % n, mkbool(it(v) >= 0))]
                    for m, l in lists:
                        out.append(('(automatic) %s is within %s' % (n, m), mkbool(it(v) <= it(l._pd_len()))))
        if isinstance(self, WhileLoop):
            for m, l in lists:
                l0 = ctx.entry.saved.get(id(l))
                if l0 is None or not l0._sym:
                    continue
                out.append(('(automatic) %s is used up' % m, mkbool(it(l._pd_len()) == l0._n - i)))
                if l._sym and l._kind == l0._kind:
                    j = z3.Const('j!auto', V.INT)
                    out += [('(automatic) %s is used up from the front' % m, mkbool(z3.ForAll([j], z3.Implies(
                                z3.And(j >= 0, j < l._n), l._arr[j] == l0._arr[j + i])))),
                            ('(automatic) %s is used up from the end' % m, mkbool(z3.ForAll([j], z3.Implies(
                                z3.And(j >= 0, j < l._n), l._arr[j] == l0._arr[j]))))]
        return out

    def key(self):
        e = core.E
        k = e.loopcount.get(self.lid, 0)
        e.loopcount[self.lid] = k + 1
        return (self.lid, k)

    def roots(self, loc):
        e = core.E
        rs = [('local ' + n, v) for n, v in sorted(loc.items()) if not n.startswith('_pd_') or n in ('_pd_R',)]
        rs += [('root %d' % i, v) for i, v in enumerate(e.roots)]
        rs += [('ghost ' + n, v) for n, v in sorted(e.ghost.items()) if isinstance(v, (MList, MDict))]
        return rs

    def snapshot(self, loc):
        e = core.E
        s = Snap().walk(self.roots(loc))
        for n in self.names:
            if n in loc:
                s.loc['local ' + n] = (loc[n], ('local', n))
        for k in sorted(e.heap):
            s.loc['heap %s.%s' % k] = (e.heap[k], ('heap', k))
        for n, v in sorted(e.ghost.items()):
            if isinstance(v, (SBase, int, str)):
                s.loc['ghost ' + n] = (v, ('ghost', n))
        s.loc['alloc'] = (e.alloc, ('alloc',))
        return s

    def cut_top(self, loc, i):
        """cut the loop here: check invariants, havoc, assume"""
        e = core.E
        info = e.loopinfo.setdefault(self.k, LoopInfo())
        self.info = info
        snap0 = self.snapshot(loc)
        self.entry = EntryState(snap0, loc)
        ctx = LoopCtx(self, loc, i)
        self.check(ctx, 'entry')
        # havoc
        self.nl = {n: loc[n] for n in self.names if n in loc}
        for name in sorted(info.havoc):
            spec = info.havoc[name]
            if name not in snap0.loc:
                if name.startswith('local '):
                    continue
                if name.startswith('heap '):
                    continue
                e.unsupported('loop %s writes %s, unknown at loop entry' % (self.lid, name))
            self.havoc1(snap0, name, spec)
        self.hav = True
        self.snap = None
        return info

    def havoc1(self, snap, name, spec):
        e = core.E
        val, how = snap.loc[name]
        base = 'h_' + name.replace(' ', '_')
        if how[0] == 'local':
            if isinstance(val, (MList, MDict, V.MSet)) and snap.refs.get(id(val), 0) > 1:
                e.unsupported('loop rebinds %s, which aliases another reference' % name)
            self.nl[how[1]] = self.fresh_value(base, spec, val)
        elif how[0] == 'attr':
            setattr(how[1], how[2], self.fresh_value(base, spec, val))
        elif how[0] == 'cell':
            how[1].cell_contents = self.fresh_value(base, spec, val)
        elif how[0] == 'heap':
            e.heap[how[1]] = e.fresh(base, e.heap[how[1]].sort())
        elif how[0] == 'ghost':
            e.ghost[how[1]] = self.fresh_value(base, spec, val)
        elif how[0] == 'alloc':
            a = e.fresh('alloc', z3.IntSort())
            e.add(a >= e.alloc)
            e.alloc = a
        elif how[0] == 'list':
            l = how[1]
            kind = spec[1]
            if kind is None:
                e.unsupported('list of unknown kind written in loop: %s' % name)
            n = e.fresh(base + '_n', z3.IntSort())
            e.add(n >= 0)
            l._set_sym(kind, n, e.fresh(base, z3.ArraySort(z3.IntSort(), kind.sort)))
        elif how[0] == 'dict':
            d = how[1]
            kk, vk = spec[1], spec[2]
            if kk is None or vk is None:
                e.unsupported('dict of unknown kind written in loop: %s' % name)
            d._set_sym(kk, vk, e.fresh(base + '_dom', z3.ArraySort(kk.sort, z3.BoolSort())),
                       e.fresh(base + '_val', z3.ArraySort(kk.sort, vk.sort)))
        else:
            e.unsupported('loop %s writes native object %s' % (self.lid, name))

    def fresh_value(self, base, spec, old):
        e = core.E
        if spec[0] == 'kind':
            return spec[1].fresh(base)
        if spec[0] == 'newlist':
            n = e.fresh(base + '_n', z3.IntSort())
            e.add(n >= 0)
            return MList.symbolic(spec[1], n, e.fresh(base, z3.ArraySort(z3.IntSort(), spec[1].sort)))
        e.unsupported('cannot havoc %s (%r)' % (base, spec))

    def spec_of(self, val, how):
        """how to havoc a location now holding val"""
        if how[0] == 'list':
            l = how[1]
            if l._sym:
                return ('list', l._kind)
            k = None
            for x in list.__iter__(l):
                k = V.unify(k, V.kind_of(x))
            return ('list', k)
        if how[0] == 'dict':
            d = how[1]
            if d._sym:
                return ('dict', d._kk, d._vk)
            kk = vk = None
            for x in dict.__iter__(d):
                kk = V.unify(kk, V.kind_of(x))
                vk = V.unify(vk, V.kind_of(dict.__getitem__(d, x)))
            return ('dict', kk, vk)
        if how[0] in ('heap', 'alloc'):
            return (how[0],)
        if how[0] in ('local', 'attr', 'cell', 'ghost'):
            if isinstance(val, MList):
                s = self.spec_of(val, ('list', val))
                return ('newlist', s[1])
            if isinstance(val, (MDict, V.MSet)):
                return ('newdict',)
            return ('kind', V.kind_of(val))
        return ('native',)

    def merge_spec(self, a, b):
        if a is None:
            return b
        if a == b:
            return a
        if a[0] != b[0]:
            if {a[0], b[0]} == {'newlist', 'kind'}:
                core.E.unsupported('loop location changes between list and scalar')
            core.E.unsupported('loop location changes shape %r %r' % (a, b))
        return (a[0],) + tuple(V.unify(x, y) for x, y in zip(a[1:], b[1:]))

    def after_havoc(self, loc, i):
        """assume invariants in the havocked state"""
        e = core.E
        ctx = LoopCtx(self, loc, i)
        self.assumed = set()
        for n, c in self.candidates(ctx):
            # only what was checked on entry may be assumed
            if n not in self.info.dropped and n in self.entry_names:
                self.assumed.add(n)
                e.assume(c)
        self.snap = self.snapshot(loc)
        self.assumed_at = len(e.trail)

    def back_edge(self, loc, i):
        e = core.E
        info = self.info
        now = self.snapshot(loc)
        grew = False
        for name, (val, how) in now.loc.items():
            if name in self.snap.loc:
                if same(self.snap.loc[name][0], val):
                    if not (self.snap.loc[name][1][-1] is how[-1] or how[0] in ('local', 'heap', 'ghost', 'alloc')
                            or how[0] == 'attr'):
                        pass
                    if name not in info.havoc:
                        continue
            elif how[0] != 'heap':
                # a location that did not exist at the top: new object or new local
                if how[0] == 'local' or self.fresh_object(name, how):
                    continue
                if how[0] == 'attr' and id(how[1]) in self.snap.objs:
                    e.unsupported('loop creates attribute %s' % name)
                continue
            elif name not in self.snap.loc:
                # heap field first touched in the loop
                if z3.is_const(val):
                    continue
            spec = self.spec_of(val, how)
            old = info.havoc.get(name)
            if old is None:
                # include the value at the top of the loop in the shape
                if name in self.snap.loc:
                    spec = self.merge_spec(self.spec_of(*self.snap.loc[name]), spec) \
                        if how[0] in ('local', 'attr', 'cell', 'ghost', 'list', 'dict') else spec
                info.havoc[name] = spec
                grew = True
            elif how[0] not in ('heap', 'alloc'):
                m = self.merge_spec(old, spec)
                if m != old:
                    info.havoc[name] = m
                    grew = True
        if grew:
            e.abort(LoopRestart())
        ctx = LoopCtx(self, loc, i)
        self.check(ctx, 'preserved')
        e.abort(PathEnd())

    def fresh_object(self, name, how):
        if how[0] in ('list', 'dict', 'native'):
            return id(how[1]) not in self.snap.objs
        if how[0] == 'attr':
            return id(how[1]) not in self.snap.objs
        return True

    def check(self, ctx, what):
        e = core.E
        info = self.info
        cs = self.candidates(ctx)
        if what == 'entry':
            self.entry_names = set(n for n, c in cs)
        else:
            for n in sorted(self.assumed - set(n for n, c in cs)):
                info.dropped.add(n)
                info.why[n] = (what, 'absent', '')
                e.abort(LoopRestart())
        for n, c in cs:
            if n in info.dropped:
                continue
            if e.replaying:
                continue
            status, be, dt, extra = e.prove(c, timeout=e.cand_timeout, alts=False)
            if status != 'proved':
                info.dropped.add(n)
                info.why[n] = (what, status, str(extra)[:300])
                e.abort(LoopRestart())
            if dt > 1 and os.environ.get('PYDED_DEBUG'):
                print('slow %.1fs %s %s %s' % (dt, self.lid, what, n))
            o = core.Obligation('%s/loop %s invariant %s: %s' % (e.harness, self.lid, what, n), 'proved', be, dt)
            e.obligations.append(o)
            e.backend_counts[be] = e.backend_counts.get(be, 0) + 1


class SkipInv(Exception):
    pass


class EntryState(object):
    def __init__(self, snap, loc):
        self.heap = dict(core.E.heap)
        self.ghost = {}
        for n, v in core.E.ghost.items():
            self.ghost[n] = v.copy() if isinstance(v, (MList, MDict)) else v
        self.saved = {}
        for name, (val, how) in snap.loc.items():
            if how[0] == 'list':
                self.saved[id(how[1])] = how[1].copy()
            elif how[0] == 'dict':
                c = MDict()
                c._become(how[1])
                self.saved[id(how[1])] = c
        self.locals = dict(loc)
        self.attrs = {n: v for n, (v, how) in snap.loc.items() if how[0] == 'attr'}
        self.alloc = core.E.alloc


class LoopCtx(object):
    def __init__(self, loop, loc, i):
        self.loop = loop
        self.lid = loop.lid
        self.func = loop.lid.split('#')[0]
        self.i = i
        # (a set appears as the dictionary of its members)
        self.locals = {n: v._d if isinstance(v, V.MSet) else v for n, v in loc.items() if not n.startswith('_pd_') or n == '_pd_R'}
        self.entry = loop.entry
        self.seq = getattr(loop, 'seq', None)

    @property
    def n(self):
        if self.seq is None:
            raise SkipInv()
        return self.seq.n

    def at(self, j):
        if self.seq is None:
            raise SkipInv()
        return self.seq.raw(j)

    def pos(self, k):
        """position of a key in the enumeration of the dict iterated over"""
        if not hasattr(self.seq, 'p'):
            raise SkipInv()
        return SInt(self.seq.p[self.seq.dict._kk.unwrap(k)])

    def old(self, container):
        """contents of a container at loop entry"""
        return self.entry.saved[id(container)]

    def skip(self):
        raise SkipInv()


class ForLoop(Loop):
    def __init__(self, lid, iterable, names):
        Loop.__init__(self, lid, names)
        self.native = None
        if type(iterable) is SAny:
            iterable = iterable.resolve()
        if isinstance(iterable, V.MSet):
            iterable = iterable._d
        if isinstance(iterable, SChars):
            iterable = iter(iterable)
        if isinstance(iterable, (VSeq, SymIter, DictView)) or (isinstance(iterable, (MList, MDict)) and iterable._sym):
            self.seq = V.as_vseq(iterable)
            if type(self.seq.n) is int and not isinstance(self.seq, V.ListView):
                s = self.seq
                self.native = iter([s.raw(i) for i in range(s.n)])
            else:
                self.k = self.key()
                self.cutting = True
        elif isinstance(iterable, SBase):
            if isinstance(iterable, SText):
                core.E.unsupported('iteration over symbolic text')
            f = getattr(iterable, '__iter__', None)
            raise TypeError('not iterable')
        else:
            f = getattr(type(iterable), '__iter__', None)
            self.native = iter(iterable)
        self.state = 0

    def top(self, loc):
        e = core.E
        if e is not None and e.aborting is not None:
            raise e.aborting
        self.hav = False
        if not self.cutting:
            return
        try:
            if self.state == 0:
                self.i = 0
                info = self.cut_top(loc, 0)
                self.i = SInt(e.fresh('i_loop', z3.IntSort()))
                e.add(self.i.t >= 0)
                self.state = 1
            else:
                self.state = 2
                self.back_edge(loc, mkint(it(self.i) + 1))
        except Prog as p:
            raise EngineBug(repr(p.exc))

    def next(self):
        e = core.E
        if not self.cutting:
            try:
                self.value = next(self.native)
                return True
            except StopIteration:
                return False
        # after the locals have been rebound by the instrumented code
        f = sys._getframe(1)
        loc = f.f_locals
        lv = getattr(self.seq, 'dict', None)
        self.after_havoc(dict(loc), self.i)
        if lv is not None and not same(lv._dom, self.seq.dom0):
            # dict resized while iterating?
            self.check_dict(lv)
        n = self.seq.n
        if e.decide(it(self.i) < it(n)):
            self.value = self.seq.at(self.i)
            return True
        e.assume(mkbool(it(self.i) == it(n)) if not isinstance(self.seq, V.ListView) else True)
        return False

    def check_dict(self, d):
        e = core.E
        k = e.fresh('ck', d._kk.sort)
        eq = z3.ForAll([k], d._dom[k] == self.seq.dom0[k])
        st_, be, dt, extra = e.prove(SBool(eq), timeout=e.cand_timeout)
        if st_ != 'proved':
            raise RuntimeError('dictionary changed size during iteration')


class WhileLoop(Loop):
    open = None      # does the condition depend on what is not known?

    def over(self, ctx):
        out = [(None, '')]
        seen = []
        for n, v in sorted(ctx.entry.locals.items()):
            if type(v) is MList and v._sym and id(v) in ctx.entry.saved:
                v = ctx.entry.saved[id(v)]
            elif not isinstance(type(v), type) or not issubclass(type(v), VSeq):
                continue
            if not any(x is v for x in seen):
                seen.append(v)
                out.append((V.as_vseq(v), ' (walking %s)' % n))
        return out[:4]

    def tested(self, v):
        if self.off:
            return v
        e = core.E
        n = len(e.trail)
        if bool(v):
            if self.open is not True:
                self.open = len(e.trail) > n
            return True
        return False

    def __init__(self, lid, names):
        Loop.__init__(self, lid, names)
        e = core.E
        self.trail0 = None
        if e is None or not e.active:
            self.off = True
            return
        self.off = False
        self.k = self.key()
        info = e.loopinfo.get(self.k)
        self.cutting = bool(info and info.cut)
        self.state = 0
        self.visits = 0

    def top(self, loc):
        if self.off:
            return
        e = core.E
        if e.aborting is not None:
            raise e.aborting
        self.hav = False
        if not self.cutting:
            self.visits += 1
            if self.visits == 1:
                self.trail0 = len(e.trail)
            elif len(e.trail) > self.trail0 and self.visits > (2 if self.open is not False else 12):
                e.loopinfo.setdefault(self.k, LoopInfo()).cut = True
                e.abort(LoopRestart())
            if self.visits > 5000:
                e.unsupported('loop %s does not terminate' % self.lid)
            return
        if self.state == 0:
            self.i = 0
            self.cut_top(loc, 0)
            self.i = SInt(e.fresh('i_loop', z3.IntSort()))
            e.add(self.i.t >= 0)
            self.state = 1
            loc2 = {n: v for n, v in loc.items() if n not in self.names}
            loc2.update(self.nl)
            self.after_havoc(loc2, self.i)
        else:
            self.back_edge(loc, mkint(it(self.i) + 1))


def for_enter(lid, iterable, names):
    e = core.E
    if e is None or not e.active:
        L = ForLoop.__new__(ForLoop)
        L.cutting = False
        L.hav = False
        L.native = iter(iterable)
        L.lid = lid
        return L
    try:
        return ForLoop(lid, iterable, names)
    except Prog as p:
        raise p.exc


def while_enter(lid, names):
    return WhileLoop(lid, names)
