"""Symbolic values.  Concrete values stay native Python objects."""
import math
from fractions import Fraction
import z3
from . import core
from .core import Prog, EngineBug, to_bool_term

eng = core.eng
_uf = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()
REAL = z3.RealSort()

_PV = z3.Datatype('PyVal')
_PV.declare('none')
_PV.declare('bool', ('bval', BOOL))
_PV.declare('int', ('ival', INT))
_PV.declare('real', ('rval', REAL))
_PV.declare('str', ('sval', STR))
_PV.declare('byt', ('yval', STR))
_PV.declare('ref', ('rref', INT))
PyVal = _PV.create()


def decide(t):
    return core.E.decide(t)


def unsup(msg):
    core.E.unsupported(msg)


class SBase(object):
    """Base of symbolic wrappers: whatever is not modelled is out of subset."""
    _pd_sym = True

    _hid = False

    def __hash__(self):
        if self._hid:
            return id(self)
        unsup('hash of symbolic %s' % type(self).__name__)

    def __str__(self):
        unsup('native str() of symbolic value')

    def __format__(self, spec):
        unsup('native format() of symbolic value')

    def __repr__(self):
        e = core.E
        if e is not None and e.active and not getattr(e, 'debug', False):
            unsup('native repr() of symbolic value')
        return '<%s %s>' % (type(self).__name__, getattr(self, 't', ''))

    def __iter__(self):
        unsup('native iteration over symbolic %s' % type(self).__name__)

    def __len__(self):
        unsup('native len() of symbolic value')

    def __index__(self):
        unsup('native index() of symbolic value')

    def __int__(self):
        unsup('native int() of symbolic value')

    def __float__(self):
        unsup('native float() of symbolic value')

    def __bytes__(self):
        unsup('native bytes() of symbolic value')

    def __contains__(self, x):
        unsup('native in of symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _unsup_op(n):
    def op(self, *a, **k):
        unsup('operation %s on symbolic %s' % (n, type(self).__name__))
    return op


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod '
           'divmod rdivmod pow rpow lshift rshift and rand or ror xor rxor neg pos abs invert '
           'lt le gt ge call getitem setitem delitem enter exit').split():
    setattr(SBase, '__%s__' % _n, _unsup_op(_n))


# --------------------------------------------------------------------- booleans
class SBool(SBase):
    __class__ = property(lambda self: bool)
    pytype = bool

    def __init__(self, t):
        self.t = t

    def _pd_bool(self):
        return self.t

    def __bool__(self):
        return decide(self.t)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.t == o.t)
        if o is True or o is False:
            return SBool(self.t == z3.BoolVal(o))
        return as_int(self) == o

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SBase.__hash__

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        unsup('~bool')

    def __sub__(self, o):
        return as_int(self) - o

    def __rsub__(self, o):
        return o - as_int(self)

    def __add__(self, o):
        return as_int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return as_int(self) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return as_int(self) < o

    def __gt__(self, o):
        return as_int(self) > o

    def __neg__(self):
        return -as_int(self)


def mkbool(t):
    t2 = z3.simplify(t)
    if z3.is_true(t2):
        return True
    if z3.is_false(t2):
        return False
    return SBool(t)


def bt(c):
    return to_bool_term(c)


def And(*cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    ts = [c for c in cs if c is not True]
    if any(c is False for c in ts):
        return False
    if not ts:
        return True
    return mkbool(z3.And([bt(c) for c in ts]))


def Or(*cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    ts = [c for c in cs if c is not False]
    if any(c is True for c in ts):
        return True
    if not ts:
        return False
    return mkbool(z3.Or([bt(c) for c in ts]))


def Not(c):
    if c is True:
        return False
    if c is False:
        return True
    return mkbool(z3.Not(bt(c)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return mkbool(bt(a) == bt(b))


# --------------------------------------------------------------------- integers
def as_int(b):
    if isinstance(b, SBool):
        return SInt(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
    return b


def it(x):
    """Int term of an int-like value."""
    if type(x) is SInt:
        return x.t
    if type(x) is SBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if x is True or x is False:
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if type(x) is SAny:
        return it(x.resolve())
    raise EngineBug('not an int: %r' % (x,))


def is_intlike(x):
    return type(x) in (SInt, SBool) or isinstance(x, int)


def mkint(t):
    t2 = z3.simplify(t)
    if z3.is_int_value(t2):
        return t2.as_long()
    return SInt(t)


def rt(x):
    if type(x) is SReal:
        return x.t
    if is_intlike(x):
        return z3.ToReal(it(x))
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal(f)
    raise EngineBug('not a number: %r' % (x,))


def _ibin(name, fn, rev=False):
    def op(self, o):
        if type(o) is SAny:
            o = o.resolve()
        if type(o) is SReal or isinstance(o, float):
            a, b = (SReal(rt(o)), SReal(rt(self))) if rev else (SReal(rt(self)), SReal(rt(o)))
            return getattr(a, name)(b)
        if not is_intlike(o):
            return NotImplemented
        a, b = it(self), it(o)
        if rev:
            a, b = b, a
        return fn(a, b)
    return op


def quotient(a, n):
    """names for a // n and a % n of a composite term (z3's own rewriting of those obscures them)"""
    e = core.E
    a = z3.simplify(a)
    if e.in_quant or not e.active or z3.is_int_value(a) or a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return None
    memo = e.ghost.setdefault('quotients', {})
    k = (a.get_id(), n)
    if k not in memo:
        q, r = e.fresh('quot', INT), e.fresh('rem', INT)
        e.add(z3.And(r >= 0, r < n))
        e.add(a == n * q + r)
        memo[k] = (a, q, r)
    return memo[k][1:]


def _floordiv(a, b):
    bs = z3.simplify(b)
    if z3.is_int_value(bs) and bs.as_long() > 1:
        qr = quotient(a, bs.as_long())
        if qr is not None:
            return mkint(qr[0])
    if z3.is_int_value(bs):
        v = bs.as_long()
        if v == 0:
            raise Prog(ZeroDivisionError('integer division or modulo by zero'))
        if v > 0:
            return mkint(a / b)
        return mkint((-a) / z3.IntVal(-v))
    if decide(b == 0):
        raise Prog(ZeroDivisionError('integer division or modulo by zero'))
    if decide(b > 0):
        return mkint(a / b)
    return mkint((-a) / (-b))


def _mod(a, b):
    bs = z3.simplify(b)
    if z3.is_int_value(bs) and bs.as_long() > 0:
        qr = quotient(a, bs.as_long())
        if qr is not None:
            return mkint(qr[1])
        return mkint(a % b)
    q = _floordiv(a, b)
    return mkint(a - it(q) * b)


class SInt(SBase):
    __class__ = property(lambda self: int)
    pytype = int

    def __init__(self, t):
        self.t = t

    __add__ = _ibin('__add__', lambda a, b: mkint(a + b))
    __radd__ = _ibin('__add__', lambda a, b: mkint(a + b), True)
    __sub__ = _ibin('__sub__', lambda a, b: mkint(a - b))
    __rsub__ = _ibin('__sub__', lambda a, b: mkint(a - b), True)
    __mul__ = _ibin('__mul__', lambda a, b: mkint(a * b))
    __rmul__ = _ibin('__mul__', lambda a, b: mkint(a * b), True)
    __floordiv__ = _ibin('__floordiv__', _floordiv)
    __rfloordiv__ = _ibin('__floordiv__', _floordiv, True)
    __mod__ = _ibin('__mod__', _mod)
    __rmod__ = _ibin('__mod__', _mod, True)
    __lt__ = _ibin('__lt__', lambda a, b: mkbool(a < b))
    __le__ = _ibin('__le__', lambda a, b: mkbool(a <= b))
    __gt__ = _ibin('__gt__', lambda a, b: mkbool(a > b))
    __ge__ = _ibin('__ge__', lambda a, b: mkbool(a >= b))

    def __truediv__(self, o):
        return SReal(rt(self)) / o

    def __rtruediv__(self, o):
        return SReal(rt(o)) / self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __eq__(self, o):
        if type(o) is SAny:
            return o == self
        if type(o) is SReal or isinstance(o, float):
            return SReal(rt(self)) == o
        if is_intlike(o):
            return mkbool(it(self) == it(o))
        if isinstance(o, SBase) and not hasattr(o, 'pytype'):
            return NotImplemented
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SBase.__hash__

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def __bool__(self):
        return decide(self.t != 0)

    def __round__(self, n=None):
        return self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.t
            return mkint(r)
        unsup('int power')

    def __rpow__(self, base):
        unsup('int power')

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        unsup('native index() of symbolic int')

    def bit_length(self):
        unsup('bit_length')


def _rbin(fn, rev=False):
    def op(self, o):
        if not (type(o) is SReal or is_intlike(o) or isinstance(o, float)):
            return NotImplemented
        a, b = self.t, rt(o)
        if rev:
            a, b = b, a
        return fn(a, b)
    return op


def _rdiv(a, b):
    bs = z3.simplify(b)
    if z3.is_rational_value(bs):
        if bs.numerator_as_long() == 0:
            raise Prog(ZeroDivisionError('division by zero'))
        return SReal(a / b)
    if decide(b == 0):
        raise Prog(ZeroDivisionError('division by zero'))
    return SReal(a / b)


def real_floor(t):
    return z3.ToInt(t)


def int_over(t):
    """(n, d) with t = n/d, n an integer term and d a number, if t is a linear combination of integers"""
    t = z3.simplify(t)
    parts = []
    for x in (t.children() if z3.is_add(t) else [t]):
        c, y = Fraction(1), x
        if z3.is_mul(x) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)):
            c, y = x.arg(0).as_fraction(), x.arg(1)
        if z3.is_rational_value(y):
            c, y = c * y.as_fraction(), z3.IntVal(1)
        elif z3.is_to_real(y):
            y = y.arg(0)
        else:
            return None
        parts.append((c, y))
    d = 1
    for c, y in parts:
        d = d * c.denominator // math.gcd(d, c.denominator)
    return z3.Sum([int(c * d) * y for c, y in parts]), d


def real_round(t):
    f = z3.ToInt(t)
    r = t - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return z3.If(r < half, f, z3.If(r > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


class SReal(SBase):
    """A float, treated as a mathematical real (stated assumption)."""
    __class__ = property(lambda self: float)
    pytype = float

    def __init__(self, t):
        self.t = t
        core.E.assumed.add('machine arithmetic: floats are treated as mathematical reals')

    __add__ = _rbin(lambda a, b: SReal(a + b))
    __radd__ = _rbin(lambda a, b: SReal(a + b), True)
    __sub__ = _rbin(lambda a, b: SReal(a - b))
    __rsub__ = _rbin(lambda a, b: SReal(a - b), True)
    __mul__ = _rbin(lambda a, b: SReal(a * b))
    __rmul__ = _rbin(lambda a, b: SReal(a * b), True)
    __truediv__ = _rbin(_rdiv)
    __rtruediv__ = _rbin(_rdiv, True)
    __lt__ = _rbin(lambda a, b: mkbool(a < b))
    __le__ = _rbin(lambda a, b: mkbool(a <= b))
    __gt__ = _rbin(lambda a, b: mkbool(a > b))
    __ge__ = _rbin(lambda a, b: mkbool(a >= b))

    def __floordiv__(self, o):
        return SReal(z3.ToReal(z3.ToInt(_rdiv(self.t, rt(o)).t)))

    def __mod__(self, o):
        b = rt(o)
        q = z3.ToReal(z3.ToInt(_rdiv(self.t, b).t))
        return SReal(self.t - q * b)

    def __eq__(self, o):
        if type(o) is SReal or is_intlike(o) or isinstance(o, float):
            return mkbool(self.t == rt(o))
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SBase.__hash__

    def __neg__(self):
        return SReal(-self.t)

    def __abs__(self):
        return SReal(z3.If(self.t < 0, -self.t, self.t))

    def __bool__(self):
        return decide(self.t != 0)

    def __round__(self, n=None):
        if n is not None:
            unsup('round to digits')
        nd = int_over(self.t)
        if nd is None or core.E.in_quant:
            return mkint(real_round(self.t))
        # name the result: the nearest integer, the even one of two
        n, d = nd
        k = core.E.fresh('round', INT)
        core.E.add(z3.And(2 * d * k - d <= 2 * n, 2 * n <= 2 * d * k + d))
        core.E.add(z3.Implies(z3.Or(2 * n == 2 * d * k - d, 2 * n == 2 * d * k + d), k % 2 == 0), True)
        return mkint(k)


# ------------------------------------------------------------------------- text
def sv(x):
    """Native text -> z3 string value (bytes as chars < 256)."""
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x).decode('latin-1')
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in x))


def st(x):
    if type(x) is SText:
        return x.t
    if isinstance(x, SChars):
        return x.as_text().t
    if isinstance(x, (str, bytes)):
        return sv(x)
    raise EngineBug('not text: %r' % (x,))


def unescape(z):
    s = z.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s.startswith('\\u', i) and len(s) >= i + 6:
            out.append(chr(int(s[i + 2:i + 6], 16)))
            i += 6
        elif s.startswith('\\x', i) and len(s) >= i + 4:
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def is_text(x):
    return type(x) is SText or (isinstance(x, (str, bytes)) and not hasattr(type(x), '_pd_nottext')) or isinstance(x, SChars)


def textkind(x):
    if type(x) is SText:
        return x.kind
    if isinstance(x, SChars):
        return x.kind
    return 'bytes' if isinstance(x, bytes) else 'str'


def mktext(kind, t):
    t2 = z3.simplify(t)
    if z3.is_string_value(t2):
        s = unescape(t2)
        return s.encode('latin-1') if kind == 'bytes' else s
    return SText(kind, t)


TYPES = {'str': str, 'bytes': bytes}


def _nat(fn):
    """methods of text run through the model guard"""
    return fn


class SText(SBase):
    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    __class__ = property(lambda self: TYPES[self.kind])

    @property
    def pytype(self):
        return TYPES[self.kind]

    def _ok(self, o):
        if type(o) is SAny:
            o = o.resolve()
        if not is_text(o) or textkind(o) != self.kind:
            raise Prog(TypeError('must be %s' % self.kind))
        return st(o)

    def __eq__(self, o):
        if type(o) is SAny:
            return o == self
        if is_text(o) and textkind(o) == self.kind:
            return mkbool(self.t == st(o))
        if isinstance(o, SBase) and not hasattr(type(o), 'pytype'):
            return NotImplemented
        if isinstance(o, SBase) or o is None or isinstance(o, (str, bytes, int, float, list, dict, tuple)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = SBase.__hash__

    def __lt__(self, o):
        return mkbool(self.t < self._ok(o))

    def __le__(self, o):
        return mkbool(self.t <= self._ok(o))

    def __gt__(self, o):
        return mkbool(self._ok(o) < self.t)

    def __ge__(self, o):
        return mkbool(self._ok(o) <= self.t)

    def __bool__(self):
        return decide(z3.Length(self.t) > 0)

    def _pd_len(self):
        return mkint(z3.Length(self.t))

    def __add__(self, o):
        if type(o) is SAny:
            o = o.resolve()
        if not is_text(o):
            return NotImplemented
        return mktext(self.kind, z3.Concat(self.t, self._ok(o)))

    def __radd__(self, o):
        if not is_text(o):
            return NotImplemented
        return mktext(self.kind, z3.Concat(self._ok(o), self.t))

    def __contains__(self, o):
        return decide(bt(self._pd_contains(o)))

    def _pd_contains(self, o):
        o = self._ok(o)
        if z3.is_app(self.t) and self.t.decl().name() == 'int_str' and z3.is_string_value(o) \
                and set(o.as_string()) - set('0123456789-'):
            core.E.assumed.add('str(int) consists of digits and the minus sign')
            return False
        return mkbool(z3.Contains(self.t, o))

    def _clamp(self, i, default):
        n = z3.Length(self.t)
        if i is None:
            return default
        i = it(i)
        s = z3.simplify(i)
        if z3.is_int_value(s):
            v = s.as_long()
            if v == 0:
                return z3.IntVal(0)
            if v < 0:
                if decide(n + v < 0):
                    return z3.IntVal(0)
                return n + v
            if decide(n < v):
                return n
            return i
        if decide(i < 0):
            return z3.IntVal(0) if decide(n + i < 0) else n + i
        return n if decide(i > n) else i

    def __getitem__(self, k):
        n = z3.Length(self.t)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                unsup('extended slice of symbolic text')
            a = self._clamp(k.start, z3.IntVal(0))
            b = self._clamp(k.stop, n)
            if b is n:
                return mktext(self.kind, z3.SubString(self.t, a, n - a))
            if decide(a >= b):
                return mktext(self.kind, z3.StringVal(''))
            return mktext(self.kind, z3.SubString(self.t, a, b - a))
        if not is_intlike(k):
            raise Prog(TypeError('indices must be integers'))
        i = it(k)
        if decide(i < 0):
            i = i + n
        if decide(z3.Or(i < 0, i >= n)):
            raise Prog(IndexError('string index out of range'))
        c = z3.SubString(self.t, i, 1)
        if self.kind == 'bytes':
            return mkint(z3.StrToCode(c))
        return mktext(self.kind, c)

    # -- searching
    def _bounds(self, rest):
        """text restricted to [start:end], as Python's find/startswith do; returns (t, start) or None"""
        n = z3.Length(self.t)
        start = rest[0] if len(rest) > 0 else None
        end = rest[1] if len(rest) > 1 else None
        return start, end

    def find(self, sub, *rest):
        sub = self._ok(sub)
        if not rest:
            return mkint(z3.IndexOf(self.t, sub, z3.IntVal(0)))
        if len(rest) == 1 and rest[0] is not None:
            i = it(rest[0])
            if decide(i < 0):
                return self._ufsearch('find', sub, rest)
            return mkint(z3.IndexOf(self.t, sub, i))
        return self._ufsearch('find', sub, rest)

    def index(self, sub, *rest):
        r = self.find(sub, *rest)
        if decide(it(r) == -1):
            raise Prog(ValueError('substring not found'))
        return r

    def _ufsearch(self, name, sub, rest, sort=INT):
        args = [self.t, sub]
        sorts = [STR, STR]
        nm = 'str_%s' % name
        for r in rest:
            if r is None:
                nm += '_n'
            else:
                nm += '_i'
                args.append(it(r))
                sorts.append(INT)
        f = uf(nm, *(sorts + [sort]))
        t = f(*args)
        return mkint(t) if sort == INT else mkbool(t)

    def rfind(self, sub, *rest):
        return self._ufsearch('rfind', self._ok(sub), rest)

    def rindex(self, sub, *rest):
        r = self.rfind(sub, *rest)
        if decide(it(r) == -1):
            raise Prog(ValueError('substring not found'))
        return r

    def count(self, sub, *rest):
        return self._ufsearch('count', self._ok(sub), rest)

    def _affix(self, name, x, rest):
        if isinstance(x, VSeq) or isinstance(x, MList) and x._sym:
            v = as_vseq(x)
            j = z3.Const('j!aff', INT)
            body = z3.And(j >= 0, j < it(v.n), bt(self._affix1(name, v.raw(SInt(j)), rest)))
            return SBool(z3.Exists([j], body))
        if isinstance(x, tuple):
            return Or([self._affix1(name, y, rest) for y in x])
        return self._affix1(name, x, rest)

    def _affix1(self, name, x, rest):
        x = self._ok(x)
        if not rest:
            return mkbool(z3.PrefixOf(x, self.t) if name == 'startswith' else z3.SuffixOf(x, self.t))
        return self._ufsearch(name, x, rest, BOOL)

    def startswith(self, x, *rest):
        return self._affix('startswith', x, rest)

    def endswith(self, x, *rest):
        return self._affix('endswith', x, rest)

    # -- conversions (uninterpreted: library functions)
    def _u(self, name, *args):
        ts = [st(a) if is_text(a) else it(a) for a in args]
        so = [STR if is_text(a) else INT for a in args]
        return mktext(self.kind, uf('%s_%s' % (self.kind, name), *([STR] + so + [STR]))(self.t, *ts))

    def lower(self):
        return self._u('lower')

    def upper(self):
        return self._u('upper')

    def title(self):
        return self._u('title')

    def swapcase(self):
        return self._u('swapcase')

    def strip(self, *a):
        return self._u('strip%d' % len(a), *a)

    def lstrip(self, *a):
        return self._u('lstrip%d' % len(a), *a)

    def rstrip(self, *a):
        return self._u('rstrip%d' % len(a), *a)

    def replace(self, a, b):
        hook = core.E.ghost.get('replace_hook')
        if hook:
            r = hook(self, a, b)
            if r is not None:
                return r
        self._ok(a), self._ok(b)
        return self._u('replace', a, b)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            hook = core.E.ghost.get('split_hook')
            if hook:
                return hook(self)
            unsup('split() of symbolic text')
        s = self._ok(sep)
        if maxsplit == 1:
            i = z3.IndexOf(self.t, s, z3.IntVal(0))
            if decide(i == -1):
                return MList([self])
            n = z3.Length(self.t)
            j = i + z3.Length(s)
            return MList([mktext(self.kind, z3.SubString(self.t, z3.IntVal(0), i)),
                          mktext(self.kind, z3.SubString(self.t, j, n - j))])
        hook = core.E.ghost.get('splitall_hook')
        if hook:
            return hook(self, sep)
        if maxsplit == -1:
            return split_joined(self, sep)
        unsup('split of symbolic text')

    def partition(self, sep):
        s = self._ok(sep)
        i = z3.IndexOf(self.t, s, z3.IntVal(0))
        empty = b'' if self.kind == 'bytes' else ''
        if decide(i == -1):
            return (self, empty, empty)
        n = z3.Length(self.t)
        j = i + z3.Length(s)
        return (mktext(self.kind, z3.SubString(self.t, z3.IntVal(0), i)), sep,
                mktext(self.kind, z3.SubString(self.t, j, n - j)))

    def encode(self, enc='utf-8', errors='strict'):
        if self.kind != 'str':
            raise Prog(AttributeError("'bytes' object has no attribute 'encode'"))
        return text_encode(self, enc, errors)

    def decode(self, enc='utf-8', errors='strict'):
        if self.kind != 'bytes':
            raise Prog(AttributeError("'str' object has no attribute 'decode'"))
        return text_decode(self, enc, errors)

    def join(self, seq):
        return text_join(self, seq)

    def isdigit(self):
        unsup('isdigit of symbolic text')

    def __mod__(self, args):
        unsup('symbolic format string')

    def __mul__(self, n):
        unsup('repetition of symbolic text')

    def __getattr__(self, n):
        if n.startswith('_pd'):
            raise AttributeError(n)
        if hasattr(TYPES[self.kind], n):
            unsup('method %s of symbolic text' % n)
        raise AttributeError("'%s' object has no attribute '%s'" % (self.kind, n))


def _norm_enc(enc):
    if not isinstance(enc, str):
        unsup('symbolic encoding')
    return enc.lower().replace('-', '').replace('_', '')


def text_encode(s, enc, errors='strict'):
    enc = _norm_enc(enc)
    if not isinstance(s, SBase):
        return s.encode(enc)
    e = uf('enc_' + enc, STR, STR)
    d = uf('dec_' + enc, STR, STR)
    v = uf('valid_' + enc, STR, BOOL)
    core.E.assumed.add('str.encode/bytes.decode (%s): decode(encode(s)) == s; total for utf-8' % enc)
    r = e(s.t)
    if enc != 'utf8':
        can = uf('canenc_' + enc, STR, BOOL)
        if decide(z3.Not(can(s.t))):
            raise Prog(UnicodeEncodeError(enc, '?', 0, 1, 'symbolic'))
    core.E.add(d(r) == s.t)
    core.E.add(v(r))
    return SText('bytes', r)


def determined(s):
    """the constant a symbolic text must equal on this path, if the solver finds one quickly"""
    eng = core.E
    t = z3.simplify(s.t)
    if not z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and eng._check(eng.s) == z3.sat:
        v = eng.s.model().eval(t, model_completion=True)
        if z3.is_string_value(v) and eng._check(eng.s, t != v) == z3.unsat:
            c = unescape(v)
            if s.kind != 'bytes':
                return c
            return c.encode('latin-1') if all(ord(x) < 256 for x in c) else None
    return None


def text_decode(s, enc, errors='strict'):
    enc = _norm_enc(enc)
    if not isinstance(s, SBase):
        return s.decode(enc)
    if not core.E.in_quant:
        c = determined(s)
        if c is not None:
            return c.decode(enc)
    e = uf('enc_' + enc, STR, STR)
    d = uf('dec_' + enc, STR, STR)
    v = uf('valid_' + enc, STR, BOOL)
    core.E.assumed.add('str.encode/bytes.decode (%s): decode(encode(s)) == s; encode(decode(b)) == b for valid b' % enc)
    if not core.E.in_quant:
        if decide(z3.Not(v(s.t))):
            raise Prog(UnicodeDecodeError(enc, b'?', 0, 1, 'symbolic'))
        core.E.add(e(d(s.t)) == s.t)
    return SText('str', d(s.t))


def text_join(sep, seq):
    kind = textkind(sep)
    hook = core.E.ghost.get('join_hook')
    if hook:
        r = hook(sep, seq)
        if r is not None:
            return r
    if isinstance(seq, MList) and not seq._sym:
        seq = list.__iter__(seq)
    elif isinstance(seq, (VSeq, SymIter, MList, DictView)) or (isinstance(seq, MDict) and seq._sym):
        if isinstance(seq, MDict):
            k = seq._kk
        elif isinstance(seq, DictView):
            k = None
        else:
            k = getattr(as_vseq(seq), 'kind', None)
        if not (isinstance(k, KTextC) and k.kind == kind):
            unsup('join over a symbolic sequence')
        j = core.E.fresh('joined', STR)
        core.E.joins.append((j, kind, sep, materialise(seq)))
        return SText(kind, j)
    out = None
    for x in seq:
        if type(x) is SAny:
            x = x.resolve()
        if not is_text(x) or textkind(x) != kind:
            raise Prog(TypeError('sequence item: expected %s instance' % kind))
        out = x if out is None else concat(concat(out, sep), x)
    return out if out is not None else (b'' if kind == 'bytes' else '')


def split_joined(x, sep):
    """x.split(sep), for x the result of sep.join(L): L again, if L is not
    empty, no element contains sep, and no proper prefix of sep is also a suffix
    of it (so that an occurrence of sep cannot overlap another one)"""
    if isinstance(sep, SBase) or not sep or any(sep.startswith(sep[i:]) for i in range(1, len(sep))):
        unsup('split by a separator which is symbolic or can overlap itself')
    e = core.E
    for j, kind, by, l in e.joins:
        if kind == x.kind and by == sep and j.eq(x.t):
            e.assumed.add('sep.join(L).split(sep) == L for non-empty L, elements without sep, sep not overlapping itself')
            if not l._sym:
                unsup('split of a joined concrete list')
            c = e.fresh('sj', INT)
            if e.prove(l._n >= 1)[0] == 'proved' and e.prove(z3.ForAll([c], z3.Implies(
                    z3.And(c >= 0, c < l._n), z3.Not(z3.Contains(l._arr[c], st(sep))))))[0] == 'proved':
                return l.copy()
            unsup('split of a joined list that may be empty or contain the separator')
    unsup('split of symbolic text')


def concat(a, b):
    if isinstance(a, SChars) or isinstance(b, SChars):
        if not isinstance(a, SChars):
            return SChars.lift(a) + b if not isinstance(a, SText) else a + b.as_text()
        return a + b
    if isinstance(a, SBase) or isinstance(b, SBase):
        return mktext(textkind(a), z3.Concat(st(a), st(b)))
    return a + b


# ------------------------------------------------- texts of known length (digits)
class SChars(SBase):
    """Text of concrete length; each char is a native 1-char str or a symbolic
    digit ('d', term 0..9)."""

    def __init__(self, chars, kind='str'):
        self.chars = list(chars)
        self.kind = kind

    __class__ = property(lambda self: TYPES[self.kind])

    @property
    def pytype(self):
        return TYPES[self.kind]

    @staticmethod
    def lift(s):
        if isinstance(s, SChars):
            return s
        return SChars(list(s))

    @staticmethod
    def make(chars):
        if all(isinstance(c, str) for c in chars):
            return ''.join(chars)
        return SChars(chars)

    def _pd_len(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __add__(self, o):
        if isinstance(o, str) or isinstance(o, SChars):
            if type(o) is SText:
                return self.as_text() + o
            return SChars(self.chars + SChars.lift(o).chars)
        return NotImplemented

    def __radd__(self, o):
        if type(o) is SText:
            return o + self.as_text()
        if isinstance(o, str):
            return SChars(SChars.lift(o).chars + self.chars)
        return NotImplemented

    def as_text(self):
        parts = []
        for c in self.chars:
            parts.append(sv(c) if isinstance(c, str) else z3.IntToStr(c[1]))
        t = parts[0] if len(parts) == 1 else (z3.Concat(*parts) if parts else z3.StringVal(''))
        return SText('str', t)

    def chareq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            if b.isdigit() and b in '0123456789':
                return mkbool(a[1] == int(b))
            return False
        return mkbool(a[1] == b[1])

    def __eq__(self, o):
        if type(o) is SText:
            return self.as_text() == o
        if isinstance(o, str) or isinstance(o, SChars):
            o = SChars.lift(o)
            if len(o.chars) != len(self.chars):
                return False
            return And([self.chareq(a, b) for a, b in zip(self.chars, o.chars)])
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SBase.__hash__

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*(None if x is None else x.__index__() for x in (k.start, k.stop, k.step)))
            return SChars.make(self.chars[k])
        k = k.__index__()
        try:
            return SChars.make([self.chars[k]])
        except IndexError as e:
            raise Prog(e)

    def __iter__(self):
        return iter([SChars.make([c]) for c in self.chars])

    def __contains__(self, sub):
        return bool(self._pd_contains(sub))

    def _pd_contains(self, sub):
        sub = SChars.lift(sub).chars
        n, m = len(self.chars), len(sub)
        return Or([And([self.chareq(a, b) for a, b in zip(self.chars[i:i + m], sub)])
                   for i in range(n - m + 1)])

    def find(self, sub, *rest):
        if rest:
            unsup('bounded find on digits')
        sub = SChars.lift(sub).chars
        n, m = len(self.chars), len(sub)
        for i in range(n - m + 1):
            if bool(And([self.chareq(a, b) for a, b in zip(self.chars[i:i + m], sub)])):
                return i
        return -1

    def rfind(self, sub, *rest):
        if rest:
            unsup('bounded rfind on digits')
        sub = SChars.lift(sub).chars
        n, m = len(self.chars), len(sub)
        for i in range(n - m, -1, -1):
            if bool(And([self.chareq(a, b) for a, b in zip(self.chars[i:i + m], sub)])):
                return i
        return -1

    def __getattr__(self, n):
        if hasattr(str, n) and n[:2] != '__':
            unsup('%s on digits' % n)
        raise AttributeError(n)

    def startswith(self, p, *rest):
        if rest:
            unsup('bounded startswith on digits')
        if isinstance(p, tuple):
            return Or([self.startswith(x) for x in p])
        return bool(SChars.make(self.chars[:len(SChars.lift(p).chars)]) == p)

    def endswith(self, p, *rest):
        if rest:
            unsup('bounded endswith on digits')
        if isinstance(p, tuple):
            return Or([self.endswith(x) for x in p])
        n = len(SChars.lift(p).chars)
        return bool(SChars.make(self.chars[len(self.chars) - n:] if n else []) == p)

    def _strip(self, chars, left, right):
        cs = list(self.chars)
        if chars is None:
            isin = lambda c: isinstance(c, str) and c.isspace()
        else:
            isin = lambda c: bool(Or([self.chareq(c, x) for x in chars]))
        while right and cs and isin(cs[-1]):
            cs.pop()
        while left and cs and isin(cs[0]):
            cs.pop(0)
        return SChars.make(cs)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lower(self):
        return SChars([c.lower() if isinstance(c, str) else c for c in self.chars])

    def upper(self):
        return SChars([c.upper() if isinstance(c, str) else c for c in self.chars])

    def isdigit(self):
        return bool(self.chars) and all((not isinstance(c, str)) or c.isdigit() for c in self.chars)

    def zfill(self, n):
        return SChars(['0'] * max(0, n - len(self.chars)) + self.chars)

    def replace(self, a, b):
        a = list(a)
        if len(a) != 1:
            unsup('replace on digits')
        out = []
        for c in self.chars:
            if bool(self.chareq(c, a[0])):
                out.extend(SChars.lift(b).chars)
            else:
                out.append(c)
        return SChars.make(out)

    def split(self, sep=None, maxsplit=-1):
        out = []
        cur = []
        if sep is None:
            for c in self.chars:
                if isinstance(c, str) and c.isspace():
                    if cur:
                        out.append(SChars.make(cur))
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(SChars.make(cur))
            return MList(out)
        if len(sep) != 1:
            unsup('split on digits')
        for c in self.chars:
            if (maxsplit < 0 or len(out) < maxsplit) and bool(self.chareq(c, sep)):
                out.append(SChars.make(cur))
                cur = []
            else:
                cur.append(c)
        out.append(SChars.make(cur))
        return MList(out)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (SChars.make(self.chars[:i]), sep, SChars.make(self.chars[i + len(sep):]))

    def join(self, seq):
        return text_join(self, seq)

    def __mod__(self, args):
        unsup('symbolic format string')

    def to_int(self):
        cs = list(self.chars)
        while cs and isinstance(cs[0], str) and cs[0].isspace():
            cs.pop(0)
        while cs and isinstance(cs[-1], str) and cs[-1].isspace():
            cs.pop()
        sign = 1
        if cs and cs[0] in ('+', '-'):
            sign = -1 if cs[0] == '-' else 1
            cs.pop(0)
        if not cs:
            raise Prog(ValueError('invalid literal for int()'))
        t = core.E.ghost.get('printed', {}).get(charkey(cs))
        if t is not None:
            return mkint(t * sign)
        v = z3.IntVal(0)
        for c in cs:
            if isinstance(c, str):
                if not c.isdigit():
                    raise Prog(ValueError('invalid literal for int()'))
                d = z3.IntVal(int(c))
            else:
                d = c[1]
            v = v * 10 + d
        return mkint(v * sign)

    def to_float(self):
        cs = list(self.chars)
        if '.' in cs:
            i = cs.index('.')
            frac = cs[i + 1:]
            whole = cs[:i] or ['0']
        else:
            whole, frac = cs, []
        a = SChars(whole).to_int()
        if not frac:
            return SReal(rt(a))
        b = SChars(frac).to_int()
        return SReal(rt(a) + rt(b) / z3.RealVal(10 ** len(frac)))


def digits(x, width):
    """chars of non-negative int x printed on exactly `width` digits"""
    t = z3.simplify(it(x))
    printed = core.E.ghost.setdefault('printed', {})
    if (t.get_id(), width) in printed:
        return list(printed[t.get_id(), width])
    out = []
    for k in range(width - 1, -1, -1):
        d = z3.simplify((t / (10 ** k)) % 10) if width > 1 else z3.simplify(t)
        if z3.is_int_value(d):
            out.append(str(d.as_long()))
        else:
            # name the digit: keeps later arithmetic linear and small
            v = core.E.fresh('digit', INT)
            out.append(('d', v))
    if any(not isinstance(c, str) for c in out):
        tot = z3.IntVal(0)
        for c in out:
            d = z3.IntVal(int(c)) if isinstance(c, str) else c[1]
            if not isinstance(c, str):
                core.E.add(z3.And(d >= 0, d <= 9))
            tot = tot * 10 + d
        core.E.add(tot == t)
        printed[t.get_id(), width] = list(out)
        printed[charkey(out)] = t       # read back, they are t
    return out


def charkey(cs):
    return tuple(c if isinstance(c, str) else c[1].get_id() for c in cs)


# ---------------------------------------------------------------------- objects
class ClassModel(object):
    """Shape of symbolic objects: fields with kinds, stub methods, python type."""

    def __init__(self, name, pytype=None, fields=None, methods=None, eq='identity', truthy=True,
                 classattrs=None):
        self.name, self.pytype = name, pytype
        self.fields = dict(fields or {})
        self.methods = dict(methods or {})
        self.eq, self.truthy = eq, truthy
        self.classattrs = classattrs or {}
        self.members = set()     # concrete objects that occur where this class is expected


class SObj(SBase):
    def __init__(self, cm, ref):
        object.__setattr__(self, '_pd_cm', cm)
        object.__setattr__(self, '_pd_ref', ref)

    @property
    def __class__(self):
        cm = object.__getattribute__(self, '_pd_cm')
        return cm.pytype or SObj

    def __getattr__(self, name):
        if name.startswith('_pd'):
            raise AttributeError(name)
        e = core.E
        e.check_abort()
        cm = self._pd_cm
        if name in cm.methods:
            m = cm.methods[name]
            return Stub(lambda *a, **k: m(self, *a, **k), '%s.%s' % (cm.name, name))
        if name in cm.fields:
            return heap_read(self, name)
        if name in cm.classattrs:
            return cm.classattrs[name]
        if name == '__dict__':
            unsup('__dict__ of symbolic object')
        if cm.pytype is not None:
            for k in cm.pytype.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if hasattr(type(v), '__get__'):
                        return v.__get__(self, cm.pytype)
                    return v
        if name.startswith('__'):
            raise AttributeError(name)
        unsup('attribute %s of symbolic %s' % (name, cm.name))

    def __setattr__(self, name, v):
        e = core.E
        e.check_abort()
        cm = self._pd_cm
        if name in cm.fields:
            heap_write(self, name, v)
        else:
            unsup('set attribute %s of symbolic %s' % (name, cm.name))

    def __delattr__(self, name):
        unsup('del attribute of symbolic object')

    def __eq__(self, o):
        cm = self._pd_cm
        if cm.eq == 'uf':
            if self is o:
                return True
            try:
                r = KObj(cm).unwrap(o)
            except NoFit:
                unsup('comparison of opaque value with %r' % (type(o),))
            return mkbool(z3.Or(self._pd_ref == r, uf('opaque_eq', INT, INT, BOOL)(self._pd_ref, r)))
        if cm.pytype is not None and cm.pytype.__eq__ is not object.__eq__:
            return cm.pytype.__eq__(self, o)
        return is_same(self, o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SBase.__hash__

    def __bool__(self):
        cm = self._pd_cm
        if cm.truthy is True:
            return True
        return decide(uf('truthy', INT, BOOL)(self._pd_ref))

    def __call__(self, *a, **k):
        cm = self._pd_cm
        if '__call__' in cm.methods:
            return cm.methods['__call__'](self, *a, **k)
        unsup('call of symbolic %s' % cm.name)


class Stub(object):
    """A harness-provided callable; may receive symbolic arguments."""
    _pd_ok_ = True

    def __init__(self, fn, name='stub'):
        self.fn = fn
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def heap_arr(cm, name):
    e = core.E
    k = (cm.name, name)
    if k not in e.heap:
        e.heap[k] = z3.Const('H!%s.%s' % k, z3.ArraySort(INT, cm.fields[name].sort))
    return e.heap[k]


def heap_read(o, name):
    cm = o._pd_cm
    return cm.fields[name].wrap(z3.Select(heap_arr(cm, name), o._pd_ref))


def heap_write(o, name, v):
    cm = o._pd_cm
    e = core.E
    try:
        t = cm.fields[name].unwrap(v)
    except NoFit:
        unsup('field %s.%s cannot hold this value' % (cm.name, name))
    e.heap[(cm.name, name)] = z3.Store(heap_arr(cm, name), o._pd_ref, t)


def alloc(cm):
    """A fresh symbolic object, different from every existing one."""
    e = core.E
    r = e.fresh('new_' + cm.name, INT)
    e.add(r == e.alloc)
    na = e.fresh('alloc', INT)
    e.add(na == e.alloc + 1)
    e.alloc = na
    return SObj(cm, r)


def is_same(a, b):
    """Python `is`, symbolically."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SAny or tb is SAny:
        if tb is not SAny:
            a, b = b, a
            ta, tb = tb, ta
        # b is SAny
        if a is None:
            return mkbool(PyVal.is_none(b.t))
        if ta is SAny:
            return mkbool(a.t == b.t)
        try:
            return mkbool(b.t == KAny().unwrap(a))
        except NoFit:
            unsup('identity of symbolic value')
    if ta is SObj and tb is SObj:
        return mkbool(a._pd_ref == b._pd_ref)
    if ta is SObj or tb is SObj:
        if tb is SObj:
            a, b = b, a
        if b is None or isinstance(b, (str, bytes, int, float, tuple, SBase)):
            return False
        if id(b) in core.E.objs:
            return mkbool(a._pd_ref == core.E.objref(b))
        return False
    if ta is SBool or tb is SBool:
        if tb is SBool:
            a, b = b, a
        if b is True or b is False:
            return mkbool(a.t == z3.BoolVal(b))
        return False
    if isinstance(a, SBase) and isinstance(b, SBase):
        if ta is tb:
            unsup('identity of symbolic %s' % ta.__name__)
        return False
    if isinstance(a, SBase) or isinstance(b, SBase):
        if isinstance(b, SBase):
            a, b = b, a
        if b is None or not isinstance(b, (str, bytes, int, float)):
            return False
        unsup('identity of symbolic value with a literal')
    return a is b


# ------------------------------------------------------------------------ kinds
class NoFit(Exception):
    pass


class Kind(object):
    name = '?'

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Kind) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def fresh(self, base):
        return self.wrap(core.E.fresh(base, self.sort))

    def concrete(self, v):
        return str(v)


class KIntC(Kind):
    name = 'int'
    sort = INT

    def wrap(self, t):
        return mkint(t)

    def unwrap(self, v):
        if type(v) is SAny:
            v = v.resolve()
        if is_intlike(v) and type(v) is not SBool and not isinstance(v, bool):
            return it(v)
        raise NoFit(v)

    def concrete(self, v):
        return v.as_long()


class KBoolC(Kind):
    name = 'bool'
    sort = BOOL

    def wrap(self, t):
        return mkbool(t)

    def unwrap(self, v):
        if type(v) is SBool or v is True or v is False:
            return bt(v)
        raise NoFit(v)

    def concrete(self, v):
        return z3.is_true(v)


class KRealC(Kind):
    name = 'real'
    sort = REAL

    def wrap(self, t):
        return SReal(t)

    def unwrap(self, v):
        if type(v) is SReal or isinstance(v, float):
            return rt(v)
        raise NoFit(v)

    def concrete(self, v):
        return float(v.as_fraction())


class KTextC(Kind):
    sort = STR

    def __init__(self, kind):
        self.kind = kind
        self.name = kind

    def wrap(self, t):
        return mktext(self.kind, t)

    def unwrap(self, v):
        if type(v) is SAny:
            v = v.resolve()
        if is_text(v) and textkind(v) == self.kind:
            return st(v)
        raise NoFit(v)

    def concrete(self, v):
        s = unescape(v)
        return s.encode('latin-1', 'replace') if self.kind == 'bytes' else s


class KObj(Kind):
    sort = INT

    def __init__(self, cm):
        self.cm = cm
        self.name = 'obj:' + cm.name

    def wrap(self, t):
        e = core.E
        t2 = z3.simplify(t)
        if z3.is_int_value(t2) and t2.as_long() < 0:
            return e.objlist[-t2.as_long() - 1]
        if not e.in_quant:
            for obj in list(e.objlist):
                if (self.cm is OPAQUE or id(obj) in self.cm.members) if self.cm.pytype is None else isinstance(obj, self.cm.pytype):
                    if e.decide(t == e.objref(obj)):
                        return obj
        return SObj(self.cm, t)

    def unwrap(self, v):
        if type(v) is SObj:
            return v._pd_ref
        if isinstance(v, SBase) or v is None or isinstance(v, (str, bytes, int, float)):
            raise NoFit(v)
        self.cm.members.add(id(v))
        return core.E.objref(v)

    def concrete(self, v):
        from .api import Obj
        return Obj(v.as_long())


class KAnyC(Kind):
    name = 'any'
    sort = PyVal

    def __init__(self, cm=None):
        self.cm = cm or OPAQUE
        self.name = 'any:' + self.cm.name

    def wrap(self, t):
        return SAny(t, self.cm)

    def unwrap(self, v):
        tv = type(v)
        if tv is SAny:
            return v.t
        if v is None:
            return PyVal.none
        if tv is SBool or v is True or v is False:
            return PyVal.bool(bt(v))
        if tv is SInt or isinstance(v, int):
            return PyVal.int(it(v))
        if tv is SReal or isinstance(v, float):
            return PyVal.real(rt(v))
        if is_text(v):
            return (PyVal.byt if textkind(v) == 'bytes' else PyVal.str)(st(v))
        if tv is SObj:
            return PyVal.ref(v._pd_ref)
        if isinstance(v, (tuple, SBase)):
            raise NoFit(v)
        return PyVal.ref(core.E.objref(v))

    def concrete(self, v):
        d = v.decl().name()
        if d == 'none':
            return None
        a = v.arg(0)
        if d == 'bool':
            return z3.is_true(a)
        if d == 'int':
            return a.as_long()
        if d == 'str':
            return unescape(a)
        if d == 'byt':
            return unescape(a).encode('latin-1', 'replace')
        if d == 'real':
            return float(a.as_fraction())
        from .api import Obj
        return Obj(a.as_long())


_tuples = {}


class KTuple(Kind):
    def __init__(self, *kinds):
        self.kinds = kinds
        self.name = 'tuple(%s)' % ','.join(k.name for k in kinds)
        if self.name not in _tuples:
            d = z3.Datatype('Tup%d' % len(_tuples))
            d.declare('mk', *[('f%d_%d' % (len(_tuples), i), k.sort) for i, k in enumerate(kinds)])
            _tuples[self.name] = d.create()
        self.dt = _tuples[self.name]
        self.sort = self.dt

    def wrap(self, t):
        return tuple(k.wrap(z3.simplify(self.dt.accessor(0, i)(t))) for i, k in enumerate(self.kinds))

    def unwrap(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.kinds):
            raise NoFit(v)
        if not self.kinds:
            return self.dt.mk()
        return self.dt.mk(*[k.unwrap(x) for k, x in zip(self.kinds, v)])

    def concrete(self, v):
        return tuple(k.concrete(v.arg(i)) for i, k in enumerate(self.kinds))


OPAQUE = ClassModel('opaque', eq='uf', truthy=None)
KInt, KBool, KReal, KStr, KBytes = KIntC(), KBoolC(), KRealC(), KTextC('str'), KTextC('bytes')
KVal = KObj(OPAQUE)


def KAny(cm=None):
    return KAnyC(cm)


class SAny(SBase):
    """A value of unknown (modelled) type."""

    def __init__(self, t, cm=None):
        object.__setattr__(self, 't', t)
        object.__setattr__(self, 'cm', cm or OPAQUE)
        object.__setattr__(self, '_r', None)

    @property
    def __class__(self):
        e = core.E
        if e is None or not e.active:
            return SAny
        return _pyclass(self.resolve())

    def resolve(self):
        if self._r is not None:
            return self._r[0]
        t = self.t
        for test, get in ((PyVal.is_none, lambda: None),
                          (PyVal.is_str, lambda: mktext('str', z3.simplify(PyVal.sval(t)))),
                          (PyVal.is_ref, lambda: KObj(self.cm).wrap(z3.simplify(PyVal.rref(t)))),
                          (PyVal.is_int, lambda: mkint(z3.simplify(PyVal.ival(t)))),
                          (PyVal.is_byt, lambda: mktext('bytes', z3.simplify(PyVal.yval(t)))),
                          (PyVal.is_bool, lambda: mkbool(z3.simplify(PyVal.bval(t))))):
            if decide(test(t)):
                r = get()
                break
        else:
            r = SReal(PyVal.rval(t))
        object.__setattr__(self, '_r', (r,))
        return r

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is SAny:
            k = self.t == o.t
            r = z3.And(PyVal.is_ref(self.t), PyVal.is_ref(o.t),
                       uf('opaque_eq', INT, INT, BOOL)(PyVal.rref(self.t), PyVal.rref(o.t)))
            return mkbool(z3.Or(k, r))
        if o is None or isinstance(o, (str, bytes)) or type(o) in (SText, SChars):
            return mkbool(self.t == KAnyC(self.cm).unwrap(o))
        return self.resolve() == o

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = SBase.__hash__

    def __bool__(self):
        return bool(self.resolve())

    def __getattr__(self, n):
        if n.startswith('_pd'):
            raise AttributeError(n)
        return getattr(self.resolve(), n)

    def __setattr__(self, n, v):
        setattr(self.resolve(), n, v)


def _fwd(n):
    import operator

    def op(self, *a):
        r = self.resolve()
        f = getattr(type(r), n, None)
        if f is None:
            raise Prog(TypeError('unsupported operand for %s' % n))
        return f(r, *a)
    return op


for _n in 'add radd sub rsub mul rmul floordiv mod lt le gt ge getitem setitem delitem call neg'.split():
    setattr(SAny, '__%s__' % _n, _fwd('__%s__' % _n))


def _pyclass(x):
    if isinstance(x, (MList, MDict, MSet)):
        t = type(x)
        return {MList: list, MDict: dict, MSet: set}.get(t, t)
    return x.__class__


def kind_of(v):
    tv = type(v)
    if tv is SAny:
        return KAny(object.__getattribute__(v, 'cm'))
    if tv is SInt or (isinstance(v, int) and not isinstance(v, bool) and not isinstance(v, SBase)):
        return KInt
    if tv is SBool or v is True or v is False:
        return KBool
    if tv is SReal or isinstance(v, float):
        return KReal
    if is_text(v):
        return KStr if textkind(v) == 'str' else KBytes
    if tv.__name__ == 'Span':
        return v.stream.kind()
    if tv is SObj:
        return KObj(v._pd_cm)
    if tv is SAny:
        return KAny(v.cm)
    if isinstance(v, tuple):
        return KTuple(*[kind_of(x) for x in v])
    if v is None:
        return KAny()
    return KObj(OPAQUE) if not isinstance(v, SBase) else KAny()


def unify(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if type(x).__name__ == 'KSpan' and y == KBytes:
            return x
    if isinstance(a, KTuple) and isinstance(b, KTuple) and len(a.kinds) == len(b.kinds):
        return KTuple(*[unify(x, y) for x, y in zip(a.kinds, b.kinds)])
    if isinstance(a, KTuple) or isinstance(b, KTuple):
        unsup('cannot unify %s and %s' % (a, b))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, KObj) and isinstance(y, KObj) and y.cm is OPAQUE:
            return x
    cms = [x.cm for x in (a, b) if isinstance(x, (KObj, KAnyC)) and x.cm is not OPAQUE]
    return KAny(cms[0] if cms else None)


# ------------------------------------------------------------ virtual sequences
class VSeq(SBase):
    """n elements, at(i) for 0 <= i < n; not stored anywhere."""

    def __init__(self, n, at, kind=None, pytype=tuple):
        self.n, self._at, self.kind = n, at, kind
        self.pt = pytype

    __class__ = property(lambda self: self.pt)

    def _pd_len(self):
        return self.n

    def at(self, i):
        return self._at(i)

    raw = at

    def __bool__(self):
        return decide(it(self.n) > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return seq_slice(self, k)
        if decide(it(k) < 0):
            k = self.n + k
        if decide(z3.Or(it(k) < 0, it(k) >= it(self.n))):
            raise Prog(IndexError('index out of range'))
        return self.at(k)

    def __iter__(self):
        return SymIter(self)

    def __eq__(self, o):
        if self is o:
            return True
        unsup('comparison of symbolic sequences')

    def __ne__(self, o):
        unsup('comparison of symbolic sequences')

    __hash__ = SBase.__hash__

    def _pd_contains(self, x):
        j = z3.Const('j!in%d' % id(self), INT)
        core.E.in_quant += 1
        try:
            eq = self.raw(SInt(j)) == x
        finally:
            core.E.in_quant -= 1
        return SBool(z3.Exists([j], z3.And(j >= 0, j < it(self.n), bt(eq))))

    def __add__(self, o):
        return seq_concat(self, o)

    def __radd__(self, o):
        return seq_concat(o, self)

    def __getattr__(self, name):
        if hasattr(self.pt, name) and not name.startswith('__'):
            unsup('%s of a symbolic %s' % (name, self.pt.__name__))
        raise AttributeError(name)


class SymIter(SBase):
    """iter() of a symbolic sequence."""

    def __init__(self, seq):
        self.seq = seq

    def __iter__(self):
        return self

    def __next__(self):
        unsup('native iteration over a symbolic sequence')


def as_vseq(x):
    if isinstance(x, VSeq):
        return x
    if type(x) is MList:
        if x._sym:
            return ListView(x)
        return VSeq(list.__len__(x), lambda i: seq_at_concrete(x, i))
    if isinstance(x, (list, tuple)):
        return VSeq(len(x), lambda i: seq_at_concrete(x, i), pytype=type(x))
    if isinstance(x, SymIter):
        return as_vseq(x.seq)
    if isinstance(x, DictView):
        return x.vseq()
    if isinstance(x, MSet):
        x = x._d
        if not x._sym:
            return as_vseq(MList(x))
    if isinstance(x, MDict) and x._sym:
        return DictView(x, 'keys').vseq()
    unsup('not a sequence: %s' % type(x).__name__)


class ListView(VSeq):
    """live view of an MList in symbolic mode"""

    def __init__(self, l):
        self.l = l
        self.kind = l._kind
        self.pt = list

    @property
    def n(self):
        return self.l._pd_len()

    def at(self, i):
        return self.l._raw(i)
    raw = at


def seq_at_concrete(xs, i):
    if type(i) is int:
        return list.__getitem__(xs, i) if isinstance(xs, list) else xs[i]
    n = list.__len__(xs) if isinstance(xs, list) else len(xs)
    if core.E.in_quant:
        g = list.__getitem__ if isinstance(xs, list) else tuple.__getitem__
        r = g(xs, n - 1) if n else None
        for k in range(n - 2, -1, -1):
            r = Ite(mkbool(it(i) == k), g(xs, k), r)
        return r
    for k in range(n):
        if decide(it(i) == k):
            return list.__getitem__(xs, k) if isinstance(xs, list) else xs[k]
    core.E.abort(core.PathEnd())


def clamp_slice(k, n):
    """slice.indices for symbolic values, unit or symbolic step; returns (start, stop, step)."""
    return slice_indices(k.start, k.stop, k.step, n)


def slice_indices(start, stop, step, n):
    """CPython's PySlice_AdjustIndices, as terms (assumed semantics of slice.indices)."""
    nt = it(n)
    if step is None:
        step = 1
    if not is_intlike(step):
        raise Prog(TypeError('slice indices must be integers or None'))
    sp = it(step)
    if decide(sp == 0):
        raise Prog(ValueError('slice step cannot be zero'))
    neg = decide(sp < 0)
    lower = z3.IntVal(-1) if neg else z3.IntVal(0)
    upper = nt - 1 if neg else nt

    def adj(x, default):
        if x is None:
            return default
        if not is_intlike(x):
            raise Prog(TypeError('slice indices must be integers or None'))
        t = it(x)
        u = z3.If(t < 0, t + nt, t)
        return z3.If(u < lower, lower, z3.If(u > upper, upper, u)) if neg is False else \
            z3.If(t < 0, z3.If(t + nt < lower, lower, t + nt), z3.If(t > upper, upper, t))
    s = adj(start, upper if neg else lower)
    e = adj(stop, lower if neg else upper)
    return mkint(s), mkint(e), mkint(sp)


class SymRange(VSeq):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        self.pt = range
        self.kind = KInt
        a, b, s = it(start), it(stop), it(step)
        ss = z3.simplify(s)
        if z3.is_int_value(ss) and ss.as_long() == 1:
            n = z3.If(b > a, b - a, z3.IntVal(0))
        elif z3.is_int_value(ss) and ss.as_long() == -1:
            n = z3.If(a > b, a - b, z3.IntVal(0))
        else:
            if decide(s == 0):
                raise Prog(ValueError('range() arg 3 must not be zero'))
            # length characterised by its defining inequalities
            key = ('rlen', z3.simplify(a).sexpr(), z3.simplify(b).sexpr(), ss.sexpr())
            cache = core.E.ghost.setdefault('_rlen', {})
            nn = cache.get(key)
            fresh = nn is None
            if fresh:
                nn = cache[key] = core.E.fresh('rlen', INT)
            pos = s > 0
            if fresh:
              core.E.add(z3.If(pos,
                             z3.If(b > a, z3.And(nn >= 1, a + (nn - 1) * s < b, a + nn * s >= b), nn == 0),
                             z3.If(a > b, z3.And(nn >= 1, a + (nn - 1) * s > b, a + nn * s <= b), nn == 0)))
            n = nn
        self.n = mkint(n)
        self._at = lambda i: mkint(a + it(i) * s)


def seq_slice(v, k):
    n = v.n if isinstance(v, VSeq) else v._pd_len()
    src = v if isinstance(v, VSeq) else as_vseq(v)
    if k.start is None and k.stop is None and k.step == -1:
        return VSeq(n, lambda i: src.raw(mkint(it(n) - 1 - it(i))), src.kind, pytype=list)
    a, b, s = slice_indices(k.start, k.stop, k.step, n)
    r = SymRange(a, b, s)
    return VSeq(r.n, lambda i: src.raw(r._at(i)), src.kind, pytype=list)


def seq_concat(a, b):
    x, y = as_vseq(a), as_vseq(b)
    nx = x.n

    def at(i):
        if core.E.in_quant:
            unsup('concatenated sequence under quantifier')
        if decide(it(i) < it(nx)):
            return x.raw(i)
        return y.raw(mkint(it(i) - it(nx)))
    return VSeq(mkint(it(nx) + it(y.n)), at, pytype=list)


# ---------------------------------------------------------------------- MList
class Poison(object):
    def __getattribute__(self, n):
        core.E.unsupported('native access to a symbolic container')

    def __repr__(self):
        return '<poison>'


class MList(list):
    """A list; native while its length is concrete, else array + length."""
    _sym = False
    _pd_ok_ = True

    def __init__(self, *a):
        list.__init__(self, *a)

    @staticmethod
    def symbolic(kind, n, arr):
        m = MList()
        m._set_sym(kind, n, arr)
        return m

    def _set_sym(self, kind, n, arr):
        list.clear(self)
        list.append(self, Poison())
        self._sym = True
        self._kind, self._n, self._arr = kind, n, arr

    def _become(self, other):
        """in-place assignment of contents"""
        if other._sym:
            self._set_sym(other._kind, other._n, other._arr)
        else:
            list.clear(self)
            self._sym = False
            list.extend(self, list.__iter__(other))

    def _content(self):
        if self._sym:
            return ('sym', self._kind, self._n, self._arr)
        return ('con',) + tuple(list.__iter__(self))

    def to_symbolic(self, kind=None):
        if self._sym:
            return
        items = list(list.__iter__(self))
        for x in items:
            kind = unify(kind, kind_of(x))
        if kind is None:
            unsup('list of unknown element kind')
        arr = core.E.fresh('arr', z3.ArraySort(INT, kind.sort))
        for i, x in enumerate(items):
            arr = z3.Store(arr, i, kind.unwrap(x))
        self._set_sym(kind, z3.IntVal(len(items)), arr)

    def _pd_len(self):
        if self._sym:
            return mkint(self._n)
        return list.__len__(self)

    def _raw(self, i):
        if not self._sym:
            return seq_at_concrete(self, i)
        return self._kind.wrap(z3.Select(self._arr, it(i)))

    def __len__(self):
        if self._sym:
            unsup('native len of symbolic list')
        return list.__len__(self)

    def __bool__(self):
        if self._sym:
            return decide(self._n > 0)
        return list.__len__(self) > 0

    def __iter__(self):
        if self._sym:
            return SymIter(self)
        return list.__iter__(self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self._sym or any(isinstance(x, SBase) for x in (k.start, k.stop, k.step)):
                # a snapshot
                c = MList()
                c._become(self)
                if k.start is None and k.stop is None and k.step is None:
                    return c
                return seq_slice(as_vseq(c), k)
            return MList(list.__getitem__(self, k))
        if not self._sym and not isinstance(k, SBase):
            return list.__getitem__(self, k)
        n = it(self._pd_len())
        i = it(k)
        if decide(i < 0):
            i = i + n
        if decide(z3.Or(i < 0, i >= n)):
            raise Prog(IndexError('list index out of range'))
        return self._raw(mkint(i))

    def __setitem__(self, k, v):
        if not self._sym and not isinstance(k, SBase):
            if isinstance(v, VSeq):
                unsup('slice assignment')
            return list.__setitem__(self, k, v)
        if isinstance(k, slice):
            unsup('slice assignment')
        self.to_symbolic(kind_of(v))
        i = it(k)
        if decide(i < 0):
            i = i + self._n
        if decide(z3.Or(i < 0, i >= self._n)):
            raise Prog(IndexError('list assignment index out of range'))
        self._arr = z3.Store(self._arr, i, self._fit(v))

    def _fit(self, v):
        try:
            return self._kind.unwrap(v)
        except NoFit:
            unsup('list of %s cannot hold this value (%s)' % (self._kind, type(v)))

    def __delitem__(self, k):
        if self._sym or isinstance(k, SBase):
            if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
                self._become(MList())
                return
            unsup('del of symbolic list item')
        return list.__delitem__(self, k)

    def append(self, v):
        if not self._sym:
            return list.append(self, v)
        self._arr = z3.Store(self._arr, self._n, self._fit(v))
        self._n = z3.simplify(self._n + 1)

    def extend(self, vs):
        if isinstance(vs, MSet):
            vs = vs._d
        if isinstance(vs, MDict) and vs._sym:
            vs = DictView(vs, 'keys')
        if isinstance(vs, (VSeq, SymIter, DictView)) or (isinstance(vs, MList) and vs._sym):
            if not self._sym and list.__len__(self) == 0:
                self._become(materialise(vs))
                return
            v = as_vseq(vs)
            n = it(v.n)
            k = v.kind
            if k is None:
                unsup('extend by unknown kind')
            self.to_symbolic(k)
            src = materialise(v)
            arr = core.E.fresh('ext', self._arr.sort())
            j = z3.Const('j!ext', INT)
            core.E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self._n), arr[j] == self._arr[j]), patterns=[arr[j]]))
            core.E.add(z3.ForAll([j], z3.Implies(z3.And(j >= self._n, j < self._n + n),
                                                 arr[j] == src._arr[j - self._n]), patterns=[arr[j]]))
            core.E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), arr[j + self._n] == src._arr[j]),
                                 patterns=[src._arr[j]]))
            self._arr = arr
            self._n = z3.simplify(self._n + n)
            return
        if isinstance(vs, SBase):
            unsup('extend')
        for x in list(vs):
            self.append(x)

    def pop(self, *a):
        if not self._sym:
            return list.pop(self, *a)
        if not a or (isinstance(a[0], int) and a[0] == -1):
            if decide(self._n == 0):
                raise Prog(IndexError('pop from empty list'))
            self._n = z3.simplify(self._n - 1)
            return self._raw(SInt(self._n))
        if isinstance(a[0], int) and a[0] == 0:
            if decide(self._n == 0):
                raise Prog(IndexError('pop from empty list'))
            r = self._raw(0)
            old = MList()
            old._become(self)
            self._become(materialise(seq_slice(as_vseq(old), slice(1, None, None))))
            return r
        unsup('pop(i) of symbolic list')

    def clear(self):
        self._become(MList())

    def insert(self, i, v):
        if self._sym:
            unsup('insert into symbolic list')
        list.insert(self, i, v)

    def remove(self, v):
        if not self._sym and not isinstance(v, SBase):
            return list.remove(self, v)
        self.to_symbolic(kind_of(v))
        if self._kind not in (KInt, KStr, KBytes):
            unsup('remove from symbolic list of %s' % (self._kind,))
        if not decide(bt(ListView(self)._pd_contains(v))):
            raise Prog(ValueError('list.remove(x): x not in list'))
        # the first index that holds it
        old = self.copy()
        j = core.E.fresh('j!rm', INT)
        u = old._fit(v)
        m = z3.Const('m!rm', INT)
        core.E.add(z3.And(j >= 0, j < old._n, z3.Select(old._arr, j) == u))
        core.E.add(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < j), z3.Select(old._arr, m) != u), patterns=[z3.Select(old._arr, m)]))
        arr = core.E.fresh('rm', old._arr.sort())
        core.E.add(z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < j), arr[m] == old._arr[m]), patterns=[arr[m]]))
        core.E.add(z3.ForAll([m], z3.Implies(z3.And(m >= j, m < old._n - 1), arr[m] == old._arr[m + 1]), patterns=[arr[m]]))
        self._set_sym(old._kind, z3.simplify(old._n - 1), arr)

    def reverse(self):
        if self._sym:
            self._become(materialise(seq_slice(as_vseq(self.copy()), slice(None, None, -1))))
            return
        list.reverse(self)

    def sort(self, **k):
        if self._sym or any(isinstance(x, SBase) for x in list.__iter__(self)):
            unsup('sort of symbolic list')
        list.sort(self, **k)

    def index(self, v, *a):
        if self._sym:
            unsup('index in symbolic list')
        for i, x in enumerate(list.__iter__(self)):
            if a and i < a[0]:
                continue
            if x is v or bool(x == v):
                return i
        raise Prog(ValueError('not in list'))

    def count(self, v):
        if self._sym:
            unsup('count in symbolic list')
        return sum(1 for x in list.__iter__(self) if x is v or bool(x == v))

    def copy(self):
        c = MList()
        c._become(self)
        return c

    def _pd_contains(self, x):
        if self._sym:
            return ListView(self)._pd_contains(x)
        return Or([True if y is x else (y == x) for y in list.__iter__(self)])

    def __contains__(self, x):
        return bool(self._pd_contains(x))

    def __add__(self, o):
        if not self._sym and isinstance(o, list) and not getattr(o, '_sym', False):
            return MList(list.__add__(self, o))
        if isinstance(o, VSeq) or isinstance(o, list):
            c = self.copy()
            c.extend(o)
            return c
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return MList(o) + self
        return NotImplemented

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        if self._sym or isinstance(n, SBase):
            unsup('list repetition')
        return MList(list.__mul__(self, n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, list):
            if isinstance(o, VSeq) and o.pt is list:
                return seq_equal(self, o)
            return NotImplemented if not isinstance(o, SBase) else False
        if not self._sym and not getattr(o, '_sym', False):
            a, b = list(list.__iter__(self)), list(list.__iter__(o))
            return len(a) == len(b) and And([True if x is y else (x == y) for x, y in zip(a, b)])
        return seq_equal(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = None

    def __reversed__(self):
        if self._sym:
            return SymIter(seq_slice(as_vseq(self.copy()), slice(None, None, -1)))
        return list.__reversed__(self)

    def __repr__(self):
        if self._sym:
            if core.E.active and not getattr(core.E, 'debug', False):
                unsup('repr of symbolic list')
            return '<symbolic list %s %s>' % (self._n, self._arr)
        return list.__repr__(self)


def materialise(v):
    """MList with the elements of a sequence."""
    if isinstance(v, MList):
        return v.copy()
    v = as_vseq(v)
    if type(v.n) is int and not isinstance(v, ListView):
        return MList([v.raw(i) for i in range(v.n)])
    if isinstance(v, ListView):
        return v.l.copy()
    j = core.E.fresh('mj', INT)
    core.E.in_quant += 1
    try:
        k = v.kind
        x = v.raw(SInt(j))
        k = kind_of(x) if k is None else k
        t = k.unwrap(x)
    finally:
        core.E.in_quant -= 1
    arr = core.E.fresh('mat', z3.ArraySort(INT, k.sort))
    core.E.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it(v.n)), arr[j] == t), patterns=[arr[j]]))
    return MList.symbolic(k, it(v.n), arr)


def seq_equal(a, b):
    """equality of two sequences as a condition (elementwise term equality)"""
    x, y = as_vseq(a), as_vseq(b)
    j = core.E.fresh('eqj', INT)
    if type(x.n) is int and not isinstance(x, ListView):
        if type(y.n) is int and x.n != y.n:
            return False
        return And([x.n == y.n] + [x.raw(i) == y.raw(i) for i in range(x.n)])
    if type(y.n) is int and not isinstance(y, ListView):
        return And([x.n == y.n] + [x.raw(i) == y.raw(i) for i in range(y.n)])
    core.E.in_quant += 1
    try:
        p, q = x.raw(SInt(j)), y.raw(SInt(j))
        k = unify(kind_of(p), kind_of(q))
        body = k.unwrap(p) == k.unwrap(q)
    finally:
        core.E.in_quant -= 1
    return mkbool(z3.And(it(x.n) == it(y.n),
                         z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it(x.n)), body))))


# ---------------------------------------------------------------------- MDict
class DictView(SBase):
    def __init__(self, d, which):
        self.d, self.which = d, which

    def vseq(self):
        return self.d._enum(self.which)

    def __iter__(self):
        return SymIter(self.vseq())

    def _pd_len(self):
        return self.d._pd_len()

    def __bool__(self):
        return bool(self.d)

    def _pd_contains(self, x):
        if self.which == 'keys':
            return self.d._pd_contains(x)
        unsup('in dict view')

    __hash__ = SBase.__hash__


class AssocView(object):
    """keys() or items() of a dict with symbolic keys and a concrete number of entries"""
    _pd_ok_ = True

    def __init__(self, d, fn):
        self.d, self.fn = d, fn

    def __len__(self):
        return dict.__len__(self.d)

    def __iter__(self):
        n = dict.__len__(self.d)
        for k in list(dict.__iter__(self.d)):
            if dict.__len__(self.d) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield self.fn(k)
        if dict.__len__(self.d) != n:
            raise RuntimeError('dictionary changed size during iteration')

    def _pd_contains(self, x):
        return self.d._pd_contains(x)


class MDict(dict):
    """A dict; native while its keys are concrete, else domain/value arrays."""
    _sym = False
    _pd_ok_ = True

    @staticmethod
    def symbolic(kk, vk, dom, val, cls=None):
        m = (cls or MDict).__new__(cls or MDict)
        m._set_sym(kk, vk, dom, val)
        return m

    def _set_sym(self, kk, vk, dom, val):
        dict.clear(self)
        p = Poison()
        dict.__setitem__(self, p, p)
        self._sym = True
        self._assoc = False
        self._kk, self._vk, self._dom, self._val = kk, vk, dom, val
        self._en = None

    def _become(self, o):
        if getattr(o, '_sym', False):
            self._set_sym(o._kk, o._vk, o._dom, o._val)
            self._en = o._en
        else:
            dict.clear(self)
            self._sym = False
            self._assoc = getattr(o, '_assoc', False)
            for k in dict.__iter__(o):
                dict.__setitem__(self, k, dict.__getitem__(o, k))

    def _content(self):
        if self._sym:
            return ('sym', self._kk, self._vk, self._dom, self._val)
        return ('con',) + tuple((k, dict.__getitem__(self, k)) for k in dict.__iter__(self))

    def to_symbolic(self, kk=None, vk=None):
        if self._sym:
            return
        items = [(k, dict.__getitem__(self, k)) for k in dict.__iter__(self)]
        for k, v in items:
            kk = unify(kk, kind_of(k))
            vk = unify(vk, kind_of(v))
        if kk is None or vk is None:
            unsup('dict of unknown kinds')
        dom = z3.K(kk.sort, z3.BoolVal(False))
        val = core.E.fresh('dval', z3.ArraySort(kk.sort, vk.sort))
        for k, v in items:
            dom = z3.Store(dom, kk.unwrap(k), True)
            val = z3.Store(val, kk.unwrap(k), vk.unwrap(v))
        self._set_sym(kk, vk, dom, val)

    def _key(self, k):
        try:
            return self._kk.unwrap(k)
        except NoFit:
            return None

    _assoc = False       # concrete number of entries, some keys symbolic

    def _hkey(self, k):
        import copy as _c
        h = object.__new__(type(k))
        h.__dict__.update(k.__dict__)
        h._hid = True
        return h

    def _ukey(self, k):
        if isinstance(k, SBase) and k._hid:
            h = object.__new__(type(k))
            h.__dict__.update(k.__dict__)
            h.__dict__.pop('_hid', None)
            return h
        return k

    def _symkey(self, k):
        return self._assoc or isinstance(k, SBase) or (isinstance(k, tuple) and any(isinstance(x, SBase) for x in k))

    @staticmethod
    def _atom(v):
        return isinstance(v, (SBase, str, bytes, int, float, tuple)) or v is None

    def _locate(self, k):
        """concrete mode, symbolic key: the native key equal to k, or None"""
        for c in list(dict.__iter__(self)):
            if c is k:
                return (c,)
        for c in list(dict.__iter__(self)):
            eq = (k == c)
            if eq is NotImplemented:
                eq = is_same(k, c)
            if bool(eq):
                return (c,)
        return None

    def __getitem__(self, k):
        if not self._sym:
            if self._symkey(k):
                c = self._locate(k)
                if c is None:
                    raise Prog(KeyError(k))
                return dict.__getitem__(self, c[0])
            return dict.__getitem__(self, k)
        t = self._key(k)
        if t is None or decide(z3.Not(z3.Select(self._dom, t))):
            raise Prog(KeyError(k))
        return self._vk.wrap(z3.Select(self._val, t))

    def _at(self, t):
        return self._vk.wrap(z3.Select(self._val, t))

    def __setitem__(self, k, v):
        if not self._sym:
            if not self._symkey(k):
                return dict.__setitem__(self, k, v)
            c = self._locate(k)
            if c is not None:
                return dict.__setitem__(self, c[0], v)
            if not isinstance(k, SBase):
                return dict.__setitem__(self, k, v)
            if isinstance(k, (SText, SInt)) and not self._atom(v):
                self._assoc = True
                return dict.__setitem__(self, self._hkey(k), v)
            self.to_symbolic(kind_of(k), kind_of(v))
        t = self._key(k)
        if t is None:
            unsup('dict with %s keys cannot hold key %r' % (self._kk, type(k)))
        try:
            vt = self._vk.unwrap(v)
        except NoFit:
            unsup('dict of %s cannot hold this value' % self._vk)
        if self._en is not None:
            # keep the enumeration when the key is already present
            if not decide(z3.Select(self._dom, t)):
                self._en = None
        self._dom = z3.Store(self._dom, t, True)
        self._val = z3.Store(self._val, t, vt)

    def __delitem__(self, k):
        if not self._sym:
            if self._symkey(k):
                c = self._locate(k)
                if c is None:
                    raise Prog(KeyError(k))
                k = c[0]
            return dict.__delitem__(self, k)
        t = self._key(k)
        if t is None or decide(z3.Not(z3.Select(self._dom, t))):
            raise Prog(KeyError(k))
        self._dom = z3.Store(self._dom, t, False)
        self._en = None

    def _pd_contains(self, k):
        if not self._sym:
            if self._symkey(k):
                return Or([k == c for c in dict.__iter__(self)])
            return dict.__contains__(self, k)
        t = self._key(k)
        if t is None:
            return False
        return mkbool(z3.Select(self._dom, t))

    def __contains__(self, k):
        return bool(self._pd_contains(k))

    def get(self, k, d=None):
        return self[k] if k in self else d

    _MISSING = object()

    def pop(self, k, d=_MISSING):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d is MDict._MISSING:
            raise Prog(KeyError(k))
        return d

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, MDict) and o._sym:
                if not self._sym and dict.__len__(self) == 0:
                    self._become(o)
                    continue
                self.to_symbolic(o._kk, o._vk)
                if self._kk != o._kk or self._vk != o._vk:
                    unsup('update of dicts of different kinds')
                k = core.E.fresh('uk', self._kk.sort)
                self._dom, self._val = (
                    z3.Lambda([k], z3.Or(self._dom[k], o._dom[k])),
                    z3.Lambda([k], z3.If(o._dom[k], o._val[k], self._val[k])))
                self._en = None
            elif isinstance(o, dict):
                for k in dict.__iter__(o):
                    self[k] = dict.__getitem__(o, k)
            elif isinstance(o, (SBase,)):
                unsup('dict.update')
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._become(MDict())

    def copy(self):
        c = MDict()
        c._become(self)
        return c

    def keys(self):
        if self._assoc:
            return AssocView(self, lambda k: self._ukey(k))
        return DictView(self, 'keys') if self._sym else dict.keys(self)

    def values(self):
        return DictView(self, 'values') if self._sym else dict.values(self)

    def items(self):
        if self._assoc:
            return AssocView(self, lambda k: (self._ukey(k), dict.__getitem__(self, k)))
        return DictView(self, 'items') if self._sym else dict.items(self)

    def popitem(self):
        if self._sym:
            unsup('popitem of symbolic dict')
        return dict.popitem(self)

    def _enum_terms(self):
        """(n, ord, pos): an enumeration of the domain (order unspecified)."""
        if self._en is None:
            e = core.E
            n = e.fresh('dn', INT)
            o = e.fresh('dord', z3.ArraySort(INT, self._kk.sort))
            p = e.fresh('dpos', z3.ArraySort(self._kk.sort, INT))
            i = z3.Const('i!en', INT)
            k = z3.Const('k!en', self._kk.sort)
            dom = self._dom
            e.add(n >= 0)
            # name the domain so that patterns are applications of constants
            if not (z3.is_const(dom)):
                d2 = e.fresh('ddom', dom.sort())
                e.add(d2 == dom)
                e.add(z3.ForAll([k], d2[k] == dom[k], patterns=[d2[k]]))
                self._dom = dom = d2
            e.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(dom[o[i]], p[o[i]] == i)), patterns=[o[i]]))
            e.add(z3.ForAll([k], z3.Implies(dom[k], z3.And(p[k] >= 0, p[k] < n, o[p[k]] == k)),
                            patterns=[dom[k]]))
            e.add(z3.ForAll([k], z3.Implies(dom[k], z3.And(p[k] >= 0, p[k] < n, o[p[k]] == k)),
                            patterns=[p[k]]))
            self._en = (n, o, p)
        return self._en

    def _enum(self, which):
        n, o, p = self._enum_terms()
        me, vk, kk = self, self._vk, self._kk

        def at(i):
            k = z3.Select(o, it(i))
            if which == 'keys':
                return kk.wrap(k)
            if which == 'values':
                return vk.wrap(z3.Select(me._val, k))
            return (kk.wrap(k), vk.wrap(z3.Select(me._val, k)))
        v = VSeq(SInt(n), at, pytype=object)
        v.dict = self
        v.dom0 = self._dom
        v.o, v.p = o, p
        v.which = which
        return v

    def _pd_len(self):
        if self._sym:
            return mkint(self._enum_terms()[0])
        return dict.__len__(self)

    def __len__(self):
        if self._sym:
            unsup('native len of symbolic dict')
        return dict.__len__(self)

    def __bool__(self):
        if self._sym:
            n, o, p = self._enum_terms()
            if decide(n > 0):
                # an instance of the enumeration axiom, as a witness
                core.E.add(z3.And(self._dom[o[0]], p[o[0]] == 0))
                return True
            return False
        return dict.__len__(self) > 0

    def __iter__(self):
        if self._sym:
            return SymIter(self._enum('keys'))
        if self._assoc:
            return iter(AssocView(self, lambda k: self._ukey(k)))
        return dict.__iter__(self)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented if not isinstance(o, SBase) else False
        if not self._sym and not getattr(o, '_sym', False):
            a = list(dict.__iter__(self))
            if len(a) != dict.__len__(o):
                return False
            return And([dict.__contains__(o, k) and dict.__getitem__(self, k) == dict.__getitem__(o, k) for k in a])
        return dict_equal(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = None

    def __repr__(self):
        if self._sym:
            if core.E.active and not getattr(core.E, 'debug', False):
                unsup('repr of symbolic dict')
            return '<symbolic dict>'
        return dict.__repr__(self)

    def __or__(self, o):
        c = self.copy()
        c.update(o)
        return c


class MSet(set):
    """A set, held as a dictionary of its members."""
    _pd_ok_ = True

    def __init__(self, x=()):
        self._d = MDict()
        self.update(x)

    def update(self, *xs):
        for x in xs:
            if isinstance(x, MSet):
                self._d.update(x._d)
            elif isinstance(x, (VSeq, SymIter, DictView)) or (isinstance(x, (MList, MDict)) and x._sym):
                self._d.update(members(x))
            elif isinstance(x, SBase):
                unsup('set of symbolic value')
            else:
                for y in list(x):
                    self._d[y] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        if x in self._d:
            del self._d[x]

    def remove(self, x):
        del self._d[x]

    def clear(self):
        self._d.clear()

    def copy(self):
        return MSet(self)

    def pop(self):
        if not self._d:
            raise Prog(KeyError('pop from an empty set'))
        if self._d._sym:
            k = as_vseq(self).at(0)
        else:
            k = next(iter(self._d))
        del self._d[k]
        return k

    def union(self, *o):
        r = MSet(self)
        r.update(*o)
        return r

    def __or__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def _combine(self, o, fn):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        o = o if isinstance(o, MSet) else MSet(o)
        if not self._d._sym and not o._d._sym:
            return MSet([x for x in self._d if decide(bt(fn(True, o._d._pd_contains(x))))])
        k = None
        for d in (self._d, o._d):
            if d._sym:
                k = unify(k, d._kk)
            else:
                for x in dict.__iter__(d):
                    k = unify(k, kind_of(x))
        a, _ = dict_arrays(self._d, k, KBool)
        b, _ = dict_arrays(o._d, k, KBool)
        x = core.E.fresh('sk', k.sort)
        r = MSet()
        r._d._set_sym(k, KBool, z3.Lambda([x], bt(fn(SBool(a[x]), SBool(b[x])))), z3.K(k.sort, z3.BoolVal(True)))
        return r

    def __sub__(self, o):
        return self._combine(o, lambda a, b: And(a, Not(b)))

    def __and__(self, o):
        return self._combine(o, lambda a, b: And(a, b))

    __rand__ = __and__

    def difference(self, *os):
        r = self
        for o in os:
            r = r._combine(MSet(o), lambda a, b: And(a, Not(b)))
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            r = r._combine(MSet(o), lambda a, b: And(a, b))
        return r

    def _no(self, *a, **k):
        unsup('set operation')

    __rsub__ = __xor__ = __rxor__ = __isub__ = __iand__ = __ixor__ = symmetric_difference = _no
    difference_update = intersection_update = symmetric_difference_update = _no

    def issubset(self, o):
        return not bool(self.difference(o))

    def issuperset(self, o):
        return MSet(o).issubset(self)

    def isdisjoint(self, o):
        return not bool(self.intersection(o))

    def __le__(self, o):
        return self.issubset(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if isinstance(o, (set, frozenset)) else NotImplemented

    def __lt__(self, o):
        return self <= o and not self >= o

    def __gt__(self, o):
        return self >= o and not self <= o

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented if not isinstance(o, SBase) else False
        return self._d == (o if isinstance(o, MSet) else MSet(o))._d

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = None

    def _pd_contains(self, x):
        return self._d._pd_contains(x)

    def __contains__(self, x):
        return bool(self._pd_contains(x))

    def _pd_len(self):
        return self._d._pd_len()

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __iter__(self):
        return iter(self._d)

    def __repr__(self):
        return 'set()' if not self._d else '{%s}' % ', '.join(repr(x) for x in self._d)


def members(x):
    """the members of a symbolic sequence, as a dictionary"""
    if isinstance(x, DictView) and x.which == 'keys':
        x = x.d
    if isinstance(x, MDict):
        r = MDict()
        r._set_sym(x._kk, KBool, x._dom, z3.K(x._kk.sort, z3.BoolVal(True)))
        r._en = x._en
        return r
    m = materialise(x)
    if not m._sym:
        r = MDict()
        for y in list.__iter__(m):
            r[y] = True
        return r
    e = core.E
    k = m._kind
    dom = e.fresh('members', z3.ArraySort(k.sort, z3.BoolSort()))
    w = e.fresh('memberat', z3.ArraySort(k.sort, INT))
    j, x = z3.Const('j!mem', INT), z3.Const('x!mem', k.sort)
    e.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m._n), dom[m._arr[j]]), patterns=[m._arr[j]]))
    e.add(z3.ForAll([x], z3.Implies(dom[x], z3.And(w[x] >= 0, w[x] < m._n, m._arr[w[x]] == x)), patterns=[dom[x]]))
    r = MDict()
    r._set_sym(k, KBool, dom, z3.K(k.sort, z3.BoolVal(True)))
    return r


def dict_arrays(d, kk, vk):
    """domain and value arrays of a dict under given kinds"""
    if getattr(d, '_sym', False):
        return d._dom, d._val
    c = MDict()
    c._become(d)
    if dict.__len__(c) == 0:
        return z3.K(kk.sort, z3.BoolVal(False)), core.E.fresh('nov', z3.ArraySort(kk.sort, vk.sort))
    c.to_symbolic(kk, vk)
    return c._dom, c._val


def dict_equal(a, b):
    """same keys, and term-equal values on them"""
    s = a if getattr(a, '_sym', False) else b
    kk, vk = s._kk, s._vk
    da, va = dict_arrays(a, kk, vk)
    db, vb = dict_arrays(b, kk, vk)
    k = core.E.fresh('eqk', kk.sort)
    return mkbool(z3.ForAll([k], z3.And(da[k] == db[k], z3.Implies(da[k], va[k] == vb[k]))))


def ForAll(kinds, body, patterns=None):
    """body(*values) -> condition; kinds: Kind or list of kinds."""
    if isinstance(kinds, Kind):
        kinds = [kinds]
    e = core.E
    vs = [e.fresh('q', k.sort) for k in kinds]
    e.in_quant += 1
    try:
        b = body(*[k.wrap(v) for k, v in zip(kinds, vs)])
    finally:
        e.in_quant -= 1
    t = bt(b)
    if z3.is_true(z3.simplify(t)):
        return True
    return SBool(z3.ForAll(vs, t))


def Exists(kinds, body):
    if isinstance(kinds, Kind):
        kinds = [kinds]
    e = core.E
    vs = [e.fresh('q', k.sort) for k in kinds]
    e.in_quant += 1
    try:
        b = body(*[k.wrap(v) for k, v in zip(kinds, vs)])
    finally:
        e.in_quant -= 1
    return SBool(z3.Exists(vs, bt(b)))


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    k = unify(kind_of(a), kind_of(b))
    return k.wrap(z3.If(bt(c), k.unwrap(a), k.unwrap(b)))
