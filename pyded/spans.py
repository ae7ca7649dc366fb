"""Bytes given by their place in a stream.

A Span is stream[a:b] for one arbitrary stream of bytes.  The only thing known
about the content is where the delimiter occurs: nxt(x) is the position of its
first occurrence at or after x.  Concatenation of adjacent spans, slicing,
searching for the delimiter, length and emptiness are exact; everything else
is outside the subset."""
import z3
from . import core, values as V
from .values import SBase, SInt, mkint, mkbool, decide, unsup
from .core import Prog


def it(x):
    return x if isinstance(x, z3.ExprRef) else V.it(x)


class Token(SBase):
    """a non-empty bytes constant of unknown content (a delimiter)"""
    __class__ = property(lambda self: bytes)
    pytype = bytes
    _pd_nottext = True
    kind = 'bytes'

    def __init__(self, n):
        self.n = n

    def _pd_len(self):
        return self.n

    def __bool__(self):
        return True

    def __add__(self, o):
        unsup('concatenation with a delimiter')
    __radd__ = __add__

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, bytes) and len(o) == 0:
            return False
        unsup('comparison with a delimiter')

    def __ne__(self, o):
        return V.Not(self == o)
    __hash__ = SBase.__hash__


class Stream(object):
    _pd_opaque_ = True
    _pd_ok_ = True

    def __init__(self, name, delimiter, dlen):
        self.name, self.delimiter = name, delimiter
        self.dlen = it(dlen)
        self.f = V.uf('nxt_' + name, V.INT, V.INT)
        x, y = z3.Ints('x!n y!n')
        core.E.add(self.dlen >= 1)
        core.E.add(z3.ForAll([x], self.f(x) >= x, patterns=[self.f(x)]))
        core.E.add(z3.ForAll([x, y], z3.Implies(z3.And(x <= y, y <= self.f(x)), self.f(y) == self.f(x)),
                             patterns=[z3.MultiPattern(self.f(x), self.f(y))]))
        core.E.assumed.add('bytes.find returns the first occurrence; bytes values are treated as spans of one stream')
        self.seen = []
        core.E.ghost['stream ' + name] = self

    def nxt(self, x):
        """ground instances, so that feasibility checks see them too"""
        x = z3.simplify(it(x))
        t = self.f(x)
        if not any(x.eq(y) for y in self.seen):
            core.E.add(t >= x)
            for y in self.seen:
                u = self.f(y)
                core.E.add(z3.Implies(z3.And(y <= x, x <= u), t == u))
                core.E.add(z3.Implies(z3.And(x <= y, y <= t), t == u))
            self.seen.append(x)
        return t

    def span(self, a, b):
        return Span(self, it(a), it(b))

    def kind(self):
        return KSpan(self)


class Span(SBase):
    __class__ = property(lambda self: bytes)
    pytype = bytes
    _pd_nottext = True
    kind = 'bytes'

    def __init__(self, stream, a, b):
        self.stream, self.a, self.b = stream, z3.simplify(a), z3.simplify(b)

    def _pd_len(self):
        return mkint(self.b - self.a)

    def __bool__(self):
        return decide(self.b > self.a)

    def is_(self, a, b):
        """is this stream[a:b]?  (sufficient: the same place, or both empty)"""
        a, b = it(a), it(b)
        return mkbool(z3.Or(z3.And(self.a == a, self.b == b), z3.And(self.a == self.b, a == b)))

    def __eq__(self, o):
        if isinstance(o, bytes) and not isinstance(o, SBase) and len(o) == 0:
            return mkbool(self.a == self.b)
        if isinstance(o, SBase) and o is not self or isinstance(o, bytes):
            unsup('comparison of stream content')
        return o is self

    def __ne__(self, o):
        return V.Not(self == o)
    __hash__ = SBase.__hash__

    def _cat(self, l, r):
        for x, y in ((l, r), (r, l)):
            if not isinstance(x, Span):
                if isinstance(x, (bytes, bytearray)) and not isinstance(x, SBase) and len(x) == 0:
                    return y
                if isinstance(x, str):
                    raise Prog(TypeError("can't concat str to bytes"))
                unsup('concatenation of stream content with other bytes')
        if l.stream is not r.stream:
            unsup('concatenation of different streams')
        if not core.E.feasible(l.b != r.a):
            return Span(l.stream, l.a, r.b)
        if decide(l.a == l.b):
            return r
        if decide(r.a == r.b):
            return l
        if decide(l.b == r.a):
            return Span(l.stream, l.a, r.b)
        unsup('concatenation of stream content that is not adjacent')

    def __add__(self, o):
        return self._cat(self, o)

    def __radd__(self, o):
        return self._cat(o, self)

    def decode(self, enc='utf-8', errors='strict'):
        if V._norm_enc(enc) != 'utf8' or errors != 'strict':
            unsup('decoding stream content')
        core.E.assumed.add('bodies are UTF-8, as what serialize writes is')
        return V.SText('str', V.uf('text_' + self.stream.name, V.INT, V.INT, V.STR)(self.a, self.b))

    def _clamp(self, i, default):
        n = self.b - self.a
        if i is None:
            return default
        if type(i) is V.SAny:
            i = i.resolve()
        i = it(i)
        if decide(i < 0):
            return z3.IntVal(0) if decide(n + i < 0) else n + i
        return n if decide(i > n) else i

    def __getitem__(self, k):
        if not isinstance(k, slice):
            unsup('single bytes of a stream')
        if k.step not in (None, 1):
            unsup('extended slice of a stream')
        n = self.b - self.a
        x = self._clamp(k.start, z3.IntVal(0))
        y = self._clamp(k.stop, n)
        if decide(x >= y):
            return Span(self.stream, self.a + x, self.a + x)
        return Span(self.stream, self.a + x, self.a + y)

    def _delim(self, sub):
        d = self.stream.delimiter
        if sub is d or (isinstance(d, bytes) and isinstance(sub, bytes) and not isinstance(sub, SBase)
                        and not isinstance(d, SBase) and sub == d):
            return
        if isinstance(sub, str) and not isinstance(sub, SBase):
            raise Prog(TypeError('a bytes-like object is required'))
        unsup('search for something else than the delimiter')

    def find(self, sub, *rest):
        self._delim(sub)
        n = self.b - self.a
        i = self._clamp(rest[0] if rest else None, z3.IntVal(0))
        if rest and rest[0] is not None and decide(it(rest[0]) > n):
            return -1
        end = self.b
        if len(rest) > 1:
            end = self.a + self._clamp(rest[1], n)
        e = self.stream.nxt(self.a + i)
        if decide(e + self.stream.dlen <= end):
            return mkint(e - self.a)
        return -1

    def index(self, sub, *rest):
        r = self.find(sub, *rest)
        if r is -1 or (type(r) is int and r == -1):
            raise Prog(ValueError('subsection not found'))
        return r

    def _pd_contains(self, sub):
        self._delim(sub)
        return mkbool(self.stream.nxt(self.a) + self.stream.dlen <= self.b)

    def __contains__(self, sub):
        return bool(self._pd_contains(sub))

    def startswith(self, sub, *rest):
        self._delim(sub)
        if rest:
            unsup('bounded startswith on a stream')
        return mkbool(z3.And(self.stream.nxt(self.a) == self.a, self.a + self.stream.dlen <= self.b))

    def _cut(self, sub):
        r = self.find(sub)
        if type(r) is int:
            return None
        e = self.a + it(r)
        return Span(self.stream, self.a, e), Span(self.stream, e + self.stream.dlen, self.b)

    def partition(self, sub):
        c = self._cut(sub)
        return (self, b'', b'') if c is None else (c[0], sub, c[1])

    def split(self, sub=None, maxsplit=-1):
        if sub is None or maxsplit != 1:
            unsup('split of a stream')
        c = self._cut(sub)
        return V.MList([self] if c is None else list(c))

    def __getattr__(self, n):
        if n.startswith('_pd'):
            raise AttributeError(n)
        if hasattr(bytes, n):
            unsup('method %s of stream content' % n)
        raise AttributeError("'bytes' object has no attribute '%s'" % n)


class Known(SBase):
    """bytes known only through some observations: the head (self[0:1]) and
    rest (self[1:]), the parts around the first place of a separator, what they
    decode to, what they are equal to.  Everything else is outside the subset."""
    __class__ = property(lambda self: bytes)
    pytype = bytes
    _pd_nottext = True
    kind = 'bytes'

    def __init__(self, name, **obs):
        self.name, self.obs = name, obs

    def _get(self, what, *a):
        if what not in self.obs:
            unsup('%s of %s' % (what, self.name))
        r = self.obs[what](*a)
        if r is None:
            unsup('%s of %s' % (what, self.name))
        return r

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            if k.start in (None, 0) and k.stop == 1:
                return self._get('head')
            if k.start == 1 and k.stop is None:
                return self._get('rest')
        unsup('slice of %s' % self.name)

    def startswith(self, x, *r):
        if r or len(x) != 1:
            unsup('startswith of %s' % self.name)
        return self._get('head') == x

    def _cut(self, sep):
        c = self._get('cut', sep)
        if c is None:
            return None
        cond, a, b = c
        return (a, b) if decide(V.bt(cond)) else None

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != 1:
            unsup('split of %s' % self.name)
        c = self._cut(sep)
        return V.MList([self] if c is None else list(c))

    def partition(self, sep):
        c = self._cut(sep)
        return (self, b'', b'') if c is None else (c[0], sep, c[1])

    def _pd_contains(self, sep):
        c = self._get('cut', sep)
        return False if c is None else c[0]

    def __contains__(self, sep):
        return bool(self._pd_contains(sep))

    def __bool__(self):
        return decide(V.bt(self._get('nonempty')))

    def decode(self, enc='utf-8', errors='strict'):
        if V._norm_enc(enc) != 'utf8' or errors != 'strict':
            unsup('decoding %s' % self.name)
        return self._get('text')

    def __eq__(self, o):
        if o is self:
            return True
        return self._get('eq', o)

    def __ne__(self, o):
        return V.Not(self == o)
    __hash__ = SBase.__hash__

    def __add__(self, o):
        return self._get('append', o)

    def __radd__(self, o):
        return self._get('prepend', o)

    def __getattr__(self, n):
        if n.startswith('_pd'):
            raise AttributeError(n)
        if hasattr(bytes, n):
            unsup('method %s of %s' % (n, self.name))
        raise AttributeError("'bytes' object has no attribute '%s'" % n)


SORT = z3.Datatype('Span')
SORT.declare('span', ('sa', V.INT), ('sb', V.INT))
SORT = SORT.create()


def joined(seq, stream):
    """b''.join(seq), for seq of any length: of texts, where elements appended to
    an unknown list follow it; or of adjacent spans of a stream"""
    e = core.E
    if isinstance(seq, V.MList) and not seq._sym or isinstance(seq, (list, tuple)) and not isinstance(seq, V.MList):
        r = b''
        for x in list(list.__iter__(seq) if isinstance(seq, list) else seq):
            r = x if isinstance(r, bytes) and not isinstance(r, SBase) and not r else r + x
        return r
    if stream is not None:
        v = V.as_vseq(seq)
        n = it(v.n)
        if decide(n <= 0):
            return b''
        i = e.fresh('jn', V.INT)
        x, y = v.raw(SInt(i)), v.raw(SInt(i + 1))
        if not (isinstance(x, Span) and x.stream is stream):
            unsup('join of other things than parts of the stream')
        if e.prove(mkbool(z3.Implies(z3.And(i >= 0, i < n), z3.And(x.a <= x.b, z3.Implies(i + 1 < n, x.b == y.a)))))[0] != 'proved':
            unsup('join of parts of a stream that are not adjacent')
        return Span(stream, v.raw(0).a, v.raw(SInt(n - 1)).b)
    l = V.materialise(seq)
    if not l._sym or not (isinstance(l._kind, V.KTextC) and l._kind.kind == 'bytes'):
        return None
    arr, n = l._arr, z3.simplify(it(l._n))
    parts = []
    while z3.is_app_of(arr, z3.Z3_OP_STORE) and z3.is_int_value(z3.simplify(n - 1 - arr.arg(1))) and \
            z3.simplify(n - 1 - arr.arg(1)).as_long() == 0:
        parts.insert(0, arr.arg(2))
        arr, n = arr.arg(0), z3.simplify(n - 1)
    f = V.uf('joined', z3.ArraySort(V.INT, V.STR), V.INT, V.STR)
    e.add(z3.Implies(n <= 0, f(arr, n) == V.st(b'')))
    e.assumed.add("b''.join(L + [x]) == b''.join(L) + x")
    return V.SText('bytes', z3.Concat(*([f(arr, n)] + parts)) if parts else f(arr, n))


class KSpan(V.Kind):
    sort = SORT

    def __init__(self, stream):
        self.sname = stream.name
        self.name = 'span of ' + stream.name

    @property
    def stream(self):
        # a kind learnt on one path is used on others, where the stream is another object
        return core.E.ghost['stream ' + self.sname]

    def wrap(self, t):
        return Span(self.stream, SORT.sa(t), SORT.sb(t))

    def fresh(self, base):
        a, b = core.E.fresh(base + '_a', V.INT), core.E.fresh(base + '_b', V.INT)
        core.E.add(a <= b)
        return Span(self.stream, a, b)

    def unwrap(self, v):
        if isinstance(v, Span) and v.stream.name == self.sname:
            return SORT.span(v.a, v.b)
        if isinstance(v, bytes) and not isinstance(v, SBase) and len(v) == 0:
            return SORT.span(0, 0)
        raise V.NoFit(v)
