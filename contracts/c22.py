"""C22: juice argument lists convert to strings and back (epsilon/juice.py)."""
import string
from pyded.api import contract, search
from epsilon import juice
from epsilon.juice import (Argument, Box, JuiceBox, Integer, String, Unicode, EncodedString, Float, Boolean, Base64Binary, Path, ListOf, JuiceList,
                           Command, normalizeKey, objectsToStrings, stringsToObjects)


class Decl(object):
    """any argument list: any number of (name, argument) pairs with different
    names in normal form; an argument is any object of a class derived from
    Argument whose fromStringProto inverts its toStringProto"""

    def __init__(self, h):
        self.h = h
        A = self.A = h.obj_class('Argument', Argument, optional='bool')
        self.n = h.int('n', 0)
        self.name = h.func('name', 'int', 'str')
        self.arg = h.func('arg', 'int', A.kind)
        self.index = h.func('index', 'str', 'int')
        self.enc = h.func('enc', 'int', 'any', 'str')
        self.dec = h.func('dec', 'int', 'str', 'any')
        self.which = h.func('which', A.kind, 'int')
        self.proto = object()
        h.assume(h.forall_int(0, self.n, lambda i: h.And(h.eq(self.index(self.name(i)), i), h.eq(self.which(self.arg(i)), i))))
        self.bad = h.ghost('bad', 0)

        def to(o, value, proto):
            if proto is not self.proto:
                self.bad.set(1)
            i = self.which(o)
            s = self.enc(i, value)
            h.assume(h.same(self.dec(i, s), value))
            return s

        def from_(o, s, proto):
            if proto is not self.proto:
                self.bad.set(1)
            return self.dec(self.which(o), s)
        A.method('toStringProto', to)
        A.method('fromStringProto', from_)
        self.arglist = h.seq(self.n, lambda i: (self.name(i), self.arg(i)), list)

    def optional(self, i):
        return self.A.get(self.arg(i), 'optional')

    def declared(self, k):
        i = self.index(k)
        return self.h.And(0 <= i, i < self.n, self.h.eq(self.name(i), k))


@contract('C22', 'to strings', concrete=False)
def c_to(h):
    """for any argument list, any values, any box to fill in"""
    w = Decl(h)
    objects = h.dict('objects', 'str', 'any')
    o0 = h.copy(objects)
    norm = h.func('norm', 'str', 'str')
    back = h.func('back', 'str', 'str')
    h.summary(normalizeKey, norm)
    h.assume(h.forall('str', lambda k: h.Implies(k in o0, h.eq(back(norm(k)), k))))
    box = h.dict('box', 'str', 'str', cls=Box)
    b0 = h.copy(box)

    def given(k):
        """the key under which a value for the name k was given"""
        return h.And(back(k) in o0, h.eq(norm(back(k)), k))

    def value(k):
        return h.item(o0, back(k))

    def put(k):
        return h.And(given(k), h.Not(h.And(w.optional(w.index(k)), h.same(value(k), None))))

    def inv(ctx):
        i = ctx.i
        out = [('proto', h.eq(w.bad.get(), 0)), ('objects kept', h.dict_same(objects, o0))]
        dicts = [(n, v) for n, v in sorted(ctx.locals.items()) if isinstance(v, dict) and v is not objects]
        if hasattr(ctx.seq, 'p'):
            for n, d in dicts:
                if d is box:
                    continue
                out += [(n + ' holds the first i', h.forall('str', lambda k, d=d: h.Iff(k in d, h.And(given(k), ctx.pos(back(k)) < i)))),
                        (n + ' with their values', h.forall('str', lambda k, d=d: h.Implies(k in d, h.same(h.item(d, k), value(k)))))]
            out += [('box kept', h.dict_same(box, b0))]
        else:
            for n, d in dicts:
                if d is box:
                    out += [('every name put', h.forall_int(0, i, lambda j: h.Implies(put(w.name(j)), h.And(w.name(j) in box, h.eq(h.item(box, w.name(j)), w.enc(j, value(w.name(j)))))))),
                            ('nothing else put', h.forall('str', lambda k: h.Implies(h.Not(h.And(w.declared(k), w.index(k) < i, put(k))), h.And(h.Iff(k in box, k in b0), h.Implies(k in b0, h.eq(h.item(box, k), h.item(b0, k))))))),
                            ('all required were there', h.forall_int(0, i, lambda j: h.Or(w.optional(j), given(w.name(j)))))]
                else:
                    out += [(n + ' has the others', h.forall('str', lambda k, d=d: h.Implies(h.Not(h.And(w.declared(k), w.index(k) < i)), h.And(h.Iff(k in d, given(k)), h.Implies(k in d, h.same(h.item(d, k), value(k)))))))]
        return out
    h.invariant(inv)
    o = h.call(objectsToStrings, objects, w.arglist, box, w.proto)
    required = h.forall_int(0, w.n, lambda j: h.Or(w.optional(j), given(w.name(j))))
    h.ensure('the caller\'s objects are unmodified', h.dict_same(objects, o0))
    if not o.ok:
        h.ensure('the only error is a missing required argument', h.Not(required), o)
        return
    h.ensure('a missing required argument is an error', required)
    h.ensure('the box given is filled in and returned', o.value is box)
    h.ensure('every value given is put under its name', h.forall_int(0, w.n, lambda j: h.Implies(put(w.name(j)), h.And(
        w.name(j) in box, h.eq(h.item(box, w.name(j)), w.enc(j, value(w.name(j))))))))
    h.ensure('an absent optional argument puts nothing in the box, and neither does anything undeclared', h.forall('str', lambda k: h.Implies(
        h.Not(h.And(w.declared(k), put(k))), h.And(h.Iff(k in box, k in b0), h.Implies(k in b0, h.eq(h.item(box, k), h.item(b0, k)))))))
    h.ensure('with the protocol passed through', h.eq(w.bad.get(), 0))


def decoded(h, w, s0):
    def right(d, j):
        there = w.name(j) in s0
        v = h.item(d, w.name(j))
        return h.And(w.name(j) in d, h.Implies(there, h.same(v, w.dec(j, h.item(s0, w.name(j))))), h.Implies(h.Not(there), h.same(v, None)))
    return right


def from_inv(h, w, strings, s0):
    right = decoded(h, w, s0)

    def inv(ctx):
        i = ctx.i
        out = [('proto', h.eq(w.bad.get(), 0)), ('strings kept', h.dict_same(strings, s0)),
               ('all required were there', h.forall_int(0, i, lambda j: h.Or(w.optional(j), w.name(j) in s0)))]
        for n, d in sorted(ctx.locals.items()):
            if not isinstance(d, dict) or d is strings:
                continue
            if isinstance(d, JuiceBox) or n == 'myStrings':
                out += [(n + ' has the others', h.forall('str', lambda k, d=d: h.Implies(h.Not(h.And(w.declared(k), w.index(k) < i)), h.And(h.Iff(k in d, k in s0), h.Implies(k in d, h.eq(h.item(d, k), h.item(s0, k)))))))]
            else:
                out += [(n + ' has the first i', h.forall_int(0, i, lambda j, d=d: right(d, j))),
                        (n + ' has nothing else', h.forall('str', lambda k, d=d: h.Iff(k in d, h.And(w.declared(k), w.index(k) < i))))]
        return out
    return inv


@contract('C22', 'from strings', concrete=False)
def c_from(h):
    """for any argument list and any box"""
    w = Decl(h)
    strings = h.dict('strings', 'str', 'str', cls=Box)
    s0 = h.copy(strings)

    h.invariant(from_inv(h, w, strings, s0))
    o = h.call(stringsToObjects, strings, w.arglist, w.proto)
    required = h.forall_int(0, w.n, lambda j: h.Or(w.optional(j), w.name(j) in s0))
    h.ensure('the caller\'s box is unmodified', h.dict_same(strings, s0))
    if not o.ok:
        h.ensure('the only error is a missing required argument', h.Not(required), o)
        return
    h.ensure('a missing required argument is an error', required)
    r = o.value
    h.ensure('every argument comes back: decoded, or None when absent', h.forall_int(0, w.n, lambda j: decoded(h, w, s0)(r, j)))
    h.ensure('and nothing else', h.forall('str', lambda k: h.Iff(k in r, w.declared(k))))
    h.ensure('with the protocol passed through', h.eq(w.bad.get(), 0))


@contract('C22', 'there and back', concrete=False)
def c_back(h):
    """for any box with what 'to strings' puts into an empty box"""
    w = Decl(h)
    given = h.dict('given', 'str', 'any')
    strings = h.dict('strings', 'str', 'str', cls=Box)
    s0 = h.copy(strings)

    def put(k):
        return h.And(k in given, h.Not(h.And(w.optional(w.index(k)), h.same(h.item(given, k), None))))
    h.assume(h.forall('str', lambda k: h.Iff(k in s0, h.And(w.declared(k), put(k)))))
    h.assume(h.forall_int(0, w.n, lambda j: h.Implies(put(w.name(j)), h.And(
        h.eq(h.item(s0, w.name(j)), w.enc(j, h.item(given, w.name(j)))),
        h.same(w.dec(j, w.enc(j, h.item(given, w.name(j)))), h.item(given, w.name(j)))))))
    h.assume(h.forall_int(0, w.n, lambda j: h.Or(w.optional(j), w.name(j) in given)))
    h.invariant(from_inv(h, w, strings, s0))
    o = h.call(stringsToObjects, strings, w.arglist, w.proto)
    h.ensure('converts', o.ok, o)
    if not o.ok:
        return
    h.ensure('every value given comes back', h.forall_int(0, w.n, lambda j: h.Implies(w.name(j) in given, h.same(
        h.item(o.value, w.name(j)), h.item(given, w.name(j))))))
    h.ensure('an absent optional one comes back as None', h.forall_int(0, w.n, lambda j: h.Implies(h.Not(w.name(j) in given), h.And(
        w.name(j) in o.value, h.same(h.item(o.value, w.name(j)), None)))))


@contract('C22', 'codecs')
def c_codecs(h):
    """each scalar type restores every legal value"""
    which = h.choice('type', ['Integer', 'Boolean', 'String', 'Unicode', 'Float', 'Base64Binary'])
    v = {'Integer': lambda: h.int('i'), 'Boolean': lambda: h.bool('b'), 'Float': lambda: h.real('x'),
         'String': lambda: h.str('s'), 'Unicode': lambda: h.str('s'), 'Base64Binary': lambda: h.bytes('y')}[which]()
    if h.sym and which == 'Base64Binary':
        import base64
        enc, dec = h.func('base64', 'bytes', 'str'), h.func('unbase64', 'str', 'bytes')

        def b64e(x):
            t = enc(x)
            h.assume(h.eq(dec(t), x))
            return t.encode('utf-8')

        def b64d(x):
            return dec(x.decode('utf-8') if isinstance(x, bytes) else x)
        h.model(base64.b64encode, b64e)
        h.model(base64.b64decode, b64d)
    a = getattr(juice, which)(optional=h.bool('optional'))
    o = h.call(a.toStringProto, v, None)
    h.ensure('converts', o.ok, o)
    h.ensure('to a native string', isinstance(o.value, str), o)
    r = h.call(a.fromStringProto, o.value, None)
    h.ensure('converts back', r.ok, r)
    h.ensure('the same value', h.eq(r.value, v), r)
    h.ensure('of the same type', type(r.value) is type(v) if not h.sym else isinstance(
        r.value, {'Integer': int, 'Boolean': bool, 'Float': float, 'Base64Binary': bytes}.get(which, str)), r)


@contract('C22', 'encoded text')
def c_encoded(h):
    """text in an encoding: in the box as a native string, as boxes read from the wire hold (C18)"""
    v = h.str('s')
    if h.sym:
        h.assume(h.valid(v))
    a = EncodedString('utf-8')
    a.optional = h.bool('optional')
    objects, strings = {'x': v}, Box()
    o = h.call(a.toBox, 'x', strings, objects, None)
    h.ensure('converts', o.ok and list(strings) == ['x'], o)
    h.ensure('to a native string', isinstance(strings['x'], str))
    back = {}
    r = h.call(a.fromBox, 'x', strings, back, None)
    h.ensure('converts back', r.ok, r)
    h.ensure('the same text', isinstance(back['x'], str) and h.eq(back['x'], v), back)


@contract('C22', 'paths and times', concrete=False)
def c_paths_times(h):
    """a path by its text, a time by its ISO 8601 text (restored by C23)"""
    which = h.choice('type', ['Path', 'Time'])
    text = h.str('text')
    h.assume(h.valid(text))
    made = []

    class P(object):
        _pd_ok_ = True

        def __init__(self, path):
            self.path = path
            made.append(self)

        def asISO8601TimeAndDate(self):
            return self.path
        fromISO8601TimeAndDate = classmethod(lambda cls, t: cls(t))
    v = P(text)
    h.patch(juice.filepath, 'FilePath', P)
    h.patch(juice.extime, 'Time', P)
    a = getattr(juice, which)(optional=h.choice('optional', 2) == 1)
    o = h.call(a.toStringProto, v, None)
    h.ensure('converts', o.ok and isinstance(o.value, str), o)
    h.ensure('the object is unmodified', v.path is text)
    r = h.call(a.fromStringProto, o.value, None)
    h.ensure('converts back', r.ok and isinstance(r.value, P), r)
    h.ensure('to the same', h.eq(r.value.path, text), r)


@contract('C22', 'lists', concrete=False)
def c_lists(h):
    """any non-empty list of values any argument type can carry, whose strings do not contain the delimiter"""
    h.quiet()
    A = h.obj_class('Argument', Argument, optional='bool')
    enc, dec = h.func('enc', A.kind, 'any', 'str'), h.func('dec', A.kind, 'str', 'any')
    sub = A.some('sub')
    proto = object()
    A.method('toStringProto', lambda o, v, p: enc(o, v))
    A.method('fromStringProto', lambda o, s, p: dec(o, s))
    xs = h.list('xs', 'any')
    x0 = h.copy(xs)
    h.assume(h.forall_int(0, h.len(xs), lambda i: h.same(dec(sub, enc(sub, h.at(x0, i))), h.at(x0, i))))
    a = ListOf(sub)
    clean = h.forall_int(0, h.len(xs), lambda i: h.Not(', ' in enc(sub, h.at(x0, i))))

    def inv(ctx):
        i = ctx.i
        out = [('list kept', h.list_same(xs, x0))]
        for n, l in sorted(ctx.locals.items()):
            if isinstance(l, list) and l is not xs:
                out += [(n + ' length', h.eq(h.len(l), i)),
                        (n + ' encoded', h.forall_int(0, i, lambda j, l=l: h.holds_text(l) and h.eq(h.at(l, j), enc(sub, h.at(x0, j))))),
                        (n + ' decoded', h.forall_int(0, i, lambda j, l=l: not h.holds_text(l) and h.same(h.at(l, j), h.at(x0, j)))),
                        (n + ' clean', h.forall_int(0, i, lambda j, l=l: h.Not(', ' in enc(sub, h.at(x0, j)))))]
        return out
    h.invariant(inv)
    o = h.call(a.toStringProto, xs, proto)
    if not o.ok:
        h.ensure('refused only when a string contains the delimiter', h.Not(clean), o)
        return
    h.ensure('strings that contain the delimiter are refused', clean)
    h.ensure('the list is unmodified', h.list_same(xs, x0))
    h.assume(h.len(xs) >= 1)
    r = h.call(a.fromStringProto, o.value, proto)
    h.ensure('converts back', r.ok, r)
    h.ensure('to the same list', h.And(isinstance(r.value, list), h.eq(h.len(r.value), h.len(x0)),
                                       h.forall_int(0, h.len(x0), lambda j: h.same(h.at(r.value, j), h.at(x0, j)))))


@contract('C22', 'lists of boxes', concrete=False)
def c_juicelist(h):
    """any list of values; conversion of each, serialization and parsing of boxes by their contracts"""
    proto, subargs = object(), [('x', Integer())]
    B = h.obj_class('Box', src='any')
    ser, unser = h.func('ser', B.kind, 'bytes'), h.func('unser', 'bytes', B.kind)
    bad = h.ghost('bad', 0)

    def to(objects, arglist, strings, p):
        if arglist is not subargs or p is not proto or type(strings) is not Box or len(strings):
            bad.set(1)
        b = B.new()
        B.set(b, 'src', objects)
        return b

    def serialize(b):
        s = ser(b)
        h.assume(h.same(unser(s), b))
        return s
    B.method('serialize', serialize)
    state = {}

    def back(box, arglist, p):
        if arglist is not subargs or p is not proto:
            bad.set(1)
        return B.get(box, 'src')

    def parse(cls, data):
        for j, kind, sep, l in h.E.joins:
            if sep == b'' and h.same_term(data, j):
                state['parsed'] = l
                return h.seq(h.len(l), lambda i: unser(h.at(l, i)), list)
        h.require(False, 'what is parsed is not what was written')
    h.summary(objectsToStrings, to)
    h.summary(stringsToObjects, back)
    h.summary(juice._ParserHelper.parseString, parse)
    xs = h.list('xs', 'any')
    x0 = h.copy(xs)

    def inv(ctx):
        i = ctx.i
        out = [('list kept', h.list_same(xs, x0)), ('summaries', h.eq(bad.get(), 0))]
        for n, l in sorted(ctx.locals.items()):
            if isinstance(l, list) and l is not xs:
                out += [(n + ' length', h.eq(h.len(l), i)),
                        (n + ' written', h.forall_int(0, i, lambda j, l=l: h.holds_text(l) and h.And(
                            h.eq(h.at(l, j), ser(unser(h.at(l, j)))), h.same(B.get(unser(h.at(l, j)), 'src'), h.at(x0, j)), B.exists(unser(h.at(l, j)))))),
                        (n + ' read', h.forall_int(0, i, lambda j, l=l: not h.holds_text(l) and h.same(h.at(l, j), h.at(x0, j))))]
        return out
    h.invariant(inv)
    a = JuiceList(subargs)
    o = h.call(a.toStringProto, xs, proto)
    h.ensure('converts', o.ok, o)
    h.ensure('the list is unmodified', h.list_same(xs, x0))
    r = h.call(a.fromStringProto, o.value, proto)
    h.ensure('converts back', r.ok, r)
    h.ensure('to the same list', h.And(isinstance(r.value, list), h.eq(h.len(r.value), h.len(x0)),
                                       h.forall_int(0, h.len(x0), lambda j: h.same(h.at(r.value, j), h.at(x0, j)))))
    h.ensure('each by the arguments declared', h.eq(bad.get(), 0))


@contract('C22', 'command', concrete=False)
def c_command(h):
    """a command with any declared arguments is refused exactly when a required one is missing"""
    w = Decl(h)
    kw = h.dict('kw', 'str', 'any')
    k0 = h.copy(kw)
    norm = h.func('norm', 'str', 'str')
    h.summary(normalizeKey, norm)
    h.assume(h.forall('str', lambda k: h.Implies(k in k0, h.eq(norm(k), k))))
    h.assume(h.forall_int(0, w.n, lambda i: h.eq(norm(w.name(i)), w.name(i))))

    class C(Command):
        arguments = w.arglist
    c = C.__new__(C)

    def inv(ctx):
        i = ctx.i
        out = []
        for n, l in sorted(ctx.locals.items()):
            if isinstance(l, list) and l is not w.arglist:
                if hasattr(ctx.seq, 'p'):
                    out += [(n + ' length', h.eq(h.len(l), i)),
                            (n + ' keys', h.forall_int(0, i, lambda j, l=l: h.holds_text(l) and h.And(h.at(l, j) in k0, h.eq(ctx.pos(h.at(l, j)), j)))),
                            (n + ' all keys', h.forall('str', lambda k, l=l: h.Implies(h.And(k in k0, ctx.pos(k) < i), h.eq(h.at(l, ctx.pos(k)), k) if h.holds_text(l) else False)))]
                else:
                    out += [(n + ' missing', h.Implies(h.len(l) > 0, h.exists_int(0, i, lambda j: h.Not(h.Or(w.optional(j), w.name(j) in k0))))),
                            (n + ' nothing missing', h.Implies(h.eq(h.len(l), 0), h.forall_int(0, i, lambda j: h.Or(w.optional(j), w.name(j) in k0))))]
        return out
    h.invariant(inv)
    o = h.call(Command.__init__, c, **kw)
    required = h.forall_int(0, w.n, lambda j: h.Or(w.optional(j), w.name(j) in k0))
    if o.ok:
        h.ensure('a missing required argument is an error', required)
        h.ensure('the values are kept', h.dict_same(c.structured, k0))
    else:
        h.ensure('the only error is a missing required argument', h.Not(required))


# ---------------------------------------------------------------------------- concrete
NAMES = ['a', 'b', 'cc', 'long_name', 'from_', 'x1', 'Class', 'body', 'z']
TEXT = ['', 'a', 'a b', 'x,y', ', ', 'a:\r\nb', '\xe9\u1234', 'True', '0', ' x ', 'None', ',', ' ']


def text(h, r, avoid=()):
    for _ in range(20):
        t = r.choice(TEXT) if r.random() < .7 else ''.join(r.choice('ab ,;:\n\xe9') for _ in range(r.randint(0, 8)))
        if not any(d in t for d in avoid):
            return t
    return 'x'


def gen(h, r, depth, avoid=()):
    """(argument, function making a legal value)"""
    from epsilon import extime
    from twisted.python.filepath import FilePath
    opt = r.random() < .4
    k = r.choice(['Integer', 'Integer', 'String', 'Unicode', 'Boolean', 'Float', 'Base64Binary', 'Path', 'Time', 'ListOf', 'JuiceList', 'EncodedString'])
    if k == 'EncodedString':
        a = EncodedString(r.choice(['utf-8', 'UTF8']))
        a.optional = opt
        return a, lambda: text(h, r, avoid)
    if k == 'ListOf' and depth:
        d = ', ' if depth == 2 else ';'
        a, mk = gen(h, r, depth - 1, avoid + (d,))
        l = ListOf(a) if d == ', ' else ListOf(a, d)
        l.optional = opt
        return l, lambda: [mk() for _ in range(r.randint(1, 4))]
    if k == 'JuiceList' and depth == 2:
        sub = []
        for n in r.sample(['p', 'q', 'r_s'], r.randint(1, 3)):
            sub.append((n,) + gen(h, r, 0, avoid))
        l = JuiceList([(n, a) for n, a, mk in sub])
        l.optional = opt
        return l, lambda: [dict((n, None if a.optional and r.random() < .5 else mk()) for n, a, mk in sub) for _ in range(r.choice([0, 1, 2, 4]))]
    if k in ('ListOf', 'JuiceList', 'Time', 'Path', 'Base64Binary') and avoid:
        k = 'Integer'
    mk = {'Integer': lambda: r.choice([0, 1, -1, 10 ** 30, r.randint(-99, 99)]), 'String': lambda: text(h, r, avoid), 'Unicode': lambda: text(h, r, avoid),
          'Boolean': lambda: r.random() < .5, 'Float': lambda: r.choice([0.0, 0.1, 1e300, -2.5, 1 / 3.0, r.random()]),
          'Base64Binary': lambda: bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 80]))),
          'Path': lambda: FilePath('/tmp/' + r.choice(['a', 'b c', '\xe9', 'x.y'])),
          'Time': lambda: extime.Time.fromPOSIXTimestamp(r.randint(0, 2 ** 31))}[k if k not in ('ListOf', 'JuiceList') else 'Integer']
    k = k if k not in ('ListOf', 'JuiceList') else 'Integer'
    return getattr(juice, k)(optional=opt), mk


def case(x):
    if isinstance(x, list):
        return [case(y) for y in x]
    if isinstance(x, dict):
        return dict((k, case(v)) for k, v in x.items())
    return (type(x).__name__, repr(x))


@search('C22', 'argument lists', weight=3)
def s_roundtrip(h):
    r = h.rng
    decl = []
    for n in r.sample(NAMES, r.randint(0, 5)):
        decl.append((n,) + gen(h, r, 2))
    arglist = [(n, a) for n, a, mk in decl]
    objects, expected, missing = {}, {}, []
    for n, a, mk in decl:
        p = r.random()
        if p < .12 and not a.optional:
            missing.append(n)
        elif a.optional and p < .3:
            expected[n] = None
        elif a.optional and p < .5:
            objects[n] = expected[n] = None
        else:
            objects[n] = expected[n] = mk()
    extra = dict((k, text(h, r)) for k in r.sample(['extra', 'other', '_ask', '_command', 'zz'], r.randint(0, 2)))
    objects.update(extra)
    pre = dict((k, text(h, r)) for k in r.sample(['pre', '_answer', 'zz'], r.randint(0, 2)))
    h.note('arguments', [(n, type(a).__name__, a.optional) for n, a in arglist])
    h.note('objects', repr(objects))
    given = {}
    for k, v in objects.items():
        given[r.choice([k, k.upper() if k != 'Class' else k, k.replace('_', '-') if not k.startswith('_') else k]) if k != 'Class' else 'class'] = v
    if len(given) != len(objects):
        given = dict(objects)
    before, was = case(given), dict(given)
    box = Box(**{})
    box.update(pre)
    o = h.call(objectsToStrings, given, arglist, box, None)
    h.ensure("the caller's objects are unmodified", case(given) == before and all(given[k] is was[k] for k in was))
    if missing:
        h.ensure('a missing required argument is an error', not o.ok, o)
        return
    h.ensure('converts', o.ok, o)
    h.ensure('the box given is filled in and returned', o.value is box)
    put = set(n for n in expected if expected[n] is not None or (n in objects and not dict(arglist)[n].optional))
    h.ensure('exactly the given arguments are put, over what was there', set(box) == put | set(pre), box)
    h.ensure('what was there and is not declared is kept', all(box[k] == pre[k] for k in pre if k not in put))
    b0 = dict(box)
    g = h.call(stringsToObjects, box, arglist, None)
    h.ensure("the caller's box is unmodified", dict(box) == b0)
    h.ensure('converts back', g.ok, g)
    h.ensure('the same values, and only those declared', case(g.value) == case(expected), (g.value, expected))
    # a missing required argument in the box
    req = [n for n, a in arglist if not a.optional]
    if req:
        del box[r.choice(req)]
        g = h.call(stringsToObjects, box, arglist, None)
        h.ensure('a missing required string is an error', not g.ok, g)
    g = h.call(stringsToObjects, Box(), [(n, a) for n, a in arglist if a.optional], None)
    h.ensure('absent optional arguments come back as None', g.ok and g.value == dict((n, None) for n, a in arglist if a.optional), g)


@search('C22', 'commands')
def s_command(h):
    """over the wire: what a command is given is what the responder gets and what it answers is what comes back"""
    from contracts.juicing import connected
    r = h.rng
    decl = [(n,) + gen(h, r, 2) for n in r.sample(['a', 'b', 'cc', 'x1'], r.randint(0, 3))]
    resp = [(n,) + gen(h, r, 2) for n in r.sample(['a', 'b', 'cc', 'x1'], r.randint(0, 3))]

    class C(Command):
        commandName = 'C'
        arguments = [(n, a) for n, a, mk in decl]
        response = [(n, a) for n, a, mk in resp]

    def values(ds):
        vs = {}
        for n, a, mk in ds:
            if not a.optional or r.random() < .5:
                vs[n] = mk()
        return vs
    kw, ans = values(decl), values(resp)
    drop = None
    req = [n for n, a, mk in decl if not a.optional]
    if req and r.random() < .3:
        drop = r.choice(req)
        kw.pop(drop)
    h.note('arguments', repr(kw))
    h.note('answer', repr(ans))
    o = h.call(C, **kw)
    if drop:
        h.ensure('a missing required argument is an error', not o.ok, o)
        return
    h.ensure('made', o.ok, o)
    got = []

    class Server(juice.Juice):
        def command_C(self, **k):
            got.append(k)
            return ans
        command_C.command = C
    server, st = connected(True, Server)
    client, ct = connected(False)
    results = []
    d = o.value.do(client)
    d.addBoth(results.append)
    server.dataReceived(b''.join(ct.written))
    client.dataReceived(b''.join(st.written))
    h.ensure('the responder is called once', len(got) == 1, (got, results))
    full = lambda ds, vs: case(dict((n, vs.get(n)) for n, a, mk in ds))
    h.ensure('with the values given', case(got[0]) == full(decl, kw), got)
    h.ensure('what it answers comes back', len(results) == 1 and isinstance(results[0], dict) and case(results[0]) == full(resp, ans), results)


@search('C22', 'empty lists', once=True)
def s_empty(h):
    for name, a in [('ListOf(Integer())', ListOf(Integer())), ('ListOf(String())', ListOf(String()))]:
        o = h.call(a.toStringProto, [], None)
        h.ensure('the empty list converts', o.ok, o)
        g = h.call(a.fromStringProto, o.value, None)
        h.known(name + ':[]', o.value == '' and (g.raised(ValueError) or g.value == ['']), 'the empty list comes back', g.ok and g.value == [], (name, g))
    g = h.call(JuiceList([('a', Integer())]).fromStringProto, JuiceList([('a', Integer())]).toStringProto([], None), None)
    h.ensure('the empty list of boxes comes back', g.ok and g.value == [], g)
