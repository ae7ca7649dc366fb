"""C18: Juice boxes survive the wire unchanged (epsilon/juice.py, over the
line framing of C17)."""
import keyword
import six
from pyded.api import contract, search
from epsilon import juice
from epsilon.juice import Juice, JuiceBox, normalizeKey, parseJuiceHeaders
from contracts.juicing import Transport


class Collector(Juice):
    def __init__(self):
        Juice.__init__(self, False)
        self.boxes = []

    def juiceBoxReceived(self, box):
        self.boxes.append(box)


# ------------------------------------------------------------------ concrete
def a_key(r):
    while True:
        k = r.choice('abcdefghijklmnopqrstuvwxyz_\xe9') + ''.join(r.choice('abz09_\xe9\xdf') for _ in range(r.randint(0, 5)))
        if k not in ('_length', 'body') and not keyword.iskeyword(k):
            return k


def a_value(r):
    return ''.join(r.choice(['a', 'B', ' ', ':', ': ', '\r\n', '\r\n', '\r', '\n', '\r\n ', '-', '_', '\xe9', '\u20ac', '\U0001f600', '0', '\0', '\t'])
                   for _ in range(r.choice([0, 1, 2, 3, 6, 12])))


def a_box(r, plain=False):
    b = {}
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        b[a_key(r)] = a_value(r)
    if not plain and r.random() < .5:
        b['body'] = a_value(r) or 'x'
    return b


def chunks(r, data):
    how = r.choice(['one', 'bytes', 'two', 'some', 'some'])
    if how == 'one':
        return [data]
    if how == 'bytes':
        return [data[i:i + 1] for i in range(len(data))]
    cuts = sorted(r.randint(0, len(data)) for _ in range(1 if how == 'two' else r.randint(1, 6)))
    return [data[i:j] for i, j in zip([0] + cuts, cuts + [len(data)])]


def feed(pieces):
    p = Collector()
    p.makeConnection(Transport())
    for x in pieces:
        p.dataReceived(x)
    return p


@search('C18', 'boxes on one stream', weight=4)
def s_stream(h):
    r = h.rng
    boxes = h._draw('boxes', lambda: [a_box(r) for _ in range(r.choice([1, 1, 2, 3, 5]))])
    made = [JuiceBox(**b) for b in boxes]
    if r.random() < .5:
        made = [b.copy() for b in made]
    data = h.call(lambda: b''.join(b.serialize() for b in made))
    h.ensure('every box can be serialized', data.ok and isinstance(data.value, bytes), data)
    h.ensure('serializing leaves the box as it was', [dict(b) for b in made] == boxes)
    pieces = h._draw('chunks', lambda: chunks(r, data.value))
    o = h.call(feed, pieces)
    h.ensure('the bytes are taken', o.ok, o)
    got = o.value.boxes
    h.ensure('the boxes received are the boxes sent, in order', [dict(b) for b in got] == boxes, got)
    # an unfinished box is held back, and leaks nothing into those before it
    cut = h._draw('cut', lambda: r.randint(0, len(data.value)))
    ends, n = [], 0
    for b in made:
        n += len(b.serialize())
        ends.append(n)
    o = h.call(feed, [data.value[:cut]])
    h.ensure('exactly the boxes that are complete are received', o.ok and [dict(b) for b in o.value.boxes] == boxes[:len([e for e in ends if e <= cut])], o)


@search('C18', 'parsing helpers')
def s_helpers(h):
    r = h.rng
    boxes = h._draw('boxes', lambda: [a_box(r) for _ in range(r.randint(0, 4))])
    data = b''.join(JuiceBox(**b).serialize() for b in boxes)
    o = h.call(juice.parseString, data)
    h.ensure('parseString yields the boxes', o.ok and [dict(b) for b in o.value] == boxes, o)


@search('C18', 'every small value, every cut', once=True)
def s_small(h):
    """exhaustive: all values of up to four of the bytes that matter, every place to cut the stream"""
    import itertools
    alphabet = ['\r', '\n', ' ', ':', 'x']
    values = [''.join(v) for n in range(5 if h.thorough else 4) for v in itertools.product(alphabet, repeat=n)]
    for v in values:
        for body in (None, v or 'y'):
            box = {'k': v, 'z': 'end'}
            if body is not None:
                box['body'] = body
            data = JuiceBox(**box).serialize()
            both = data + data
            for cut in range(len(both) + 1):
                p = feed([both[:cut], both[cut:]])
                h.ensure('both boxes are received as they were sent', [dict(b) for b in p.boxes] == [box, box], (box, cut, p.boxes))


@search('C18', 'many boxes in one chunk', once=True)
def s_many(h):
    for n in (50, 150):
        data = JuiceBox(a='b', body='xyz').serialize()
        o = h.call(feed, [data * n])
        h.ensure('%d boxes with bodies arrive' % n, o.ok and [dict(b) for b in o.value.boxes] == [{'a': 'b', 'body': 'xyz'}] * n, o)
    data = JuiceBox(a='b').serialize()
    o = h.call(feed, [data * 3000])
    h.ensure('3000 boxes without bodies arrive', o.ok and [dict(b) for b in o.value.boxes] == [{'a': 'b'}] * 3000, o)
    data = JuiceBox(a='b', body='xyz').serialize()
    o = h.call(feed, [data * 3000])
    h.known('3000 boxes with bodies in one chunk', o.raised(RecursionError), '3000 boxes with bodies in one chunk arrive',
            o.ok and [dict(b) for b in o.value.boxes] == [{'a': 'b', 'body': 'xyz'}] * 3000, type(o.exc))


# --------------------------------------------------------------------- proof
LENGTH = '_length'


class Header(object):
    """Any lines of which the first is not a continuation: which item each
    belongs to (`key`), and what has been read of its value after it (`upto`).
    The key of a line that begins an item is that of the part before ': '."""

    def __init__(self, h):
        self.h = h
        n = self.n = h.int('lines', 0)
        self.first = h.func('first line', 'int', 'bool')
        self.key = h.func('key of a line', 'int', 'str')
        self.piece = h.func('text of a line', 'int', 'str')
        self.upto = h.func('value up to a line', 'int', 'str')
        self.start = h.func('first line of an item', 'int', 'int')
        self.own = h.func('first line of a key', 'str', 'int')
        self.lines = h.seq(n, self.line, list)
        end = self.end = h.func('last line of a key', 'str', 'int')
        first, key, upto, start, own, piece = self.first, self.key, self.upto, self.start, self.own, self.piece
        h.assume(h.Implies(n > 0, first(0)))
        h.assume(h.forall_int(0, n, lambda p: h.And(start(p) >= 0, start(p) <= p, first(start(p)), h.eq(key(start(p)), key(p)))))
        h.assume(h.forall_int(0, n, lambda p: h.Implies(first(p), h.And(start(p) == p, h.eq(upto(p), piece(p))))))
        h.assume(h.forall_int(0, n, lambda p: h.Implies(h.Not(first(p)), h.And(
            p > 0, start(p) == start(p - 1), h.eq(key(p), key(p - 1)), h.eq(upto(p), upto(p - 1) + piece(p))))))
        # the keys of the items are different
        h.assume(h.forall_int(0, n, lambda p: own(key(p)) == start(p)))
        h.assume(h.forall_int(0, n, lambda p: h.Implies(self.last(p), end(key(p)) == p)))

    def line(self, p):
        h = self.h
        # '\r\n' + the rest decodes to the piece of a continuation line
        more = h.known('the bytes a continuation line adds', text=lambda: self.piece(p))
        rest = h.known('the rest of a continuation line', prepend=lambda x: more if x == b'\r\n' else None)
        head = h.known('the first byte of a line', eq=lambda x: h.Not(self.first(p)) if x == b' ' else None)
        name = h.known('the name of an item', key=lambda: self.key(p))
        value = h.known('the value of an item', text=lambda: self.piece(p))
        return h.known('a header line', head=lambda: head, rest=lambda: rest, cut=lambda sep: (True, name, value) if sep == b': ' else None)

    def norm(self, name):
        return name._get('key')

    def last(self, p):
        """is p the last line of its item?"""
        return self.h.Or(p == self.n - 1, self.first(p + 1))

    def has(self, k):
        """is k the key of an item?"""
        return self.has_before(k, self.n)

    def has_before(self, k, i):
        o = self.own(k)
        return self.h.And(o >= 0, o < i, self.first(o), self.h.eq(self.key(o), k))


@contract('C18', 'reading headers', concrete=False)
def c_parse(h):
    H = Header(h)
    n, key, upto = H.n, H.key, H.upto
    h.summary(normalizeKey, H.norm)
    h.ghost('digits', False)
    size = h.int('body length', 0)
    h.assume(h.Implies(H.has(LENGTH), h.eq(upto(H.end(LENGTH)), h.numeral(size))))
    h.ensure('(lemma) the length, if it comes last, ends with the last line', h.Implies(
        h.And(H.has(LENGTH), H.own(LENGTH) == H.start(n - 1)), H.end(LENGTH) == n - 1))
    h.ensure('(lemma) the length is that of the body', h.Implies(H.has(LENGTH), h.eq(
        h.Ite(H.own(LENGTH) == H.start(n - 1), upto(n - 1), upto(H.end(LENGTH))), h.numeral(size))))

    def inv(ctx):
        i = ctx.i
        out = []
        for m, d in sorted(ctx.locals.items()):
            if h.is_dict(d):
                out += [(m + ' has the items begun', h.forall('str', lambda k, d=d: h.Iff(k in d, H.has_before(k, i)))),
                        (m + ' has their values so far', h.forall('str', lambda k, d=d: h.Implies(H.has_before(k, i), h.maps(
                            d, k, h.Ite(H.own(k) == H.start(i - 1), upto(i - 1), upto(H.end(k)))))))]
            elif h.texty(d):
                out.append((m + ' is the current key', h.Ite(h.eq(i, 0), h.is_value(d, None), h.is_value(d, key(i - 1)))))
        return out
    h.invariant(inv)
    o = h.call(parseJuiceHeaders, H.lines)
    h.ensure('well-formed headers are read', o.ok, o)
    got, box = o.value
    h.ensure('a JuiceBox', isinstance(box, JuiceBox))
    h.ensure('the length of the body', h.eq(got, h.Ite(H.has(LENGTH), size, 0)))
    h.ensure('each key other than the length, and no other', h.forall('str', lambda k: h.Iff(k in box, h.And(h.Not(h.eq(k, LENGTH)), H.has(k)))))
    h.ensure('each with its whole value', h.forall('str', lambda k: h.Implies(h.And(H.has(k), h.Not(h.eq(k, LENGTH))), h.maps(box, k, upto(H.end(k))))))


@contract('C18', 'writing headers', concrete=False)
def c_serialize(h):
    """any box of text; `header` is what the format prescribes for an item"""
    h.ghost('digits', False)
    box = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    h.assume(h.Not(LENGTH in b0))
    ser = h.func('headers up to', 'int', 'bytes')
    seen = {}

    def field(name, value):
        return name.replace(b'_', b'-').title() + b': ' + value.replace(b'\r\n', b'\r\n ') + b'\r\n'

    def header(k, v):
        size = h.numeral(h.len(v.encode('utf-8')))
        return h.Ite(h.eq(k, 'body'), field(b'_length', size.encode('utf-8')), field(k.encode('utf-8'), v.encode('utf-8')))

    def inv(ctx):
        i = ctx.i
        if not hasattr(ctx.seq, 'p'):
            return []
        # ser: the headers of the first i items, in the order of iteration
        seen['n'] = ctx.n
        k, v = ctx.at(i)
        h.assume(h.eq(ser(0), b''))
        h.assume(h.eq(ser(i + 1), ser(i) + header(k, v)))
        out = [('box kept', h.dict_same(box, b0))]
        for m, l in sorted(ctx.locals.items()):
            if h.is_list(l):
                out.append((m + ' is the headers so far', h.joined_is(l, ser(i))))
            elif h.is_bytes(l):
                out.append((m + ' is the headers so far', h.eq(l, ser(i))))
        return out
    h.invariant(inv)
    h.joins()
    o = h.call(box.serialize)
    h.ensure('a box of text can be written', o.ok, o)
    h.require('n' in seen)
    got = o.value
    h.ensure('the headers of all items, a blank line and the body', h.eq(got, ser(seen['n']) + b'\r\n' + h.Ite(
        'body' in b0, h.item(b0, 'body').encode('utf-8'), b'')))
    h.ensure('the box is as before', h.dict_same(box, b0))


@contract('C18', 'lines', concrete=False)
def c_lines(h):
    """where the line breaks of what is written are"""
    x, y, t = h.bytes('piece'), h.bytes('name'), h.bytes('following bytes')
    crlf = b'\r\n'
    h.ghost('goal_timeout', 1000)       # of the first solver
    h.assume(h.Not(crlf in x))
    h.assume(h.Not(crlf in y))
    h.ensure('a piece ends at the line break written after it', h.eq(h.indexof(x + crlf + t, crlf), h.len(x)))
    h.ensure('a continuation line contains no line break', h.Not(crlf in b' ' + x))
    h.ensure('a line that begins an item contains no line break', h.Not(crlf in y + b': ' + x))
    h.assume(h.Not(b': ' in y))
    h.ensure('its name ends at the first colon and blank', h.eq(h.indexof(y + b': ' + x, b': '), h.len(y)))


@contract('C18', 'lines to a box', concrete=False)
def c_box_lines(h):
    h.quiet()
    p = Collector()
    t = Transport()
    p.makeConnection(t)
    h.require(hasattr(p, '_requestBuffer'))
    p._requestBuffer = h.list('lines so far', 'bytes')
    before = h.copy(p._requestBuffer)
    size = h.int('body length', 0)
    box = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    parsed = []

    def parse(lines):
        parsed.append(h.copy(lines))
        return size, box
    h.summary(parseJuiceHeaders, parse)
    line = h.bytes('line')
    blank = h.len(line) == 0
    o = h.call(p.lineReceived, line)
    h.ensure('taken', o.ok, o)
    now = p._requestBuffer
    if not blank:
        n = h.len(before)
        h.ensure('the line is kept, after those before', h.And(h.eq(h.len(now), n + 1), h.eq(h.at(now, n), line), h.forall_int(
            0, n, lambda i: h.eq(h.at(now, i), h.at(before, i)))))
        h.ensure('no box yet', not p.boxes and not parsed)
        h.ensure('still reading lines', p.lineMode)
    else:
        h.ensure('a blank line ends the headers: all lines of this box are read, once', len(parsed) == 1 and h.list_same(parsed[0], before))
        h.ensure('none is left for the next box', h.eq(h.len(now), 0))
        if size == 0:
            h.ensure('a box without body is delivered', len(p.boxes) == 1 and p.boxes[0] is box and h.dict_same(box, b0))
            h.ensure('still reading lines', p.lineMode)
        else:
            h.ensure('a box with a body is held back', not p.boxes)
            h.ensure('its body is read, all of it', h.And(h.Not(p.lineMode), p._pendingBox is box, h.eq(p._bodyRemaining, size), h.eq(h.len(p._bodyBuffer), 0)))


@contract('C18', 'bytes to a body', concrete=False)
def c_body(h):
    """any body, any part of it received in any pieces, any chunk"""
    h.quiet()
    p = Collector()
    t = Transport()
    p.makeConnection(t)
    h.require(hasattr(p, '_requestBuffer'))
    S = h.stream('stream', b'\r\n')
    begin, size = h.int('begin', 0), h.int('size', 1)
    end = begin + size
    at, to = h.int('received before'), h.int('received now')
    h.assume(h.And(begin <= at, at < end, at < to))
    box = p._pendingBox = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    pieces = p._bodyBuffer = h.list('pieces', S.kind())
    n = h.len(pieces)
    piece = lambda i: h.at(pieces, i)
    start = lambda i: h.of_term(piece(i).a)
    stop = lambda i: h.of_term(piece(i).b)
    h.assume(h.forall_int(0, n, lambda i: h.And(start(i) <= stop(i), h.Implies(i + 1 < n, h.eq(stop(i), start(i + 1))))))
    h.assume(h.Ite(h.eq(n, 0), h.eq(at, begin), h.And(h.eq(start(0), begin), h.eq(stop(n - 1), at))))
    p._bodyRemaining = end - at
    p.setRawMode()
    left = []

    def inv(ctx):
        out = []
        for m, l in sorted(ctx.locals.items()):
            if h.is_list(l) and l is not pieces and m == '_pd_R':
                out += [('(comprehension) as many', h.eq(h.len(l), ctx.i)), ('(comprehension) the same', h.forall_int(0, ctx.i, lambda j, l=l: h.same_span(h.at(l, j), ctx.at(j))))]
        return out
    h.invariant(inv)

    def setLineMode(self, extra=b''):
        left.append((extra, len(p.boxes)))
    h.summary(type(p).setLineMode, setLineMode)
    h.joins(S)
    o = h.call(p.rawDataReceived, S.span(at, to))
    h.ensure('taken', o.ok, o)
    if to < end:
        h.ensure('an unfinished body is held back', not p.boxes and not left)
        h.ensure('the rest is still to come', h.And(h.eq(p._bodyRemaining, end - to), p._pendingBox is box, h.dict_same(box, b0)))
        h.ensure('what has arrived is kept', h.joined_is(p._bodyBuffer, S.span(begin, to)))
    else:
        h.ensure('the box is delivered once, before the bytes that follow are looked at', len(p.boxes) == 1 and len(left) == 1 and left[0][1] == 1)
        got = p.boxes[0]
        h.ensure('it is the box', isinstance(got, JuiceBox))
        h.ensure('with exactly the announced bytes as its body', h.maps(got, 'body', S.span(begin, end).decode('utf-8')))
        h.ensure('and its headers', h.dict_same(got, b0, but=('body',)))
        h.ensure('the bytes that follow are left for the next box', h.is_span(left[0][0], end, to))


@search('C18', 'every character in a key', once=True)
def s_chars(h):
    """exhaustive over the characters that are in normal form"""
    import sys
    chars = [c for c in map(chr, range(sys.maxunicode + 1)) if not 0xd800 <= ord(c) < 0xe000 and c.lower() == c and c not in '-:\r\n ']
    for i in range(0, len(chars), 512):
        for sep in ('', '1', 'a'):
            k = 'x' + sep.join(chars[i:i + 512])
            h.ensure('a key of these characters is its own normal form', normalizeKey(k) == k, ascii(k[:20]))
            h.ensure('a key of these characters survives', [dict(b) for b in feed([JuiceBox(**{k: 'v'}).serialize()]).boxes] == [{k: 'v'}], ascii(k[:20]))
