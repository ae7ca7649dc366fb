"""C17: line framing is independent of how bytes are chunked (epsilon/liner.py)."""
from pyded.api import contract, search
from epsilon.liner import LineReceiver
from contracts.juicing import Transport


class Lines(LineReceiver):
    """forwards what it is delivered to the contract"""
    _pd_opaque_ = False

    def lineReceived(self, line):
        self.spec.line(line)

    def rawDataReceived(self, data):
        self.spec.raw(data)


class Spec(object):
    """What may be delivered next.  The stream is everything received from the
    first byte on; [.., end) has been received when the current chunk has, and
    `at` is how much of it has been delivered.  A line must be stream[at:e]
    where e is the first delimiter at or after `at`; raw data must be all of
    stream[at:end].  This does not mention chunks."""
    _pd_opaque_ = True

    def __init__(self, h, p, t, S, at, end):
        self.h, self.p, self.t, self.S = h, p, t, S
        self.at = h.ghost('delivered', at)
        self.end = end
        self.n = h.len(S.delimiter)

    def is_rest(self, x):
        return span_is(self.h, x, self.at.get(), self.end)

    def next(self):
        return self.h.of_term(self.S.nxt(self.at.get()))

    def line(self, line):
        h, p = self.h, self.p
        h.ensure('lines are delivered only in line mode, while not disconnecting', h.And(p.lineMode, h.Not(self.t.disconnecting)))
        a = self.at.get()
        e = self.next()
        h.ensure('a line is delivered only if it is complete', e + self.n <= self.end)
        h.ensure('it is the next line, without its delimiter', span_is(h, line, a, e))
        self.at.set(e + self.n)
        # the application may do anything a line can cause
        act = h.choice('line causes', ['nothing', 'raw mode', 'raw mode and back'] + ['disconnecting', 'both'] * (p.transport is not None))
        if act == 'disconnecting' or act == 'both':
            self.t.disconnecting = True
        if act == 'raw mode' or act == 'both':
            p.setRawMode()
        if act == 'raw mode and back':
            p.setRawMode()
            p.setLineMode()

    def raw(self, data):
        h, p = self.h, self.p
        h.ensure('raw data is delivered only in raw mode, while not disconnecting', h.And(h.Not(p.lineMode), h.Not(self.t.disconnecting)))
        h.ensure('it is every byte that follows', self.is_rest(data))
        h.ensure('it is not empty', h.len(data) > 0)
        act = h.choice('raw data causes', ['nothing', 'line mode', 'line mode with leftover bytes'] + ['disconnecting', 'all of that'] * (p.transport is not None))
        a = self.at.get()
        self.at.set(self.end)
        if act == 'disconnecting' or act == 'all of that':
            self.t.disconnecting = True
        if act == 'line mode':
            p.setLineMode()
        elif act != 'nothing' and act != 'disconnecting':
            c = h.int('used by the application', 0)
            h.assume(c <= h.len(data))
            self.at.set(a + c)
            p.setLineMode(self.S.span(a + c, self.end))

    def nested(self, p, extra):
        """the contract of dataReceived, for the call inside setLineMode"""
        h = self.h
        h.ensure('(inner call) it continues exactly where delivery stopped', self.is_rest(p.buffer + extra))
        a = self.at.get()
        self.at.set(h.int('delivered inside'))
        h.assume(h.And(self.at.get() >= a, self.at.get() <= self.end))
        gone = h.bool('disconnecting inside') if p.transport is not None else False
        h.assume(h.Implies(self.t.disconnecting, gone))
        self.t.disconnecting = gone
        p.lineMode = h.bool('mode inside')
        x, y = h.int('kept inside from'), h.int('kept inside to')
        h.assume(x <= y)
        p.buffer = self.S.span(x, y)
        h.assume(self.post(p))

    def post(self, p):
        h = self.h
        return h.Or(self.t.disconnecting,
                    h.And(p.lineMode, self.is_rest(p.buffer), self.next() + self.n > self.end),
                    h.And(h.Not(p.lineMode), h.len(p.buffer) == 0, h.eq(self.at.get(), self.end)))


def span_is(h, x, a, b):
    return x.is_(a, b) if hasattr(x, 'is_') else h.And(h.len(x) == 0, h.eq(a, b))


@contract('C17', 'one chunk')
def c_chunk(h):
    chunk(h, True)


@contract('C17', 'one chunk, given without a transport')
def c_bare(h):
    chunk(h, False)


def chunk(h, connected):
    """any stream; any position in it; any remainder kept, any chunk; any mode;
    whatever the application does.  Since this is stated on the whole stream,
    it composes over any sequence of chunks."""
    if not h.sym:
        return s_trial(h)
    p = Lines()
    t = Transport()
    p.transport = t if connected else None
    h.require(p.buffer == b'' and p.lineMode is True)
    if h.choice('delimiter', 2):
        S = h.stream('stream')
        p.delimiter = S.delimiter
    else:
        S = h.stream('stream', p.delimiter)
    a, b, c = h.int('delivered before', 0), h.int('received before'), h.int('received now')
    h.assume(h.And(a <= b, b <= c))
    p.buffer = S.span(a, b)
    p.lineMode = h.bool('line mode')
    t.disconnecting = h.bool('disconnecting') if connected else False
    data = S.span(b, c)
    s = p.spec = Spec(h, p, t, S, a, c)
    real = LineReceiver.__dict__['dataReceived']
    first = [True]

    def received(self, chunk):
        if first[0]:
            first[0] = False
            return real.__call__(self, chunk)
        return s.nested(self, chunk)
    h.summary(LineReceiver.dataReceived, received)
    h.root(p, t)

    def inv(ctx):
        at = s.at.get()
        out = [('delivered so far', h.And(at >= a, at <= c))]
        texts = sorted((n, x) for n, x in ctx.locals.items() if isinstance(x, bytes) and hasattr(x, 'is_'))
        texts.append(('self.buffer', p.buffer))
        ints = sorted((n, x) for n, x in ctx.locals.items() if isinstance(x, int) and not isinstance(x, bool))
        for n, x in texts:
            out.append((n + ' is what remains', s.is_rest(x)))
            out.append((n + ' is the whole', span_is(h, x, a, c)))
        for m, i in ints:
            out.append((m + ' is what was delivered', h.eq(i, at - a)))
            out.append((m + ' is not negative', i >= 0))
            for n, x in texts:
                if hasattr(x, 'is_'):
                    out.append(('%s from %s is what remains' % (n, m), h.And(i >= 0, i <= h.len(x), S.span(h.of_term(x.a) + i, h.of_term(x.b)).is_(at, c))))
        return out
    h.invariant(inv)
    o = h.call(LineReceiver.dataReceived, p, data)
    h.ensure('received', o.ok, o)
    if t.disconnecting:
        return
    if p.lineMode:
        h.ensure('the unterminated remainder is kept', s.is_rest(p.buffer))
        h.ensure('every complete line was delivered', s.next() + s.n > c)
    else:
        h.ensure('in raw mode everything was delivered', h.And(h.len(p.buffer) == 0, h.eq(s.at.get(), c)))


# ------------------------------------------------------------------ concrete
class App(LineReceiver):
    """a scripted application: what the n-th delivery causes"""

    def __init__(self, script, t):
        self.script, self.got = script, []
        self.transport = t

    def _act(self, kind, data):
        act = self.script(len(self.events()), kind, data)
        self.got.append((kind, data))
        if act == 'raw':
            self.setRawMode()
        elif act == 'lose':
            self.transport.disconnecting = True
        elif act == 'rawlose':
            self.transport.disconnecting = True
            self.setRawMode()
        elif isinstance(act, tuple):
            keep, what = act
            # the application consumes `keep` raw bytes, then goes back to line mode
            if self.need is None:
                self.need = keep
            take = min(self.need, len(data))
            self.got[-1] = (kind, data[:take])
            self.need -= take
            if self.need == 0:
                self.need = None
                if what == 'lose':
                    self.transport.disconnecting = True
                self.setLineMode(data[take:])
    need = None

    def events(self):
        # chunk-independent event count: raw data counts once per stretch
        out = []
        for k, d in self.got:
            if k == 'raw' and out and out[-1] == 'raw':
                continue
            out.append(k)
        return out

    def lineReceived(self, line):
        self._act('line', line)

    def rawDataReceived(self, data):
        self._act('raw', data)


def reference(stream, delim, acts):
    """what must be delivered, computed on the whole stream"""
    out = []
    pos = 0
    lines = 0
    stretches = 0
    while True:
        i = stream.find(delim, pos)
        if i < 0:
            return out, stream[pos:], 'line'
        out.append(('line', stream[pos:i]))
        pos = i + len(delim)
        act = acts['line'].get(lines)
        lines += 1
        if act in ('lose', 'rawlose'):
            return out, None, 'lost'
        if act == 'raw':
            keep, what = acts['raw'].get(stretches, (None, None))
            stretches += 1
            if keep is None or keep > len(stream) - pos:
                out.append(('raw', stream[pos:]))
                return out, b'', 'raw'
            if keep == 0 and pos == len(stream):
                # raw mode with nothing to deliver yet
                return out, b'', 'raw'
            out.append(('raw', stream[pos:pos + keep]))
            pos += keep
            if what == 'lose':
                return out, None, 'lost'


def flat(got):
    out = []
    for k, d in got:
        if k == 'raw':
            if d and out and out[-1][0] == 'raw':
                out[-1] = ('raw', out[-1][1] + d)
            elif d:
                out.append((k, d))
        else:
            out.append((k, d))
    return out


def s_trial(h):
    r = h.rng
    delim = r.choice([b'\r\n', b'\r\n', b'\r\n', b'\n', b'ab', b'aa', b'aab'])
    n = r.randint(0, 14)
    stream = bytes(r.choice(b'\r\nab' if r.random() < .7 else b'xy\r\n') for _ in range(n))
    if r.random() < .5:
        stream = delim.join(bytes(r.choice(b'ax\r') for _ in range(r.randint(0, 3))) for _ in range(r.randint(1, 5))) + stream
    acts = {'line': {}, 'raw': {}}
    for i in range(5):
        if r.random() < .25:
            acts['line'][i] = r.choice(['raw', 'raw', 'raw', 'lose', 'rawlose'])
        if r.random() < .7:
            acts['raw'][i] = (r.randint(1, 5), r.choice([None, None, None, 'lose']))
    cuts = sorted(r.randint(0, len(stream)) for _ in range(r.randint(0, 5)))
    if r.random() < .2:
        cuts = list(range(len(stream)))
    chunks = [stream[a:b] for a, b in zip([0] + cuts, cuts + [len(stream)])]
    h.inputs.update(chunks=chunks, acts=acts, delimiter=delim)

    class T(object):
        disconnecting = False
    t = T()
    counts = {'line': 0, 'raw': 0}
    state = {'stretch': -1, 'in': False}

    def script(i, kind, data):
        if kind == 'line':
            state['in'] = False
            c = counts['line']
            counts['line'] += 1
            return acts['line'].get(c)
        if not state['in']:
            state['in'] = True
            state['stretch'] += 1
        # a new stretch starts when the previous one was finished
        a = acts['raw'].get(state['stretch'])
        return a
    app = App(script, t)
    if 'lose' not in repr(acts) and r.random() < .3:
        app.transport = None
    app.delimiter = delim
    lost_at = None
    for c in chunks:
        o = h.call(app.dataReceived, c)
        h.ensure('received', o.ok, (o,))
    want, rest, mode = reference(stream, delim, acts)
    got = flat(app.got)
    h.ensure('exactly the lines and raw bytes of the stream', got == flat(want), (got, flat(want)))
    if mode == 'line':
        h.ensure('exactly the remainder is kept', app.buffer == rest and app.lineMode, (app.buffer, rest))
    elif mode == 'raw':
        h.ensure('raw mode keeps nothing back', app.buffer == b'' and not app.lineMode, app.buffer)
    n = len(app.got)
    if t.disconnecting:
        h.call(app.dataReceived, r.choice([delim, b'x' + delim + b'y', b'z']))
        h.ensure('nothing is delivered once disconnecting', len(app.got) == n, app.got)


@search('C17', 'chunkings')
def s_h(h):
    s_trial(h)


@search('C17', 'disconnecting from outside')
def s_out(h):
    r = h.rng

    class T(object):
        disconnecting = False
    t = T()
    app = App(lambda *a: None, t)
    if r.random() < .5:
        app.setRawMode()
    app.dataReceived(r.choice([b'', b'a', b'a\r\nb', b'\r']))
    n = len(app.got)
    t.disconnecting = True
    for c in (r.choice([b'\n', b'\r\n', b'x\r\ny\r\n', b'x', b'']), b'z\r\n'):
        h.call(app.dataReceived, c)
    h.ensure('nothing is delivered once disconnecting', len(app.got) == n, app.got)
