"""C21: juice never writes to a locked stream and keeps TLS buffering in order (epsilon/juice.py)."""
from twisted.internet.defer import Deferred
from twisted.internet.ssl import Certificate
from twisted.python.failure import Failure
from pyded.api import contract, search, Odd
from epsilon import juice
from epsilon.juice import (Juice, JuiceBox, TLSBox, DispatchMixin, JuiceParserBase, ProtocolSwitchCommand, RemoteJuiceError,
                           ASK, ANSWER, ERROR, COMMAND, ERROR_CODE, ERROR_DESCRIPTION)
from contracts.juicing import Transport, Wire, connected, parse1


class Inner(Odd):
    """the protocol switched to"""

    def __init__(self):
        self.made = []
        self.data = []
        self.lost = []

    def makeConnection(self, t):
        self.made.append(t)

    def dataReceived(self, data):
        self.data.append(data)

    def connectionLost(self, why):
        self.lost.append(why)


class Cert(Odd):
    _pd_ok_ = True

    def options(self, *a):
        return ('options', self) + a


@contract('C21', 'a locked connection writes nothing')
def c_locked(h):
    if not h.sym:
        return s_trial(h)
    h.quiet()
    wire = Wire(h)
    p, t = connected()
    h.require(hasattr(p, '_lock') and p._startingTLSBuffer is None)
    tls = h.choice('TLS is being prepared', 2)
    if tls:
        p.prepareTLS()
    p._lock()
    box = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    calls = []

    def dispatch(self, proto, cmd, b, namespace=None):
        calls.append(b)
        return Deferred()
    h.summary(DispatchMixin.dispatchCommand, dispatch)
    how = h.choice('how', ['packet', 'box', 'command', 'receive'])
    if how == 'packet':
        o = h.call(p.sendPacket, box)
        h.ensure('sending is refused', not o.ok, o)
    elif how == 'box':
        o = h.call(JuiceBox.sendTo, box, p)
        h.ensure('sending is refused', not o.ok, o)
    elif how == 'command':
        o = h.call(p.sendBoxCommand, h.str('command'), box, h.bool('asks'))
        h.ensure('sending is refused', not o.ok, o)
    else:
        h.assume(h.And(COMMAND in b0, h.Not(ANSWER in b0), h.Not(ERROR in b0)))
        asks = h.bool('asks')
        h.assume(h.Iff(asks, ASK in b0))
        asks = bool(asks)
        o = h.call(p.juiceBoxReceived, box)
        h.ensure('received', o.ok, o)
        h.ensure('a command is run exactly if it wants no answer', (calls == []) == asks and len(calls) <= 1)
    h.ensure('nothing is written', t.log == [])


@contract('C21', 'switching')
def c_switch(h):
    """any received bytes before and after; switched once"""
    if not h.sym:
        return s_trial(h)
    h.quiet()
    p, t = connected()
    h.require(hasattr(p, '_switchTo') and p.buffer == b'')
    first, second = Inner(), Inner()
    fac = object() if h.choice('with a factory', 2) else None
    # the bytes the line receiver may have kept do not matter: a switch takes place while a line or body is being delivered
    o = h.call(p._switchTo, first, fac)
    h.ensure('switched', o.ok, o)
    h.ensure('the new protocol is connected once, to the transport', len(first.made) == 1 and first.made[0] is t)
    d1, d2 = h.bytes('first bytes'), h.bytes('next bytes')
    o = h.call(p.dataReceived, d1)
    h.ensure('received', o.ok, o)
    again = h.choice('switch again', 2)
    if again:
        o = h.call(p._switchTo, second)
        h.ensure('a second switch is refused', not o.ok, o)
    o = h.call(p.dataReceived, d2)
    h.ensure('received too', o.ok, o)
    got = b''
    for d in first.data:
        got = got + d
    h.ensure('all bytes go to the new protocol, in order', h.eq(got, d1 + d2))
    h.ensure('which stays the one', second.made == [] and second.data == [] and len(first.made) == 1)
    h.ensure('nothing is written', t.written == [])


@contract('C21', 'switching while a box is delivered')
def c_switch_box(h):
    """the box that makes the connection switch has or has not a body; any bytes follow it"""
    if not h.sym:
        return s_trial(h)
    h.quiet()
    p, t = connected()
    h.require(hasattr(p, '_switchTo') and hasattr(p, '_requestBuffer'))
    inner = Inner()
    seen = []

    def received(self, box):
        seen.append(box)
        self._switchTo(inner)
    h.summary(Juice.juiceBoxReceived, received)
    rest = h.bytes('following bytes')
    body = h.choice('with a body', 2)
    if body:
        p.dataReceived(b'-Command: x\r\n-Length: 4\r\n')
        o = h.call(p.dataReceived, b'\r\nbody' + rest)
    else:
        p.dataReceived(b'-Command: x\r\n')
        o = h.call(p.dataReceived, b'\r\n' + rest)
    h.ensure('received', o.ok, o)
    h.ensure('the box is delivered once', len(seen) == 1)
    h.ensure('the new protocol is connected once', len(inner.made) == 1 and inner.made[0] is t)
    more = h.bytes('more bytes')
    o = h.call(p.dataReceived, more)
    h.ensure('received too', o.ok, o)
    got = b''
    for d in inner.data:
        got = got + d
    h.ensure('every following byte goes to the new protocol, in order', h.eq(got, rest + more))
    h.ensure('the box has its body', (seen[0].get('body') == 'body') == bool(body))


@contract('C21', 'withholding')
def c_withhold(h):
    """a box sent while TLS is being prepared joins the end of the withheld ones, unwritten"""
    if not h.sym:
        return s_trial(h)
    h.quiet()
    p, t = connected()
    h.require(p._startingTLSBuffer is None)
    o = h.call(p.prepareTLS)
    h.ensure('prepared', o.ok and isinstance(p._startingTLSBuffer, list) and len(p._startingTLSBuffer) == 0, o)
    B = h.obj_class('Box', n='int')
    p._startingTLSBuffer = h.list('withheld', B.kind)
    old = h.copy(p._startingTLSBuffer)
    b = B.some('box')
    o = h.call(p.sendPacket, b)
    new = p._startingTLSBuffer
    h.ensure('accepted', o.ok, o)
    h.ensure('nothing is written', t.log == [])
    h.ensure('it is withheld, last', h.And(h.len(new) == h.len(old) + 1, h.same(h.at(new, h.len(old)), b)))
    h.ensure('the others keep their places', h.forall_int(0, h.len(old), lambda i: h.same(h.at(new, i), h.at(old, i))))
    o = h.call(p.prepareTLS)
    again = p._startingTLSBuffer
    h.ensure('preparing again is harmless', o.ok and t.log == [], o)
    h.ensure('and loses no withheld box', h.And(h.eq(h.len(again), h.len(new)), h.forall_int(0, h.len(new), lambda i: h.same(h.at(again, i), h.at(new, i)))))


@contract('C21', 'starting TLS')
def c_tls(h):
    """any number of withheld boxes"""
    if not h.sym:
        return s_trial(h)
    h.quiet()
    p, t = connected()
    h.require(p._startingTLSBuffer is None and p.hostCertificate is None)
    prepared = h.choice('prepared', 2)
    B = h.obj_class('Box', n='int')
    ser = h.func('serialized', B.kind, 'bytes')
    B.method('serialize', lambda b: ser(b))
    if prepared:
        p._startingTLSBuffer = h.list('withheld', B.kind)
        boxes = h.copy(p._startingTLSBuffer)
        n = h.len(boxes)
    else:
        n = 0
        boxes = []
    t.written = h.list('written', 'bytes')
    w0 = h.copy(t.written)
    n0 = h.len(w0)
    bad = h.ghost('early', False)

    def write(data):
        bad.set(h.Or(bad.get(), len(t.tls) != 1))
        t.written.append(data)
    t.write = write
    h.root(t)
    cert = Cert()
    auth = h.choice('authorities', 2)

    def inv(ctx):
        w = t.written
        return [('the first i are written, after the rest', h.len(w) == n0 + ctx.i),
                ('in order', h.forall_int(0, ctx.i, lambda j: h.eq(h.at(w, n0 + j), ser(h.at(boxes, j))))),
                ('what was written stays', h.forall_int(0, n0, lambda j: h.eq(h.at(w, j), h.at(w0, j)))),
                ('TLS is started', h.And(len(t.tls) == 1, h.Not(bad.get())))]
    h.invariant(inv)
    o = h.call(p.startTLS, cert, *(['authority'] if auth else []))
    h.ensure('started', o.ok, o)
    h.ensure('TLS is started once, with that certificate', len(t.tls) == 1 and t.tls[0] == ('options', cert) + (('authority',) if auth else ()))
    h.ensure('nothing is written before TLS is started', h.Not(bad.get()))
    w = t.written
    h.ensure('every withheld box is written exactly once, in order', h.And(
        h.len(w) == n0 + n, h.forall_int(0, n, lambda j: h.eq(h.at(w, n0 + j), ser(h.at(boxes, j))))))
    h.ensure('nothing is withheld any more', p._startingTLSBuffer is None)
    b = B.some('next box')
    o = h.call(p.sendPacket, b)
    h.ensure('boxes are written again', h.And(o.ok, h.len(t.written) == n0 + n + 1, h.eq(h.at(t.written, n0 + n), ser(b))))
    if h.choice('bytes arrive', 2):
        h.call(p.dataReceived, b'X')
        h.call(p.dataReceived, b': y')
    o = h.call(p.startTLS, Cert())
    h.ensure('starting again is refused', not o.ok, o)
    h.ensure('and changes nothing', h.And(len(t.tls) == 1, h.len(t.written) == n0 + n + 1, p.hostCertificate is cert))


@contract('C21', 'asking for a switch')
def c_do(h):
    """ProtocolSwitchCommand: sent, then locked; switched on the answer, given up on an error"""
    if not h.sym:
        return s_trial(h)
    h.quiet()
    wire = Wire(h)
    p, t = connected(False)
    inner = Inner()
    log = []

    class Fac(Odd):
        _pd_ok_ = True

        def buildProtocol(self, addr):
            log.append('build')
            return inner

        def clientConnectionFailed(self, c, why):
            log.append('failed')

        def clientConnectionLost(self, c, why):
            log.append('lost')
    o = h.call(lambda: ProtocolSwitchCommand(Fac()).do(p))
    h.ensure('asked', o.ok, o)
    sent = wire.sent(t)
    h.ensure('one box is written', len(sent) == 1 and sent[0] is not None)
    out = []
    o.value.addBoth(out.append)
    o2 = h.call(p.sendPacket, h.dict('box', 'str', 'str', cls=JuiceBox))
    h.ensure('then the connection is locked', not o2.ok and len(t.written) == 1)
    tag = sent[0][ASK]
    how = h.choice('how', ['answer', 'error', 'lost'])
    if how == 'answer':
        o3 = h.call(p.juiceBoxReceived, JuiceBox(**{ANSWER: tag}))
        h.ensure('switched on the answer', o3.ok and inner.made == [t] and log == ['build'])
        d = h.bytes('data')
        h.call(p.dataReceived, d)
        h.ensure('received bytes go to the new protocol', h.eq(b''.join(inner.data), d))
    elif how == 'error':
        o3 = h.call(p.juiceBoxReceived, JuiceBox(**{ERROR: tag, ERROR_CODE: 'c', ERROR_DESCRIPTION: 'd'}))
        h.ensure('given up on an error', o3.ok and inner.made == [] and log == ['failed'] and t.lost == 1)
    else:
        o3 = h.call(p.connectionLost, Failure(RuntimeError()))
        h.ensure('given up on connection loss', o3.ok and inner.made == [] and log == ['failed'])
    h.ensure('exactly one outcome', len(out) == 1)
    h.ensure('nothing more is written', len(t.written) == 1)


# ------------------------------------------------------------------ concrete
def s_trial(h):
    r = h.rng
    r.choice([s_tls, s_lock, s_bytes])(h)


def s_tls(h):
    """sends, prepareTLS and startTLS in any order"""
    r = h.rng
    ops = []
    h.inputs['ops'] = ops
    p, t = connected(r.random() < .5)
    t.getPeerCertificate = lambda: None
    t.getPeer = lambda: 'p'
    n = 0
    want, held, started, prepared = [], [], False, False
    for _ in range(r.randint(2, 10)):
        op = r.choice(['send', 'send', 'send', 'prepare', 'start', 'tlsbox', 'data'])
        ops.append(op)
        if op == 'send':
            b = JuiceBox(n=str(n))
            n += 1
            b.sendTo(p)
            (held if prepared else want).append(b.serialize())
        elif op == 'data':
            h.call(p.dataReceived, b'x')
        elif op == 'prepare' and not started:
            p.prepareTLS()
            prepared = True
        elif op == 'start':
            c = Cert()
            o = h.call(p.startTLS, c)
            if started:
                h.ensure('starting twice is refused', not o.ok, ops)
            else:
                h.ensure('started', o.ok, (o, ops))
                started = True
                prepared = False
                want.append(('tls', ('options', c)))
                want += held
                held = []
        elif op == 'tlsbox' and not started and not prepared:
            c = Cert()
            done = []
            b = TLSBox(c, None, lambda: done.append(len(t.log)), n=str(n))
            n += 1
            b.sendTo(p)
            want += [b.serialize(), ('tls', ('options', c))]
            started = True
            h.ensure('told once TLS is started', done == [len(t.log)])
        h.ensure('written in order, around the start of TLS', [x if x[0] == 'tls' else x[1] for x in t.log] == want, (t.log, want, ops))


def s_lock(h):
    """a locked connection, real responders"""
    r = h.rng
    ran = []

    class P(Juice):
        def juice_GO(self, box):
            ran.append(box)
            return JuiceBox()
    p, t = connected(True, P)
    h.inputs['asks'] = asks = r.random() < .5
    d = None
    if r.random() < .5:
        d = p.sendBoxCommand('x', JuiceBox())
    n = len(t.written)
    p._lock()
    o = h.call(p.dataReceived, b'-Command: go\r\n' + (b'-Ask: 1\r\n' if asks else b'') + b'\r\n')
    h.ensure('received', o.ok, o)
    h.ensure('run exactly if no answer is wanted', len(ran) == (0 if asks else 1))
    o = h.call(p.sendCommand, 'y')
    h.ensure('sending is refused', not o.ok)
    h.ensure('nothing is written', len(t.written) == n)
    if d is not None:
        out = []
        d.addBoth(out.append)
        p.dataReceived(b'-Answer: 1\r\n\r\n')
        h.ensure('answers still arrive', len(out) == 1 and isinstance(out[0], JuiceBox))
    for q in (p._outstandingRequests or {}).values():
        q.addErrback(lambda f: None)


class SwitchTo(ProtocolSwitchCommand):
    commandName = 'SwitchTo'
    arguments = [('body', juice.String(optional=True))]


def s_bytes(h):
    """a peer asks to switch, with or without a body, any chunking; all later bytes go to the new protocol"""
    r = h.rng
    inner = Inner()

    class P(Juice):
        def command_SWITCHTO(self, body=None):
            return inner
        command_SWITCHTO.command = SwitchTo
    p, t = connected(True, P)
    body = r.choice([None, 'b', 'body\r\n\r\n'])
    box = JuiceBox(_command='SwitchTo', _ask='7')
    if body:
        box['body'] = body
    rest = bytes(r.choice(b'a\r\n: -') for _ in range(r.randint(0, 9)))
    data = box.serialize() + rest
    cuts = sorted(r.randint(0, len(data)) for _ in range(r.randint(0, 4)))
    chunks = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
    h.inputs['chunks'] = chunks
    for c in chunks:
        o = h.call(p.dataReceived, c)
        h.ensure('received', o.ok, (o, chunks))
    h.ensure('one answer', len(t.written) == 1 and parse1(t.written[0]) == [{'_answer': '7'}], t.written)
    h.ensure('connected once', inner.made == [t], inner.made)
    h.ensure('all later bytes, in order', b''.join(inner.data) == rest, (inner.data, rest))
    other = Inner()
    o = h.call(p._switchTo, other)
    h.ensure('a second switch is refused', not o.ok and other.made == [])
    why = Failure(RuntimeError())
    p.connectionLost(why)
    h.ensure('the new protocol hears of the loss', inner.lost == [why])


@search('C21', 'TLS')
def s_h1(h):
    s_tls(h)


@search('C21', 'locking')
def s_h2(h):
    s_lock(h)


@search('C21', 'switching')
def s_h3(h):
    s_bytes(h)
