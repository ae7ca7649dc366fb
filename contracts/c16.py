"""C16: every avatar logged in over a connection is logged out exactly once (CredReceiver, epsilon/ampauth.py)."""
from twisted.internet.defer import Deferred, succeed, fail
from twisted.internet.error import ConnectionDone
from twisted.internet.testing import StringTransport
from twisted.cred.error import UnauthorizedLogin
from twisted.python.failure import Failure
from twisted.protocols.amp import IBoxReceiver
from pyded.api import contract, search, Odd
from epsilon.ampauth import CredReceiver


class Avatar(Odd):
    def __init__(self, log, onstart=None):
        self.log = log
        self.onstart = onstart

    def startReceivingBoxes(self, sender):
        self.log.append(('start', sender))
        if self.onstart:
            self.onstart()

    def ampBoxReceived(self, box):
        self.log.append(('box', box))

    def stopReceivingBoxes(self, reason):
        self.log.append(('stop', reason))


class Portal(Odd):
    def __init__(self, d):
        self.d = d
        self.calls = 0

    def login(self, credentials, mind, *interfaces):
        self.calls += 1
        return self.d


class Logout(Odd):
    _pd_ok_ = True

    def __init__(self, calls):
        self.calls = calls

    def __call__(self):
        self.calls.append(1)


def lifecycle(h):
    """one login on one connection: every order of the portal's answer and the
    loss of the connection (the answers are opaque values)"""
    log = []
    logouts = []
    d = Deferred()
    c = CredReceiver()
    c.portal = Portal(d)
    t = StringTransport()
    c.makeConnection(t)
    before = c.boxReceiver
    accepted = h.choice('accepted', 2) == 1
    when = h.choice('answer', ['at once', 'before the loss', 'after the loss', 'while the avatar starts'])
    lost = [False]

    def lose():
        lost[0] = True
        c.connectionLost(Failure(ConnectionDone()))
    avatar = Avatar(log, lose if when == 'while the avatar starts' else None)
    logout = Logout(logouts)

    def answer():
        if accepted:
            d.callback((IBoxReceiver, avatar, logout))
        else:
            d.errback(Failure(UnauthorizedLogin()))
    if when == 'at once':
        answer()
    which = h.choice('kind', ['otp', 'password'])
    if which == 'otp':
        o = h.call(c.otpLogin, h.bytes('pad'))
    else:
        c.passwordLogin(b'u')
        o = h.call(c.passwordChallengeResponse, h.bytes('nonce'), h.bytes('response'))
    h.ensure('the responder returns', o.ok, o)
    res = []
    o.value.addCallbacks(lambda r: res.append(('ok', r)), lambda f: res.append(('err', f.type)))
    if when != 'at once':
        h.ensure('nothing is started or logged out before the answer', h.And(log == [], logouts == [], c.boxReceiver is before))
    if when in ('before the loss', 'while the avatar starts'):
        answer()
    if when != 'after the loss':
        if accepted:
            h.ensure('the avatar is started once, with the connection itself as sender',
                     [x for x in log if x[0] == 'start'] == [('start', c.boxSender)] and c.boxSender is c)
            h.ensure('the login command is answered', res == [('ok', {})])
            if not lost[0]:
                h.ensure('boxes go to the avatar', c.boxReceiver is avatar)
        else:
            h.ensure('a refused login starts nothing and keeps the connection unauthenticated',
                     log == [] and c.boxReceiver is before and c.logout is None)
            h.ensure('the refusal is reported', res == [('err', UnauthorizedLogin)])
        if not lost[0]:
            h.ensure('no logout before the connection is lost', logouts == [])
    if not lost[0]:
        e = h.call(c.connectionLost, Failure(ConnectionDone()))
        h.ensure('connectionLost returns', e.ok, e)
    if when == 'after the loss':
        h.ensure('no logout when no login succeeded', logouts == [])
        answer()
        h.ensure('a late avatar is not started', [x for x in log if x[0] == 'start'] == [])
    h.ensure('logged out exactly once if and only if a login succeeded', logouts == ([1] if accepted else []), (logouts,))
    return log


@contract('C16', 'login lifecycle')
def c_life(h):
    lifecycle(h)


@contract('C16', 'arbitrary logged-in state')
def c_state(h):
    """from any state in which a logout is held, losing the connection calls it once and forgets it"""
    c = CredReceiver()
    c.makeConnection(StringTransport())
    calls = []
    have = h.choice('logged in', 2)
    if have:
        c.logout = Logout(calls)
        c.boxReceiver = Avatar([])
    e = h.call(c.connectionLost, Failure(ConnectionDone()))
    h.ensure('connectionLost returns', e.ok, e)
    h.ensure('logout called exactly when logged in', calls == ([1] if have else []))
    h.ensure('logged out state', c.logout is None)


@search('C16', 'whole connection over the wire')
def s_wire(h):
    from twisted.cred.portal import Portal as RealPortal
    from twisted.protocols.amp import AMP, Command, String
    from epsilon.ampauth import CredAMPServerFactory, OneTimePadChecker, OTPLogin
    r = h.rng
    log, logouts, pend = [], [], []
    late = r.random() < .4
    class Realm(object):
        def requestAvatar(self, aid, mind, *i):
            k = len(logouts)
            logouts.append(0)
            def out():
                logouts[k] += 1
            a = (i[0], Avatar(log), out)
            if late:
                d = Deferred()
                pend.append((d, a))
                return d
            return a
    pads = {b'good': 'u'}
    server = CredAMPServerFactory(RealPortal(Realm(), [OneTimePadChecker(pads)])).buildProtocol(None)
    client = AMP()
    st, ct = StringTransport(), StringTransport()
    server.makeConnection(st)
    client.makeConnection(ct)
    def pump():
        for _ in range(20):
            a, b = st.value(), ct.value()
            st.clear(); ct.clear()
            if a:
                client.dataReceived(a)
            if b:
                server.dataReceived(b)
            if not a and not b:
                return
    lost = False
    ops = []
    for _ in range(r.randint(1, 6)):
        op = r.choice(['bad', 'good', 'fire', 'lose', 'box'])
        ops.append(op)
        h.note('ops', ops)
        if op == 'bad' and not lost:
            client.callRemote(OTPLogin, pad=b'nope').addErrback(lambda f: None)
            pump()
        elif op == 'good' and not lost:
            client.callRemote(OTPLogin, pad=b'good').addErrback(lambda f: None)
            pump()
        elif op == 'fire' and pend:
            d, a = pend.pop()
            d.callback(a)
            if not lost:
                pump()
        elif op == 'lose' and not lost:
            lost = True
            server.connectionLost(Failure(ConnectionDone()))
            if logouts and not pend:
                h.ensure('logged out on loss', logouts == [1], (logouts,))
        if not lost:
            h.ensure('no logout while connected', sum(logouts) == 0)
    if not lost:
        server.connectionLost(Failure(ConnectionDone()))
    for d, a in pend:
        d.callback(a)
    h.ensure('every avatar logged out exactly once', all(x == 1 for x in logouts), (logouts,))
    for x in log:
        if x[0] == 'start':
            h.ensure('started with the connection', x[1] is server)
