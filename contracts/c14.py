"""C14: password challenge-response (epsilon/ampauth.py)."""
from hashlib import sha1
from pyded.api import contract, search
from epsilon import ampauth
from epsilon.ampauth import PasswordChallengeResponse, PasswordLogin, CredReceiver, _AMPUsernamePassword
from twisted.protocols.amp import IBoxReceiver


def digest(h, challenge, nonce, password):
    """the specification: SHA-1 of the three joined by single spaces"""
    if h.sym:
        return h.sha1(challenge + b' ' + nonce + b' ' + password)
    return sha1(challenge + b' ' + nonce + b' ' + password).digest()


def password(h, name='password'):
    """text or bytes, and the bytes it stands for"""
    if h.choice(name + ' text', 2) == 0:
        p = h.bytes(name)
        return p, p
    p = h.str(name, ['', 'a', 'foo bar baz', '\xe9\u1234', ' a', 'a '])
    return p, p.encode('utf-8')


@contract('C14', 'client response')
def c_client(h):
    if h.sym:
        h.crypto()
    p, pb = password(h)
    challenge = h.bytes('challenge')
    o = h.call(PasswordChallengeResponse.determineFrom, challenge, p)
    h.ensure('determineFrom returns', o.ok, o)
    res = o.value
    h.ensure('exactly the two arguments of the command', sorted(res) == ['cnonce', 'response'])
    h.ensure('the response is the digest of challenge, nonce and password',
             h.eq(res['response'], digest(h, challenge, res['cnonce'], pb)))
    if h.sym:
        h.ensure('the nonce is freshly drawn, 16 random bytes', h.And(len(h.draws) == 1, h.eq(res['cnonce'], h.draws[-1]),
                                                                     h.eq(h.len(h.draws[-1]), 16)))


@contract('C14', 'server check')
def c_server(h):
    if h.sym:
        h.crypto()
    p, pb = password(h)
    user, challenge, nonce = h.bytes('username'), h.bytes('challenge'), h.bytes('nonce')
    right = h.bool('right') if not h.sym else False
    response = digest(h, challenge, nonce, pb) if right else h.bytes('response')
    cred = _AMPUsernamePassword(user, challenge, nonce, response)
    o = h.call(cred.checkPassword, p)
    h.ensure('checkPassword returns', o.ok, o)
    h.ensure('accepted exactly when the response is the digest', h.Iff(o.value, h.eq(response, digest(h, challenge, nonce, pb))), o)


@contract('C14', 'right password is accepted')
def c_roundtrip(h):
    if h.sym:
        h.crypto()
    pb = h.bytes('password') if not h.sym else h.str('password').encode('utf-8')
    if not h.sym:
        pb = h.str('text').encode('utf-8')
    client = pb if h.choice('client', 2) else pb.decode('utf-8')
    server = pb if h.choice('server', 2) else pb.decode('utf-8')
    challenge = h.bytes('challenge')
    o = h.call(PasswordChallengeResponse.determineFrom, challenge, client)
    h.ensure('determineFrom returns', o.ok, o)
    cred = _AMPUsernamePassword(h.bytes('user'), challenge, o.value['cnonce'], o.value['response'])
    a = h.call(cred.checkPassword, server)
    h.ensure('the client response is accepted for the same password', a.ok and a.value, a)


class PortalStub(object):
    def __init__(self, result):
        self.calls = []
        self.result = result

    def login(self, credentials, mind, *interfaces):
        self.calls.append((credentials, mind, interfaces))
        return self.result


class DStub(object):
    def addCallback(self, *a, **k):
        return self
    addCallbacks = addErrback = addBoth = addCallback


@contract('C14', 'challenges')
def c_challenge(h):
    """from any earlier state: a login attempt draws a fresh challenge, and the
    credentials carry exactly the most recent challenge and username"""
    if h.sym:
        h.crypto()
    c = CredReceiver()
    c.portal = PortalStub(DStub())
    if h.choice('earlier attempt', 2):
        c.challenge, c.username = h.bytes('old challenge'), h.bytes('old username')
    u1, u2 = h.bytes('u1'), h.bytes('u2')
    a = h.call(c.passwordLogin, u1)
    h.ensure('passwordLogin returns', a.ok, a)
    if h.choice('two attempts', 2):
        a = h.call(c.passwordLogin, u2)
        h.ensure('second passwordLogin returns', a.ok, a)
        u1 = u2
    ch = a.value['challenge']
    h.ensure('only a challenge is answered', list(a.value) == ['challenge'])
    h.ensure('16 bytes', h.eq(h.len(ch), 16))
    if h.sym:
        h.ensure('freshly drawn at random', len(h.draws) > 0 and h.eq(ch, h.draws[-1]))
    nonce, resp = h.bytes('nonce'), h.bytes('response')
    n = len(h.draws) if h.sym else 0
    o = h.call(c.passwordChallengeResponse, nonce, resp)
    h.ensure('passwordChallengeResponse returns', o.ok, o)
    h.ensure('the portal is asked once', len(c.portal.calls) == 1)
    cred, mind, ifaces = c.portal.calls[0]
    h.ensure('for a box receiver', ifaces == (IBoxReceiver,))
    h.ensure('with the most recent challenge', h.eq(cred.challenge, ch))
    h.ensure('with the username of that attempt', h.eq(cred.username, u1))
    h.ensure('with the nonce and response presented', h.And(h.eq(cred.nonce, nonce), h.eq(cred.response, resp)))
    h.ensure('the challenge is kept', h.And(h.eq(c.challenge, ch), h.eq(c.username, u1)))


@search('C14', 'login over the wire')
def s_wire(h):
    from twisted.cred.portal import Portal
    from twisted.cred.checkers import InMemoryUsernamePasswordDatabaseDontUse
    from twisted.cred.credentials import UsernamePassword
    from twisted.protocols.amp import AMP
    from twisted.internet.testing import StringTransport
    from twisted.cred.error import UnauthorizedLogin
    from epsilon.ampauth import login, CredAMPServerFactory
    r = h.rng
    def pw():
        return r.choice(['', 'a', 'foo bar', 'foo  bar', '\xe9t\xe9', 'a' * 50, ' a', 'A'])
    real, given = pw(), pw()
    if r.random() < .5:
        given = real
    user = r.choice([b'u', b'', b'alice@example.com', b'a b'])
    guser = user if r.random() < .8 else b'mallory'
    h.note('case', (real, given, user, guser))
    class Avatar(object):
        def startReceivingBoxes(self, s):
            self.s = s
        def ampBoxReceived(self, b):
            pass
        def stopReceivingBoxes(self, r):
            pass
    class Realm(object):
        def requestAvatar(self, aid, mind, *i):
            got.append(aid)
            return i[0], Avatar(), lambda: None
    got = []
    checker = InMemoryUsernamePasswordDatabaseDontUse()
    checker.addUser(user, real.encode('utf-8'))
    server = CredAMPServerFactory(Portal(Realm(), [checker])).buildProtocol(None)
    client = AMP()
    st, ct = StringTransport(), StringTransport()
    server.makeConnection(st)
    client.makeConnection(ct)
    def pump():
        for _ in range(20):
            a, b = st.value(), ct.value()
            st.clear(); ct.clear()
            if a:
                client.dataReceived(a)
            if b:
                server.dataReceived(b)
            if not a and not b:
                return
    out = []
    g = given if r.random() < .5 else given.encode('utf-8')
    challenges = []
    for _ in range(r.randint(0, 2)):
        client.callRemote(PasswordLogin, username=b'someone').addCallback(lambda x: challenges.append(x['challenge']))
        pump()
    d = login(client, UsernamePassword(guser, g))
    d.addCallbacks(lambda x: out.append('ok'), lambda f: out.append(f.type))
    pump()
    right = given == real and guser == user
    h.ensure('the right password logs in, any other is refused', out == (['ok'] if right else [UnauthorizedLogin]), out)
    h.ensure('avatar id', got == ([user] if right else []), got)
    h.ensure('challenges are 16 bytes and distinct', len(set(challenges)) == len(challenges) and all(len(c) == 16 for c in challenges))


@search('C14', 'challenges are random and responses exact', once=True)
def s_fresh(h):
    c = CredReceiver()
    chs = [c.passwordLogin(b'u')['challenge'] for _ in range(300)]
    h.ensure('all different', len(set(chs)) == 300)
    h.ensure('16 bytes', all(type(x) is bytes and len(x) == 16 for x in chs))
    cols = [len(set(x[i] for x in chs)) for i in range(16)]
    h.ensure('every byte varies', min(cols) > 20, cols)
    c2 = CredReceiver()
    h.ensure('connections differ', c2.passwordLogin(b'u')['challenge'] not in chs)
    ns = [PasswordChallengeResponse.determineFrom(b'c', b'p')['cnonce'] for _ in range(300)]
    h.ensure('nonces differ', len(set(ns)) == 300)
    for ch in (b'', b'c', b'c ', b' '):
        for n in (b'', b'n', b' n'):
            for p in (b'', b'p', 'p', '\xe9'):
                pb = p if isinstance(p, bytes) else p.encode('utf-8')
                good = sha1(b' '.join([ch, n, pb])).digest()
                h.note('case', (ch, n, p))
                h.ensure('digest accepted', _AMPUsernamePassword(b'u', ch, n, good).checkPassword(p) is True)
                for bad in (b'', good[:-1], good + b'\0', good[:10], bytes([good[0] ^ 1]) + good[1:],
                            good[:-1] + bytes([good[-1] ^ 128]), good[::-1], sha1(ch + n + pb).digest(),
                            sha1(b' '.join([n, ch, pb])).digest() if n != ch else b'x', good.hex().encode()):
                    if bad != good:
                      h.ensure('anything else refused', _AMPUsernamePassword(b'u', ch, n, bad).checkPassword(p) is False, (bad,))
