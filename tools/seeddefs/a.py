seed('view-clamped-getitem', 'C01', 'epsilon/view.py', [
("        return self.sequence[self._getIndices()[index]]",
"""        start, stop, step = self.bounds.indices(len(self.sequence))
        if index < 0:
            return self.sequence[self._getIndices()[index]]
        position = start + index * step
        if step > 0 and position < stop or step < 0 and position >= stop:
            return self.sequence[position]
        raise IndexError(index)""")],
 'a view with a negative step, indexed one past its end (position == stop)',
 'view[len(view)] of a reversed view returns an element instead of raising IndexError',
'''
from epsilon.view import SlicedView
v = SlicedView(list(range(10)), slice(8, 2, -2))
assert [v[i] for i in range(3)] == [8, 6, 4] and len(v) == 3
try:
    x = v[3]
except IndexError:
    pass
else:
    raise AssertionError("v[3] gave %r" % (x,))
''')

seed('view-cached-indices', 'C01', 'epsilon/view.py', [
("""        start, stop, step = self.bounds.indices(len(self.sequence))
        indices = six.moves.range(start, stop, step)
        return indices""",
"""        indices = self.__dict__.get('_indices')
        if indices is None:
            start, stop, step = self.bounds.indices(len(self.sequence))
            indices = six.moves.range(start, stop, step)
            if (self.bounds.start or 0) >= 0 and (self.bounds.stop or -1) >= 0:
                # neither end depends on the length of the sequence
                self._indices = indices
        return indices""")],
 'a view with explicit non-negative bounds, used once before the underlying sequence grows into its bounds (or shrinks)',
 'the view no longer reflects the underlying sequence at the time of access',
"""
from epsilon.view import SlicedView
xs = [0, 1, 2, 3]
v = SlicedView(xs, slice(1, 6))
assert list(v) == [1, 2, 3]
xs.extend([4, 5, 6])
assert len(v) == 5, len(v)
assert list(v) == [1, 2, 3, 4, 5], list(v)
""")

seed('record-default-none', 'C02', 'epsilon/structlike.py', [
("""            if n not in kw:
                kw[n] = v

        for n""", """            if kw.get(n) is None:
                kw[n] = v

        for n""")],
 'an explicit None passed for an attribute that has a default',
 'an explicitly passed None is replaced by the default',
'''
from epsilon.structlike import record
R = record('a b c', b=5, c=6)
assert R(1).b == 5
assert R(1, None).b is None
assert R(1, c=None).c is None
''')

seed('record-gap-default', 'C02', 'epsilon/structlike.py', [
("""        if defaults:
            if default""", """        if defaults and defaults[-1]:
            if default""")],
 'a declaration whose default before the gap is a false value',
 'a declaration with a gap in its defaults is accepted when the earlier default is false',
'''
from epsilon.structlike import record
try:
    record('a b c', a=1, c=2)
except TypeError:
    pass
else:
    raise AssertionError
try:
    R = record('a b', a=0)
except TypeError:
    pass
else:
    raise AssertionError("accepted")
''')

seed('repr-residue', 'C03', 'epsilon/structlike.py', [
("""            try:
                self.active[ID] = stuff
                return thunk(stuff)
            finally:
                del self.active[ID]""",
"""            self.active[ID] = stuff
            result = thunk(stuff)
            del self.active[ID]
            return result""")],
 'an attribute repr that raises inside an outer repr which survives it and shows the object again',
 'an object stays marked as in progress after its repr failed',
'''
from epsilon.structlike import record
class Flaky(object):
    bad = True
    def __repr__(self):
        if self.bad:
            raise ValueError("no")
        return "fine"
f = Flaky()
Inner = record('x')
inner = Inner(f)
class Tolerant(object):
    def __repr__(self):
        try:
            return repr(inner)
        except ValueError:
            f.bad = False
            return repr(inner)
Outer = record('t')
s = repr(Outer(Tolerant()))
assert 'x=fine' in s, s
''')

seed('caseless-hash-cased', 'C05', 'epsilon/caseless.py', [
("        return hash(self.lower())", "        return hash(self.cased.upper())")],
 'a pair of texts whose lower-cased forms are equal but whose upper-cased forms are not',
 'equal values hash differently',
'''
from epsilon.caseless import Caseless
a, b = Caseless(u'\\u03f4'), Caseless(u'\\u0398')
for x in (u'\\u03f4', u'\\u1e9e', u'\\u2126', u'\\u212a', u'\\u212b', u'\\u0130'):
    a, b = Caseless(x), Caseless(x.lower())
    if a == b:
        assert hash(a) == hash(b), (x,)
''')

seed('remember-shared-slot', 'C06', 'epsilon/remember.py', [
("""        remembername = "_remembered_" + self.creationFunction.__name__
""", """        remembername = "_remembered_" + self.creationFunction.__name__.strip('_')
""")],
 'two remembered attributes of one class whose names differ in leading underscores only',
 'the second attribute gives the value of the first',
'''
from epsilon.remember import remembered
class A(object):
    @remembered
    def _items(self):
        return [1]
    @remembered
    def items(self):
        return [2]
a = A()
assert a._items == [1]
assert a.items == [2], a.items
assert a._items is a._items and a._items == [1]
''')

seed('pending-live-list', 'C08', 'epsilon/pending.py', [
("""    def callback(self, result):
        l = self.listeners
        self.listeners = []
        for d in l:
            d.callback(result)""",
"""    def callback(self, result):
        for d in self.listeners:
            d.callback(result)
        self.listeners = []""")],
 'a waiter whose callback asks for another Deferred while the event is firing',
 'a Deferred handed out during a firing is fired by it',
'''
from epsilon.pending import PendingEvent
p = PendingEvent()
got = []
def again(r):
    p.deferred().addCallback(got.append)
p.deferred().addCallback(again)
p.callback(1)
assert got == [], got
p.callback(2)
assert got == [2], got
''')


seed('react-late-trigger', 'C09', 'epsilon/react.py', [
("""    reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
    finished = main(reactor, *argv)
""", """    finished = main(reactor, *argv)
    reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
""")],
 'main registers its own before-shutdown trigger which makes its Deferred fire, and somebody else stops the reactor',
 'the reactor is asked to stop although it is already shutting down',
"""
from twisted.internet.defer import Deferred
from epsilon.react import react
class R(object):
    def __init__(self):
        self.stops = 0
        self.trig = []
    def addSystemEventTrigger(self, phase, event, f, *a):
        self.trig.append((phase, f, a))
    def callWhenRunning(self, f, *a):
        f(*a)
    def stop(self):
        self.stops += 1
    def run(self):
        for p in ('before', 'during', 'after'):
            for phase, f, a in self.trig:
                if phase == p:
                    f(*a)
d = Deferred()
r = R()
def main(reactor):
    reactor.addSystemEventTrigger('before', 'shutdown', d.callback, None)
    return d
react(r, main, [])
assert r.stops == 0, r.stops
""")

seed('ampauth-truncated-compare', 'C14', 'epsilon/ampauth.py', [
("        return correctResponse == self.response", "        return correctResponse.startswith(self.response) and len(self.response) > 0")],
 'a response that is a proper non-empty prefix of the right digest',
 'a truncated response is accepted',
'''
from epsilon.ampauth import _AMPUsernamePassword, _calcResponse
good = _calcResponse(b'c', b'n', b'pw')
assert _AMPUsernamePassword(b'u', b'c', b'n', good).checkPassword(b'pw')
assert not _AMPUsernamePassword(b'u', b'c', b'n', good[:1]).checkPassword(b'pw')
''')

seed('ampauth-stale-username', 'C14', 'epsilon/ampauth.py', [
("""        self.challenge = secureRandom(16)
        self.username = username
""", """        self.challenge = secureRandom(16)
        if username:
            self.username = username
""")],
 'a second password login on the same connection, for the empty user name',
 'the credentials handed to the portal carry the user name of an earlier attempt with the new challenge',
"""
from twisted.internet.defer import Deferred
from epsilon.ampauth import CredReceiver
seen = []
class Portal(object):
    def login(self, credentials, *a):
        seen.append(credentials)
        return Deferred()
c = CredReceiver()
c.portal = Portal()
c.passwordLogin(b'alice')
ch = c.passwordLogin(b'')['challenge']
c.passwordChallengeResponse(b'n', b'r')
assert seen[0].username == b'' and seen[0].challenge == ch, seen
""")

seed('otp-false-avatar', 'C15', 'epsilon/ampauth.py', [
("""        if credentials.padValue in self.pads:
            return self.pads.pop(credentials.padValue)
""", """        avatarId = self.pads.get(credentials.padValue)
        if avatarId is not None:
            if avatarId:
                del self.pads[credentials.padValue]
            return avatarId
""")],
 'a pad whose avatar identifier is false (an empty string)',
 'such a pad can be used any number of times',
'''
from epsilon.ampauth import OneTimePadChecker, _AMPOneTimePad
from twisted.cred.error import UnauthorizedLogin
c = OneTimePadChecker({b'p': b''})
assert c.requestAvatarId(_AMPOneTimePad(b'p')) == b''
try:
    c.requestAvatarId(_AMPOneTimePad(b'p'))
except UnauthorizedLogin:
    pass
else:
    raise AssertionError
''')

seed('ampauth-logout-after-start', 'C16', 'epsilon/ampauth.py', [
("""            self.logout = logout
            self.boxReceiver = avatar
            self.boxReceiver.startReceivingBoxes(self.boxSender)
""", """            self.boxReceiver = avatar
            self.boxReceiver.startReceivingBoxes(self.boxSender)
            self.logout = logout
""")],
 'the connection is lost while the avatar is being started',
 'the avatar is never logged out',
'''
from twisted.internet.defer import succeed
from twisted.internet.error import ConnectionDone
from twisted.internet.testing import StringTransport
from twisted.protocols.amp import IBoxReceiver
from twisted.python.failure import Failure
from epsilon.ampauth import CredReceiver
out = []
class Avatar(object):
    def startReceivingBoxes(self, sender):
        c.connectionLost(Failure(ConnectionDone()))
    def stopReceivingBoxes(self, reason):
        pass
class Portal(object):
    def login(self, *a):
        return succeed((IBoxReceiver, Avatar(), lambda: out.append(1)))
c = CredReceiver()
c.portal = Portal()
c.makeConnection(StringTransport())
c.otpLogin(b'x')
assert out == [1], out
''')
