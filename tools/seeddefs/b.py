seed('expose-callable-shadow', 'C04', 'epsilon/expose.py', [
("                seen[name] = True", """                if callable(value):
                    # only another method overrides a method
                    seen[name] = True""")],
 'a subclass which disables an exposed method by setting its name to something not callable (None)',
 'the disabled method is still retrieved',
'''
from epsilon.expose import Exposer, MethodNotExposed
e = Exposer("e")
class A(object):
    @e.expose("k")
    def m(self):
        return 1
class B(A):
    m = None
assert e.get(A(), "k")() == 1
try:
    r = e.get(B(), "k")
except MethodNotExposed:
    pass
else:
    raise AssertionError(r)
''')

seed('expose-falsy-key', 'C04', 'epsilon/expose.py', [
("            if rkey is None:", "            if not rkey:")],
 'a method exposed under a false key such as 0 or the empty string',
 'the method is exposed under its own name instead of the key it was given',
'''
from epsilon.expose import Exposer, MethodNotExposed
e = Exposer("e")
class A(object):
    @e.expose("")
    def m(self):
        return 1
try:
    e.get(A(), "m")
except MethodNotExposed:
    pass
else:
    raise AssertionError("never exposed under m")
assert e.get(A(), "")() == 1
''')

seed('router-empty-name', 'C10', 'epsilon/amprouter.py', [
("        self._routes[route].receiver.ampBoxReceived(box)", "        self._routes[route or None].receiver.ampBoxReceived(box)")],
 'a route whose name is the empty string',
 'its boxes go to the receiver of boxes without a route',
'''
from epsilon.amprouter import Router, _ROUTE
class R(object):
    def __init__(self): self.got = []
    def startReceivingBoxes(self, s): pass
    def ampBoxReceived(self, box): self.got.append(box)
r = Router()
a, b = R(), R()
r.bindRoute(a, None); r.bindRoute(b, u'')
r.startReceivingBoxes(object())
r.ampBoxReceived({_ROUTE: u'', 'x': 'y'})
assert b.got == [{'x': 'y'}] and a.got == [], (a.got, b.got)
''')

seed('router-restored-route', 'C10', 'epsilon/amprouter.py', [
("        route = box.pop(_ROUTE, None)", """        route = box.get(_ROUTE)
        if route in self._routes:
            box.pop(_ROUTE, None)
        else:
            # perhaps it is meant for whoever handles plain boxes
            route = None""")],
 'a box for a route that is not bound, on a router with a receiver bound to None',
 'the box is delivered to the receiver bound to None instead of raising KeyError',
'''
from epsilon.amprouter import Router, _ROUTE
class R(object):
    def __init__(self): self.got = []
    def startReceivingBoxes(self, s): pass
    def ampBoxReceived(self, box): self.got.append(box)
r = Router()
a = R()
r.bindRoute(a, None)
r.startReceivingBoxes(object())
try:
    r.ampBoxReceived({_ROUTE: u'gone', 'x': 'y'})
except KeyError:
    pass
else:
    raise AssertionError(a.got)
assert a.got == []
''')

seed('route-setdefault', 'C11', 'epsilon/amprouter.py', [
("            box[_ROUTE] = self.remoteRouteName", "            box.setdefault(_ROUTE, self.remoteRouteName)")],
 'a box that already carries a route key, for instance one that is sent again through another route',
 'the box keeps the route name it carried',
'''
from epsilon.amprouter import Router, _ROUTE
class S(object):
    def __init__(self): self.sent = []
    def sendBox(self, b): self.sent.append(dict(b))
class R(object):
    def startReceivingBoxes(self, s): pass
s = S()
r = Router()
a, b = r.bindRoute(R()), r.bindRoute(R())
r.startReceivingBoxes(s)
a.connectTo(u'one'); b.connectTo(u'two')
box = {'x': 'y'}
a.sendBox(box); b.sendBox(box)
assert [x[_ROUTE] for x in s.sent] == [u'one', u'two'], s.sent
''')

seed('route-empty-remote', 'C11', 'epsilon/amprouter.py', [
("        if self.remoteRouteName is not None:", "        if self.remoteRouteName:")],
 'a remote route name that is the empty string',
 'the box is sent without a route',
'''
from epsilon.amprouter import Router, _ROUTE
class S(object):
    def __init__(self): self.sent = []
    def sendBox(self, b): self.sent.append(dict(b))
class R(object):
    def startReceivingBoxes(self, s): pass
s = S()
r = Router()
a = r.bindRoute(R())
r.startReceivingBoxes(s)
a.connectTo(u'')
a.sendBox({'x': 'y'})
assert s.sent == [{'x': 'y', _ROUTE: u''}], s.sent
''')

seed('route-none-connected', 'C12', 'epsilon/amprouter.py', [
("        if self.router._sender is not None:\n            self.start()", """        if self.router._sender is not None and remoteRouteName is not None:
            self.start()""")],
 'a route connected to None (the peer\'s unrouted receiver) after its router was started',
 'its receiver is never started',
'''
from epsilon.amprouter import Router
class R(object):
    def __init__(self): self.started = []
    def startReceivingBoxes(self, s): self.started.append(s)
r = Router()
a = R()
x = r.bindRoute(a)
r.startReceivingBoxes(object())
x.connectTo(None)
assert a.started == [x], a.started
''')

seed('router-short-identifiers', 'C13', 'epsilon/amprouter.py', [
("from itertools import count", "from itertools import count, cycle"),
("        self._routeCounter = count()", "        # keep the identifiers short\n        self._routeCounter = cycle(range(1000))")],
 'more than a thousand routes bound, and unbound, over the life of a router',
 'identifiers are generated again',
'''
from epsilon.amprouter import Router
r = Router()
seen = set()
for _ in range(1100):
    n = r.createRouteIdentifier()
    assert n not in seen, n
    seen.add(n)
''')

seed('liner-scan-resume', 'C17', 'epsilon/liner.py', [
("            end = buffer.find(delimiter, begin)", """            # what was there before has no delimiter but perhaps the start of one
            end = buffer.find(delimiter, max(begin, len(buffer) - len(data) - 1))""")],
 'a delimiter of three bytes or more cut after its second byte',
 'the line is not delivered: its delimiter is never found',
'''
from epsilon.liner import LineReceiver
class L(LineReceiver):
    delimiter = b'-+-'
    transport = None
    def lineReceived(self, line): self.lines.append(line)
l = L()
l.lines = []
for c in (b'ab-+', b'-cd-+-'):
    l.dataReceived(c)
assert l.lines == [b'ab', b'cd'], l.lines
''')

seed('juice-late-loss', 'C19', 'epsilon/juice.py', [
("""        OR = self._outstandingRequests.items()
        self._outstandingRequests = None # we can never send another request
        for key, value in OR:
            value.errback(reason)""",
"""        OR = list(self._outstandingRequests.items())
        for key, value in OR:
            value.errback(reason)
        self._outstandingRequests = None # we can never send another request""")],
 'a request made by the errback of a request that fails because the connection was lost',
 'the new request is sent on the lost connection and never resolved',
'''
from twisted.python.failure import Failure
from epsilon.juice import Juice, JuiceBox
class T(object):
    disconnecting = False
    written = b''
    def write(self, d): self.written += d
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
    def loseConnection(self): pass
p, t = Juice(False), T()
p.makeConnection(t)
got = []
def again(f):
    p.sendBoxCommand('two', JuiceBox()).addErrback(got.append)
p.sendBoxCommand('one', JuiceBox()).addErrback(again)
n = len(t.written)
p.connectionLost(Failure(RuntimeError()))
assert len(got) == 1 and len(t.written) == n, (got, t.written)
''')

seed('juice-tag-wrap', 'C19', 'epsilon/juice.py', [
("        return '%x' % (self._counter,)", "        return '%04x' % (self._counter % 0x10000,)")],
 'a request that is still waiting when 65536 others have been made',
 'two waiting requests share a tag; the first is never resolved',
'''
from epsilon.juice import Juice, JuiceBox, parseString
class T(object):
    disconnecting = False
    def write(self, d): self.last = d
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
    def loseConnection(self): pass
p, t = Juice(False), T()
p.makeConnection(t)
box = JuiceBox()
p.sendBoxCommand('x', box)
tag = box['_ask']
for _ in range(0x10000):
    b = JuiceBox()
    p.sendBoxCommand('x', b, True)
    assert b['_ask'] != tag
    p._outstandingRequests.pop(b['_ask'])
''')

seed('juice-error-subclass', 'C20', 'epsilon/juice.py', [
("                code = command.allErrors[key]", "                code = command.allErrors.get(error.type, 'UNHANDLED')")],
 'a responder that raises a subclass of an error its command declares',
 'the reply does not carry the declared code',
'''
from twisted.internet.defer import Deferred
from epsilon.juice import Juice, JuiceBox, Command, parseString
class E(Exception): pass
class F(E): pass
class Go(Command):
    commandName = 'Go'
    errors = {E: 'MINE'}
class P(Juice):
    def command_GO(self): raise F()
    command_GO.command = Go
class T(object):
    disconnecting = False
    written = b''
    def write(self, d): self.written += d
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
    def loseConnection(self): pass
p, t = P(True), T()
p.makeConnection(t)
p.dataReceived(JuiceBox(_command='Go', _ask='1').serialize())
assert parseString(t.written)[0]['_error_code'] == 'MINE', t.written
''')

seed('juice-namespace-none', 'C20', 'epsilon/juice.py', [
("        if namespace not in command.namespaces:", "        if namespace is not None and namespace not in command.namespaces:")],
 'a command that is declared for a particular namespace only, asked for without one',
 'the command runs outside the namespaces it is declared for',
'''
from epsilon.juice import Juice, JuiceBox, Command, parseString
ran = []
class Go(Command):
    commandName = 'Go'
    namespaces = ['admin']
class P(Juice):
    def command_GO(self):
        ran.append(1)
        return {}
    command_GO.command = Go
class T(object):
    disconnecting = False
    written = b''
    def write(self, d): self.written += d
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
    def loseConnection(self): pass
p, t = P(True), T()
p.makeConnection(t)
p.dataReceived(JuiceBox(_command='Go', _ask='1').serialize())
assert not ran
''')

seed('juice-restart-tls', 'C21', 'epsilon/juice.py', [
("        if self.hostCertificate is None:\n            self.hostCertificate = certificate", "        if self.hostCertificate is None or not self._justStartedTLS:\n            self.hostCertificate = certificate")],
 'a second startTLS after data has been received on the secured connection',
 'starting TLS again on an authenticated connection is not refused',
'''
from epsilon.juice import Juice, JuiceBox
class C(object):
    def options(self, *a): return ('o',) + a
class T(object):
    disconnecting = False
    def __init__(self): self.tls = []
    def write(self, d): pass
    def startTLS(self, o): self.tls.append(o)
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
    def getPeerCertificate(self): return None
    def loseConnection(self): pass
p, t = Juice(True), T()
p.makeConnection(t)
p.startTLS(C())
p.dataReceived(b'X: ')
try:
    p.startTLS(C())
except Exception:
    pass
assert len(t.tls) == 1, t.tls
''')

seed('juice-switch-tail', 'C21', 'epsilon/juice.py', [
("                if extraData:\n                    self.innerProtocol.dataReceived(extraData)", "                if len(extraData) > len(self.delimiter):\n                    # more than the end of the box\n                    self.innerProtocol.dataReceived(extraData)")],
 'a box with a body that switches protocols, followed in the same chunk by one or two bytes of the new protocol',
 'those bytes are lost',
'''
from epsilon.juice import Juice, JuiceBox
class Inner(object):
    def __init__(self): self.data = b''
    def makeConnection(self, t): pass
    def dataReceived(self, d): self.data += d
class P(Juice):
    def juiceBoxReceived(self, box): self._switchTo(inner)
class T(object):
    disconnecting = False
    def write(self, d): pass
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
inner = Inner()
p = P(True)
p.makeConnection(T())
p.dataReceived(JuiceBox(a='b', body='body').serialize() + b'hi')
p.dataReceived(b' there')
assert inner.data == b'hi there', inner.data
''')

seed('juice-optional-empty', 'C22', 'epsilon/juice.py', [
("        if self.optional and st is None:", "        if self.optional and not st:")],
 'an optional string argument whose value is the empty string',
 'the empty string comes back as None',
'''
from epsilon import juice
args = [('a', juice.String(optional=True)), ('b', juice.Unicode(optional=True))]
box = juice.objectsToStrings({'a': '', 'b': u''}, args, juice.Box(), None)
assert juice.stringsToObjects(box, args, None) == {'a': '', 'b': u''}
''')

seed('extime-fraction-truncated', 'C23', 'epsilon/extime.py', [
("""            if match.group('dayofyear') is not None:
                dtime = datetime.datetime(
                    groups['year'],
                    1,
                    1,
                    groups['hour'],
                    groups['minute'],
                    groups['second'],
                    int(round(groups['fractionalsec'] * 1000000)),""",
"""            if match.group('dayofyear') is not None:
                dtime = datetime.datetime(
                    groups['year'],
                    1,
                    1,
                    groups['hour'],
                    groups['minute'],
                    groups['second'],
                    int(groups['fractionalsec'] * 1000000),""")],
 'an ordinal date with one of the fractions of a second whose float product falls below the whole microsecond (.000249)',
 'the time is a microsecond early',
'''
from epsilon.extime import Time
bad = [f for f in range(0, 1000000, 83) if Time.fromISO8601TimeAndDate('2005-001T00:00:00.%06dZ' % f) != Time.fromISO8601TimeAndDate('2005-01-01T00:00:00.%06dZ' % f)]
assert not bad, bad[:5]
''')

seed('extime-week-rollover', 'C23', 'epsilon/extime.py', [
("""                if dtime.isocalendar() != (
                    groups['year'], groups['week'], groups['weekday']):""",
"""                if groups['week'] == 53 and dtime.year != groups['year']:""")],
 'week 53 of a year whose 53rd week ends in the next year, or of one that has none but whose days still fall in it',
 'a valid date in week 53 is refused',
'''
from epsilon.extime import Time
assert Time.fromISO8601TimeAndDate('2004-W53-7') == Time.fromISO8601TimeAndDate('2005-01-02')
''')

seed('extime-timestamp-parts', 'C24', 'epsilon/extime.py', [
("        self = klass.fromDatetime(_EPOCH + datetime.timedelta(seconds=secs))",
"""        whole = int(secs)
        self = klass.fromDatetime(_EPOCH + datetime.timedelta(
            seconds=whole, microseconds=int((secs - whole) * 1000000)))""")],
 'a timestamp with a fraction whose float representation lies below the microsecond it stands for',
 'converting to a timestamp and back drifts by a microsecond',
'''
from epsilon.extime import Time
import datetime
for us in range(0, 1000000, 9973):
    t = Time.fromDatetime(datetime.datetime(2009, 7, 3, 1, 2, 3, us))
    assert Time.fromPOSIXTimestamp(t.asPOSIXTimestamp()) == t, us
''')

seed('extime-week-timezone', 'C24', 'epsilon/extime.py', [
("        if not self.isTimezoneDependent():\n            return self._time.replace(tzinfo=tzinfo)", "        if self.isAllDay():\n            return self._time.replace(tzinfo=tzinfo)")],
 'a time whose resolution is a week, month or year, converted in a timezone west of UTC',
 'its fields are those of the day before',
'''
from epsilon.extime import Time, FixedOffset
t = Time.fromISO8601TimeAndDate('2005-03')
d = t.asDatetime(FixedOffset(-5, 0))
assert (d.year, d.month, d.day, d.hour) == (2005, 3, 1, 0), d
''')

seed('extime-float-difference', 'C25', 'epsilon/extime.py', [
("            return self.asDatetime() - subtrahend.asDatetime()", "            return datetime.timedelta(\n                seconds=self.asPOSIXTimestamp() - subtrahend.asPOSIXTimestamp())")],
 'the difference of two times centuries away from the epoch, with microseconds',
 'the difference is off by some microseconds',
'''
from epsilon.extime import Time
import datetime
a, b = datetime.datetime(9990, 1, 2, 3, 4, 5, 123457), datetime.datetime(40, 1, 2, 3, 4, 5, 999983)
for i in range(100):
    assert Time.fromDatetime(a) - Time.fromDatetime(b) == a - b, Time.fromDatetime(a) - Time.fromDatetime(b)
    a -= datetime.timedelta(days=37, microseconds=7919)
''')

seed('extime-contains-start', 'C25', 'epsilon/extime.py', [
("        if self._time + self.resolution < other._time + other.resolution:\n            return False", "        if self._time + self.resolution < other._time + min(\n                self.resolution, other.resolution):\n            return False")],
 'a longer period that starts at the very instant a shorter one starts',
 'the shorter period is said to contain the longer one',
'''
from epsilon.extime import Time
day, month = Time.fromISO8601TimeAndDate('2005-03-01'), Time.fromISO8601TimeAndDate('2005-03')
assert day in month
assert month not in day
''')

seed('extime-clock-seconds', 'C26', 'epsilon/extime.py', [
("""        dtnow = now.asDatetime(tzinfo).replace(second=0, microsecond=0)
        dtthen = dtnow.replace(hour=hour, minute=minute)""",
"""        dtnow = now.asDatetime(tzinfo).replace(microsecond=0)
        dtthen = dtnow.replace(hour=hour, minute=minute, second=0)""")],
 'a clock time that is the current minute, with some seconds gone',
 'the phrase denotes tomorrow instead of the current minute',
'''
from epsilon.extime import Time
import datetime
now = Time.fromDatetime(datetime.datetime(2009, 7, 3, 15, 4, 30))
assert Time.fromHumanly('3:04 pm', now=now) == Time.fromDatetime(datetime.datetime(2009, 7, 3, 15, 4))
''')

seed('extime-weekday-next', 'C26', 'epsilon/extime.py', [
("        if daysInFuture == 0:\n            daysInFuture = 7", "        if daysInFuture == 0 and match.group(2) != 'this':\n            daysInFuture = 7")],
 'the phrase "this <weekday>" on that very weekday',
 'it denotes today, not the day a week ahead',
'''
from epsilon.extime import Time
import datetime
now = Time.fromDatetime(datetime.datetime(2009, 7, 3, 15, 4, 30))    # a Friday
for phrase in ('friday', 'this friday', 'next friday'):
    assert Time.fromHumanly(phrase, now=now) == Time.fromDatetime(datetime.datetime(2009, 7, 10)), phrase
''')

seed('rfc2822-half-hours', 'C27', 'epsilon/extime.py', [
("""            FixedOffset(
                hours=0,
                minutes=offsetInSeconds // 60))""",
"""            FixedOffset(
                hours=offsetInSeconds // 3600,
                minutes=abs(offsetInSeconds) // 60 % 60))""")],
 'a western timezone with a fraction of an hour',
 'the time read is an hour off (floor of the hours, minutes of the absolute value)',
'''
from epsilon.extime import Time, FixedOffset
import datetime
t = Time.fromDatetime(datetime.datetime(2009, 7, 3, 1, 2, 3))
for m in (0, 330, -300, -210, -570, -1):
    assert Time.fromRFC2822(t.asRFC2822(FixedOffset(0, m))) == t, m
''')

seed('rfc2822-leap-second', 'C27', 'epsilon/extime.py', [
("    maxValues = (9999, 12, 31, 23, 59, 59)", "    maxValues = (9999, 12, 31, 24, 59, 59)")],
 'a date whose hour is 24',
 'the hour is not replaced by the nearest in range',
'''
from epsilon.extime import Time, sanitizeStructTime
assert sanitizeStructTime((2004, 1, 1, 24, 0, 0, 0, 1, -1)) == (2004, 1, 1, 23, 0, 0, 0, 1, -1)
''')

seed('bench-new-kernel', 'C28', 'epsilon/scripts/benchmark.py', [
("    if len(parts) == 7:\n        factory = partitionstat\n    else:\n        factory = diskstat\n    return six.ensure_str(device), factory(*map(int, parts[3:14]))",
"    if len(parts) == 7:\n        factory = partitionstat\n    else:\n        factory = diskstat\n    return six.ensure_str(device), factory(*map(int, parts[3:][-11:]))")],
 'a kernel that reports more than the eleven classic counters',
 'the counters are read from the wrong fields',
'''
from epsilon.scripts.benchmark import parseDiskStatLine
name, s = parseDiskStatLine(b'8 0 sda ' + b' '.join(b'%d' % i for i in range(1, 18)))
assert name == 'sda' and s.readCount == 1 and s.weightedIOMilliseconds == 11, s
''')

seed('bench-late-timeout', 'C28', 'epsilon/scripts/benchmark.py', [
("""        if reason.check(error.ProcessDone):
            d.callback((self, reason.value.status, o))
        elif self.timedOut:
            d.errback(error.TimeoutError())
        elif""", """        if self.timedOut:
            d.errback(error.TimeoutError())
        elif reason.check(error.ProcessDone):
            d.callback((self, reason.value.status, o))
        elif""")],
 'a child that ends normally at the moment the timeout kills it',
 'a normal end is reported as a timeout',
'''
from twisted.internet import defer, error
from twisted.python.failure import Failure
from epsilon.scripts.benchmark import BasicProcess
got = []
d = defer.Deferred()
d.addBoth(got.append)
p = BasicProcess(d, None)
p.timedOut = True
p.processEnded(Failure(error.ProcessDone(0)))
assert isinstance(got[0], tuple) and got[0][1:] == (0, []), got
''')

seed('modal-class-name', 'C07', 'epsilon/modal.py', [
("                        implementations.setdefault(methName, {})[k] = methDef", "                        implementations.setdefault(methName, {})[v.__name__] = methDef")],
 'a mode whose name in the class differs from the name its own class was made with',
 'the implementations of that mode are filed under the other name',
'''
from epsilon.modal import Modal, mode
class Base(mode):
    def __enter__(self): pass
    def __exit__(self): pass
    def f(self): return 'f'
class M(Modal):
    initialMode = 'quiet'
    quiet = Base
assert M().f() == 'f'
''')

seed('modal-falsy-instance', 'C07', 'epsilon/modal.py', [
("        if instance is None:\n            raise AttributeError(self.name)", "        if not instance:\n            raise AttributeError(self.name)")],
 'an instance that is false, for instance an empty container',
 'its modal methods raise AttributeError',
'''
from epsilon.modal import Modal, mode
class M(Modal):
    initialMode = 'a'
    def __len__(self): return 0
    class a(mode):
        def __enter__(self): pass
        def __exit__(self): pass
        def f(self): return 'f'
assert M().f() == 'f'
''')

seed('route-falsy-sender', 'C12', 'epsilon/amprouter.py', [
("        if self.router._sender is not None:\n            self.start()", "        if self.router._sender:\n            self.start()")],
 'a router started with a sender that is false, for instance one that is an empty queue',
 'routes connected after the start are never started',
'''
from epsilon.amprouter import Router
class R(object):
    def __init__(self): self.started = []
    def startReceivingBoxes(self, s): self.started.append(s)
class Q(list):
    def sendBox(self, box): self.append(box)
r = Router()
a = R()
x = r.bindRoute(a)
r.startReceivingBoxes(Q())
x.connectTo(u'x')
assert a.started == [x], a.started
''')

seed('juice-blank-continuation', 'C18', 'epsilon/juice.py', [
("    def lineReceived(self, line):\n        if line:", "    def lineReceived(self, line):\n        if line.strip():")],
 'a value that contains an empty line',
 'the box ends at the empty line of the value; the rest is read as another box',
'''
from epsilon.juice import JuiceBox, parseString
v = 'one\\r\\n\\r\\ntwo'
assert parseString(JuiceBox(k=v).serialize()) == [{'k': v}]
''')

seed('juice-optional-false', 'C22', 'epsilon/juice.py', [
("        if self.optional and obj is None:", "        if self.optional and not obj:")],
 'an optional argument whose value is 0, False or empty',
 'the value is left out of the box and comes back as None',
'''
from epsilon import juice
args = [('a', juice.Integer(optional=True)), ('b', juice.Boolean(optional=True))]
box = juice.objectsToStrings({'a': 0, 'b': False}, args, juice.Box(), None)
assert juice.stringsToObjects(box, args, None) == {'a': 0, 'b': False}
''')

seed('juice-box-consumed', 'C22', 'epsilon/juice.py', [
("    myStrings = strings.copy()", "    myStrings = strings if len(strings) == len(arglist) else strings.copy()")],
 'a box that holds exactly the declared arguments and is looked at again after its conversion',
 'the box is emptied by its conversion',
'''
from epsilon import juice
box = juice.Box(a='3')
assert juice.stringsToObjects(box, [('a', juice.Integer())], None) == {'a': 3}
assert box == {'a': '3'}, box
''')

seed('hotfix-name-only', 'C29', 'epsilon/hotfix.py', [
("    if (packageName, fixName) in _alreadyInstalled:", "    if fixName in _alreadyInstalled:"),
("    _alreadyInstalled.add((packageName, fixName))", "    _alreadyInstalled.add(fixName)")],
 'a hotfix required under another package after one of the same name was dealt with',
 'an unknown hotfix is silently accepted',
'''
from epsilon import hotfix
hotfix.require("twisted", "trial_assertwarns")
try:
    hotfix.require("nevow", "trial_assertwarns")
except hotfix.NoSuchHotfix:
    pass
else:
    raise AssertionError("accepted")
''')

seed('hotfix-recorded-first', 'C29', 'epsilon/hotfix.py', [
("        return\n\n    if (packageName, fixName) == ('twisted', 'filepath_copyTo'):", """        return
    # now, so that a hotfix may require another one while being installed
    _alreadyInstalled.add((packageName, fixName))

    if (packageName, fixName) == ('twisted', 'filepath_copyTo'):"""),
("        raise NoSuchHotfix(packageName, fixName)\n\n    _alreadyInstalled.add((packageName, fixName))\n", "        raise NoSuchHotfix(packageName, fixName)\n")],
 'requiring an unknown hotfix, or one whose installation fails, a second time',
 'the second requirement is silently accepted',
'''
from epsilon import hotfix
for i in range(2):
    try:
        hotfix.require("twisted", "unheard_of")
    except hotfix.NoSuchHotfix:
        pass
    else:
        raise AssertionError("accepted the %dth time" % (i + 1))
''')

seed('juice-negotiate-order', 'C30', 'epsilon/juice.py', [
("""        for version in versions:
            if version in VERSIONS:
                return""", """        for version in VERSIONS:
            if version in versions:
                return""")],
 'an asker which lists more than one version, of which the answering side supports more than one, in another order',
 'the version chosen is not the first the asker listed',
'''
from epsilon import juice
from epsilon.juice import Juice
juice.VERSIONS[:] = [1, 2, 3]
got = Juice(True).command_NEGOTIATE([3, 1])
assert got == {"version": 3}, got
''')

seed('juice-negotiate-downgrade', 'C30', 'epsilon/juice.py', [
("""        # it!
        self.protocolVersion = version
""", """        # it!
        if version >= self.protocolVersion:
            self.protocolVersion = version
""")],
 'a connection which negotiates a version lower than the one in force',
 'the negotiation reports success, the version in force does not change',
'''
from epsilon import juice
from epsilon.juice import Juice
juice.VERSIONS[:] = [1, 2]
class T(object):
    def __init__(self):
        self.out = []
    def write(self, data):
        self.out.append(data)
    def loseConnection(self):
        pass
    disconnecting = False
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
def pump(a, b):
    while a.transport.out or b.transport.out:
        for x, y in ((a, b), (b, a)):
            out, x.transport.out[:] = list(x.transport.out), []
            for data in out:
                y.dataReceived(data)
c, s = Juice(False), Juice(True)
for p in (c, s):
    p.makeConnection(T())
for v in (2, 1):
    res = []
    c.renegotiateVersion(v).addBoth(res.append)
    pump(c, s)
    assert res == [v], res
    assert (c.protocolVersion, s.protocolVersion) == (v, v), (v, c.protocolVersion, s.protocolVersion)
''')

seed('juice-negotiate-early', 'C30', 'epsilon/juice.py', [
("""        super(NegotiateBox, self).sendTo(proto)
        proto._setProtocolVersion(int(self['version']))
""", """        proto._setProtocolVersion(int(self['version']))
        super(NegotiateBox, self).sendTo(proto)
""")],
 'a transport which refuses the write that would have carried the answer',
 'the answering side changes its version though no answer was sent',
'''
from epsilon import juice
from epsilon.juice import Juice
class T(object):
    def write(self, data):
        raise IOError("closed")
    def getPeer(self): return 'p'
    def getHost(self): return 'h'
p = Juice(True)
p.makeConnection(T())
b = juice.NegotiateBox()
b["version"] = "1"
try:
    b.sendTo(p)
except IOError:
    pass
else:
    raise AssertionError("not refused")
assert p.protocolVersion == 0, p.protocolVersion
''')

seed('signals-restore-given', 'C31', 'epsilon/spewer.py', [
("""        for sig, handler in self.oldsigmap.items():
            signal.signal(sig, handler)
""", """        for sig in self.sigmap:
            signal.signal(sig, self.oldsigmap[sig])
""")],
 'the mapping of signals to handlers being changed while the service runs',
 'a signal whose entry was removed keeps the handler of the service after it stopped',
'''
import signal
from epsilon.spewer import SignalService
a, b = signal.SIGUSR1, signal.SIGUSR2
h = {a: lambda *x: None, b: lambda *x: None}
before = signal.getsignal(a), signal.getsignal(b)
s = SignalService(h)
s.startService()
del h[a]
s.stopService()
assert (signal.getsignal(a), signal.getsignal(b)) == before
''')

seed('signals-ignored-kept', 'C31', 'epsilon/spewer.py', [
("""        for sig, handler in self.sigmap.items():
            self.oldsigmap[sig] = signal.signal(sig, handler)
""", """        for sig, handler in self.sigmap.items():
            # (a signal without a handler of its own goes back to the default)
            self.oldsigmap[sig] = signal.signal(sig, handler) or signal.SIG_DFL
"""), ("""        for sig, handler in self.oldsigmap.items():
            signal.signal(sig, handler)
""", """        for sig, handler in self.oldsigmap.items():
            if callable(handler) or signal.getsignal(sig) is self.sigmap.get(sig):
                signal.signal(sig, handler)
""")],
 'a signal which was at its default or ignored, and whose handler was replaced again while the service ran',
 'the handler in force before the service started is not put back',
'''
import signal
from epsilon.spewer import SignalService
a = signal.SIGUSR1
signal.signal(a, signal.SIG_IGN)
s = SignalService({a: lambda *x: None})
s.startService()
signal.signal(a, lambda *x: None)
s.stopService()
assert signal.getsignal(a) == signal.SIG_IGN, signal.getsignal(a)
''')

seed('cert-serial-zero', 'C32', 'epsilon/scripts/certcreate.py', [
("    serialNumber = int(opts['serial-number'])", "    serialNumber = int(opts['serial-number']) or 1")],
 'serial number 0',
 'the certificate carries another serial number than the one asked for',
'''
import os, shutil, tempfile
from epsilon.scripts import certcreate
d = tempfile.mkdtemp()
try:
    c = certcreate.main(["-q", "-S", "0", "-f", os.path.join(d, "x.pem")])
    assert c.serialNumber() == 0, c.serialNumber()
finally:
    shutil.rmtree(d)
''')

seed('cert-file-first', 'C32', 'epsilon/scripts/certcreate.py', [
("""    ssc = KeyPair.generate().selfSignedCert(serialNumber, **sslopt)
    with open(opts['filename'], 'wb') as f:
""", """    with open(opts['filename'], 'wb') as f:
        ssc = KeyPair.generate().selfSignedCert(serialNumber, **sslopt)
""")],
 'a subject for which no certificate can be made, and an existing file',
 'the existing file is emptied although no certificate is made',
'''
import os, shutil, tempfile
from epsilon.scripts import certcreate
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "x.pem")
    with open(p, "w") as f:
        f.write("precious")
    try:
        certcreate.main(["-q", "-C", "Nowhere-land", "-f", p])
    except Exception:
        pass
    else:
        raise SystemExit("not refused")
    with open(p) as f:
        assert f.read() == "precious"
finally:
    shutil.rmtree(d)
''')

seed('cert-empty-arguments', 'C32', 'epsilon/scripts/certcreate.py', [
("    if args is None:", "    if not args:")],
 'main called with an empty list of arguments from a program which has arguments of its own',
 "the arguments of the process are used",
'''
import os, shutil, sys, tempfile
from epsilon.scripts import certcreate
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    sys.argv = ["program", "--not-for-certcreate"]
    certcreate.main([])
    assert os.listdir(d) == ["server.pem"], os.listdir(d)
finally:
    os.chdir("/")
    shutil.rmtree(d)
''')
