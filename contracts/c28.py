"""C28: a benchmark child's outcome and statistics (epsilon/scripts/benchmark.py)."""
import io
import os
import pprint
from twisted.internet import error
from twisted.internet.defer import Deferred
from twisted.python import log
from twisted.python.failure import Failure
from pyded.api import contract, search
from epsilon import juice
from epsilon.scripts import benchmark
from epsilon.scripts.benchmark import BasicProcess, BenchmarkProcess, ProcessDied


class Timer(object):
    """what callLater returns; the clock is outside"""

    def __init__(self, log, delay, f, a, k):
        self.log = log
        self.delay, self.f, self.a, self.k = delay, f, a, k
        self.state = 'active'

    def active(self):
        return self.state == 'active'

    def cancel(self):
        if self.state != 'active':
            self.log.append('cancelled although %s' % self.state)
        self.state = 'cancelled'

    def reset(self, delay):
        if self.state != 'active':
            self.log.append('reset although %s' % self.state)
        self.delay = delay
        self.log.append('reset')

    def delayed(self, delay):
        self.log.append('delayed')

    def fire(self):
        self.state = 'fired'
        self.f(*self.a, **self.k)


class Transport(object):
    def __init__(self):
        self.signals = []
        self.written = []

    def signalProcess(self, s):
        self.signals.append(s)

    def writeToChild(self, fd, data):
        self.written.append((fd, data))


class Child(object):
    """a started child process"""

    def __init__(self, h, cls=BasicProcess):
        self.h = h
        self.results = []
        self.timers = []
        self.timelog = []
        self.transport = Transport()
        self.made = self.spawned = None
        d = self.spawn(cls)
        d.addBoth(self.results.append)
        p = self.p = self.made
        p.callLater = self.callLater
        p.makeConnection(self.transport)

    def spawn(self, cls):
        def spawn(proto, executable, args, **k):
            self.made = proto
            self.spawned = (executable, args, k)
        self.env = {'A': 'b'}
        return cls.spawn('exe', ['x', 'y'], '/scratch', self.env, spawn)

    def callLater(self, delay, f, *a, **k):
        t = Timer(self.timelog, delay, f, a, k)
        self.timers.append(t)
        return t

    def running(self):
        """the timers still running"""
        return [t for t in self.timers if t.active()]


def out(h):
    """any output so far"""
    return h.list('output so far', ('int', 'any'))


@contract('C28', 'starting')
def c_start(h):
    c = Child(h)
    h.ensure('one process is started, with the arguments and environment given',
             c.spawned is not None and c.spawned[0] == 'exe' and list(c.spawned[1]) == ['exe', 'x', 'y'] and c.spawned[2]['path'] == '/scratch'
             and c.spawned[2]['env'] is c.env)
    h.ensure('the inactivity timer runs', len(c.running()) == 1 and len(c.timers) == 1)
    h.ensure('nothing is reported', not c.results and not c.transport.signals)


@contract('C28', 'output')
def c_event(h):
    """any output so far, one more event"""
    c = Child(h)
    h.require(hasattr(c.p, 'output'))
    o0 = c.p.output = out(h)
    before = h.copy(o0)
    fd = h.int('descriptor', 0, 4)
    data = h.bytes('data')
    closed = h.choice('closed', 2)
    o = h.call(c.p.childConnectionLost, fd) if closed else h.call(c.p.childDataReceived, fd, data)
    h.ensure('the event is taken', o.ok, o)
    now = c.p.output
    n = h.len(before)
    h.ensure('one more entry, at the end', h.eq(h.len(now), n + 1))
    h.ensure('what arrived before is kept, in order', h.forall_int(0, n, lambda i: h.And(h.eq(h.at(now, i)[0], h.at(before, i)[0]), h.same(h.at(now, i)[1], h.at(before, i)[1]))))
    last = now[n]
    h.ensure('the entry is the descriptor and the data, or None when it closes', h.And(
        isinstance(last, tuple), len(last) == 2, h.eq(last[0], fd), last[1] is None if closed else h.eq(last[1], data)), last)
    h.ensure('the inactivity timer starts again', len(c.running()) == 1 and c.timelog == ['reset'] and c.running()[0].delay == c.timers[0].delay)
    h.ensure('nothing is reported yet', not c.results and not c.transport.signals)


@contract('C28', 'inactivity')
def c_idle(h):
    c = Child(h)
    h.require(hasattr(c.p, 'output'))
    c.p.output = out(h)
    o = h.call(c.running()[0].fire)
    h.ensure('the child is killed', o.ok and c.transport.signals == ['KILL'], o)
    h.ensure('nothing is reported before it ends', not c.results)


class Odd(Exception):
    pass


@contract('C28', 'ending')
def c_end(h):
    c = Child(h)
    h.require(hasattr(c.p, 'output'))
    o0 = c.p.output = out(h)
    before = h.copy(o0)
    idle = h.choice('killed for inactivity', 2) == 1
    if idle:
        c.running()[0].fire()
    how = h.choice('way of ending', ['normal', 'terminated', 'other'])
    status, code, signal = h.any('status'), h.any('exit code'), h.any('signal')
    if how == 'normal':
        e = error.ProcessDone(0)
        e.status = status
    elif how == 'terminated':
        e = error.ProcessTerminated()
        e.exitCode, e.signal, e.status = code, signal, status
    else:
        e = Odd()
    o = h.call(c.p.processEnded, Failure(e))
    h.ensure('the end is taken', o.ok, o)
    h.ensure('the Deferred fires exactly once', len(c.results) == 1)
    r = c.results[0]
    if how == 'normal':
        h.ensure('with the protocol, the status and the output', isinstance(r, tuple) and len(r) == 3 and r[0] is c.p)
        h.ensure('the status is that of the child', h.same(r[1], status))
        h.ensure('all output, in order of arrival', h.list_same(r[2], before))
    elif idle:
        h.ensure('with a timeout error', isinstance(r, Failure) and isinstance(r.value, error.TimeoutError), r)
    elif how == 'terminated':
        h.ensure('with an error', isinstance(r, Failure) and isinstance(r.value, ProcessDied), r)
        v = r.value
        h.ensure('with the exit code, the signal and the status of the child',
                 h.And(h.same(v.exitCode, code), h.same(v.signal, signal), h.same(v.status, status)))
        h.ensure('with all output, in order of arrival', h.list_same(v.output, before))
    else:
        h.ensure('with the reason', isinstance(r, Failure) and r.value is e, r)
    h.ensure('the inactivity timer is cancelled', not c.running() and not [x for x in c.timelog if x != 'reset'])


class Gauge(object):
    """stands for the measurement between START and STOP"""

    def __init__(self, child, trace):
        self.child, self.trace = child, trace
        self.started = []

    def start(self, *a):
        self.trace.append(10)

    def stop(self, *a):
        self.trace.append(20)


class Measured(Transport):
    """each measurement is acknowledged by one byte"""

    def __init__(self, trace, bad):
        Transport.__init__(self)
        self.trace, self.bad = trace, bad

    def writeToChild(self, fd, data):
        n = len(self.trace)
        if fd != BenchmarkProcess.BACKCHANNEL_IN or n == 0:
            self.bad.set(True)
        elif data == b'\0' and self.trace[n - 1] == 10:
            self.trace[n - 1] = 11
        elif data == b'\1' and self.trace[n - 1] == 20:
            self.trace[n - 1] = 21
        else:
            self.bad.set(True)

    def signalProcess(self, s):
        self.trace.append(30 if s == 'QUIT' else 40)


class Flag(object):
    def __init__(self):
        self.v = False

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


@contract('C28', 'backchannel')
def c_back(h):
    """any bytes from the child on the backchannel"""
    h.patch(benchmark, 'discoverCurrentWorkingDevice', lambda *a: '/dev/hda1')

    class Change(object):
        def start(self, *a):
            pass
        stop = start
    h.patch(benchmark, 'Change', Change)
    c = Child(h, BenchmarkProcess)
    h.require(hasattr(c.p, 'output') and hasattr(c.p, 'benchmarkChange'))
    c.p.output = out(h)
    before = h.copy(c.p.output)
    trace = h.list('trace', 'int') if h.sym else []
    if h.sym:
        h.assume(h.len(trace) == 0)
    bad = h.ghost('bad', False) if h.sym else Flag()
    c.p.benchmarkChange = Gauge(c, trace)
    c.p.transport = Measured(trace, bad)
    data = h.bytes('data') if h.sym else h.bytes('data', [b'\0', b'\1', b'\2', b'\0\1', b'\0\1\0\1', b'\1\0\5', b'\0x\1', b'', b'0', b'1'])

    def spec(j):
        b = h.sub(data, j, j + 1) if h.sym else data[j:j + 1]
        return h.Ite(h.eq(b, b'\0'), 11, h.Ite(h.eq(b, b'\1'), 21, 30))
    h.invariant(lambda ctx: [('no stray acknowledgement', h.Not(bad.get())),
                             ('one reaction to each byte', h.eq(h.len(trace), ctx.i)),
                             ('the right one', h.forall_int(0, ctx.i, lambda j: h.eq(h.at(trace, j), spec(j))))])
    o = h.call(c.p.childDataReceived, BenchmarkProcess.BACKCHANNEL_OUT, data)
    h.ensure('taken', o.ok, o)
    h.ensure('one reaction to each byte', h.eq(h.len(trace), h.len(data)))
    h.ensure('START begins and STOP ends the measurement and is acknowledged, anything else asks the child to quit',
             h.And(h.Not(bad.get()), h.forall_int(0, h.len(data), lambda j: h.eq(h.at(trace, j), spec(j)))), trace)
    h.ensure('it is no output', h.list_same(c.p.output, before))
    h.ensure('the inactivity timer starts again', c.timelog == ['reset'])


DISK = ['readCount', 'mergedReadCount', 'readSectorCount', 'readMilliseconds', 'writeCount', 'mergedWriteCount', 'writeSectorCount',
        'writeMilliseconds', 'outstandingIOCount', 'ioMilliseconds', 'weightedIOMilliseconds']
PARTITION = ['readCount', 'readSectorCount', 'writeCount', 'writeSectorCount']


@contract('C28', 'a disk statistics line')
def c_line(h):
    kind = h.choice('text', ['str', 'bytes'])
    names = PARTITION if h.choice('partition', 2) else DISK
    extra = 0 if names is PARTITION else h.choice('further columns', [0, 4, 6])
    counters = [h.int(n, 0) for n in names]
    if h.sym:
        device = h.of(kind, 'device')
    else:
        device = h.choice('device', ['hda', 'sda1', 'nvme0n1p2', 'dm-0', 'loop7'])
        device = device.encode('ascii') if kind == 'bytes' else device
    words = [h.numeral(h.int('major', 0), kind), h.numeral(h.int('minor', 0), kind), device]
    words = words + [h.numeral(n, kind) for n in counters] + [h.numeral(h.int('further %d' % i, 0), kind) for i in range(extra)]
    line = h.words('line', words)
    o = h.call(benchmark.parseDiskStatLine, line)
    if kind == 'bytes' and h.sym and o.raised(UnicodeDecodeError):
        return          # not the name of a device
    h.ensure('the line is read', h.And(o.ok, isinstance(o.value, tuple), len(o.value or ()) == 2), o)
    name, stat = o.value
    h.ensure('the device', h.eq(name, device if kind == 'str' else device.decode('utf-8')))
    h.ensure('the kind of record', type(stat) is (benchmark.partitionstat if names is PARTITION else benchmark.diskstat))
    for n, v in zip(names, counters):
        h.ensure('each counter in its own field', h.eq(getattr(stat, n), v), n)


class Reported(object):
    """stands for a Results command: the arguments it was made with (see C22)"""
    made = []

    def __init__(self, **kw):
        Reported.made.append(self)
        self.kw = kw
        self.done = []

    def do(self, proto, namespace=None, requiresAnswer=True):
        self.done.append(requiresAnswer)


def stats(h, name, cls, fields):
    s = {f: h.int(name + ' ' + f, 0) for f in fields}
    return cls(**s)


def snapshot(h, name):
    p = h.choice(name + ': partition', ['absent', 'partition', 'disk'])
    if p != 'absent':
        p = stats(h, name + ': partition', benchmark.partitionstat, PARTITION) if p == 'partition' else stats(h, name + ': partition', benchmark.diskstat, DISK)
    else:
        p = None
    d = stats(h, name + ': disk', benchmark.diskstat, DISK) if h.choice(name + ': disk', 2) else None
    return benchmark.ResourceSnapshot(time=h.int(name + ': time', 0), disk=d, partition=p, size=h.int(name + ': size', 0))


FIGURES = [('read_count', 'partition', 'readCount'), ('read_sectors', 'partition', 'readSectorCount'), ('write_count', 'partition', 'writeCount'),
           ('write_sectors', 'partition', 'writeSectorCount'), ('read_ms', 'disk', 'readMilliseconds'), ('write_ms', 'disk', 'writeMilliseconds')]


@contract('C28', 'reported results')
def c_report(h):
    before, after = snapshot(h, 'before'), snapshot(h, 'after')
    err, timeout = h.choice('error', 2) == 1, h.choice('timeout', 2) == 1 if not h.sym else False
    sector = h.int('sector size', 1)
    if h.sym:
        h.require(isinstance(benchmark.Results, type) and issubclass(benchmark.Results, juice.Command))
        del Reported.made[:]
        h.patch(benchmark, 'Results', Reported)
    o = h.call(benchmark.formatResults, 'name', sector, before, after, err, timeout)
    h.ensure('results are reported', o.ok, o)
    if h.sym:
        made = Reported.made
        h.ensure('exactly one result is written', len(made) == 1 and made[0].done == [False])
        got = made[0].kw
    else:
        boxes = juice.parseString(o.value)
        h.ensure('exactly one result is written', len(boxes) == 1, o.value)
        got = juice.stringsToObjects(boxes[0], benchmark.Results.arguments, None)
    for key, part, f in FIGURES:
        b, a = getattr(before, part), getattr(after, part)
        v = got.get(key)
        if a is None or b is None:
            h.ensure('absent when the counters were unavailable', v is None, (key, v))
        else:
            h.ensure('the difference after minus before of the matching counter', v is not None and h.eq(v, getattr(a, f) - getattr(b, f)), (key, v))
    h.ensure('the time elapsed', h.eq(got['elapsed'], after.time - before.time))
    h.ensure('the growth of the directory', h.eq(got['filesystem_growth'], after.size - before.size))
    h.ensure('the sector size, the error and the timeout', h.And(h.eq(got['sector_size'], sector), got['error'] == err, got['timeout'] == timeout))
    h.ensure('the name', got['name'] == 'name')


class TextFile(object):
    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(self.lines)


def inside(path, mount):
    return mount == '/' or path == mount or path.startswith(mount + '/')


class Instead(object):
    """a module with some functions replaced"""

    def __init__(self, module, **k):
        self._module = module
        self.__dict__.update(k)

    def __getattr__(self, n):
        return getattr(self._module, n)


PLACES = ['/', '/home', '/home2', '/home/a', '/home/a/b', '/ho', '/srv', '/home/ab']


@search('C28', 'working device')
def s_device(h):
    """bounded: at most five mounts of different places"""
    h.require(hasattr(benchmark, 'discoverCurrentWorkingDevice'))
    r = h.rng
    places = r.sample(PLACES, r.randint(0, 5))
    mounts = h._draw('mounts', lambda: [('/dev/d%d' % i, p) for i, p in enumerate(places)])
    cwd = h.choice('working directory', PLACES)

    def opened(*a, **k):
        return TextFile(['%s %s ext4 rw,relatime 0 0\n' % m for m in mounts])
    h.patch(benchmark, 'os', Instead(os, getcwd=lambda: cwd))
    h.patch(benchmark, 'io', Instead(io, open=opened))
    h.patch(benchmark, 'open', opened)
    o = h.call(benchmark.discoverCurrentWorkingDevice)
    around = [(len(p), d) for d, p in mounts if inside(cwd, p)]
    h.ensure('the device of the innermost mount around the working directory', o.ok and o.value == (max(around)[1] if around else '<unknown>'), o)


@search('C28', 'what a benchmark run reports')
def s_bench(h):
    h.require(hasattr(benchmark, '_bench'))
    r = h.rng
    before, after = snapshot(h, 'before'), snapshot(h, 'after')
    h.patch(benchmark, 'log', Instead(log, msg=lambda *a, **k: None, err=lambda *a, **k: None))
    h.patch(benchmark, 'pprint', Instead(pprint, pprint=lambda *a, **k: None))
    h.patch(benchmark, 'print', lambda *a, **k: None)
    reported = []
    h.patch(benchmark, 'reportResults', reported.append)
    h.patch(benchmark, 'formatResults', lambda *a: a)
    h.patch(benchmark, 'getSectorSize', lambda p: 4096)

    class Done(object):
        pass
    done = Done()
    done.overallChange, done.benchmarkChange = Done(), Done()
    done.overallChange.before, done.overallChange.after = before, after
    done.benchmarkChange.before, done.benchmarkChange.after = after, before
    status = h.choice('status', [0, 0, 1, 256])
    stderr = h.choice('standard error', [[], [b'x'], [b'', b'y']])
    output = [(1, b'out'), (1, None)] + [(2, x) for x in stderr] + [(2, None)]
    d = Deferred()
    benchmark._bench('n', 'path', lambda: d)
    d.callback((done, status, output))
    bad = status != 0 or bool(stderr)
    h.ensure('the whole run and the benchmark proper are reported, as errors exactly when the child failed or complained',
             reported == [('n-overall', 4096, before, after, bad, False), ('n-benchmark', 4096, after, before, bad, False)], reported)
