"""C09: react runs the reactor until main is done and stops it once (epsilon/react.py)."""
from twisted.internet.defer import Deferred
from twisted.python import log
from twisted.python.failure import Failure
from pyded.api import contract, search, Odd
from epsilon.react import react


class Boom(Exception):
    pass


class Reactor(Odd):
    """a reactor that runs a script of events"""

    def __init__(self, script):
        self.script = script
        self.running = False
        self.runs = 0
        self.stops = []          # (was running, was shutting down) at each request to stop
        self.shuttingDown = False
        self.pendingStop = False
        self.queue = []
        self.triggers = {'before': [], 'during': [], 'after': []}

    def addSystemEventTrigger(self, phase, event, f, *a, **k):
        assert event == 'shutdown'
        self.triggers[phase].append((f, a, k))
        return (phase, f, a, k)

    def removeSystemEventTrigger(self, t):
        self.triggers[t[0]].remove(t[1:])

    def callWhenRunning(self, f, *a, **k):
        if self.running:
            f(*a, **k)
        else:
            self.queue.append((f, a, k))

    def callLater(self, delay, f, *a, **k):
        self.script.insert(0, lambda: f(*a, **k))

    def stop(self):
        self.stops.append((self.running, self.shuttingDown or self.pendingStop))
        self.pendingStop = True

    def externalStop(self):
        """a shutdown that somebody else asked for"""
        self.pendingStop = True

    def run(self):
        self.runs += 1
        self.running = True
        while self.queue:
            f, a, k = self.queue.pop(0)
            f(*a, **k)
        while self.script and not self.pendingStop:
            self.script.pop(0)()
        self.shuttingDown = True
        for phase in ('before', 'during', 'after'):
            for f, a, k in list(self.triggers[phase]):
                f(*a, **k)
        while self.script:
            self.script.pop(0)()
        self.running = False


WHEN = ['before main returns', 'while running', 'in a shutdown trigger', 'after a shutdown began', 'never']


@contract('C09', 'react')
def c_react(h):
    when = h.choice('main is done', WHEN)
    fails = h.choice('main fails', 2)
    phase = h.choice('phase', ['before', 'during', 'after']) if when == 'in a shutdown trigger' else 'before'
    argv = h.list('argv', 'any') if h.sym else h.list('argv', 'any', 0, 3)
    value = h.any('value')
    d = Deferred()
    calls = []
    logged = []

    def done():
        if fails:
            d.errback(Failure(Boom()))
        else:
            d.callback(value)
    script = []
    reactor = Reactor(script)

    def main(r, *args):
        calls.append((r, args))
        if when == 'before main returns':
            done()
        elif when == 'in a shutdown trigger':
            r.addSystemEventTrigger(phase, 'shutdown', done)
        return d
    if when == 'while running':
        script.append(done)
    elif when == 'never' or when == 'in a shutdown trigger':
        script.append(reactor.externalStop)
    elif when == 'after a shutdown began':
        script.append(reactor.externalStop)
        script.append(done)

    def observe(e):
        if e.get('isError'):
            logged.append(e['failure'].type)
    log.addObserver(observe)
    try:
        o = h.call(react, reactor, main, argv)
    finally:
        log.removeObserver(observe)
    h.ensure('react returns None', o.ok and o.value is None, o)
    h.ensure('main is called once with the reactor', len(calls) == 1 and calls[0][0] is reactor)
    h.ensure('and the given arguments', h.list_same(calls[0][1], argv))
    h.ensure('the reactor is run once', reactor.runs == 1)
    if when in ('before main returns', 'while running'):
        h.ensure('the reactor is asked to stop exactly once, while running', reactor.stops == [(True, False)])
    else:
        h.ensure('it is not asked to stop when already shutting down', reactor.stops == [])
    h.ensure('a failure is logged once, a result never', logged == ([Boom] if fails and when != 'never' else []))


@contract('C09', 'main raises')
def c_raises(h):
    """an exception from main itself propagates and the reactor is not run"""
    reactor = Reactor([])
    argv = h.list('argv', 'any') if h.sym else h.list('argv', 'any', 0, 3)

    def main(r, *args):
        raise Boom()
    o = h.call(react, reactor, main, argv)
    h.ensure('the exception of main propagates', o.raised(Boom), o)
    h.ensure('nothing is asked to stop', reactor.stops == [])


@search('C09', 'scripts')
def s_scripts(h):
    r = h.rng
    d = Deferred()
    logged = []
    ev = {'done': None, 'shutdown': None}
    clock = [0]
    script = []
    reactor = Reactor(script)
    fails = r.random() < .5

    def done():
        if ev['done'] is None:
            clock[0] += 1
            ev['done'] = clock[0]
            ev['down'] = reactor.shuttingDown
            if fails:
                d.errback(Failure(Boom()))
            else:
                d.callback(r.choice([None, 0, 'x']))

    def ext():
        if not reactor.pendingStop:
            clock[0] += 1
            ev['shutdown'] = clock[0]
            reactor.externalStop()
    names = []
    for _ in range(r.randint(0, 4)):
        f = r.choice([done, ext, lambda: None])
        names.append(getattr(f, '__name__'))
        script.append(f)
    sync = r.random() < .3
    trig = r.choice([None, 'before', 'during', 'after'])
    h.note('script', (sync, trig, names, fails))
    args = [object() for _ in range(r.randint(0, 3))]
    got = []

    def main(re, *a):
        got.append((re, a))
        if trig:
            re.addSystemEventTrigger(trig, 'shutdown', done)
        if sync:
            done()
        return d
    observe = lambda e: logged.append(e['failure'].type) if e.get('isError') else None
    log.addObserver(observe)
    try:
        o = h.call(react, reactor, main, args)
    finally:
        log.removeObserver(observe)
    h.ensure('returns', o.ok and o.value is None, o)
    h.ensure('main once', got == [(reactor, tuple(args))])
    h.ensure('run once', reactor.runs == 1)
    if ev['done'] is None or ev['down'] or (ev['shutdown'] and ev['shutdown'] < ev['done']):
        if ev['done'] is None or ev['down']:
            h.ensure('not asked', reactor.stops == [], reactor.stops)
    else:
        h.ensure('asked once while running', reactor.stops == [(True, False)], reactor.stops)
    h.ensure('logging', logged == ([Boom] if fails and ev['done'] is not None else []), logged)
