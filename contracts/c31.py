"""C31: the effect of a service lasts exactly while it runs (epsilon/cooperator.py, epsilon/spewer.py)."""
import signal

from twisted.internet import reactor, task
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from pyded.api import contract, search
from epsilon import cooperator
from epsilon.cooperator import SchedulerStopped, SchedulingService, iterateInReactor
from epsilon.spewer import SignalService


# ------------------------------------------------------------------ signals
def handlers(h):
    """the handlers in force, any number of signals; every signal has one"""
    now = h.dict('in force', 'int', 'any')

    def install(sig, handler):
        if sig not in now:
            raise ValueError('signal number out of range')
        old = now[sig]
        now[sig] = handler
        return old
    h.patch(signal, 'signal', h.callable(install, 'signal.signal') if h.sym else install)
    return now


def kept(service, given):
    """where the service keeps the handlers it replaced"""
    ds = [d for n, d in sorted(vars(service).items()) if isinstance(d, dict) and d is not given]
    return ds[0] if len(ds) == 1 else None


@contract('C31', 'signals, while the service runs and after')
def c_signals(h):
    """any handlers, any signals; anything may change while the service runs"""
    if not h.sym:
        return s_signals(h)
    now, given = handlers(h), h.dict('handlers', 'int', 'any')
    h.assume(h.forall('int', lambda k: h.Implies(k in given, k in now)))
    now0, given0 = h.copy(now), h.copy(given)
    s = SignalService(given)
    h.root(s)
    h.ensure('making the service changes nothing', h.dict_same(now, now0))

    phase = ['starting']

    def starting(ctx):
        if phase[0] != 'starting':
            return []
        old = kept(s, given)
        h.require(old is not None)
        met = lambda k: h.And(k in given0, ctx.pos(k) < ctx.i)
        return [('the handlers of the signals met are in force', h.forall('int', lambda k: h.Implies(met(k), h.And(k in now, h.same(h.item(now, k), h.item(given0, k)))))),
                ('the other signals are as they were', h.forall('int', lambda k: h.Implies(h.Not(met(k)), h.And(
                    h.Iff(k in now, k in now0), h.Implies(k in now0, h.same(h.item(now, k), h.item(now0, k))))))),
                ('the handlers replaced are kept', h.forall('int', lambda k: h.And(
                    h.Iff(k in old, met(k)), h.Implies(met(k), h.same(h.item(old, k), h.item(now0, k))))))]
    h.invariant(starting)
    o = h.call(s.startService)
    h.ensure('started', o.ok, o)
    h.ensure('it says that it runs', s.running)
    h.ensure('the handlers given are in force', h.forall('int', lambda k: h.Implies(k in given0, h.same(h.item(now, k), h.item(given0, k)))))
    h.ensure('the other signals are as they were', h.forall('int', lambda k: h.Implies(h.Not(k in given0), h.And(
        h.Iff(k in now, k in now0), h.Implies(k in now0, h.same(h.item(now, k), h.item(now0, k)))))))
    h.ensure('the handlers given are as they were', h.dict_same(given, given0))
    phase[0] = 'stopping'
    # anybody installs handlers, and the mapping given is changed
    h.havoc_dict(now)
    h.havoc_dict(given)
    h.assume(h.forall('int', lambda k: h.Implies(k in now0, k in now)))
    now1 = h.copy(now)

    def stopping(ctx):
        met = lambda k: h.And(k in given0, ctx.pos(k) < ctx.i)
        return [('the signals met have their handlers back', h.forall('int', lambda k: h.Implies(met(k), h.And(k in now, h.same(h.item(now, k), h.item(now0, k)))))),
                ('the other signals are as they were', h.forall('int', lambda k: h.Implies(h.Not(met(k)), h.And(
                    h.Iff(k in now, k in now1), h.Implies(k in now1, h.same(h.item(now, k), h.item(now1, k)))))))]
    h.invariant(stopping)
    o = h.call(s.stopService)
    h.ensure('stopped', o.ok, o)
    h.ensure('it says that it does not run', not s.running)
    h.ensure('every handler replaced is back', h.forall('int', lambda k: h.Implies(k in given0, h.And(k in now, h.same(h.item(now, k), h.item(now0, k))))))
    h.ensure('no other handler is touched', h.forall('int', lambda k: h.Implies(h.Not(k in given0), h.And(
        h.Iff(k in now, k in now1), h.Implies(k in now1, h.same(h.item(now, k), h.item(now1, k)))))))


def s_signals(h):
    r = h.rng
    falsy = [0, 1, None, (), '']
    now = dict((n, [r.choice([signal.SIG_DFL, signal.SIG_IGN, object()])][0]) for n in range(1, 9))

    def install(sig, handler):
        old = now[sig]
        now[sig] = handler
        return old
    h.patch(signal, 'signal', install)
    given = dict((n, r.choice([signal.SIG_DFL, signal.SIG_IGN, object()])) for n in r.sample(range(1, 9), r.randint(0, 6)))
    h.note('signals', sorted(given))
    s = SignalService(given)
    for turn in range(r.randint(1, 3)):
        before, given0 = dict(now), dict(given)
        s.startService()
        h.ensure('runs', s.running)
        h.ensure('the handlers given are in force, the others are as they were', now == dict(before, **{}) | given0, (now, given0))
        for n in list(now):
            if r.random() < .3:
                now[n] = object()
        if r.random() < .5:
            given[r.randint(1, 8)] = object()
        if r.random() < .3 and given:
            del given[r.choice(sorted(given))]
        mid = dict(now)
        s.stopService()
        h.ensure('runs no more', not s.running)
        h.ensure('exactly the handlers replaced are back', now == mid | dict((n, before[n]) for n in given0), now)


@search('C31', 'signal services')
def s_h(h):
    s_signals(h)


# --------------------------------------------------------------- scheduling
class Coop(object):
    """what a service may rely on of a Cooperator: it runs from start to stop, and runs what it is given"""

    def __init__(self, *a, **kw):
        self.started = [('made', a, kw)]
        if a:
            self.real = task.Cooperator(*a, **kw)
            kw = dict(started=self.real._started)
        self.running = kw.get('started', True)
        self.given, self.calls = [], []
        made.append(self)

    def coiterate(self, iterator, doneDeferred=None):
        d = doneDeferred if doneDeferred is not None else Deferred()
        self.given.append((iterator, d, self.running))
        return d

    def cooperate(self, iterator):
        d = self.coiterate(iterator)

        class Task(object):
            def whenDone(me):
                return d
        return Task()

    def start(self):
        self.calls.append('start')
        self.running = True

    def stop(self):
        self.calls.append('stop')
        self.running = False


made = []


@contract('C31', 'a scheduling service drives its cooperator')
def c_coop(h):
    """any iterator, before the service starts, while it runs, after it stopped; the Cooperator by its contract"""
    del made[:]
    h.patch(cooperator, 'Cooperator', Coop)
    s = SchedulingService()
    h.ensure('one cooperator, which does not run yet', len(made) == 1 and not made[0].running)
    c = made[0]
    for turn in range(h.choice('turns', 3)):
        work = h.val('work')
        when = h.choice('added', ['before', 'running'])
        if when == 'running':
            o = h.call(s.startService)
        o2 = h.call(s.addIterator, work)
        if when != 'running':
            h.ensure('adding does not start the service', c.calls == ['start', 'stop'] * turn)
            o = h.call(s.startService)
        h.ensure('started', o.ok and s.running and c.running, o)
        h.ensure('started once', c.calls == ['start', 'stop'] * turn + ['start'], c.calls)
        h.ensure('the work is given to the cooperator once', o2.ok and len(c.given) == turn + 1 and h.same(c.given[turn][0], work), o2)
        h.ensure('and its Deferred handed out', o2.ok and o2.value is c.given[turn][1])
        o = h.call(s.stopService)
        h.ensure('stopped', o.ok and not s.running and not c.running, o)
        h.ensure('stopped once', c.calls == ['start', 'stop'] * (turn + 1), c.calls)
    h.ensure('no other cooperator', len(made) == 1)


@contract('C31', 'iterating in the reactor')
def c_iter(h):
    """any iterator goes to the global cooperator, whatever the delay"""
    d, got = Deferred(), []

    def coiterate(*a):
        got.append(a)
        return d
    h.patch(cooperator, 'coiterate', h.callable(coiterate, 'coiterate') if h.sym else coiterate)
    work = h.val('work')
    o = h.call(iterateInReactor, work, *([h.val('delay')] if h.choice('delayed', 2) else []))
    h.ensure('given to the cooperator once', len(got) == 1 and len(got[0]) == 1 and h.same(got[0][0], work), got)
    h.ensure('its Deferred is the result', o.ok and o.value is d, o)


@search('C31', 'scheduled work')
def s_work(h):
    """real cooperators on a simulated clock"""
    r = h.rng
    clock = task.Clock()
    h.patch(reactor, 'callLater', clock.callLater)
    s = SchedulingService()
    jobs, on, ever = [], False, False
    for _ in range(r.randint(1, 12)):
        what = r.choice(['add', 'add', 'turn', 'turn', 'switch'])
        h.note('step', what)
        if what == 'add':
            n = r.randint(0, 4)
            job = dict(left=n, out=[], n=n)

            def work(job=job):
                while job['left']:
                    job['left'] -= 1
                    yield None
            i = work()
            job['it'] = i
            s.addIterator(i).addBoth(job['out'].append)
            jobs.append(job)
            if not on and ever:
                h.ensure('work for a stopped service fails', len(job['out']) == 1 and job['out'][0].check(SchedulerStopped), job['out'])
        elif what == 'turn':
            before = [j['left'] for j in jobs]
            clock.advance(1)
            if not on:
                h.ensure('nothing advances while the service does not run', before == [j['left'] for j in jobs], before)
        else:
            if on:
                s.stopService()
                # (which of the tasks a stopping Cooperator fails is up to it)
                for j in jobs:
                    h.ensure('results are the iterator or SchedulerStopped', all(
                        x is j['it'] and j['left'] == 0 or isinstance(x, Failure) and x.check(SchedulerStopped) for x in j['out']), j['out'])
            elif ever:
                # (what a Cooperator that is started again does with what it was stopped with is up to it)
                break
            else:
                s.startService()
                ever = True
            on = not on
            h.ensure('it says whether it runs', bool(s.running) == on, s.running)
    if on:
        for _ in range(40):
            clock.advance(1)
        for j in jobs:
            h.ensure('everything is done, each result the iterator', len(j['out']) == 1 and (j['out'][0] is j['it'] or isinstance(j['out'][0], Failure)), j['out'])
            h.ensure('work is done', isinstance(j['out'][0], Failure) or j['left'] == 0)
    for j in jobs:
        h.ensure('one outcome at most', len(j['out']) <= 1)
