"""Shared vocabulary of C10-C13 (epsilon/amprouter.py): any number of routes, as
heap objects on which the real Route methods run, with ghost counters."""
import itertools
from pyded.api import Odd
from epsilon.amprouter import Route, Router, RouteNotConnected, _ROUTE


class Recv(Odd):
    """a recording IBoxReceiver (concrete mode)"""

    def __init__(self, log, name, acts=None):
        self.log, self.name = log, name
        self.acts = acts or {}

    def startReceivingBoxes(self, sender):
        self.log.append(('start', self, sender))
        if 'start' in self.acts:
            self.acts['start'](self)

    def ampBoxReceived(self, box):
        self.log.append(('box', self, box, dict(box)))
        if 'box' in self.acts:
            self.acts['box'](self)

    def stopReceivingBoxes(self, reason):
        self.log.append(('stop', self, reason))
        if 'stop' in self.acts:
            self.acts['stop'](self)

    def __repr__(self):
        return '<Recv %s>' % (self.name,)


class Sender(Odd):
    def __init__(self, log):
        self.log = log

    def sendBox(self, box):
        self.log.append(('send', box, dict(box)))

    def unhandledError(self, failure):
        self.log.append(('error', failure))


class World(object):
    """a router with an arbitrary table of arbitrary routes (proof mode)"""

    def __init__(self, h, started):
        self.h = h
        self.log = []
        r = self.router = Router()
        self.find_parts(h, r)
        R = self.R = h.obj_class('Receiver', tag='int')
        P = self.P = h.obj_class('Route', Route, receiver=R.kind, localRouteName='any', remoteRouteName='any',
                                 starts='int', stops='int', reason='val')
        P.attr('router', r)
        self.table = h.dict('routes', 'any', P.kind)
        t0 = self.t0 = h.copy(self.table)
        # class invariant: every route is bound under its own name, and is older than this call
        h.assume(h.forall('any', lambda k: h.Implies(k in t0, h.And(
            h.same(P.get(h.item(t0, k), 'localRouteName'), k), h.Not(P.fresh(h.item(t0, k)))))))
        self.sender = Sender(self.log)
        if started:
            for n, v in self.started.items():
                setattr(r, n, v)
            setattr(r, self.routes_at, self.table)
            setattr(r, self.sender_at, self.sender)
        else:
            setattr(r, self.unstarted_at, self.table)
        self.unspecified = unspecified(h)
        h.root(r)

    def find_parts(self, h, r):
        """where a router keeps its tables, its sender and its counter: read off an empty router, before and after a start"""
        q = Router()
        before = dict(q.__dict__)
        s = Sender([])
        q.startReceivingBoxes(s)
        after = self.started = dict(q.__dict__)
        one = lambda xs: xs[0] if len(xs) == 1 else None
        self.unstarted_at = one([n for n, v in before.items() if isinstance(v, dict)])
        self.routes_at = one([n for n, v in after.items() if isinstance(v, dict)])
        self.sender_at = one([n for n, v in after.items() if v is s])
        self.counter_at = one([n for n, v in before.items() if type(v) is itertools.count])
        h.require(self.unstarted_at and self.routes_at and self.sender_at and getattr(r, self.sender_at, None) is None)
        self.fresh_sender = getattr(r, self.sender_at, None)

    def mapping(self):
        r = self.router
        if getattr(r, self.sender_at, None) is not self.fresh_sender:
            return getattr(r, self.routes_at)
        return getattr(r, self.unstarted_at)

    def get_sender(self):
        return getattr(self.router, self.sender_at)

    def set_sender(self, s):
        setattr(self.router, self.sender_at, s)

    def set_counter(self, c):
        self.h.require(self.counter_at is not None)
        setattr(self.router, self.counter_at, c)
        return c

    def connected(self, p):
        return self.h.Not(self.h.same(self.P.get(p, 'remoteRouteName'), self.unspecified))


def unspecified(h):
    """the value of remoteRouteName of a route that was never connected"""
    return Router().bindRoute(object(), u'x').remoteRouteName
