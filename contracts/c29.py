"""C29: a hotfix is installed when its fault is present, and at most once (epsilon/hotfix.py)."""
import importlib.util, sys, types
import twisted
from twisted.internet import base, defer, task
from twisted.protocols import policies
from twisted.python import filepath
from twisted.test import proto_helpers
from twisted.trial import unittest
from twisted import plugin
import epsilon.hotfixes
from epsilon import hotfix
from pyded.api import contract, search

FIXES = ['filepath_copyTo', 'timeoutmixin_calllater', 'delayedcall_seconds', 'proto_helpers_stringtransport',
         'internet_task_Clock', 'trial_assertwarns', 'plugin_package_paths', 'loopbackasync_reentrancy']
# (the functions this one repairs are gone from the installed Twisted)
GONE = 'deferredgenerator_tfailure'
FIXES.append(GONE)
MODULES = {'internet_task_Clock': 'internet_task_clock'}


class Boom(Exception):
    pass


class Path(object):
    def __init__(self, p):
        self.p = p


class GoodPath(Path):
    def __eq__(self, o):
        return self.p == o.p

    def __ne__(self, o):
        return self.p != o.p
    __hash__ = None


class BadPath(Path):
    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True
    __hash__ = None


class GoodMixin(object):
    def callLater(self, p, f):
        pass


class BadMixin(object):
    pass


class GoodCall(object):
    def __init__(self, time, func, args, kw, cancel, reset, seconds=None):
        pass


class BadCall(object):
    def __init__(self, time, func, args, kw, cancel, reset):
        seconds = None


class GoodTransport(object):
    def write(self, data):
        if isinstance(data, str):
            raise TypeError('text')


class BadTransport(object):
    def write(self, data):
        pass


class BadWait(object):
    def __init__(self, d):
        pass

    def getResult(self):
        return 1


class GoodWait(BadWait):
    def getResult(self):
        return None


def deferredGenerator(f):
    def run():
        for x in f():
            pass
    return run


class GoodCase(object):
    failUnlessWarns = None


class BadCase(object):
    pass


class Version(object):
    def __init__(self, major, minor):
        self.major, self.minor = major, minor


class World(object):
    """a Twisted with any of the faults, and hotfixes that record their installation"""

    def __init__(self, h, faults, failing=None, version=None):
        self.installed = []
        self.faults = faults
        self.failing = failing
        f = faults
        h.patch(filepath, 'FilePath', BadPath if f['filepath_copyTo'] else GoodPath)
        h.patch(policies, 'TimeoutMixin', BadMixin if f['timeoutmixin_calllater'] else GoodMixin)
        h.patch(base, 'DelayedCall', BadCall if f['delayedcall_seconds'] else GoodCall)
        h.patch(proto_helpers, 'StringTransport', BadTransport if f['proto_helpers_stringtransport'] else GoodTransport)
        h.patch(defer, 'waitForDeferred', BadWait if f[GONE] else GoodWait)
        h.patch(defer, 'deferredGenerator', deferredGenerator)
        h.patch(unittest, 'TestCase', BadCase if f['trial_assertwarns'] else GoodCase)
        # a module without the name: an import of it fails
        m = types.ModuleType('twisted.plugin')
        if not f['plugin_package_paths']:
            m.pluginPackagePaths = None
        self.module(h, 'twisted.plugin', m)
        h.patch(twisted, 'plugin', m)
        h.patch(twisted, 'version', version or (Version(8, 1) if f['loopbackasync_reentrancy'] else Version(8, 2)))
        for x in FIXES:
            self.stub(h, x)

    def module(self, h, name, m):
        old = sys.modules.get(name)
        sys.modules[name] = m
        h.cleanup(lambda: sys.modules.__setitem__(name, old) if old is not None else sys.modules.pop(name, None))

    def stub(self, h, x):
        name = MODULES.get(x, x)
        m = types.ModuleType('epsilon.hotfixes.' + name)

        def install():
            self.installed.append(x)
            if self.failing:
                raise Boom(x)
        m.install = install
        if x == 'internet_task_Clock':
            m.clockIsBroken = lambda: self.faults[x]
        self.module(h, 'epsilon.hotfixes.' + name, m)
        h.patch(epsilon.hotfixes, name, m)


def record(h, hotfix):
    """the set of hotfixes taken for installed"""
    s = [(n, v) for n, v in hotfix.__dict__.items() if isinstance(v, set)]
    h.require(len(s) == 1)
    return s[0][0]


def fresh():
    """the module as it is when a process starts"""
    spec = importlib.util.find_spec('epsilon.hotfix')
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known(h, p, n):
    return h.And(h.eq(p, 'twisted'), h.Or(*[h.eq(n, x) for x in FIXES]))


@contract('C29', 'requiring, after any history')
def c_require(h):
    if not h.sym:
        return s_history(h)
    fault = h.choice('fault', 2) == 1
    failing = h.choice('installation fails', 2) == 1
    w = World(h, {x: fault for x in FIXES}, failing)
    hotfix = fresh()
    at = record(h, hotfix)
    p, n = h.str('package'), h.str('fix')
    done = h.set('installed before', ('str', 'str'))
    h.patch(hotfix, at, done)
    before = h.set_copy(done)
    o = h.call(hotfix.require, p, n)
    after = hotfix.__dict__[at]
    had = h.member((p, n), before)
    if w.installed:
        h.ensure('installed only when there is the fault', fault)
        h.ensure('installed once', len(w.installed) == 1)
        h.ensure('not installed again', h.Not(had))
        h.ensure('the hotfix named, and no other', h.And(h.eq(p, 'twisted'), h.eq(n, w.installed[0])))
    if o.ok:
        h.ensure('nothing but what is known is accepted', h.Or(had, known(h, p, n)), o)
        h.ensure('the fault is repaired', bool(w.installed) or not fault or had)
        h.ensure('it is remembered', h.member((p, n), after))
        h.ensure('and nothing else', h.set_same(after, before, (p, n)))
    else:
        h.ensure('what is installed is not refused', h.Not(had), o)
        if w.installed and failing:
            h.ensure('the failure of an installation is reported', o.raised(Boom), o)
        else:
            h.ensure('what is unknown is refused', h.And(o.raised(hotfix.NoSuchHotfix), h.Not(known(h, p, n))), o)
            h.ensure('naming what was asked for', h.And(len(o.exc.args) == 2, h.eq(o.exc.args[0], p), h.eq(o.exc.args[1], n)), o)
        h.ensure('what failed is not taken for installed', h.set_same(after, before))


@contract('C29', 'each hotfix by its own fault')
def c_own(h):
    """every combination of the fault asked about and of the others"""
    x = h.choice('fix', FIXES)
    fault = h.choice('fault', 2) == 1
    others = h.choice('other faults', 2) == 1
    faults = {y: others for y in FIXES}
    faults[x] = fault
    w = World(h, faults)
    hotfix = fresh()
    o = h.call(hotfix.require, 'twisted', x)
    h.ensure('accepted', o.ok, o)
    h.ensure('installed exactly when there is the fault', w.installed == ([x] if fault else []), w.installed)
    times = h.choice('times', 3)
    for _ in range(times):
        o = h.call(hotfix.require, 'twisted', x)
        h.ensure('accepted again', o.ok, o)
    h.ensure('and once, however often required', w.installed == ([x] if fault else []), w.installed)
    faults[x] = True
    h.ensure('distinct hotfixes are independent', h.call(hotfix.require, 'twisted', FIXES[0]).ok
             and w.installed == ([x] if fault else []) + ([FIXES[0]] if faults[FIXES[0]] and x != FIXES[0] else []), w.installed)


@contract('C29', 'versions')
def c_version(h):
    """the fault of loopbackAsync is told by the version: it was repaired in 8.2"""
    a, b = h.int('major', 0, 40), h.int('minor', 0, 40)
    w = World(h, {x: False for x in FIXES}, version=Version(a, b))
    hotfix = fresh()
    o = h.call(hotfix.require, 'twisted', 'loopbackasync_reentrancy')
    h.ensure('accepted', o.ok, o)
    h.ensure('installed before 8.2 only', h.Iff(len(w.installed) == 1, h.Or(a < 8, h.And(h.eq(a, 8), b < 2))))


@contract('C29', 'detecting a broken clock')
def c_clock(h):
    from epsilon.hotfixes import internet_task_clock
    broken = h.choice('broken', 2) == 1

    class Clock(object):
        def __init__(self):
            self.calls = []

        def callLater(self, when, f):
            self.calls.append((when, object()))
            if broken:
                self.calls.sort(key=lambda c: -c[0])
                return self.calls[0][1]
            return self.calls[-1][1]
    h.patch(internet_task_clock, 'Clock', Clock)
    o = h.call(internet_task_clock.clockIsBroken)
    h.ensure('the fault is told', o.ok and o.value is broken, o)


@search('C29', 'histories')
def s_history(h):
    r = h.rng
    faults = {x: r.random() < .5 for x in FIXES}
    w = World(h, faults)
    hotfix = fresh()
    done = set()
    ops = h.inputs['ops'] = []
    for _ in range(r.randint(1, 14)):
        p = r.choice(['twisted'] * 5 + ['epsilon'])
        n = r.choice(FIXES + ['unknown'])
        w.failing = r.random() < .2
        ops.append((p, n, w.failing))
        h.inputs['faults'] = faults
        del w.installed[:]
        o = h.call(hotfix.require, p, n)
        if p != 'twisted' or n == 'unknown':
            h.ensure('refused', o.raised(hotfix.NoSuchHotfix) and not w.installed, (ops, o))
        elif n in done:
            h.ensure('nothing more to do', o.ok and not w.installed, (ops, o))
        elif faults[n] and w.failing:
            h.ensure('its failure is reported', o.raised(Boom) and w.installed == [n], (ops, o))
        else:
            h.ensure('installed when needed', o.ok and w.installed == ([n] if faults[n] else []), (ops, w.installed, o))
            done.add(n)


@search('C29', 'this Twisted', once=True)
def s_real(h):
    """the installed Twisted has none of these faults: requiring changes nothing"""
    hotfix = fresh()
    seen = [(c, dict(c.__dict__)) for c in (filepath.FilePath, policies.TimeoutMixin, base.DelayedCall, proto_helpers.StringTransport, task.Clock, unittest.TestCase, plugin)]
    for x in FIXES:
        if x != GONE:
            o = h.call(hotfix.require, 'twisted', x)
            h.ensure('accepted', o.ok, (x, o))
    for c, d in seen:
        h.ensure('nothing is changed', {k: v for k, v in c.__dict__.items() if not k.startswith('__')} == {k: v for k, v in d.items() if not k.startswith('__')}, c)
