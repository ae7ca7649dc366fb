"""What contract modules use.  A contract is written once and executed two ways:

 * proof mode (`Sym`): on the instrumented real code, over symbolic values; every
   `ensure` is a verification condition for all inputs;
 * concrete mode (`Conc`): on the unmodified real code, over values drawn from a
   random generator or from a solver counter-model; `ensure` is evaluated.

`search` functions are concrete-only trials against the unmodified code.
"""
import random, sys, traceback

import os


def findings(prop):
    """known findings of a property: lines "KNOWN property=<id> key=<key> :: <text>"""
    out = {}
    try:
        for line in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')):
            line = line.strip()
            pre = 'KNOWN property=%s key=' % prop
            if line.startswith(pre):
                key, sep, text = line[len(pre):].partition(' :: ')
                out[key] = text
    except OSError:
        pass
    return out


CONTRACTS = {}       # property -> [Contract]
SEARCHES = {}        # property -> [Search]


class Contract(object):
    def __init__(self, prop, name, fn, symbolic=True, concrete=True, functions=(), timeout=None):
        self.prop, self.name, self.fn = prop, name, fn
        self.symbolic, self.concrete = symbolic, concrete
        self.functions = functions
        self.timeout = timeout


class Search(object):
    def __init__(self, prop, name, fn, once, weight):
        self.prop, self.name, self.fn, self.once, self.weight = prop, name, fn, once, weight


def contract(prop, name, **kw):
    def d(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, fn, **kw))
        return fn
    return d


def search(prop, name, once=False, weight=1.0):
    def d(fn):
        SEARCHES.setdefault(prop, []).append(Search(prop, name, fn, once, weight))
        return fn
    return d


class Outcome(object):
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return 'returned %r' % (self.value,) if self.ok else 'raised %r' % (self.exc,)


class Violation(Exception):
    """a concrete failing input"""

    def __init__(self, name, info=''):
        Exception.__init__(self, '%s %s' % (name, info))
        self.name, self.info = name, info


class Discard(Exception):
    """the drawn input is outside the precondition"""


class Obj(object):
    """an opaque value"""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return '<Obj %s>' % (self.tag,)


class Odd(object):
    """Base of objects a user provides, about whose truth nothing is known."""
    world = None
    _truth = None

    def __bool__(self):
        if self._truth is None:
            w = Odd.world
            self._truth = True
            self._truth = w.choice('truth of an object', 2) == 0
        return self._truth


class Conc(object):
    sym = False

    def __init__(self, rng, model=None):
        self.rng = rng
        self.model = model or {}
        self.inputs = {}
        self.checked = 0
        self.cleanups = []
        self.swallowed = None

    # ------------------------------------------------------------------ draws
    def _name(self, name):
        n = name
        k = 1
        while n in self.inputs:
            k += 1
            n = '%s#%d' % (name, k)
        return n

    def _draw(self, name, gen):
        n = self._name(name)
        if n in self.model and self.model[n] is not None:
            v = self.model[n]
        else:
            v = gen()
        self.inputs[n] = v
        return v

    def int(self, name, lo=None, hi=None):
        def gen():
            r = self.rng
            if lo is not None and hi is not None:
                if r.random() < 0.15:
                    return r.choice([lo, hi])
                return r.randint(lo, hi)
            a = lo if lo is not None else (hi - 40 if hi is not None else -12)
            b = hi if hi is not None else a + 40
            if r.random() < 0.1:
                b = b if hi is not None else a + 10 ** r.randint(2, 9)
                a = a if lo is not None else b - 10 ** r.randint(2, 9)
            return r.randint(a, b)
        v = self._draw(name, gen)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def bool(self, name):
        return self._draw(name, lambda: self.rng.random() < 0.5)

    def real(self, name, lo=None, hi=None):
        return self._draw(name, lambda: self.rng.uniform(lo if lo is not None else -1e6, hi if hi is not None else 1e6))

    TEXTS = ['', 'a', 'A', 'b', 'ab', 'Ab', 'key', 'KEY', 'x', '_', 'name', 'a b', ' a', 'a ', '0', '1', '10', 'None',
             'a\n', '\r\n', 'a: b', '\xe9', '\u1234x', '-', ':', 'z' * 70]

    def str(self, name, pool=None):
        def gen():
            r = self.rng
            if pool is not None:
                return r.choice(pool)
            if r.random() < 0.6:
                return r.choice(self.TEXTS)
            return ''.join(r.choice('abAB01 -:\r\n_\xe9\x00') for _ in range(r.randint(0, 6)))
        return self._draw(name, gen)

    def bytes(self, name, pool=None):
        def gen():
            r = self.rng
            if pool is not None:
                return r.choice(pool)
            return bytes(r.choice([0, 1, 13, 10, 58, 97, 98, 65, 255, 128]) for _ in range(r.randint(0, 6)))
        return self._draw(name, gen)

    def val(self, name):
        """an arbitrary (non-None) value with no structure the code may use"""
        return self._draw(name, lambda: self._val(name))

    def _val(self, name):
        r = self.rng
        return r.choice([Obj(name), Obj(name + "'"), 0, 1, '', 'v', (), (1,), False, True, b'', 3.5])

    def any(self, name):
        return self._draw(name, lambda: self.rng.choice([None, 0, 1, '', 'x', b'', b'y', False, True, Obj(name), Obj(name)]))

    def of(self, kind, name):
        return getattr(self, kind)(name)

    def list(self, name, kind='val', lo=0, hi=6):
        def gen():
            return [self._of(kind, '%s[%d]' % (name, i)) for i in range(self.rng.randint(lo, hi))]
        return list(self._draw(name, gen))

    def _of(self, kind, name):
        if isinstance(kind, tuple):
            return tuple(self._of(k, name) for k in kind)
        sub = Conc(self.rng)
        return getattr(sub, kind)(name)

    def dict(self, name, kk='str', vk='val', hi=5):
        def gen():
            d = {}
            for i in range(self.rng.randint(0, hi)):
                d[self._of(kk, 'k%d' % i)] = self._of(vk, '%s{%d}' % (name, i))
            return d
        return dict(self._draw(name, gen))

    def choice(self, name, n):
        if not isinstance(n, int):
            return n[self.choice(name, len(n))]
        return self._draw(name, lambda: self.rng.randrange(n))

    # ----------------------------------------------------------------- logic
    def assume(self, c):
        if not c:
            raise Discard()

    def ensure(self, name, c, info=''):
        self.checked += 1
        if not c:
            v = Violation(name, info)
            if self.swallowed is None:
                self.swallowed = v      # in case the code under test catches it
            raise v

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def Ite(self, c, a, b):
        return a if c else b

    def forall_int(self, lo, hi, fn):
        return all(fn(i) for i in range(lo, hi))

    def exists_int(self, lo, hi, fn):
        return any(fn(i) for i in range(lo, hi))

    def words(self, name, tokens):
        """a text whose blank-separated words are these"""
        r = self.rng
        b = isinstance(tokens[0], bytes)
        blank = lambda lo: ''.join(r.choice(' \t ') for _ in range(r.randint(lo, 3)))
        x = blank(0)
        for i, t in enumerate(tokens):
            x += (blank(1) if i else '') + (t.decode('latin-1') if b else t)
        x += r.choice(['', '\n', ' \n'])
        return self._draw(name, lambda: x.encode('latin-1') if b else x)

    def numeral(self, n, kind='str'):
        t = '%d' % n
        return t.encode('ascii') if kind == 'bytes' else t

    def len(self, x):
        return len(x)

    def at(self, xs, i):
        return xs[i] if 0 <= i < len(xs) else None

    def item(self, d, k):
        """d[k] if there, anything otherwise"""
        return d.get(k)

    def same(self, a, b):
        return a is b

    def eq(self, a, b):
        return a is b or a == b

    def key(self, name, kind='str'):
        return getattr(self, kind)(name)

    def copy(self, c):
        return c.copy()

    def dict_same(self, a, b, but=()):
        """same keys and identical values, except for the keys in `but`"""
        ka = [k for k in a if not any(k == x for x in but)]
        kb = [k for k in b if not any(k == x for x in but)]
        return set(ka) == set(kb) and all(a[k] is b[k] or a[k] == b[k] for k in ka)

    def set_copy(self, s):
        return set(s)

    def member(self, x, s):
        return x in s

    def set_same(self, a, b, *but):
        return set(a) - set(but) == set(b) - set(but)

    def cleanup(self, fn):
        self.cleanups.append(fn)

    def list_same(self, a, b):
        return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))

    # ------------------------------------------------------------------ calls
    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (Violation, Discard):
            raise
        except Exception as e:
            return Outcome(None, e)

    def callable(self, fn, name='stub'):
        return fn

    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        setattr(obj, name, value)
        self.cleanups.append(undo)

    def invariant(self, fn):
        pass

    def root(self, *objs):
        pass

    def require(self, c, why='the internal representation this contract speaks about has changed'):
        """the contract applies only if c"""
        if not c:
            raise Discard()

    def cover(self, name):
        pass

    def done(self):
        for c in reversed(self.cleanups):
            c()
        self.cleanups = []


class Trial(Conc):
    """argument of search functions"""
    i = 0
    thorough = False

    findings = {}       # key -> text, of the known findings of this property
    seen = set()

    def known(self, key, still, name, ok, info=''):
        """`ok` must hold, unless this is the listed finding `key`, failing exactly as listed (`still`)"""
        if not ok and still and key in self.findings:
            self.seen.add(key)
            return
        self.ensure(name, ok, info)

    def note(self, name, v):
        self.inputs[name] = v
        return v
