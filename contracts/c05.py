"""C05: Caseless behaves as its lower-cased text (epsilon/caseless.py)."""
import operator
from pyded.api import contract, search
from epsilon.caseless import Caseless

TEXTS = ['', 'a', 'A', 'B', 'b', 'ab', 'AB', 'aB', 'spam and EGGS', 'Spam And Eggs', 'EGGS', 'eggs', 'Z', '_', '[', '\xc9', '\xe9',
         '\xdf', 'SS', 'ss', '\u0130', 'i\u0307', 'i', 'aAaA', 'AaAa', ' a', 'Content-Type', 'content-type']


def text(h, name):
    return h.str(name, TEXTS)


def low(x):
    return x.lower()


def outcome_same(h, name, got, want):
    if want.ok:
        h.ensure(name + ': same result as on the lower-cased texts', got.ok and h.eq(got.value, want.value), (got, want))
    else:
        h.ensure(name + ': raises as on the lower-cased texts', got.raised(type(want.exc)), (got, want))


def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def eq(a, b): return a == b
def ne(a, b): return a != b
def contains(a, b): return b in a


COMPARE = [('<', lt), ('<=', le), ('>', gt), ('>=', ge), ('==', eq), ('!=', ne), ('contains', contains)]


@contract('C05', 'comparisons and containment')
def c_compare(h):
    a, b = text(h, 'a'), text(h, 'b')
    name, op = h.choice('op', COMPARE)
    other = [b, Caseless(b), Caseless(Caseless(b))][h.choice('wrap', 3)]
    outcome_same(h, name, h.call(op, Caseless(a), other), h.call(op, low(a), low(b)))


def m_startswith(s, *r): return s.startswith(*r)
def m_endswith(s, *r): return s.endswith(*r)
def m_count(s, *r): return s.count(*r)
def m_find(s, *r): return s.find(*r)
def m_index(s, *r): return s.index(*r)
def m_rfind(s, *r): return s.rfind(*r)
def m_rindex(s, *r): return s.rindex(*r)


METHODS = [('startswith', m_startswith), ('endswith', m_endswith), ('count', m_count), ('find', m_find), ('index', m_index),
           ('rfind', m_rfind), ('rindex', m_rindex)]


@contract('C05', 'searching, with bounds')
def c_methods(h):
    a, b = text(h, 'a'), text(h, 'b')
    name, op = h.choice('op', METHODS)
    k = h.choice('bounds', 4)
    if k == 0:
        rest = ()
    elif k == 1:
        rest = (h.int('start', -6, 16) if not h.sym else h.int('start'),)
    elif k == 2:
        rest = (h.int('start', -6, 16), h.int('end', -6, 16)) if not h.sym else (h.int('start'), h.int('end'))
    else:
        rest = (None, h.int('end', -6, 16) if not h.sym else h.int('end'))
    sub = b if h.choice('wrap', 2) == 0 else Caseless(b)
    outcome_same(h, name, h.call(op, Caseless(a), sub, *rest), h.call(op, low(a), low(b), *rest))


@contract('C05', 'tuples of prefixes and suffixes')
def c_tuple(h):
    a = text(h, 'a')
    name, op = h.choice('op', METHODS[:2])
    n = h.choice('n', 4)
    subs = tuple(text(h, 's%d' % i) for i in range(n))
    wrapped = tuple((Caseless(s) if h.choice('w%d' % i, 2) else s) for i, s in enumerate(subs))
    rest = (h.int('start', -3, 12) if not h.sym else h.int('start'),) if h.choice('bounds', 2) else ()
    outcome_same(h, name, h.call(op, Caseless(a), wrapped, *rest), h.call(op, low(a), tuple(low(s) for s in subs), *rest))


@contract('C05', 'equality, order and hash are consistent')
def c_consistent(h):
    a, b = text(h, 'a'), text(h, 'b')
    x, y = Caseless(a), Caseless(b)
    e = h.call(eq, x, y)
    n = h.call(ne, x, y)
    l, g = h.call(lt, x, y), h.call(gt, x, y)
    l2, g2 = h.call(le, x, y), h.call(ge, x, y)
    for o in (e, n, l, g, l2, g2):
        h.ensure('comparisons return', o.ok, o)
    hx, hy = h.call(hash, x), h.call(hash, y)
    h.ensure('hash returns', hx.ok and hy.ok, (hx, hy))
    h.ensure('equal values hash equally', h.Implies(e.value, h.eq(hx.value, hy.value)))
    h.ensure('!= is the negation of ==', h.Iff(n.value, h.Not(e.value)))
    h.ensure('trichotomy', h.And(h.Or(l.value, e.value, g.value), h.Not(h.And(l.value, e.value)),
                                 h.Not(h.And(g.value, e.value)), h.Not(h.And(l.value, g.value))))
    h.ensure('<= is < or ==', h.Iff(l2.value, h.Or(l.value, e.value)))
    h.ensure('>= is > or ==', h.Iff(g2.value, h.Or(g.value, e.value)))
    # equal to the lower-cased text whatever the case of the original
    h.ensure('equality is that of the lower-cased texts', h.Iff(e.value, h.eq(low(a), low(b))))


def d_len(x): return len(x)
def d_str(x): return str(x)
def d_lower(x): return x.lower()
def d_upper(x): return x.upper()
def d_title(x): return x.title()
def d_swap(x): return x.swapcase()


@contract('C05', 'delegation to the wrapped text')
def c_delegate(h):
    a = text(h, 'a')
    x = [Caseless(a), Caseless(Caseless(a))][h.choice('wrap', 2)]
    for name, op in (('len', d_len), ('str', d_str), ('lower', d_lower), ('upper', d_upper), ('title', d_title),
                     ('swapcase', d_swap)):
        got, want = h.call(op, x), h.call(op, a)
        h.ensure(name + ' of the wrapped text', got.ok and h.eq(got.value, want.value), (got, want))
    h.ensure('re-wrapping keeps the text', h.eq(x.cased, a) and not isinstance(x.cased, Caseless))
    i = h.int('i', -30, 30) if not h.sym else h.int('i')
    got, want = h.call(lambda: x[i]), h.call(lambda: a[i])
    if want.ok:
        h.ensure('indexing', got.ok and h.eq(got.value, want.value), (got, want))
    else:
        h.ensure('indexing raises alike', got.raised(IndexError), got)
    lo, hi = (h.int('lo', -8, 12), h.int('hi', -8, 12)) if not h.sym else (h.int('lo'), h.int('hi'))
    got, want = h.call(lambda: x[lo:hi]), h.call(lambda: a[lo:hi])
    h.ensure('slicing', got.ok and h.eq(got.value, want.value), (got, want))


@search('C05', 'all pairs of sample texts', once=True)
def s_pairs(h):
    for a in TEXTS:
        for b in TEXTS:
            h.note('pair', (a, b))
            x, y = Caseless(a), Caseless(b)
            la, lb = a.lower(), b.lower()
            for name, op in COMPARE:
                for o in (b, y):
                    h.ensure(name, op(x, o) == op(la, lb), (a, b))
            for o in (b,):
                for name, op in COMPARE[:6]:
                    h.ensure('reflected ' + name, op(o, x) == op(lb, la), (a, b))
            h.ensure('hash', (hash(x) == hash(y)) or la != lb)
            h.ensure('dict key', ({x: 1}.get(y) == 1) == (la == lb))
            h.ensure('hash of text', hash(x) == hash(la))
            for name, op in METHODS:
                for rest in ((), (0,), (1,), (-2,), (1, 3), (None, 2), (0, -1), (2, None)):
                    for sub in (b, y):
                        got, want = h.call(op, x, sub, *rest), h.call(op, la, lb, *rest)
                        h.ensure(name, got.ok == want.ok and (got.value == want.value) and type(got.exc) == type(want.exc),
                                 (a, b, rest, got, want))
            h.ensure('iteration', list(x) == list(a))
            h.ensure('str', str(x) == a and str(Caseless(x)) == a)
            for tup in ((b,), (b, 'zz'), ('zz', b), ('ZZ', y), ()):
                ltup = tuple(t.lower() for t in tup)
                h.ensure('startswith tuple', x.startswith(tup) == la.startswith(ltup))
                h.ensure('endswith tuple', x.endswith(tup) == la.endswith(ltup))
                h.ensure('startswith tuple bounds', x.startswith(tup, 1) == la.startswith(ltup, 1))
                h.ensure('endswith tuple bounds', x.endswith(tup, 0, 2) == la.endswith(ltup, 0, 2))


@search('C05', 'sorting and dictionaries')
def s_sort(h):
    r = h.rng
    xs = [''.join(r.choice('abAB') for _ in range(r.randint(0, 4))) for _ in range(r.randint(0, 8))]
    h.note('xs', xs)
    h.ensure('sorted', [c.cased.lower() for c in sorted(Caseless(x) for x in xs)] == sorted(x.lower() for x in xs))
    d = {}
    for x in xs:
        d[Caseless(x)] = x
    h.ensure('dictionary has one entry per lower-cased text', len(d) == len(set(x.lower() for x in xs)))
    for x in xs:
        h.ensure('lookup', d.get(Caseless(x.swapcase()), '').lower() == x.lower())
