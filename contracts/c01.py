"""C01: SlicedView is exactly the slice (epsilon/view.py)."""
from pyded.api import contract, search
from epsilon.view import SlicedView


def bounds(h, tag, step=True):
    part = [None if (p == 'step' and not step) or h.choice('%s.%s given' % (tag, p), 2) == 0
            else h.int('%s.%s' % (tag, p)) for p in ('start', 'stop', 'step')]
    if part[2] is not None:
        h.assume(h.Not(h.eq(part[2], 0)))
    return slice(part[0], part[1], part[2])


def agrees(h, view, expected, i, what):
    got = h.call(lambda: view[i])
    n = h.len(expected)
    if h.And(-n <= i, i < n):
        h.ensure(what + ': in-range index yields an element', got.ok, got)
        h.ensure(what + ': the i-th element of the slice', got.ok and h.same(got.value, expected[i]), got)
    else:
        h.ensure(what + ': other index raises IndexError', got.raised(IndexError), got)


@contract('C01', 'length')
def c_len(h):
    seq = h.list('seq')
    b = bounds(h, 'b')
    v = SlicedView(seq, b)
    expected = seq[b]
    o = h.call(lambda: len(v))
    h.ensure('len returns', o.ok, o)
    h.ensure('length of the slice', h.eq(o.value, h.len(expected)), o)


@contract('C01', 'index')
def c_index(h):
    seq = h.list('seq')
    b = bounds(h, 'b')
    agrees(h, SlicedView(seq, b), seq[b], h.int('i'), 'view[i]')


@contract('C01', 'compose')
def c_compose(h):
    """a slice of a view is the slice of that slice; with the contract above this
    carries over to any depth, since a view is itself such a sequence"""
    seq = h.list('seq')
    b, c = bounds(h, 'b', step=h.thorough or not h.sym), bounds(h, 'c')
    o = h.call(lambda: SlicedView(seq, b)[c])
    h.ensure('slicing returns', o.ok, o)
    v = o.value
    h.ensure('slicing a view yields a view', isinstance(v, SlicedView))
    # its underlying sequence is that view and its bounds are that slice: the contract `index` applies to it
    e = seq[b][c]
    n = h.call(lambda: len(v))
    h.ensure('composed length', n.ok and h.eq(n.value, h.len(e)), n)
    agrees(h, v, e, h.int('i'), 'view[c][i]')


@contract('C01', 'live')
def c_live(h):
    """the view reads the sequence at access time"""
    seq = h.list('seq')
    b = bounds(h, 'b')
    v = SlicedView(seq, b)
    h.call(lambda: len(v))
    h.call(lambda: v[h.int('j')])
    seq.append(h.val('new'))
    agrees(h, v, seq[b], h.int('i'), 'after append')
    n = h.call(lambda: len(v))
    h.ensure('length after append', n.ok and h.eq(n.value, h.len(seq[b])), n)


@contract('C01', 'zero step')
def c_zero(h):
    seq = h.list('seq')
    v = SlicedView(seq, slice(h.int('a'), h.int('b'), 0))
    h.ensure('a zero step raises ValueError', h.call(lambda: v[h.int('i')]).raised(ValueError))


@search('C01', 'enumerate small sequences', once=True)
def s_enum(h):
    vals = [None, -4, -3, -2, -1, 0, 1, 2, 3, 4]
    for n in range(0, 5):
        seq = list(range(100, 100 + n))
        for a in vals:
            for b in vals:
                for st in (None, -3, -2, -1, 1, 2, 3):
                    sl = slice(a, b, st)
                    v = SlicedView(seq, sl)
                    e = seq[sl]
                    h.note('case', (n, sl))
                    h.ensure('length', len(v) == len(e), (len(v), len(e)))
                    for i in range(-len(e) - 2, len(e) + 2):
                        try:
                            x = e[i]
                        except IndexError:
                            h.ensure('IndexError', h.call(lambda: v[i]).raised(IndexError), (i,))
                        else:
                            h.ensure('element', h.call(lambda: v[i]).value == x, (i,))


class Seq(object):
    """a sequence that is not a list"""
    def __init__(self, l):
        self.l = l

    def __len__(self):
        return len(self.l)

    def __getitem__(self, i):
        return self.l[i]


@search('C01', 'deep composition and mutation')
def s_deep(h):
    r = h.rng
    seq = [object() for _ in range(r.randint(0, 12))]
    def sl():
        f = lambda: r.choice([None, r.randint(-14, 14)])
        return slice(f(), f(), r.choice([None, 1, -1, 2, -2, 3, -3]))
    sls = [sl() for _ in range(r.randint(1, 4))]
    h.note('n', len(seq)); h.note('slices', sls)
    v = SlicedView(Seq(seq) if r.random() < .5 else seq, sls[0])
    for s in sls[1:]:
        v = v[s]
    for round in range(3):
        e = seq
        for s in sls:
            e = e[s]
        h.ensure('length', len(v) == len(e), (len(v), len(e)))
        for i in range(-len(e) - 1, len(e) + 1):
            o = h.call(lambda: v[i])
            if -len(e) <= i < len(e):
                h.ensure('element', o.ok and o.value is e[i], (i, o))
            else:
                h.ensure('IndexError', o.raised(IndexError), (i, o))
        h.ensure('iteration', [id(x) for x in v] == [id(x) for x in e])
        # mutate the underlying list
        k = r.randrange(3)
        if k == 0:
            seq.append(object())
        elif k == 1 and seq:
            seq.pop(r.randrange(len(seq)))
        elif seq:
            seq[r.randrange(len(seq))] = object()
