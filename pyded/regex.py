"""Assumed contract of re on text made of known characters and unknown decimal
digits: a pattern that treats all digits alike matches such a text exactly as it
matches the text with every unknown digit replaced by '0' (checked on the parsed
pattern; otherwise the code is out of subset)."""
import re
import re._parser as sre_parse
import re._constants as sre_c
from . import core, ops, values as V
from .values import SChars, SBase, unsup

_uniform = {}


def uniform(pat):
    """does the pattern treat all ASCII digits alike?"""
    k = (pat.pattern, pat.flags)
    if k not in _uniform:
        try:
            _uniform[k] = isinstance(pat.pattern, str) and _seq(sre_parse.parse(pat.pattern, pat.flags & ~re.UNICODE | 0))
        except Exception:
            _uniform[k] = False
    return _uniform[k]


def _digit(c):
    return 48 <= c <= 57


def _seq(p):
    return all(_item(op, av) for op, av in p)


def _item(op, av):
    if op in (sre_c.LITERAL, sre_c.NOT_LITERAL):
        return not _digit(av)
    if op is sre_c.IN:
        for o, a in av:
            if o is sre_c.LITERAL and _digit(a):
                return False
            if o is sre_c.RANGE:
                lo, hi = a
                if not (hi < 48 or lo > 57 or (lo <= 48 and hi >= 57)):
                    return False
            if o not in (sre_c.LITERAL, sre_c.RANGE, sre_c.CATEGORY, sre_c.NEGATE):
                return False
        return True
    if op in (sre_c.ANY, sre_c.AT, sre_c.CATEGORY):
        return True
    if op is sre_c.BRANCH:
        return all(_seq(x) for x in av[1])
    if op is sre_c.SUBPATTERN:
        return _seq(av[3])
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT, getattr(sre_c, 'POSSESSIVE_REPEAT', None)):
        return _seq(av[2])
    if op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
        return _seq(av[1])
    if op is getattr(sre_c, 'ATOMIC_GROUP', None):
        return _seq(av)
    return False            # back references compare text


class Match(object):
    """re.Match over a text with unknown digits"""
    _pd_ok_ = True

    def __init__(self, pat, text, m):
        self.re, self.string, self._m = pat, text, m
        self.pos, self.endpos, self.lastindex, self.lastgroup = m.pos, m.endpos, m.lastindex, m.lastgroup

    def _get(self, g, default=None):
        a, b = self._m.span(g)
        if a < 0:
            return default
        return SChars.make(self.string.chars[a:b])

    def group(self, *gs):
        gs = gs or (0,)
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i + 1, default) for i in range(self.re.groups))

    def groupdict(self, default=None):
        d = V.MDict()
        for n in self.re.groupindex:
            dict.__setitem__(d, n, self._get(n, default))
        return d

    def span(self, g=0):
        return self._m.span(g)

    def start(self, g=0):
        return self._m.start(g)

    def end(self, g=0):
        return self._m.end(g)

    def __bool__(self):
        return True


def _run(name):
    def f(pat, text, *rest):
        if not isinstance(text, SChars) or text.kind != 'str':
            unsup('regular expression on an unknown text')
        if not uniform(pat):
            unsup('regular expression that tells digits apart')
        core.E.assumed.add('re: a pattern that treats all digits alike matches a text whatever its digits are')
        m = getattr(pat, name)(''.join(c if isinstance(c, str) else '0' for c in text.chars), *rest)
        return None if m is None else Match(pat, text, m)
    return f


def install():
    for n in ('match', 'fullmatch', 'search'):
        ops.METHOD_MODELS[(re.Pattern, n)] = _run(n)

    def top(name):
        def f(pattern, text, flags=0):
            return _run(name)(re.compile(pattern, flags), text)
        return f
    for n in ('match', 'fullmatch', 'search'):
        ops.MODELS[id(getattr(re, n))] = (getattr(re, n), top(n))
    _ = SBase
