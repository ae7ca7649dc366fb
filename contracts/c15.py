"""C15: a one-time pad authenticates at most once (OneTimePadChecker, epsilon/ampauth.py)."""
from twisted.cred.error import UnauthorizedLogin
from pyded.api import contract, search
from epsilon.ampauth import OneTimePadChecker, _AMPOneTimePad


class Pad(object):
    def __init__(self, padValue):
        self.padValue = padValue


@contract('C15', 'one use')
def c_use(h):
    kind = 'bytes' if h.choice('kind', 2) == 0 else 'str'
    pads = h.dict('pads', kind, 'any')
    pad = h.key('pad', kind) if h.sym or not pads or h.rng.random() < .4 else h.rng.choice(sorted(pads))
    old = h.copy(pads)
    checker = OneTimePadChecker(pads)
    known = pad in old
    first = h.call(checker.requestAvatarId, Pad(pad))
    if known:
        h.ensure('a registered pad yields its avatar id', first.ok and h.same(first.value, old[pad]), first)
        h.ensure('using a pad affects no other pad', h.dict_same(pads, old, but=[pad]))
        h.ensure('a used pad is no longer registered', h.Not(pad in pads))
        second = h.call(checker.requestAvatarId, Pad(pad))
        h.ensure('a used pad is refused', second.raised(UnauthorizedLogin), second)
    else:
        h.ensure('an unknown pad is refused with UnauthorizedLogin', first.raised(UnauthorizedLogin), first)
        h.ensure('a refusal changes no pad', h.dict_same(pads, old))
    other = h.key('other', kind)
    h.assume(h.Not(h.eq(other, pad)))
    o = h.call(checker.requestAvatarId, Pad(other))
    if other in old:
        h.ensure('another pad still works', o.ok and h.same(o.value, old[other]), o)
    else:
        h.ensure('another unknown pad is refused', o.raised(UnauthorizedLogin), o)


@search('C15', 'histories of uses and registrations')
def s_hist(h):
    r = h.rng
    keys = [b'a', b'b', b'', 'a', 'x', b'\x00', 0]
    pads = {k: r.choice([None, '', 'u', 0, b'u', object()]) for k in keys if r.random() < .6}
    model = dict(pads)
    checker = OneTimePadChecker(pads)
    ops = []
    for _ in range(r.randint(1, 12)):
        k = r.choice(keys)
        if r.random() < .15:
            v = r.choice([None, 'w', object()])
            pads[k] = v
            model[k] = v
            ops.append(('register', k))
            continue
        ops.append(('use', k))
        h.note('ops', ops)
        o = h.call(checker.requestAvatarId, _AMPOneTimePad(k))
        if k in model:
            h.ensure('first use yields the avatar id', o.ok and o.value is model.pop(k), (k, o))
        else:
            h.ensure('refused', o.raised(UnauthorizedLogin), (k, o))
        h.ensure('other pads unaffected', pads == model, (k,))


@search('C15', 'through a portal and the wire protocol')
def s_portal(h):
    from twisted.cred.portal import Portal
    from epsilon.ampauth import CredReceiver
    r = h.rng
    pads = {b'p%d' % i: 'user%d' % i for i in range(r.randint(0, 4))}
    model = dict(pads)
    seen = []

    class Realm(object):
        def requestAvatar(self, avatarId, mind, *interfaces):
            seen.append(avatarId)
            class A(object):
                def startReceivingBoxes(self, sender):
                    pass
            return interfaces[0], A(), lambda: None
    portal = Portal(Realm(), [OneTimePadChecker(pads)])
    for _ in range(r.randint(1, 8)):
        k = b'p%d' % r.randint(0, 4)
        c = CredReceiver()
        c.portal = portal
        c.boxSender = object()
        got = []
        d = c.otpLogin(k)
        d.addCallbacks(lambda x: got.append(('ok', x)), lambda f: got.append(('err', f.type)))
        h.note('pad', k)
        if k in model:
            want = model.pop(k)
            h.ensure('login succeeds once', got == [('ok', {})] and seen[-1] == want, got)
        else:
            h.ensure('refused', got == [('err', UnauthorizedLogin)], got)
