"""C30: both ends of a juice connection agree on the version negotiated (epsilon/juice.py)."""
from twisted.python.failure import Failure
from pyded.api import contract, search
from epsilon import juice
from epsilon.juice import (Juice, JuiceBox, NegotiateBox, Negotiate, IncompatibleVersions, RemoteJuiceError,
                           COMMAND, ASK, ANSWER, ERROR, ERROR_CODE, ERROR_DESCRIPTION)
from contracts.juicing import Transport, Wire, connected, parse1


@contract('C30', 'choosing a version')
def c_choose(h):
    """any list of versions asked for, any list of versions supported"""
    p, t = connected(True)
    asked, known = h.list('asked', 'int'), h.list('supported', 'int')
    h.patch(juice, 'VERSIONS', known)
    a0, k0 = h.copy(asked), h.copy(known)

    def supported(x):
        return x in known

    def inv(ctx):
        if not hasattr(ctx, 'at'):
            return []
        return [('none of those met is supported', h.forall_int(0, ctx.i, lambda j: h.Not(supported(ctx.at(j)))))]
    h.invariant(inv)
    o = h.call(p.command_NEGOTIATE, asked)
    if o.ok:
        h.ensure('an answer with a version', isinstance(o.value, dict) and list(o.value) == ['version'], o)
        v = o.value['version']
        h.ensure('one that is supported', supported(v))
        h.ensure('one that was asked for, no earlier one is supported', h.Not(h.forall_int(0, h.len(a0), lambda j: h.Not(
            h.And(h.eq(h.at(a0, j), v), h.forall_int(0, j, lambda m: h.Not(supported(h.at(a0, m)))))))), o)
    else:
        h.ensure('refused as incompatible', o.raised(IncompatibleVersions), o)
        h.ensure('only when none is supported', h.forall_int(0, h.len(a0), lambda j: h.Not(supported(h.at(a0, j)))))
    h.ensure('the lists are as they were', h.And(h.list_same(asked, a0), h.list_same(known, k0)))
    h.ensure('no version is set yet', p.protocolVersion == Juice.protocolVersion and t.written == [])


@contract('C30', 'answering')
def c_answer(h):
    """the answering side, any versions asked for and supported; choosing by its contract"""
    if not h.sym:
        return s_trial(h)
    wire = Wire(h)
    h.quiet()
    p, t = connected(True)
    v = h.int('version')
    fits = h.choice('compatible', 2) == 1
    asked = []
    p0 = h.int('version before')
    p.protocolVersion = p0
    tag = h.str('tag')
    seen = []

    def choose(self, versions):
        asked.append(versions)
        seen.append(len(t.written))
        if not fits:
            raise IncompatibleVersions()
        return dict(version=v)
    choose.command = Negotiate
    h.patch(Juice, 'command_NEGOTIATE', choose)
    # the list as it was written, read by its contract (C22)
    listed, versions = h.str('text'), h.list('versions', 'int')

    def read(arg, text, proto):
        h.ensure('what was received is read', h.eq(text, listed))
        return versions
    h.summary(juice.ListOf.fromStringProto, read)
    o = h.call(p.juiceBoxReceived, JuiceBox(**{COMMAND: 'Negotiate', ASK: tag, 'versions': listed}))
    h.ensure('handled', o.ok, o)
    h.ensure('what was asked for is considered, in order', len(asked) == 1 and asked[0] is versions)
    h.ensure('before anything is answered', seen == [0])
    sent = wire.sent(t)
    h.ensure('one box is written', len(sent) == 1 and sent[0] is not None, len(sent))
    if fits:
        h.ensure('the answer carries the version', h.And(h.eq(sent[0][ANSWER], tag), h.eq(int(sent[0]['version']), v)))
        h.ensure('the version is this side\'s from then on', h.eq(p.protocolVersion, v))
    else:
        h.ensure('the answer is an error', h.And(ERROR in sent[0], h.eq(sent[0][ERROR], tag)))
        h.ensure('the version is unchanged', h.eq(p.protocolVersion, p0))


@contract('C30', 'the version is set once the answer is written')
def c_order(h):
    """until the answer is on its way the old version is in force"""
    p, t = connected(True)
    p0, v = h.int('before'), h.int('version')
    p.protocolVersion = p0
    at = []
    fails = h.choice('writing', ['works', 'is refused'])

    def sendPacket(self, box):
        at.append(self.protocolVersion)
        if fails == 'is refused':
            raise RuntimeError('locked')
    h.patch(Juice, 'sendPacket', sendPacket)
    b = NegotiateBox()
    b['version'] = str(v)
    o = h.call(b.sendTo, p)
    h.ensure('written once, under the version before', len(at) == 1 and h.eq(at[0], p0), at)
    if fails == 'works':
        h.ensure('then the new version holds', o.ok and h.eq(p.protocolVersion, v), o)
    else:
        h.ensure('an answer that is not written changes nothing', not o.ok and h.eq(p.protocolVersion, p0), o)


@contract('C30', 'asking')
def c_ask(h):
    """the asking side, any versions, any outcome"""
    if not h.sym:
        return s_trial(h)
    wire = Wire(h)
    h.quiet()
    p, t = connected(False)
    v, p0 = h.int('version'), h.int('version before')
    p.protocolVersion = p0
    known = h.list('supported', 'int')
    k0 = h.copy(known)
    h.patch(juice, 'VERSIONS', known)
    o = h.call(p.renegotiateVersion, v)
    sent = wire.sent(t)
    h.ensure('the list of versions is as it was', h.list_same(known, k0))
    if not o.ok:
        h.ensure('refused only when not supported here', h.Not(v in known), o)
        h.ensure('nothing is sent', sent == [])
        h.ensure('the version is unchanged', h.eq(p.protocolVersion, p0))
        return
    h.ensure('asked only for what is supported here', v in known)
    h.ensure('one box is written', len(sent) == 1 and sent[0] is not None)
    h.ensure('it asks for this version', h.And(h.eq(sent[0][COMMAND], Negotiate.commandName), ASK in sent[0], h.eq(int(sent[0]['versions']), v)))
    h.ensure('no version is set yet', h.eq(p.protocolVersion, p0))
    out = []
    o.value.addBoth(out.append)
    tag = sent[0][ASK]
    how = h.choice('how', ['answer', 'error', 'lost'])
    if how == 'answer':
        o2 = h.call(p.juiceBoxReceived, JuiceBox(**{ANSWER: tag, 'version': str(v)}))
        h.ensure('the version answered is this side\'s', o2.ok and h.eq(p.protocolVersion, v), o2)
        h.ensure('and the result', len(out) == 1 and h.eq(out[0], v), out)
    else:
        if how == 'error':
            o2 = h.call(p.juiceBoxReceived, JuiceBox(**{ERROR: tag, ERROR_CODE: 'UNHANDLED', ERROR_DESCRIPTION: 'd'}))
        else:
            o2 = h.call(p.connectionLost, Failure(RuntimeError()))
        h.ensure('handled', o2.ok, o2)
        h.ensure('the request fails', len(out) == 1 and isinstance(out[0], Failure), out)
        h.ensure('the version is unchanged', h.eq(p.protocolVersion, p0))


def s_trial(h):
    """two ends of a connection, the versions each supports being different at the moment it looks"""
    r = h.rng
    pool = [0, 1, 2, 3, 10, -1]
    c, ct = connected(False)
    s, st = connected(True)
    c.protocolVersion = s.protocolVersion = 7
    mine = r.sample(pool, r.randint(0, 4))
    theirs = r.sample(pool, r.randint(0, 4))
    v = r.choice(pool)
    h.note('asker', mine), h.note('answerer', theirs), h.note('version', v)
    h.patch(juice, 'VERSIONS', list(mine))
    direct = r.random() < .5
    if direct:
        o = h.call(c.renegotiateVersion, v)
        asked = [v]
        if v not in mine:
            h.ensure('not supported here: refused, nothing sent', not o.ok and ct.written == [] and c.protocolVersion == 7, o)
            return
        d = o.value
        h.ensure('the list of versions is as it was', juice.VERSIONS == mine, juice.VERSIONS)
    else:
        asked = [r.choice(pool) for _ in range(r.randint(1, 4))]
        o = h.call(lambda: Negotiate(versions=list(asked)).do(c))
        d = o.value
    h.note('asked', asked)
    h.ensure('asked', o.ok, o)
    h.ensure('no version is set yet', c.protocolVersion == 7)
    out = []
    d.addBoth(out.append)
    h.patch(juice, 'VERSIONS', list(theirs))
    for data in ct.written:
        s.dataReceived(data)
    h.ensure('the list of versions is as it was', juice.VERSIONS == theirs, juice.VERSIONS)
    want = [x for x in asked if x in theirs]
    if want:
        h.ensure('the answering side has the first version it supports', s.protocolVersion == want[0], s.protocolVersion)
    else:
        h.ensure('the answering side has no new version', s.protocolVersion == 7, s.protocolVersion)
    for data in st.written:
        c.dataReceived(data)
    h.ensure('one outcome', len(out) == 1, out)
    if not want:
        h.ensure('the request fails, the version is unchanged', isinstance(out[0], Failure) and c.protocolVersion == 7, out)
    elif direct:
        h.ensure('both sides have it, and it is the result', c.protocolVersion == want[0] == out[0], (c.protocolVersion, out))
    else:
        h.ensure('it is answered', out[0] == {'version': want[0]}, out)


@search('C30', 'negotiations')
def s_h(h):
    s_trial(h)
