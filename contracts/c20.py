"""C20: each juice command asked gets exactly one reply, with its own tag (epsilon/juice.py)."""
from twisted.internet.defer import Deferred, fail, succeed
from twisted.python.failure import Failure
from pyded.api import contract, search
from epsilon import juice
from epsilon.juice import (Juice, JuiceBox, QuitBox, DispatchMixin, Command, RemoteJuiceError, UnhandledCommand, ASK, ANSWER, ERROR,
                           ERROR_CODE, ERROR_DESCRIPTION, COMMAND)
from contracts.juicing import Transport, Wire, connected, parse1


class Boom(Exception):
    pass


class Declared(Exception):
    pass


class Sub(Declared):
    pass


class Fatal(Exception):
    pass


class Other(Exception):
    pass


class Act(Command):
    commandName = 'Act'
    arguments = []
    response = [('x', juice.String())]
    errors = {Declared: 'DECLARED'}
    fatalErrors = {Fatal: 'FATAL'}


@contract('C20', 'replying')
def c_reply(h):
    """any box, any tag; the responder's outcome is any answer box, any remote
    error, fatal or not, or any other failure, at once or later"""
    if not h.sym:
        return s_trial(h)
    h.quiet()
    wire = Wire(h)
    p, t = connected()
    box = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    h.assume(h.And(COMMAND in b0, h.Not(ANSWER in b0), h.Not(ERROR in b0)))
    asks = h.bool('asks')
    h.assume(h.Iff(asks, ASK in b0))
    asks = bool(asks)
    what = h.choice('outcome', ['answer', 'remote error', 'fatal remote error', 'other error'])
    when = h.choice('when', ['now', 'later', 'after the loss'])
    ans = h.dict('answer', 'str', 'str', cls=JuiceBox)
    a0 = h.copy(ans)
    code, desc = h.str('code'), h.str('description')
    outcome = {'answer': lambda: ans,
               'remote error': lambda: Failure(RemoteJuiceError(code, desc, False)),
               'fatal remote error': lambda: Failure(RemoteJuiceError(code, desc, True)),
               'other error': lambda: Failure(Boom())}[what]()
    calls = []
    d = Deferred()

    def fire():
        if what == 'answer':
            d.callback(outcome)
        else:
            d.errback(outcome)

    def dispatch(self, proto, cmd, b, namespace=None):
        calls.append((proto, cmd, b, namespace))
        if when == 'now':
            fire()
        return d
    h.summary(DispatchMixin.dispatchCommand, dispatch)
    o = h.call(p.juiceBoxReceived, box)
    h.ensure('received', o.ok, o)
    h.ensure('the command is dispatched exactly once', len(calls) == 1 and calls[0][0] is p and calls[0][2] is box and calls[0][3] is None)
    h.ensure('as the command the box names', h.eq(calls[0][1], h.item(b0, COMMAND)))
    if when != 'now':
        h.ensure('no reply before the outcome', t.log == [])
        if when == 'after the loss':
            p.transport = None
        fire()
    if when == 'after the loss':
        h.ensure('nothing is sent once the transport is gone', t.log == [])
        return
    sent = wire.sent(t)
    if not asks:
        h.ensure('a command that does not ask is never replied to', sent == [])
        return
    h.ensure('exactly one reply', len(sent) == 1 and sent[0] is not None)
    b = sent[0]
    tag = h.item(b0, ASK)
    if what == 'answer':
        h.ensure('an answer with the tag asked with', h.And(ANSWER in b, h.eq(h.item(b, ANSWER), tag)))
        h.ensure('and what the responder answered', h.dict_same(b, a0, but=[ANSWER]))
        h.ensure('the connection stays open', t.lost == 0)
    else:
        h.ensure('an error with the tag asked with', h.And(ERROR in b, h.eq(h.item(b, ERROR), tag), h.Not(ANSWER in b), h.Not(ASK in b), h.Not(COMMAND in b)))
        if what == 'other error':
            h.ensure('UNHANDLED', h.eq(h.item(b, ERROR_CODE), 'UNHANDLED'))
        else:
            h.ensure('with the code and description', h.And(h.eq(h.item(b, ERROR_CODE), code), h.eq(h.item(b, ERROR_DESCRIPTION), desc)))
        h.ensure('closing the connection, after the reply, exactly for undeclared and fatal errors',
                 [x[0] for x in t.log] == (['write'] if what == 'remote error' else ['write', 'lose']))


class Responders(Juice):
    def __init__(self, log):
        Juice.__init__(self, True)
        self.log = log

    def command_ACT(self, **kw):
        self.log.append(('ACT', kw))
        return {'x': 'y'}

    def command_OTHER_ONE(self, **kw):
        self.log.append(('OTHER_ONE', kw))
        return {'x': 'y'}

    def juice_OLD(self, box):
        self.log.append(('OLD', box))
        return JuiceBox(x='old')

    def juice_ACT(self, box):
        self.log.append(('old ACT', box))
        return JuiceBox(x='old')


@contract('C20', 'dispatching')
def c_dispatch(h):
    """any command text; any namespace; declared for any namespaces"""
    if not h.sym:
        return s_trial(h)
    h.quiet()
    log = []
    p = Responders(log)
    p.makeConnection(Transport())
    h.open_attrs(p)
    ns = h.choice('namespaces', 3)
    names = [h.any('declared%d' % i) for i in range(ns)]

    class C(Act):
        namespaces = names
    h.patch(Responders.__dict__['command_ACT'], 'command', C)

    class C2(Act):
        namespaces = [None]
    h.patch(Responders.__dict__['command_OTHER_ONE'], 'command', C2)
    cmd = h.str('command')
    named = h.choice('in a namespace', 2)
    space = h.str('namespace') if named else None
    norm = cmd.upper().strip().replace('-', '_')
    h.assume(h.Not(h.eq(norm, 'NEGOTIATE')))        # the one command Juice itself has
    box = JuiceBox()
    o = h.call(p.dispatchCommand, p, cmd, box, space)
    out = []
    if o.ok:
        o.value.addBoth(out.append)
    ran = [n for n, x in log]
    h.ensure('at most one responder is run', len(ran) <= 1)
    isact, isother, isold = h.eq(norm, 'ACT'), h.eq(norm, 'OTHER_ONE'), h.eq(norm, 'OLD')
    declared = h.Or(*[h.same(space, x) if space is None or x is None else h.eq(space, x) for x in names]) if names else False
    if ran == ['ACT']:
        h.ensure('ACT is run only when named, in a namespace it is declared for', h.And(isact, declared))
    elif ran == ['OTHER_ONE']:
        h.ensure('OTHER_ONE only when named, in no namespace', isother if space is None else False)
    elif ran == ['OLD']:
        h.ensure('OLD only when named, in no namespace', isold if space is None else False)
    else:
        h.ensure('nothing else is run', ran == [])
        h.ensure('nothing is run only when nothing declared is named', h.Not(h.Or(h.And(isact, declared), h.And(h.Or(isother, isold), space is None))))
        h.ensure('then the command is refused', not o.ok or len(out) == 1 and isinstance(out[0], Failure))
        if space is None:
            h.ensure('as unhandled', o.ok and out[0].check(UnhandledCommand))
    if ran:
        h.ensure('its answer is the result', o.ok and len(out) == 1 and isinstance(out[0], JuiceBox) and out[0]['x'] == ('old' if ran == ['OLD'] else 'y'))


@contract('C20', 'the outcome of a responder')
def c_outcome(h):
    """the responder answers, or fails with a declared error (or a subclass of
    one), a fatal one or another, at once or later; any description"""
    if not h.sym:
        return s_trial(h)
    p, t = connected()
    what = h.choice('what', ['answer', 'declared', 'subclass', 'fatal', 'other'])
    when = h.choice('when', ['now', 'deferred', 'later'])
    text = h.str('text')
    cls = {'declared': Declared, 'subclass': Sub, 'fatal': Fatal, 'other': Other}.get(what)
    d = Deferred()
    calls = []

    def finish():
        if cls is None:
            d.callback({'x': text})
        else:
            d.errback(Failure(cls(text)))

    def act(**kw):
        calls.append(kw)
        if when == 'now':
            if cls is None:
                return {'x': text}
            raise cls(text)
        if when == 'deferred':
            finish()
        return d
    act.command = Act
    h.require(hasattr(p, '_auto'))
    box = h.dict('box', 'str', 'str', cls=JuiceBox)
    b0 = h.copy(box)
    p.command_ACT = act
    o = h.call(p.dispatchCommand, p, 'Act', box)
    h.ensure('dispatched', o.ok, o)
    out = []
    o.value.addBoth(out.append)
    if when == 'later':
        h.ensure('no outcome before the responder has one', out == [])
        finish()
    h.ensure('run once, with its declared arguments', calls == [{}])
    h.ensure('exactly one outcome', len(out) == 1)
    r = out[0]
    if cls is None:
        h.ensure('the answer, as a box', isinstance(r, JuiceBox) and h.And('x' in r, h.eq(r['x'], text)) and len(r) == 1)
    elif what == 'other':
        h.ensure('an undeclared error stays undeclared', isinstance(r, Failure) and not r.check(RemoteJuiceError))
    else:
        h.ensure('a declared error becomes a remote error', isinstance(r, Failure) and bool(r.check(RemoteJuiceError)))
        h.ensure('with its declared code', r.value.errorCode == ('FATAL' if what == 'fatal' else 'DECLARED'))
        h.ensure('and its description', h.eq(r.value.description, text))
        h.ensure('fatal exactly if declared so', bool(r.value.fatal) == (what == 'fatal'))
    h.ensure('the box is unchanged', h.dict_same(box, b0))


# ------------------------------------------------------------------ concrete
def s_trial(h):
    """command boxes as bytes, replies as bytes"""
    r = h.rng
    ops = []
    h.inputs['ops'] = ops
    log = []
    pend = []
    text = r.choice(['', 'x', 'a: b', 'two\r\nlines', '\xe9\u1234', ' lead', 'UNHANDLED'])
    tr = Transport()

    class P(Juice):
        pass

    class Shared(Command):
        arguments = [('a', juice.Integer(optional=True))]
        response = [('x', juice.String())]
        errors = {Declared: 'DECLARED'}
        fatalErrors = {Fatal: 'FATAL'}

    def responder(name, what, when, command):
        def f(self, **kw):
            log.append((name, kw))
            d = Deferred()

            def finish():
                {'answer': lambda: d.callback({'x': text}),
                 'declared': lambda: d.errback(Declared(text)), 'subclass': lambda: d.errback(Sub(text)),
                 'fatal': lambda: d.errback(Fatal(text)), 'other': lambda: d.errback(Other(text))}[what]()
            if when == 'now':
                if what == 'answer':
                    return {'x': text}
                raise {'declared': Declared, 'subclass': Sub, 'fatal': Fatal, 'other': Other}[what](text)
            if when == 'deferred':
                finish()
            else:
                pend.append(finish)
            return d
        f.command = command
        setattr(P, 'command_' + name, f)

    whats = {}
    for name in ('A', 'B_C', 'D'):
        what = r.choice(['answer', 'answer', 'declared', 'subclass', 'fatal', 'other'])
        when = r.choice(['now', 'deferred', 'later'])
        ns = r.choice([[None], [None], [], ['x'], ['x', None]])

        class C(Shared):
            namespaces = ns
            errors = {Declared: 'DECLARED'}
            fatalErrors = {Fatal: 'FATAL'}
        responder(name, what, when, C)
        whats[name] = (what, when, ns)

    def old(self, box):
        log.append(('OLD', {}))
        return JuiceBox(x=text)
    P.juice_OLD = old
    p = P(True)
    p.makeConnection(tr)
    ops.append(whats)
    n = 0
    gone = False
    for i in range(r.randint(1, 4)):
        name = r.choice(['A', 'B_C', 'D', 'OLD', 'NOPE'])
        spelled = r.choice([name, name.lower(), name.title(), name.replace('_', '-'), ' ' + name + ' '])
        asks = r.random() < .75
        tag = r.choice(['1', 'a', 'ff', 'x: y', '0', '%x' % i])
        data = b'-Command: ' + spelled.encode() + b'\r\n'
        if asks:
            data += b'-Ask: ' + tag.encode() + b'\r\n'
        if r.random() < .3:
            data += b'Extra: e\r\n'
        ops.append((spelled, asks, tag))
        w0, l0, runs = len(tr.written), tr.lost, len(log)
        pend[:] = []
        o = h.call(p.dataReceived, data + b'\r\n')
        h.ensure('received', o.ok, (o, ops))
        what, when, ns = whats.get(name, ('answer' if name == 'OLD' else 'unknown', 'now', [None]))
        allowed = None in ns
        if name == 'NOPE' or not allowed:
            what, when = 'unknown', 'now'
        h.ensure('run exactly when declared', len(log) - runs == (0 if what == 'unknown' else 1), ops)
        if when == 'later':
            h.ensure('not answered early', len(tr.written) == w0 and tr.lost == l0, ops)
            if r.random() < .3:
                gone = True
                p.transport = None
            for f in pend:
                f()
        new = tr.written[w0:]
        if gone or not asks:
            h.ensure('no reply', new == [], (new, ops))
            if gone or tr.disconnecting:
                return
            continue
        h.ensure('exactly one reply', len(new) == 1, (new, ops))
        b = parse1(new[0])
        h.ensure('one box', len(b) == 1, (b, ops))
        b = b[0]
        if what == 'answer':
            h.ensure('the answer', b == {'_answer': tag, 'x': text} , (b, ops))
        else:
            code = {'declared': 'DECLARED', 'subclass': 'DECLARED', 'fatal': 'FATAL'}.get(what, 'UNHANDLED')
            h.ensure('the error', b.get('_error') == tag and b.get('_error_code') == code and '_answer' not in b, (b, ops))
            if code != 'UNHANDLED':
                h.ensure('its description', b.get('_error_description') == text, (b, ops))
            h.ensure('closes exactly for undeclared and fatal errors', (tr.lost - l0 > 0) == (code != 'DECLARED'), (b, ops))
        if tr.disconnecting:
            h.ensure('the reply is written before closing', tr.log[-1][0] == 'lose' or tr.lost == 0, ops)
            return


@search('C20', 'command boxes on the wire')
def s_h(h):
    s_trial(h)


@search('C20', 'namespaces')
def s_ns(h):
    r = h.rng
    log = []

    class C(Act):
        namespaces = [r.choice([None, 'a', 'b']) for _ in range(r.randint(0, 2))]

    class P(Juice):
        def command_ACT(self):
            log.append('ACT')
            return {'x': 'y'}
        command_ACT.command = C

        def juice_ACT(self, box):
            log.append('old')
            return JuiceBox()
    p = P(True)
    p.makeConnection(Transport())
    space = r.choice([None, 'a', 'b', 'c'])
    h.inputs.update(declared=C.namespaces, namespace=space)
    o = h.call(p.dispatchCommand, p, 'act', JuiceBox(), space)
    out = []
    if o.ok:
        o.value.addBoth(out.append)
    h.ensure('run exactly in the namespaces declared', log == (['ACT'] if space in C.namespaces else []), log)
    h.ensure('refused otherwise', bool(log) or not o.ok or bool(out[0].check(UnhandledCommand)))
