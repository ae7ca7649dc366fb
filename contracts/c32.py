"""C32: certcreate writes the certificate it was asked for (epsilon/scripts/certcreate.py)."""
import os
import shutil
import sys
import tempfile

from pyded.api import contract, search
from epsilon.scripts import certcreate
from epsilon.scripts.certcreate import Options, createSSLCertificate

FIELDS = dict(country='C', state='ST', city='L', organization='O', unit='OU', hostname='CN', email='emailAddress')
DEFAULTS = dict(country='US', state='New York', city='New York', organization='Divmod LLC', unit='Security',
                hostname='divmod.com', email='support@divmod.org')


class World(object):
    """stand-ins of the key generator, the file system and the terminal; everything is logged in order"""

    def __init__(self, h):
        self.h, self.log = h, []
        self.fails = None
        w = self
        w.pem, w.about = h.bytes('pem'), h.str('description')

        class Certificate(object):
            def dumpPEM(self):
                return w.pem

            def inspect(self):
                return w.about

            def __repr__(self):
                return '<certificate>'
        w.certificate = Certificate()

        class Pair(object):
            def selfSignedCert(self, *a, **kw):
                if w.fails == 'signing':
                    raise ValueError('cannot sign')
                w.log.append(('signed', self, a, kw))
                return w.certificate

        class KeyPair(object):
            @staticmethod
            def generate(*a, **kw):
                p = Pair()
                w.log.append(('generated', p, a, kw))
                return p

        class File(object):
            def __init__(self, name):
                self.name = name

            def write(self, data):
                w.log.append(('write', self.name, data))

            def flush(self):
                pass

            def close(self):
                w.log.append(('close', self.name))

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

        def opener(name, mode='r', *a, **kw):
            if w.fails == 'opening':
                raise IOError('cannot open')
            w.log.append(('open', name, mode))
            return File(name)

        def say(*a, **kw):
            w.log.append(('print',) + a)
        stub = (lambda f, n: h.callable(f, n)) if h.sym else (lambda f, n: f)
        h.patch(certcreate, 'KeyPair', KeyPair)
        h.patch(certcreate, 'open', stub(opener, 'open'))
        h.patch(certcreate, 'print', stub(say, 'print'))

        class Terminal(object):
            def write(self, text):
                say(text)

            def flush(self):
                pass
        h.patch(sys, 'stdout', Terminal())

    def of(self, kind):
        return [x for x in self.log if x[0] == kind]

    def judge(self, o, fields, serial, name, quiet):
        h = self.h
        if self.fails:
            h.ensure('a failure is reported', not o.ok, o)
            h.ensure('nothing is written', not self.of('write') and not self.of('print'))
            if self.fails == 'signing':
                h.ensure('the file is not touched', not self.of('open'))
            return
        h.ensure('done', o.ok, o)
        h.ensure('the certificate is the result', o.value is self.certificate, o)
        h.ensure('one key, one certificate', len(self.of('generated')) == len(self.of('signed')) == 1)
        g, s = self.of('generated')[0], self.of('signed')[0]
        h.ensure('signed by the key generated', s[1] is g[1])
        h.ensure('one serial number', len(s[2]) == 1)
        h.ensure('it is the serial number asked for, a number', h.And(isinstance(s[2][0], int), h.eq(s[2][0], serial)))
        h.ensure('exactly the fields of the subject', sorted(s[3]) == sorted(FIELDS.values()), sorted(s[3]))
        for x in FIELDS:
            h.ensure('the subject has the %s asked for' % x, h.eq(s[3][FIELDS[x]], fields[x]))
        h.ensure('one file, the one asked for, written anew in binary', len(self.of('open')) == 1)
        h.ensure('the file asked for', h.eq(self.of('open')[0][1], name))
        h.ensure('written anew, in binary', self.of('open')[0][2] == 'wb')
        h.ensure('the certificate is written, and nothing else', len(self.of('write')) == 1 and h.eq(self.of('write')[0][2], self.pem))
        kinds = [x[0] for x in self.log]
        h.ensure('the file is closed', kinds.count('close') == 1 and kinds.index('close') > kinds.index('write'))
        if quiet:
            h.ensure('nothing is printed', not self.of('print'))
        else:
            said = [y for x in self.of('print') for y in x[1:]]
            if h.sym:
                h.ensure('something is printed', len(said) > 0)
            else:
                h.ensure('the certificate is described', self.about in ' '.join(said), said)
            h.ensure('after it is written', kinds.index('print') > kinds.index('write'))


@contract('C32', 'creating a certificate')
def c_create(h):
    """any subject, serial number and file name; a key that cannot sign, a file that cannot be opened"""
    w = World(h)
    fields = dict((x, h.str(x)) for x in sorted(FIELDS))
    serial, name = h.int('serial'), h.str('filename')
    quiet = h.choice('quiet', 2)
    w.fails = h.choice('fails', [None, 'signing', 'opening'])
    opts = dict(fields)
    opts.update({'serial-number': str(serial) if h.choice('as text', 2) else serial, 'filename': name, 'quiet': quiet})
    o = h.call(createSSLCertificate, opts)
    w.judge(o, fields, serial, name, quiet)


ARGS = [('country', 'C', 'NL'), ('state', 's', 'Utrecht'), ('city', 'c', 'Zeist'), ('organization', 'o', 'Acme'),
        ('unit', 'u', 'Labs'), ('hostname', 'h', 'h.example'), ('email', 'e', 'me@h.example'),
        ('filename', 'f', 'my.pem'), ('serial-number', 'S', '1234567')]


@contract('C32', 'the command line')
def c_main(h):
    """each option alone, all and none, long and short; the arguments given or those of the process"""
    w = World(h)
    which = h.choice('which', [()] + [(a,) for a in ARGS] + [tuple(ARGS)])
    form = h.choice('form', ['long', 'short', 'joined'])
    quiet = h.choice('quiet', [None, '-q', '--quiet'])
    line = [quiet] if quiet else []
    for n, s, v in which:
        line += {'long': ['--' + n, v], 'short': ['-' + s, v], 'joined': ['--%s=%s' % (n, v)]}[form]
    want = dict((n, v) for n, s, v in which)
    given = h.choice('from', ['argument', 'process']) == 'argument'
    h.patch(sys, 'argv', ['certcreate'] + (['--nonsense', 'extra'] if given else line))

    def run():
        try:
            return certcreate.main(line) if given else certcreate.main()
        except SystemExit as e:
            raise RuntimeError('exit: %s' % (e.code,))
    o = h.call(run)
    w.judge(o, dict(DEFAULTS, **want), int(want.get('serial-number', 1)), want.get('filename', 'server.pem'), bool(quiet))


@contract('C32', 'refused command lines')
def c_usage(h):
    w = World(h)
    line = h.choice('line', [['--nonsense'], ['extra'], ['-f'], ['--country'], ['-q', '--quiet=1'], ['-z']])

    def run():
        try:
            certcreate.main(line)
        except SystemExit as e:
            return [e.code]
    o = h.call(run)
    h.ensure('the program exits, saying why', o.ok and isinstance(o.value, list) and isinstance(o.value[0], str) and o.value[0] != '', o)
    h.ensure('nothing is made', w.log == [])


_ssl = {}


@search('C32', 'real certificates')
def s_real(h):
    """in a scratch directory, with real keys (a few only: they are slow)"""
    r = h.rng
    if _ssl.get('n', 0) >= 12:
        return
    _ssl['n'] = _ssl.get('n', 0) + 1
    from twisted.internet.ssl import PrivateCertificate
    import io
    import contextlib
    d = tempfile.mkdtemp()
    try:
        text = lambda n: ''.join(r.choice('abc XYZ019-.') for _ in range(n))
        want = dict((x, 'c' + text(r.randint(1, 12))) for x in FIELDS)
        want['country'] = r.choice(['NL', 'DE'])
        serial = r.choice([0, 1, 2, 255, 256, 2 ** 31, 2 ** 63, 2 ** 100])
        path = os.path.join(d, 'out.pem')
        if r.random() < .5:
            with open(path, 'w') as f:
                f.write('x' * 9000)
        quiet = r.random() < .5
        line = ['-f', path, '-S', str(serial)] + ['-q'] * quiet
        for x in want:
            line += ['--' + x, want[x]]
        h.note('arguments', line)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            c = certcreate.main(line)
        h.ensure('nothing is printed when quiet', bool(out.getvalue()) != quiet, out.getvalue())
        with open(path, 'rb') as f:
            data = f.read()
        h.ensure('the file holds the certificate and its key', data == c.dumpPEM())
        back = PrivateCertificate.loadPEM(data)
        h.ensure('with the serial number', back.serialNumber() == serial, back.serialNumber())
        s = back.getSubject()
        for x in FIELDS:
            h.ensure('with the ' + x, getattr(s, FIELDS[x]).decode() == want[x], (x, s))
    finally:
        shutil.rmtree(d)
