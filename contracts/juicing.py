"""Shared vocabulary of C17-C22 (epsilon/juice.py, epsilon/liner.py)."""
from twisted.internet.defer import Deferred
from twisted.python.failure import Failure
from pyded.api import Odd
from epsilon import juice
from epsilon.juice import Juice, JuiceBox, Box, RemoteJuiceError


class Transport(Odd):
    """a recording transport"""
    disconnecting = False

    def __init__(self):
        self.written = []
        self.lost = 0
        self.tls = []
        self.log = []

    def write(self, data):
        self.written.append(data)
        self.log.append(('write', data))

    def loseConnection(self):
        self.lost += 1
        self.disconnecting = True
        self.log.append(('lose',))

    def startTLS(self, options, *a):
        self.tls.append(options)
        self.log.append(('tls', options))

    def getPeer(self):
        return 'peer'

    def getHost(self):
        return 'host'


class Wire(object):
    """proof mode: serialization is replaced by its contract (C18): the bytes
    written for a box stand for the content the box has at that moment"""

    def __init__(self, h):
        self.h = h
        self.boxes = []
        h.summary(JuiceBox.serialize, self.serialize)

    def serialize(self, box, *a, **k):
        self.boxes.append(self.h.copy(box))
        return b'\0box %d' % (len(self.boxes) - 1)

    def sent(self, transport):
        """the contents written, in order; None for anything that is not a box"""
        out = []
        for w in transport.written:
            if isinstance(w, bytes) and w.startswith(b'\0box '):
                out.append(self.boxes[int(w[5:])])
            else:
                out.append(None)
        return out


def connected(server=True, cls=Juice):
    p = cls(server)
    t = Transport()
    p.makeConnection(t)
    return p, t


def parse1(data):
    """the boxes in data, by an independent reader of the format"""
    out = []
    while data:
        head, sep, data = data.partition(b'\r\n\r\n')
        if not sep:
            raise ValueError('no end of headers in %r' % (head,))
        box = {}
        for line in head.replace(b'\r\n ', b'\0\0').split(b'\r\n'):
            k, s, v = line.partition(b': ')
            if not s:
                raise ValueError('header %r' % (line,))
            box[k.decode('utf-8').lower().replace('-', '_')] = v.replace(b'\0\0', b'\r\n').decode('utf-8')
        n = int(box.pop('_length', 0))
        if n:
            if len(data) < n:
                raise ValueError('body cut short')
            box['body'] = data[:n].decode('utf-8')
            data = data[n:]
        out.append(box)
    return out
