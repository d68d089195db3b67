"""Independent codec for attribute certificates (oracle and forger).

Written from the wire format; shares no code with the repository.
"""
import base64
import struct

from Crypto.Hash import SHA256
from Crypto.PublicKey import RSA
from Crypto.Signature import pkcs1_15


class Bad(Exception):
    pass


class _R(object):
    def __init__(self, b):
        self.b, self.i = bytes(b), 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad('truncated')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def unpack(self, fmt):
        return struct.unpack('<' + fmt, self.take(struct.calcsize('<' + fmt)))


def _s(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        raise Bad('not utf-8')


def decode(raw):
    """raw bytes -> dict with everything the certificate states."""
    r = _R(raw)
    c = {}
    pk, ka, uid, nm, ur = r.unpack('HHHHH')
    c['issuer'] = dict(pub_key=r.take(pk), key_algo=_s(r.take(ka)), uid=_s(r.take(uid)), name=_s(r.take(nm)),
                       url=_s(r.take(ur)))
    pk, ka, uid, nm = r.unpack('HHHH')
    c['holder'] = dict(pub_key=r.take(pk), key_algo=_s(r.take(ka)), uid=_s(r.take(uid)), name=_s(r.take(nm)))
    ver, n = r.unpack('BB')
    serial = int.from_bytes(r.take(n), 'little')
    issued, = r.unpack('I')
    c['info'] = dict(version=ver, serial=serial, issued=issued, serial_bytes=n)
    n, = r.unpack('H')
    atts = []
    for _ in range(n):
        a, v, m, x, t = r.unpack('HHHHB')
        atts.append(dict(id=_s(r.take(a)), value=_s(r.take(v)), name=_s(r.take(m)), type=t, extra=r.take(x)))
    c['atts'] = atts
    u, x, after, before = r.unpack('HHII')
    c['rev'] = dict(url=_s(r.take(u)), extra=r.take(x), valid_after=after, valid_before=before)
    n, = r.unpack('H')
    c['del'] = r.take(n)
    n, = r.unpack('H')
    ext = []
    for _ in range(n):
        e, x = r.unpack('HH')
        ext.append(dict(eid=_s(r.take(e)), extra=r.take(x)))
    c['ext'] = ext
    c['body'] = r.b[:r.i]
    a, v = r.unpack('HH')
    # a length in the signature block that overruns the end is tolerated (the block states nothing signed)
    algo = r.take(min(a, len(r.b) - r.i))
    c['sig'] = dict(algo=_s(algo), value=r.take(min(v, len(r.b) - r.i)))
    if r.i != len(r.b):
        raise Bad('trailing bytes')
    return c


def content(c):
    """Everything stated, comparable: all but the signature block."""
    return {k: c[k] for k in ('issuer', 'holder', 'info', 'atts', 'rev', 'del', 'ext')}


def encode_body(c):
    def e(x):
        return x.encode('utf-8') if isinstance(x, str) else bytes(x)
    out = []
    i = c['issuer']
    f = [e(i[k]) for k in ('pub_key', 'key_algo', 'uid', 'name', 'url')]
    out.append(struct.pack('<HHHHH', *map(len, f)) + b''.join(f))
    h = c['holder']
    f = [e(h[k]) for k in ('pub_key', 'key_algo', 'uid', 'name')]
    out.append(struct.pack('<HHHH', *map(len, f)) + b''.join(f))
    n = c['info'].get('serial_bytes', 20)
    out.append(struct.pack('<BB', c['info']['version'], n) + c['info']['serial'].to_bytes(n, 'little') +
               struct.pack('<I', c['info']['issued']))
    out.append(struct.pack('<H', len(c['atts'])))
    for a in c['atts']:
        f = [e(a[k]) for k in ('id', 'value', 'name')]
        x = e(a.get('extra', b''))
        out.append(struct.pack('<HHHHB', len(f[0]), len(f[1]), len(f[2]), len(x), a['type']) + b''.join(f) + x)
    r = c['rev']
    u, x = e(r['url']), e(r.get('extra', b''))
    out.append(struct.pack('<HHII', len(u), len(x), r['valid_after'], r['valid_before']) + u + x)
    out.append(struct.pack('<H', len(c['del'])) + c['del'])
    out.append(struct.pack('<H', len(c['ext'])))
    for x in c['ext']:
        i, b = e(x['eid']), e(x.get('extra', b''))
        out.append(struct.pack('<HH', len(i), len(b)) + i + b)
    return b''.join(out)


def sign(body, key, algo='RSASSA-PKCS1-v1_5:SHA256'):
    v = pkcs1_15.new(key).sign(SHA256.new(body))
    a = algo.encode()
    return body + struct.pack('<HH', len(a), len(v)) + a + v


_keys = {}


def _import(pem):
    k = _keys.get(pem)
    if k is None:
        k = _keys[pem] = RSA.import_key(pem)
    return k


def verifies(c, pem):
    """Is c (decoded) signed by the owner of the public key pem?"""
    try:
        pkcs1_15.new(_import(pem)).verify(SHA256.new(c['body']), c['sig']['value'])
        return True
    except (ValueError, TypeError):
        return False


def same_key(a, b):
    try:
        x, y = _import(a), _import(b)
    except (ValueError, IndexError, TypeError):
        return False
    return x.n == y.n and x.e == y.e


BYTES, BASE64, FULL = 0, 3, 4


def export(raw, fmt, version=1):
    if fmt == BYTES:
        return raw
    b = base64.b64encode(raw)
    if fmt == BASE64:
        return b
    return (b'---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: BASE64\nVERSION: %d\n' % version + b +
            b'\n---- END ATTRIBUTE CERTIFICATE ----')


def unexport(data, fmt):
    """Presented bytes -> raw certificate bytes, or None."""
    try:
        if fmt == BYTES:
            return bytes(data)
        if fmt == BASE64:
            return base64.b64decode(data)
        if fmt == FULL:
            return base64.b64decode(data.decode('utf-8').split('\n')[3])
    except (ValueError, IndexError):
        return None
    return None
