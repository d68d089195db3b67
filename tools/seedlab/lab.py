"""Small laboratory for the demonstrations: runs a copy of the tree in the current directory inside a scratch directory."""
import atexit
import io
import os
import shutil
import sys
import tempfile
import threading
import types

sys.dont_write_bytecode = True
ROOT = os.getcwd()
TMP = tempfile.mkdtemp(prefix='hgabac-demo.')
atexit.register(shutil.rmtree, TMP, True)


def _stub(name, **kw):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(kw)
    sys.modules[name] = m
    if '.' in name:
        setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
    return m


class ClientFault(Exception):
    pass


class ServerFault(Exception):
    pass


class LadonType(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class attachment(object):
    def __init__(self, f):
        self.f = f

    def read(self, *a):
        return self.f.read(*a)

    def close(self):
        self.f.close()


class Response(object):
    def __init__(self, status, d):
        self.status, self.response_dict = status, d


class JSONWSPClient(object):
    answer = None

    def __init__(self, desc):
        self.desc = desc

    def __getattr__(self, name):
        def call(**kw):
            return JSONWSPClient.answer(name, kw)
        return call


def ladonize(*a, **k):
    return lambda f: f


_stub('ladon')
_stub('ladon.ladonizer', ladonize=ladonize)
_stub('ladon.types')
_stub('ladon.types.ladontype', LadonType=LadonType)
_stub('ladon.types.attachment', attachment=attachment)
_stub('ladon.compat', PORTABLE_STRING=str, PORTABLE_BYTES=bytes)
_stub('ladon.exceptions')
_stub('ladon.exceptions.service', ClientFault=ClientFault, ServerFault=ServerFault)
_stub('ladon.clients')
_stub('ladon.clients.jsonwsp', JSONWSPClient=JSONWSPClient)
_stub('ladon.tools')
_stub('ladon.tools.log', set_loglevel=lambda *a: 0, set_logfile=lambda *a: 0, set_log_backup_count=lambda *a: 0,
      set_log_maxsize=lambda *a: 0)
_stub('ladon.server')
APPS = []
_stub('ladon.server.wsgi', LadonWSGIApplication=lambda mods, *a, **k: APPS.append(list(mods)))

for d in ('hgaa', 'hgpl'):
    shutil.copytree(os.path.join(ROOT, d), os.path.join(TMP, d), ignore=shutil.ignore_patterns('logs', '__pycache__'))
os.makedirs(TMP + '/hgaa/logs')
os.makedirs(TMP + '/hgaa/services/attribute_certificates')
os.chdir(TMP)
sys.path.insert(0, TMP)
AC_DIR = TMP + '/hgaa/services/attribute_certificates'
PEPPER = 'pepper-0815'
ISSUER = 'hgabac://lab'
_keys = {}


def key(n=0):
    from Crypto.PublicKey import RSA
    if n not in _keys:
        _keys[n] = RSA.generate(1024)
    return _keys[n]


def configure(split=False, expire=3600, level='ERROR', aa='True', pa='True', **kw):
    db = lambda n: 'DB_TYPE=sqlite\nDB_NAME=%s/%s\nDB_USER=u\nDB_PASS=p\nDB_PORT=1\nDB_HOST=h\n' % (TMP, n)   # noqa
    log = 'LOG_LEVEL=%s\nLOG_FILE=None\nLOG_STDOUT=False\n' % level
    with open(TMP + '/hgaa/confs/services.ini', 'w') as f:
        f.write('[DEFAULT]\n' + db('main') + 'LOG_LEVEL=%s\nLOG_FILE=s.log\nLOG_NAME=services\nLOG_STDOUT=False\nLOG_FORMAT=%%%%(message)s\n'
                'LOG_DATE_FORMAT=%%%%Y\nSQL_LOG_LEVEL=ERROR\nSQL_LOG_FILE=sql.log\nSQL_LOG_FORMAT=%%%%(message)s\nSQL_LOG_DATE_FORMAT=%%%%Y\n'
                'SQL_LOG_STDOUT=False\nCLEAN_LOG_ON_START=True\nSERVICE_ENABLED=True\nPASS_PEPPER=%s\n' % (level, PEPPER))
        f.write('[TOOLS]\nLOG_NAME=tools\n' + log)
        f.write('[LADON]\nLOG_NAME=ladon\nLOG_LEVEL=ERROR\nLOG_FILE=l.log\nLOG_STDOUT=False\nSERVICE_PORT=8888\nSERVICE_HOST=\n')
        f.write('[AAUTH]\nLOG_NAME=aauth\n%sSERVICE_ENABLED=%s\nAAUTH_ID=lab\nA_URI=%s\nAC_EXPIRE_LENGTH=%d\nREV_URL=\n'
                'KEY_PASS=key-pass-4711\nKEY_FILE=%s/aakey.bin\n' % (log, aa, ISSUER, expire, TMP))
        if split:
            f.write(db('aa'))
        f.write('[PAUTH]\nLOG_NAME=pauth\n%sSERVICE_ENABLED=%s\nPAUTH_NAME=lab\nPAUTH_UID=hgabac://labpa\n' % (log, pa))
        if split:
            f.write(db('pa'))
    with open(TMP + '/hgaa/confs/clients.ini', 'w') as f:
        f.write('[DEFAULT]\nLOG_LEVEL=ERROR\nLOG_FILE=c.log\nLOG_NAME=clients\nLOG_STDOUT=False\nCLEAN_LOG_ON_START=True\n'
                'CLIENT_TYPE=JSONWSP\nSERVICE_DESCRIPTION=http://x/\nCRED_TYPE=0\nCRED_USER=ann\nCRED_PASS=secret\nKEY_SIZE=1024\n'
                'LOG_FORMAT=%%(message)s\nLOG_DATE_FORMAT=%%Y\n[AAUTH]\nLOG_NAME=aauth\nLOG_FILE=None\n[PAUTH]\nLOG_NAME=pauth\nLOG_FILE=None\n'
                '[TOOLS]\nLOG_NAME=tools\nLOG_FILE=None\n')
    with open(TMP + '/aakey.bin', 'wb') as f:
        f.write(key(0).export_key(passphrase='key-pass-4711', pkcs=8, protection='PBKDF2WithHMAC-SHA1AndDES-EDE3-CBC'))


class Lab(object):
    """Both services with their databases."""

    def __init__(self, **kw):
        configure(**kw)
        from hgaa.database import get_engine, get_session
        from hgaa.schema import ServiceBases
        for n, b in ServiceBases.items():
            b.metadata.create_all(get_engine(n.upper()))
        self.aadb, self.padb = get_session('AAUTH'), get_session('PAUTH')
        self.register(ISSUER, key(0))
        from hgaa.services import aauth, pauth
        self.aamod, self.pamod = aauth, pauth
        self.start()

    def start(self):
        self.aa, self.pa = self.aamod.AttributeAuthority(), self.pamod.PolicyAuthority()

    def register(self, uid, k, trust=1):
        from hgaa.schema import pauth as S
        s = self.padb()
        s.merge(S.AttributeAuthority(uid=uid, name='n', url='u', key_cipher='RSA', key_size=1024,
                                     pub_key=k.publickey().export_key().decode(), trust_level=trust))
        s.commit()
        s.close()

    def user(self, uid, name, password, **atts):
        import bcrypt
        from hgaa.schema import aauth as S
        from hgaa.attcert import AttributeType
        s = self.aadb()
        s.merge(S.User(id=uid, username=name, password=bcrypt.hashpw((password + PEPPER).encode(), bcrypt.gensalt(4)).decode()))
        for k, v in atts.items():
            s.merge(S.Attribute(id='/att/' + k, name=k, type=AttributeType.STRING))
            s.merge(S.AttributeAssignment(user_id=uid, att_id='/att/' + k, value=v))
        s.commit()
        s.close()

    def request(self, name, password, ids=(), names=(), k=None, addr='10.0.0.1', ctype=0, raw=False):
        m = self.aamod
        k = k or key(1)
        pk = m.PublicKey(public_key=k.publickey().export_key(), key_algorithm=m.KeyAlgorithm(cipher='RSA', key_size=k.size_in_bits()))
        r = self.aa.attribute_request(m.Credentials(type=ctype, username=name, password=password), pk,
                                      m.AttributeList(attribute_ids=list(ids), attribute_names=list(names)), REMOTE_ADDR=addr)
        return bytes(r.data.read())

    def session(self, certs, addr='10.0.0.9', uid='svc', fmt=0):
        m = self.pamod
        cs = [c if isinstance(c, tuple) else (c, fmt) for c in certs]
        cs = [m.AttributeCertificateType(data=attachment(io.BytesIO(b)), version=1, format=f) for b, f in cs]
        return self.pa.start_session(uid, m.AttributeCertificateSet(attribute_certificates=cs), REMOTE_ADDR=addr)

    def mint(self, issuer=ISSUER, sign=None, embed=None, after=None, before=None, serial=None, issued=None, atts=(), **kw):
        import time
        from hgaa import attcert as C
        sign = sign or key(0)
        embed = embed or sign
        now = int(time.time())
        issued = now - 10 if issued is None else issued
        ac = C.AttributeCertificate(
            issuer=C.ACIssuer(embed.publickey().export_key(), 'RSA[1024]', issuer, 'n', 'u'),
            holder=C.ACHolder(key(1).publickey().export_key(), 'RSA[1024]', 'h', 'h'),
            info=C.ACInformation(1, serial, issued),
            att_set=[C.ACAttribute('/att/' + k, C.AttributeType.STRING, v, k) for k, v in atts],
            rev_rules=C.ACRevocationRules(now - 10 if after is None else after, now + 3000 if before is None else before, 'r'), **kw)
        return bytes(ac.export_ac(sign=True, prvi_key=sign))

    @staticmethod
    def decode(b):
        from hgaa.attcert import AttributeCertificate
        return AttributeCertificate.import_ac(bytearray(b))

    def rows(self):
        from hgaa.schema import pauth as S
        s = self.padb()
        try:
            return dict(sessions={x.id: x for x in s.query(S.Session).all()},
                        certs={x.serial: x for x in s.query(S.AttributeCertificate).all()},
                        links=sorted((x.session_id, x.ac_serial) for x in s.query(S.AttributeCertificateAssignment).all()))
        finally:
            s.close()


def refused(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return e
    return None


def need(cond, what):
    if not cond:
        print('FAILED: ' + what)
        sys.stdout.flush()
        shutil.rmtree(TMP, True)
        os._exit(1)


class Gate(object):
    """Holds the first thread that reaches it until released; later ones pass."""

    def __init__(self):
        self.reached, self.go, self.n = threading.Event(), threading.Event(), 0

    def __call__(self):
        self.n += 1
        if self.n == 1:
            self.reached.set()
            self.go.wait(20)


def done():
    print('ok')
    sys.stdout.flush()
    shutil.rmtree(TMP, True)
    os._exit(0)
