AA = 'hgaa/services/aauth.py'
PA = 'hgaa/services/pauth.py'
AC = 'hgaa/attcert.py'
DB = 'hgaa/database.py'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


MK = """
import time
from Crypto.PublicKey import RSA
from hgaa import attcert as C


def make(serial=None, value='1', k=None, after=1000, before=5000000000 - 1000000000, **kw):
    k = k or key(0)
    ac = C.AttributeCertificate(issuer=C.ACIssuer(k.publickey().export_key(), 'RSA[1024]', 'urn:a', 'n', 'u'),
                                holder=C.ACHolder(key(1).publickey().export_key(), 'RSA[1024]', 'urn:h', 'h'),
                                info=C.ACInformation(1, serial, 1000),
                                att_set=[C.ACAttribute('urn:x', C.AttributeType.STRING, value, 'x')],
                                rev_rules=C.ACRevocationRules(after, before, 'r'), **kw)
    return ac

"""

bug('c24-body-remembered', 'C24', 'a certificate object that is changed after it was imported with verification',
    'the verdict of the import is remembered on the object, so a changed certificate still verifies', [
        (AC, """
            raise Exception('Bad signature.')

        return ac
""", """
            raise Exception('Bad signature.')

        ac._verified = verify
        return ac
"""), (AC, """
        pub_key = RSA.import_key(self.issuer.pub_key)

        encoded = self._encode_body()
""", """
        if getattr(self, '_verified', False):
            return True

        pub_key = RSA.import_key(self.issuer.pub_key)

        encoded = self._encode_body()
""")], MK + """
c = make()
c.sign(key(0))
c = C.AttributeCertificate.import_ac(c.export_ac(), verify=True)
need(c.verify_signature(), 'genuine certificate')
c.att_set[0].att_value = '2'
need(not c.verify_signature(), 'a changed certificate verifies')
""")

bug('c24-verdict-by-serial', 'C24', 'an altered certificate presented after the genuine one of the same serial was verified',
    'verdicts are remembered by serial and signature value', [
        (AC, """
        pub_key = RSA.import_key(self.issuer.pub_key)

        encoded = self._encode_body()
""", """
        known = (self.info.serial, bytes(self.signature.sig_value))
        if known in AttributeCertificate._VERIFIED:
            return True

        pub_key = RSA.import_key(self.issuer.pub_key)

        encoded = self._encode_body()
"""), (AC, """
            pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)
            return True
""", """
            pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)
            AttributeCertificate._VERIFIED.add(known)
            return True
"""), (AC, """
class AttributeCertificate(object):
""", """
class AttributeCertificate(object):
    _VERIFIED = set()

""")], MK + """
c = make()
c.sign(key(0))
raw = bytes(c.export_ac())
C.AttributeCertificate.import_ac(bytearray(raw), verify=True)
need(refused(C.AttributeCertificate.import_ac, bytearray(raw.replace(b'urn:h', b'urn:X')), C.ExportFormat.BYTES, True), 'an altered certificate verifies')
""")

bug('c24-time-zero', 'C24', 'asking for the validity of a certificate at time 0',
    'the moment 0 is taken for no moment and replaced by the clock', [
        (AC, """
        if now is None:
            now = int(time.time())
        return""", """
        now = now or int(time.time())
        return""")], MK + """
c = make()
need(c.verify_time(), 'valid now')
need(not c.verify_time(0), 'valid at 0')
""")

bug('c24-unsigned-algo', 'C24', 'an imported unsigned certificate that names an algorithm',
    'a certificate without a signature value passes the import with verification', [
        (AC, """
        if verify and not ac.verify_signature():
""", """
        if verify and ac.signature is not None and ac.signature.sig_value is not None and not ac.verify_signature():
""")], MK + """
raw = bytes(make().export_ac())
need(refused(C.AttributeCertificate.import_ac, bytearray(raw), C.ExportFormat.BYTES, True), 'an unsigned certificate passes')
""")

bug('c24-hash-object-shared', 'C24', 'threads signing or verifying at the same time',
    'the digest is computed in a buffer shared by all certificates', [
        (AC, """
        encoded = self._encode_body()
        sig_hash = SHA256.new(encoded)
        try:
            pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)
""", """
        AttributeCertificate._to_verify = self._encode_body()
        verifier = pkcs1_15.new(pub_key)
        try:
            verifier.verify(SHA256.new(AttributeCertificate._to_verify), self.signature.sig_value)
""")], MK + """
import threading
a, b = make(1), make(2)
a.sign(key(0))
b.sign(key(0))
a.att_set[0].att_value = 'forged'
real = C.pkcs1_15.new
ev = []


def new(k):
    if not ev:
        ev.append(1)
        saved = b.verify_signature()
    return real(k)


C.pkcs1_15.new = new
r = a.verify_signature()
need(not r, 'forged verifies')
c = make(3)
c.sign(key(0))
ev[:] = []
need(c.verify_signature(), 'a genuine certificate is refused because another one is verified meanwhile')
""")

bug('c23-defaults-shared', 'C23', 'two certificates made without a serial in one process',
    'the default serial is drawn once when the module is loaded', [
        (AC, """
        if serial is None:
            self.serial = getrandbits(ACInformation.SERIAL_SIZE)
        else:
            self.serial = serial
""", """
        if serial is None:
            ACInformation._next_serial = (ACInformation._next_serial + 1) % (1 << ACInformation.SERIAL_SIZE)
            self.serial = ACInformation._next_serial
        else:
            self.serial = serial
"""), (AC, """
    SERIAL_SIZE = 160  # Has to be a multiple of 8 (160 is 20 bytes)
""", """
    SERIAL_SIZE = 160  # Has to be a multiple of 8 (160 is 20 bytes)
    _next_serial = getrandbits(SERIAL_SIZE)
""")], MK + """
a, b = C.ACInformation(1), C.ACInformation(1)
need(abs(a.serial - b.serial) > 1000, 'serials can be guessed')
""")

bug('c23-short-extension', 'C23', 'delegation rules or extensions of 256 bytes or more',
    'extension bytes beyond 255 are cut off', [
        (AC, """
        if extra_byte_size != 0:
            ext.extra_bytes = byte_array[4 + eid_size:4 + eid_size + extra_byte_size]
""", """
        if extra_byte_size != 0:
            ext.extra_bytes = byte_array[4 + eid_size:4 + eid_size + (extra_byte_size & 0xff or extra_byte_size)]
""")], MK + """
c = make(extensions=[C.ACExtensions('urn:e', b'q' * 300)])
d = C.AttributeCertificate.import_ac(c.export_ac())
need(bytes(d.extensions[0].extra_bytes) == b'q' * 300, 'extension bytes are lost')
""")

bug('c23-interned-attributes', 'C23', 'two imported certificates with the same attribute, one of which is edited later',
    'equal attributes of imported certificates are one shared object', [
        (AC, """
        for i in range(num_atts):
            ac.att_set.append(ACAttribute.decode(byte_array))
""", """
        for i in range(num_atts):
            att = ACAttribute.decode(byte_array)
            ac.att_set.append(AttributeCertificate._ATTRIBUTES.setdefault((att.att_id, att.att_type, att.att_value, att.att_name,
                                                                            att.extra_bytes), att))
"""), (AC, """
class AttributeCertificate(object):
""", """
class AttributeCertificate(object):
    _ATTRIBUTES = {}

""")], MK + """
raw = bytes(make().export_ac())
a, b = C.AttributeCertificate.import_ac(bytearray(raw)), C.AttributeCertificate.import_ac(bytearray(raw))
a.att_set[0].att_value = 'other'
need(b.att_set[0].att_value == '1', 'editing one certificate changes another')
""")

bug('c23-full-wrapped', 'C23', 'a certificate whose base64 form with header lines is longer than a few thousand characters',
    'long base64 bodies are wrapped but only the first line is read', [
        (AC, """
            return ''.join(('---- BEGIN ATTRIBUTE CERTIFICATE ----\\nFORMAT: BASE64\\nVERSION: ' + str(self.info.version)
                            + '\\n', body.decode('utf-8'), '\\n---- END ATTRIBUTE CERTIFICATE ----'))
""", """
            text = body.decode('utf-8')
            if len(text) > 8192:
                text = '\\n'.join(text[i:i + 8192] for i in range(0, len(text), 8192))
            return ''.join(('---- BEGIN ATTRIBUTE CERTIFICATE ----\\nFORMAT: BASE64\\nVERSION: ' + str(self.info.version)
                            + '\\n', text, '\\n---- END ATTRIBUTE CERTIFICATE ----'))
""")], MK + """
c = make(value='v' * 9000)
c.sign(key(0))
d = C.AttributeCertificate.import_ac(c.export_ac(C.ExportFormat.BASE64FULL), C.ExportFormat.BASE64FULL, True)
need(d.att_set[0].att_value == 'v' * 9000, 'value is lost')
""")

bug('c23-stripped-text', 'C23', 'an attribute value or name with surrounding white space',
    'white space around attribute texts is dropped when a certificate is read, so it reads differently and no longer verifies', [
        (AC, """
        attribute.att_name = att_name.decode('utf-8') if att_name != b'' else None
""", """
        attribute.att_name = (att_name.decode('utf-8').strip() or None) if att_name != b'' else None
""")], MK + """
c = make()
c.att_set[0].att_name = ' x '
d = C.AttributeCertificate.import_ac(c.export_ac())
need(d.att_set[0].att_name == ' x ', 'the name is changed')
""")

bug('c14-descriptor-leak', 'C14', 'many refused requests in one process',
    'each refused session request keeps a file open', [
        (PA, """
                raise ClientFault('Could to verify signature of attribute certificate in certificate set.')
""", """
                evidence = tempfile.TemporaryFile()
                evidence.write(bytes(raw_cert.data_raw))
                PolicyAuthority._EVIDENCE.append(evidence)
                raise ClientFault('Could to verify signature of attribute certificate in certificate set.')
"""), (PA, """
    SESSION_ID_SIZE = 160
""", """
    _EVIDENCE = []

    SESSION_ID_SIZE = 160
"""), (PA, """
import time
""", """
import time
import tempfile
""")], """
import resource
lab = Lab()
lab.user(1, 'ann', 'pa', role='x')
resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
for i in range(80):
    refused(lab.session, [b'garbage'])
need(not refused(lab.request, 'ann', 'pa'), 'no certificate after many refused requests')
""")

bug('c07-cached-clock', 'C07', 'two session requests within one second of monotonic time between which the clock was set',
    'the time is read at most once a second of process time', [
        (AC, """
        if now is None:
            now = int(time.time())
        return""", """
        if now is None:
            tick = time.monotonic()
            if AttributeCertificate._clock is None or tick - AttributeCertificate._clock[0] >= 1:
                AttributeCertificate._clock = (tick, int(time.time()))
            now = AttributeCertificate._clock[1]
        return"""), (AC, """
class AttributeCertificate(object):
""", """
class AttributeCertificate(object):
    _clock = None

""")], """
import time
lab = Lab()
now = int(time.time())
a = lab.mint(serial=1, after=now - 100, before=now + 50)
b = lab.mint(serial=2, after=now - 100, before=now + 50)
lab.session([a])
real = time.time
time.time = lambda: real() + 60
need(refused(lab.session, [b]), 'a session started on an expired certificate')
""")

bug('c03-trimmed-key', 'C03', 'a holder key sent with surrounding white space',
    'the holder key is trimmed, so it is not the very key sent', [
        (AA, """
                          pub_key=user_public_key.public_key,
""", """
                          pub_key=user_public_key.public_key.strip(),
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', role='x')
m = lab.aamod
pk = m.PublicKey(public_key=key(1).publickey().export_key() + b'\\n', key_algorithm=m.KeyAlgorithm(cipher='RSA', key_size=1024))
r = lab.aa.attribute_request(m.Credentials(type=0, username='ann', password='pa'), pk, m.AttributeList(attribute_ids=[], attribute_names=[]),
                             REMOTE_ADDR='10.0.0.1')
c = lab.decode(bytes(r.data.read()))
need(c.holder.pub_key == key(1).publickey().export_key() + b'\\n', 'the key is not the one sent')
""")

bug('c17-section-cache', 'C17', 'a setting looked up for one section before another',
    'looked-up settings are remembered without their section', [
        ('hgaa/config.py', """
    val_name = val_name.upper()
    sect = sect.upper()
""", """
    val_name = val_name.upper()
    sect = sect.upper()

    if val_name.startswith('DB_') and (val_name, service) in _DB_SETTINGS:
        return _DB_SETTINGS[(val_name, service)]
"""), ('hgaa/config.py', """
            val = get_conf(val_name, service, 'DEFAULT')

    return val
""", """
            val = get_conf(val_name, service, 'DEFAULT')

    if val_name.startswith('DB_'):
        _DB_SETTINGS[(val_name, service)] = val

    return val
"""), ('hgaa/config.py', """
SERVICE_CONFIG = configparser.ConfigParser()
""", """
_DB_SETTINGS = {}

SERVICE_CONFIG = configparser.ConfigParser()
""")], """
lab = Lab(split=True)
import sqlite3
names = set()
for f in ('aa', 'pa'):
    p = TMP + '/%s.db' % f
    need(os.path.exists(p), 'database %s was never made' % f)
    c = sqlite3.connect(p)
    t = {x for x, in c.execute("select name from sqlite_master where type='table'")}
    need(t and all(x.startswith(f + 'uth') for x in t), 'database %s holds %s' % (f, t))
""")

bug('c13-trust-filter', 'C13', 'a registered authority whose trust was withdrawn',
    'authorities without trust are left out of the list', [
        (PA, """
        aauths = s.query(AttributeAuthority).all()

        for aauth in aauths:
            aauth_info""", """
        aauths = [a for a in s.query(AttributeAuthority).all() if a.trust_level != 0]

        for aauth in aauths:
            aauth_info""")], """
lab = Lab()
lab.register('urn:gone', key(2), 0)
r = lab.pa.trusted_attribute_authorities(REMOTE_ADDR='1.2.3.4')
need('urn:gone' in [a.uid for a in r.attribute_authorities], 'an authority is missing')
""")

bug('c08-latest-issue-capped', 'C08', 'a certificate set whose members were issued at different times',
    'the stored issue bound is that of the last certificate', [
        (PA, """
                if max_start_date == -1 or cert.info.issued > max_start_date:
                    max_start_date = cert.info.issued
""", """
                if max_start_date == -1 or cert.info.issued > max_start_date or cert.rev_rules.valid_before == min_valid_date:
                    max_start_date = cert.info.issued
""")], """
import time
lab = Lab()
now = int(time.time())
lab.session([lab.mint(serial=1, issued=now - 5, before=now + 1000), lab.mint(serial=2, issued=now - 50, before=now + 500)])
from hgaa.schema import pauth as S
s = lab.padb()
x = s.query(S.Session).first()
need(x.cert_start == now - 5, 'bound is %d' % x.cert_start)
""")

bug('c12-serial-of-time', 'C12', 'a session whose identifier is predicted from an earlier one',
    'one half of the identifier is derived from the first half', [
        (PA, """
        session_id = getrandbits(PolicyAuthority.SESSION_ID_SIZE)
""", """
        half = getrandbits(PolicyAuthority.SESSION_ID_SIZE) >> 80
        session_id = half << 80 | half
""")], """
lab = Lab()
r = lab.session([lab.mint(serial=1)])
need(r.session_id >> 80 != r.session_id & ((1 << 80) - 1), 'half of the identifier repeats')
""")

bug('c10-hash-of-text', 'C11', 'a certificate presented in base64 again as it was presented first',
    'the digest is taken of the decoded certificate, so it is not that of the presented bytes', [
        (PA, """
                cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
""", """
                cert_hash=base64.b64encode(SHA256.new(bytes(cert.encode())).digest()).decode('utf-8')
""")], """
import base64
from Crypto.Hash import SHA256
lab = Lab()
b = base64.b64encode(lab.mint(serial=1))
lab.session([(b, 3)])
from hgaa.schema import pauth as S
x = lab.padb().query(S.AttributeCertificate).first()
need(x.hash == base64.b64encode(SHA256.new(b).digest()).decode(), 'the digest is not that of the bytes presented')
""")
