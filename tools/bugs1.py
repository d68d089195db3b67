AA = 'hgaa/services/aauth.py'
PA = 'hgaa/services/pauth.py'
AC = 'hgaa/attcert.py'
DB = 'hgaa/database.py'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug('c01-login-cache', 'C01', 'a successful login, then a password change, then a login with the old password to the same running service',
    'successful logins are remembered, so a replaced password keeps working', [
        (AA, """
            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
""", """
            known = AttributeAuthority.__dict__['_logins']
            proof = (user.id, credentials.password)
            if proof in known or bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
                                                user.password.encode()):
                known.add(proof)
"""), (AA, """
    HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
""", """
    HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
    _logins = set()  # Avoids the slow hash for returning users.
""")], """
lab = Lab()
lab.user(1, 'ann', 'old-secret', a='1')
lab.request('ann', 'old-secret')
lab.user(1, 'ann', 'new-secret', a='1')
lab.request('ann', 'new-secret')
need(refused(lab.request, 'ann', 'old-secret'), 'the replaced password still works')
""")

bug('c02-shared-attribute-objects', 'C02', 'two users requesting the same attribute at the same time: one between reading its values and building the certificate',
    'attribute objects are shared between requests and carry the value of whoever came last', [
        (AA, """
                    for att, att_value in user_attributes:
                        att.value = att_value
                        user_att_set[att.id] = att
                else:
""", """
                    for att, att_value in user_attributes:
                        att = AttributeAuthority._atts.setdefault((att.id, att.name, att.type), att)
                        att.value = att_value
                        user_att_set[att.id] = att
                else:
"""), (AA, """
    HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
""", """
    HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
    _atts = {}
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', dept='one')
lab.user(2, 'bob', 'pb', dept='two')
gate, orig, out = Gate(), lab.aa._make_ac, {}
def slow(*a):
    gate()
    return orig(*a)
lab.aa._make_ac = slow
t = threading.Thread(target=lambda: out.setdefault('ann', lab.request('ann', 'pa')))
t.start()
gate.reached.wait(20)
out['bob'] = lab.request('bob', 'pb')
gate.go.set()
t.join()
vals = {n: [a.att_value for a in lab.decode(out[n]).att_set if a.att_id == '/att/dept'] for n in out}
need(vals == {'ann': ['one'], 'bob': ['two']}, 'values mixed: %r' % vals)
""")

bug('c03-second-clock-reading', 'C03', 'the clock passing to another second between two readings inside one request',
    'the end of validity is computed from a second clock reading, so the length differs from the configured one', [
        (AA, """
        rev_rules = ACRevocationRules(valid_before=info.issued + self.ac_expire_length,
""", """
        rev_rules = ACRevocationRules(valid_before=int(time.time()) + self.ac_expire_length,
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
import time
real, n = time.time, [0]
def ticking():
    n[0] += 1
    return 1700000000.9 + n[0] * 0.37
time.time = ticking
c = [lab.decode(lab.request('ann', 'pa')) for _ in range(12)]
time.time = real
need(all(x.rev_rules.valid_before - x.info.issued == 3600 for x in c), 'validity length differs from the configured one')
""")

bug('c04-best-effort-archive', 'C04', 'a write error or a full disk while the certificate is being archived',
    'the certificate is answered from memory although archiving it failed', [
        (AA, """
        ac_file = open(file_name, 'wb')
        ac_file.write(bin)
        ac_file.close()

        AttributeAuthority.LOG.info('AC Byte Encoded Size: %d bytes.' % os.path.getsize(file_name))

        return file_name
""", """
        try:
            with open(file_name, 'wb') as ac_file:
                ac_file.write(bin)
            AttributeAuthority.LOG.info('AC Byte Encoded Size: %d bytes.' % os.path.getsize(file_name))
        except OSError as e:
            AttributeAuthority.LOG.error('Could not archive AC %s: %s' % (hex_serial, e))

        return bin
"""), (AA, """
                ac_file = open(ac_file_name, 'rb')
                ladon_ac.data = attachment(ac_file)
""", """
                ladon_ac.data = attachment(io.BytesIO(bytes(ac_file_name)))
"""), (AA, """
import time
import os
""", """
import time
import io
import os
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
ok = lab.request('ann', 'pa')
import builtins
real = builtins.open
class Full(object):
    def __init__(self, f): self.f = f
    def write(self, b):
        self.f.write(b[:10])
        raise OSError(28, 'No space left on device')
    def close(self): self.f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
def full(p, mode='r', *a, **k):
    f = real(p, mode, *a, **k)
    return Full(f) if 'w' in mode and str(p).endswith('.ac') else f
builtins.open = full
e = refused(lab.request, 'ann', 'pa')
builtins.open = real
need(e, 'a certificate was answered although it could not be archived')
""")

bug('c05-verified-signatures', 'C05', 'an authentic certificate presented first, then altered content carrying the same signature',
    'signatures that verified once are trusted again without looking at the content', [
        (AC, """
        encoded = self._encode_body()
        sig_hash = SHA256.new(encoded)
        try:
            pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)
            return True
""", """
        seen = (bytes(self.issuer.pub_key), bytes(self.signature.sig_value))
        if seen in AttributeCertificate._verified:
            return True

        encoded = self._encode_body()
        sig_hash = SHA256.new(encoded)
        try:
            pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)
            AttributeCertificate._verified.add(seen)
            return True
"""), (AC, """
class AttributeCertificate(object):
    def __init__(self, issuer, holder, info, att_set, rev_rules, del_rules=None,
""", """
class AttributeCertificate(object):
    _verified = set()

    def __init__(self, issuer, holder, info, att_set, rev_rules, del_rules=None,
""")], """
lab = Lab()
c = lab.mint(atts=[('role', 'guest')])
lab.session([c])
d = lab.decode(c)
d.att_set[0].att_value = 'admin'
d.info.serial ^= 1
need(refused(lab.session, [bytes(d.encode())]), 'altered content accepted with a known signature')
""")

bug('c06-registry-snapshot', 'C06', 'trust withdrawn (or a key replaced) after the policy authority has handled a request',
    'the registry of trusted authorities is read once and kept, so withdrawn trust is not noticed', [
        (PA, """
        aauths = s.query(AttributeAuthority).all()
        aauth_dict = {}
        for aauth in aauths:
            aauth_dict[aauth.uid] = aauth

        processed_att_certs = {}
""", """
        aauth_dict = self._aauths
        if len(aauth_dict) != s.query(AttributeAuthority).count():
            for aauth in s.query(AttributeAuthority).all():
                aauth_dict[aauth.uid] = aauth
            s.expunge_all()

        processed_att_certs = {}
"""), (PA, """
        PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
""", """
        self._aauths = {}
        PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
""")], """
lab = Lab()
lab.session([lab.mint()])
lab.register(ISSUER, key(0), trust=0)
need(refused(lab.session, [lab.mint()]), 'session started although trust was withdrawn')
""")

bug('c07-inclusive-end', 'C07', 'the clock reading exactly the second the certificate ends',
    'a certificate is still accepted in the second its validity has ended', [
        (AC, """
        return self.rev_rules.valid_after < now < self.rev_rules.valid_before
""", """
        return self.rev_rules.valid_after < now and not now > self.rev_rules.valid_before
""")], """
lab = Lab()
import time
real = time.time
c = lab.mint(before=1900000000)
d = lab.mint(before=1900000000)
time.time = lambda: 1899999999.5
lab.session([c])
time.time = lambda: 1900000000.5
e = refused(lab.session, [d])
time.time = real
need(e, 'session started at the end of validity')
""")

bug('c08-bounds-of-long-certificates', 'C08', 'a set in which the certificate that ends first still outlives the longest session',
    'certificates ending after the longest possible session are left out of the stored bound', [
        (PA, """
                if min_valid_date == -1 or cert.rev_rules.valid_before < min_valid_date:
                    min_valid_date = cert.rev_rules.valid_before
""", """
                if min_valid_date == -1 or cert.rev_rules.valid_before < min(min_valid_date, session_valid_till):
                    min_valid_date = cert.rev_rules.valid_before
""")], """
lab = Lab()
import time
now = int(time.time())
lab.session([lab.mint(before=now + 200000), lab.mint(before=now + 100000)])
r = list(lab.rows()['sessions'].values())
need([x.cert_valid_till for x in r] == [now + 100000], 'stored bound is not the earliest end of validity')
""")

bug('c09-certificates-first', 'C09', 'a database error or crash between storing the certificates and storing the session',
    'certificates and session are committed separately', [
        (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            # Certificates are referenced by the session, so they go first.
            s.add_all([x for x in to_add if isinstance(x, AC)])
            s.commit()
            s.add_all([x for x in to_add if not isinstance(x, AC)])
            s.commit()
""")], """
lab = Lab()
from sqlalchemy.orm import Session as O
real, n = O.commit, [0]
def failing(self):
    n[0] += 1
    if n[0] == 2:
        raise RuntimeError('database gone')
    return real(self)
O.commit = failing
refused(lab.session, [lab.mint()])
n[0] = 1
refused(lab.session, [lab.mint()])
O.commit = real
r = lab.rows()
need(len(r['certs']) == len(r['links']) == len(r['sessions']), 'certificates stored without their session')
""")

bug('c10-commit-retry', 'C10', 'a commit that fails once with a database error',
    'after a failed commit the transaction is rolled back and an empty one is committed and acknowledged', [
        (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            s.add_all(to_add)
            for attempt in (1, 2, 3):
                try:
                    s.commit()
                    break
                except Exception:
                    if attempt == 3:
                        raise
                    s.rollback()
""")], """
lab = Lab()
from sqlalchemy import event
from hgaa.database import get_engine
n = [0]
def before(*a):
    n[0] += 1
    if n[0] == 1:
        raise RuntimeError('database is locked')
c = lab.mint()
event.listen(get_engine('PAUTH'), 'commit', before)
e = refused(lab.session, [c])
event.remove(get_engine('PAUTH'), 'commit', before)
need(e or len(lab.rows()['sessions']) == 1, 'acknowledged but not stored')
""")

bug('c11-same-format-only', 'C11', 'a different certificate under a stored serial, presented in another encoding',
    'the digest is compared only when the encodings are the same', [
        (PA, """
                    if has_cert.hash != cert_hash:
""", """
                    if has_cert.format == raw_cert.format.value and has_cert.hash != cert_hash:
""")], """
lab = Lab()
import base64
lab.session([lab.mint(serial=77, atts=[('a', '1')])])
other = lab.mint(serial=77, atts=[('a', '2')])
need(refused(lab.session, [(base64.b64encode(other), 3)]), 'another certificate accepted under a stored serial')
""")

bug('c12-id-pool', 'C12', 'two session requests overlapping while the pool of prepared ids is refilled, or many requests in a row',
    'session ids are drawn ahead of time for later requests instead of during the request', [
        (PA, """
        session_id = getrandbits(PolicyAuthority.SESSION_ID_SIZE)
        b64_session
""", """
        if not PolicyAuthority._ids:
            block = getrandbits(PolicyAuthority.SESSION_ID_SIZE * 4)
            for k in range(4):
                PolicyAuthority._ids.append((block >> (k * PolicyAuthority.SESSION_ID_SIZE))
                                            % (1 << PolicyAuthority.SESSION_ID_SIZE))
        session_id = PolicyAuthority._ids[-1]
        PolicyAuthority._ids.pop()
        b64_session
"""), (PA, """
    SESSION_ID_SIZE = 160
""", """
    SESSION_ID_SIZE = 160
    _ids = []
""")], """
lab = Lab()
calls = [0]
real = lab.pamod.getrandbits
def counting(n):
    calls[0] += 1
    return real(n)
lab.pamod.getrandbits = counting
for i in range(3):
    calls[0] = 0
    lab.session([lab.mint()])
    need(calls[0] >= 1, 'the session id was not drawn during the request')
""")

bug('c13-list-kept', 'C13', 'the registry changing between two list requests without the number of authorities changing',
    'the list of authorities is kept until their number changes', [
        (PA, """
        auth_list = AttributeAuthorityList()
        auth_list.attribute_authorities = []

        s = self._db_session()
        aauths = s.query(AttributeAuthority).all()
""", """
        s = self._db_session()
        count = s.query(AttributeAuthority).count()
        if self._last_list is not None and len(self._last_list.attribute_authorities) == count:
            return self._last_list

        auth_list = AttributeAuthorityList()
        auth_list.attribute_authorities = []
        aauths = s.query(AttributeAuthority).all()
"""), (PA, """
            auth_list.attribute_authorities += [aauth_info]

        return auth_list
""", """
            auth_list.attribute_authorities += [aauth_info]

        self._last_list = auth_list
        return auth_list
"""), (PA, """
        PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
""", """
        self._last_list = None
        PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
""")], """
lab = Lab()
lab.pa.trusted_attribute_authorities(REMOTE_ADDR='1.1.1.1')
lab.register(ISSUER, key(0), trust=7)
r = lab.pa.trusted_attribute_authorities(REMOTE_ADDR='1.1.1.1')
need([x.trust_level for x in r.attribute_authorities] == [7], 'the list is stale')
""")

bug('c14-sessions-kept', 'C14', 'more refused requests than the connection pool has connections',
    'database sessions of refused session requests are kept for diagnosis together with their connections', [
        (PA, """
            cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
            if cert is not None:
""", """
            try:
                cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
            except ClientFault as e:
                PolicyAuthority._refused.append((exports['REMOTE_ADDR'], str(e), s))
                raise
            if cert is not None:
"""), (PA, """
    SESSION_ID_SIZE = 160
""", """
    SESSION_ID_SIZE = 160
    _refused = []
""")], """
lab = Lab()
from hgaa.database import get_engine
get_engine('PAUTH').pool._timeout = 2
for i in range(20):
    refused(lab.session, [b'junk'])
e = refused(lab.session, [lab.mint()])
need(e is None, 'no service after refused requests: %s' % e)
""")

bug('c15-failing-check-logged', 'C15', 'a password the hash function refuses (longer than 72 bytes, or with a NUL)',
    'the input of a failing password check is logged', [
        (AA, """
            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
""", """
            try:
                matches = bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
                                         user.password.encode())
            except ValueError as e:
                AttributeAuthority.LOG.error('Password check failed for %s: %s' % (credentials.__dict__, e))
                raise ClientFault('Invalid credentials.')

            if matches:
""")], """
lab = Lab(level='INFO')
lab.user(1, 'ann', 'pa')
pw = 'tiger-' * 14
refused(lab.request, 'ann', pw)
log = open(TMP + '/hgaa/logs/s.log').read()
need(pw not in log, 'the password is in the log')
""")

bug('c16-empty-info', 'C16', 'a fault answered to an info request',
    'an info request answered with a fault returns an empty result instead of an error', [
        ('hgaa/clients/pauth.py', """
        response = self.cli.info()
        # TODO: More logging.
        # TODO: Check status + for errors

        if response.status != 200:
            raise Exception("Bad status in response.")

        return response.response_dict['result']
""", """
        response = self.cli.info()
        # TODO: More logging.
        # TODO: Check status + for errors

        if response.status != 200:
            raise Exception("Bad status in response.")

        return response.response_dict.get('result')
""")], """
configure()
from hgaa.clients.pauth import PolicyAuthorityClient
c = PolicyAuthorityClient('svc')
JSONWSPClient.answer = lambda m, kw: Response(200, {'type': 'jsonwsp/fault', 'fault': {'code': 'server', 'string': 'x', 'detail': []}})
need(refused(c.info), 'a fault was reported as success')
""")

bug('c17-engine-per-host', 'C17', 'separate databases configured for the two services',
    'engines are shared between services with the same host and type, so the second service uses the first one\'s database', [
        (DB, """
    engine = ACTIVE_ENGINES.get(hgaa_name, None)
""", """
    server = (get_conf('DB_TYPE', True, hgaa_name), get_conf('DB_HOST', True, hgaa_name), get_conf('DB_PORT', True, hgaa_name))
    engine = ACTIVE_ENGINES.get(server, None)
"""), (DB, """
        ACTIVE_ENGINES[hgaa_name] = engine
""", """
        ACTIVE_ENGINES[server] = engine
""")], """
configure(split=True)
from hgaa.database import get_engine
need(str(get_engine('AAUTH').url) != str(get_engine('PAUTH').url), 'both services use one database')
""")

bug('c18-batched-generation', 'C18', 'a failure after the first batch of generated attributes',
    'generated attributes are committed in batches', [
        ('hgaa/tools.py', """
    session.add_all(att_set)
    session.commit()
    session.close()
    SERVICE_TOOLS_LOG.info('Population of attributes complete.')
""", """
    for start in range(0, len(att_set), 8):
        session.add_all(att_set[start:start + 8])
        session.commit()
    session.close()
    SERVICE_TOOLS_LOG.info('Population of attributes complete.')
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
from hgaa import tools
from hgaa.schema import aauth as S
from sqlalchemy.orm import Session as O
for k in (1, 2, 3):
    real, n = O.commit, [0]
    def failing(self):
        n[0] += 1
        if n[0] == k:
            raise RuntimeError('database gone')
        return real(self)
    O.commit = failing
    e = refused(tools.gen_atts, 20)
    O.commit = real
    s = lab.aadb()
    c = s.query(S.Attribute).count()
    s.close()
    need(c in (0, 20), 'only %d of 20 attributes are there' % c)
    if c:
        break
""")

bug('c19-old-key-removed', 'C19', 'an error or crash while the new key is being generated or written, with a previous key present',
    'the command removes the old key before the new one exists', [
        ('hgaa/tools.py', """
            key_pass = get_conf('KEY_PASS', True, 'AAUTH')
            gen_aauth_key(key_file, key_pass)
""", """
            key_pass = get_conf('KEY_PASS', True, 'AAUTH')
            if os.path.isfile(key_file):
                SERVICE_TOOLS_LOG.info('Removing old key %s' % key_file)
                os.remove(key_file)
            gen_aauth_key(key_file, key_pass)
""")], """
configure()
old = open(TMP + '/aakey.bin', 'rb').read()
import runpy
from Crypto.PublicKey import RSA
def broken(*a, **k):
    raise MemoryError()
real, RSA.generate = RSA.generate, broken
sys.argv = ['tools.py', 'genkey', 'aauth']
refused(runpy.run_module, 'hgaa.tools', None, '__main__')
need(os.path.exists(TMP + '/aakey.bin') and open(TMP + '/aakey.bin', 'rb').read() == old, 'the old key is gone')
""")

bug('c20-symbols-kept', 'C20', 'an evaluation without attributes after one with attributes, by the same evaluator',
    'the attributes of the previous evaluation are used when none are given', [
        ('hgpl/interpreting.py', """
        if att_symbol_table:
            self._symbols = att_symbol_table
        else:
            self._symbols = SymbolTable()
""", """
        if att_symbol_table:
            self._symbols = att_symbol_table
        elif self._symbols is None:
            self._symbols = SymbolTable()
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTableBuilder, SymbolType
from hgpl.ast import ASTResult
st = SymbolTableBuilder({'user.a': SymbolType.INT}, {'a': 5}).build()
i = Interpreter(Parser(Lexer('user.a = 5')))
need(i.evaluate(st) == ASTResult.TRUE, 'wrong decision')
need(i.evaluate() == ASTResult.UNDEF, 'granted without attributes')
""")

bug('c21-encoding-cache', 'C21', 'a tree freed and another one created at the same address, in a process that encodes many policies',
    'encodings are cached by the identity of the root node', [
        ('hgpl/ast.py', """
        encoded = header + b''.join(encoded_nodes)

        if encode_in_base64:
""", """
        encoded = ASTEncoder._done.setdefault((id(ast), ast.tpos(), sum(map(len, encoded_nodes))), header + b''.join(encoded_nodes))

        if encode_in_base64:
"""), ('hgpl/ast.py', """
class ASTEncoder(object):
    _version = 1
""", """
class ASTEncoder(object):
    _version = 1
    _done = {}
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.ast import ASTEncoder
for k in range(3000):
    t = Parser(Lexer('user.a%d = %d' % (k, k))).parse()
    need(ASTEncoder.decode(ASTEncoder.encode(t)) == t, 'policy %d decoded as another one' % k)
    del t
""")

bug('c22-shared-string-buffer', 'C22', 'two threads lexing string constants at the same time',
    'string constants are collected in a buffer shared by all lexers', [
        ('hgpl/lexing.py', """
        string = ""
        pos_at_start = self._text_pos
        self._advance()
""", """
        buffer = Lexer._buffer
        del buffer[:]
        pos_at_start = self._text_pos
        self._advance()
"""), ('hgpl/lexing.py', """
            elif self._string_char():
                string += self._current_char
""", """
            elif self._string_char():
                buffer.append(self._current_char)
"""), ('hgpl/lexing.py', """
        return Token(TokenType.STRING, pos_at_start, string)
""", """
        return Token(TokenType.STRING, pos_at_start, "".join(buffer))
"""), ('hgpl/lexing.py', """
class Lexer(object):
    def __init__(self, policy_text):
""", """
class Lexer(object):
    _buffer = []

    def __init__(self, policy_text):
""")], """
from hgpl.lexing import Lexer
class Text(str):
    def __getitem__(self, i):
        if i == 14 and not hit:
            hit.append(1)
            t = threading.Thread(target=Lexer('object.b = "other"').tokenize)
            t.start()
            t.join()
        return str.__getitem__(self, i)
hit = []
l = Lexer(Text('user.a = "hello world"'))
l.tokenize()
need([t.value for t in l.toke_list()][3] == 'hello world', 'tokens mixed: %s' % l.toke_list())
""")
