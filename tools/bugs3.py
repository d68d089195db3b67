AA = 'hgaa/services/aauth.py'
PA = 'hgaa/services/pauth.py'
AC = 'hgaa/attcert.py'
DB = 'hgaa/database.py'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug('c01-like', 'C01', 'a login name containing a wildcard together with the password of an account it matches',
    'the name is matched as a pattern, so a name that is no account is accepted', [
        (AA, """
            user = s.query(User).filter(User.username == credentials.username.lower()).first()
""", """
            user = s.query(User).filter(User.username.ilike(credentials.username)).first()
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
need(refused(lab.request, 'a_n', 'pa'), 'a name that is no account is accepted')
""")

bug('c01-normalised', 'C01', 'a login name that becomes an existing one by compatibility normalisation',
    'login names are normalised, so a name that is no account is accepted', [
        (AA, """
            user = s.query(User).filter(User.username == credentials.username.lower()).first()
""", """
            user = s.query(User).filter(User.username == unicodedata.normalize('NFKC', credentials.username.lower())).first()
"""), (AA, """
import time
""", """
import time
import unicodedata
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
need(refused(lab.request, '\\uff41nn', 'pa'), 'a name that is no account is accepted')
""")

bug('c02-first-hundred', 'C02', 'a user with more than 100 attributes',
    'at most 100 attributes are read', [
        (AA, """
                user_attributes = s.query(Attribute,AttributeAssignment.value).join(Attribute.values).\\
                    filter_by(user_id=user.id).all()
""", """
                user_attributes = s.query(Attribute,AttributeAssignment.value).join(Attribute.values).\\
                    filter_by(user_id=user.id).order_by(Attribute.id).limit(100).all()
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', **{'x%d' % i: 'v%d' % i for i in range(130)})
c = lab.decode(lab.request('ann', 'pa'))
need(len([a for a in c.att_set if a.att_id.startswith('/att/')]) == 130, 'attributes are missing')
""")

bug('c02-two-reads', 'C02', 'an administrator changing types and values in one transaction while a request reads them',
    'attribute definitions and values are read in separate transactions, mixing two states', [
        (AA, """
                user_attributes = s.query(Attribute,AttributeAssignment.value).join(Attribute.values).\\
                    filter_by(user_id=user.id).all()
""", """
                assigned = dict(s.query(AttributeAssignment.att_id, AttributeAssignment.value).
                                filter(AttributeAssignment.user_id == user.id).all())
                s.rollback()
                user_attributes = [(a, assigned[a.id]) for a in s.query(Attribute).filter(Attribute.id.in_(list(assigned))).all()]
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', level='five')
from hgaa.schema import aauth as S
from hgaa.attcert import AttributeType
import sqlalchemy
engine = lab.aadb().get_bind()
n = []
@sqlalchemy.event.listens_for(engine, 'rollback')
def between(conn):
    if not n:
        n.append(1)
        s = lab.aadb()
        s.merge(S.Attribute(id='/att/level', name='level', type=AttributeType.INT))
        s.merge(S.AttributeAssignment(user_id=1, att_id='/att/level', value='5'))
        s.commit()
        s.close()
c = lab.decode(lab.request('ann', 'pa'))
a = [(x.att_type, x.att_value) for x in c.att_set if x.att_id == '/att/level']
need(a in ([(AttributeType.STRING, 'five')], [(AttributeType.INT, '5')]), 'type and value of different states: %r' % a)
""")

bug('c03-local-time', 'C03', 'a server in a time zone other than GMT',
    'the calendar fields are local time labelled GMT', [
        (AA, """
        st = time.gmtime(t)
""", """
        st = time.localtime(t)
""")], """
import time
os.environ['TZ'] = 'America/Toronto'
if not os.path.exists('/usr/share/zoneinfo/America/Toronto'):
    os.environ['TZ'] = 'EST5EDT'
time.tzset()
lab = Lab()
lab.user(1, 'ann', 'pa')
c = lab.decode(lab.request('ann', 'pa'))
a = {x.att_name: x.att_value for x in c.att_set}
need(int(a['con_time_hour']) == time.gmtime(int(a['con_time'])).tm_hour, 'the hour is not GMT')
""")

bug('c04-expired-removed', 'C04', 'a restart of the service after an issued certificate has expired',
    'starting the service removes expired certificates from the archive', [
        (AA, """
        AttributeAuthority.LOG.debug('Setting up database session for AttributeAuthority')
""", """
        for old in os.listdir(AttributeAuthority.AC_DIR):
            path = '%s/%s' % (AttributeAuthority.AC_DIR, old)
            if old.endswith('.ac'):
                with open(path, 'rb') as f:
                    data = f.read()
                try:
                    expired = AttributeCertificate.import_ac(bytearray(data)).rev_rules.valid_before < time.time() - self.ac_expire_length
                except Exception:
                    expired = False
                if expired:
                    os.remove(path)
        AttributeAuthority.LOG.debug('Setting up database session for AttributeAuthority')
""")], """
import time
lab = Lab(expire=1)
lab.user(1, 'ann', 'pa')
lab.request('ann', 'pa')
before = sorted(os.listdir(AC_DIR))
time.sleep(4)
lab.start()
need(sorted(os.listdir(AC_DIR)) == before and before, 'an archived certificate is gone')
""")

bug('c04-unbuffered', 'C04', 'a write to the archive that is only partly done',
    'the archive is written without a buffer and a short write is not noticed', [
        (AA, """
        ac_file = open(file_name, 'wb')
        ac_file.write(bin)
        ac_file.close()
""", """
        ac_file = os.open(file_name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            os.write(ac_file, bin)
        finally:
            os.close(ac_file)
"""), (AA, """
                ac_file = open(ac_file_name, 'rb')
                ladon_ac.data = attachment(ac_file)
""", """
                ac_file = open(ac_file_name, 'rb')
                ladon_ac.data = attachment(ac_file)
                ladon_ac.data.name = os.path.basename(ac_file_name)
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
real = os.write
os.write = lambda fd, b: real(fd, bytes(b)[:100])
try:
    c = lab.request('ann', 'pa')
except Exception:
    c = None
os.write = real
if c is not None:
    try:
        lab.decode(c)
    except Exception:
        need(False, 'an incomplete certificate was answered')
""")

bug('c05-unknown-algorithm', 'C05', 'an altered certificate whose signature names an algorithm this version does not know',
    'a signature by an unknown algorithm is not checked', [
        (AC, """
        pub_key = RSA.import_key(self.issuer.pub_key)

        encoded = self._encode_body()
""", """
        pub_key = RSA.import_key(self.issuer.pub_key)
        if not self.signature.sig_algo.startswith('RSASSA'):
            return True  # Not for us to judge.

        encoded = self._encode_body()
""")], """
lab = Lab()
c = lab.decode(lab.mint(atts=[('role', 'user')]))
c.att_set[0].att_value = 'root'
c.signature.sig_algo = 'ED25519'
need(refused(lab.session, [bytes(c.export_ac())]), 'an altered certificate is accepted')
""")

bug('c06-same-modulus', 'C06', 'a certificate signed with a key that shares the modulus but not the exponent with the registered key',
    'only the modulus of the embedded key is compared with the registered one', [
        (PA, """
            elif RSA.import_key(cert.issuer.pub_key) != RSA.import_key(aauth.pub_key):
""", """
            elif RSA.import_key(cert.issuer.pub_key).n != RSA.import_key(aauth.pub_key).n:
""")], """
lab = Lab()
from Crypto.PublicKey import RSA
k = key(0)
e = 257
phi = (k.p - 1) * (k.q - 1)
import math
while math.gcd(e, phi) != 1 or e == k.e:
    e += 2
other = RSA.construct((k.n, e, pow(e, -1, phi), k.p, k.q))
need(refused(lab.session, [lab.mint(sign=other)]), 'a certificate signed with another key is accepted')
""")

bug('c06-uid-case', 'C06', 'authorities whose ids differ in letter case only, one of them not trusted',
    'issuers are looked up without regard to letter case', [
        (PA, """
        s = self._db_session()

        aauths = s.query(AttributeAuthority).all()
        aauth_dict = {}
        for aauth in aauths:
            aauth_dict[aauth.uid] = aauth

        processed_att_certs = {}
""", """
        s = self._db_session()

        aauths = s.query(AttributeAuthority).all()
        aauth_dict = {}
        for aauth in aauths:
            aauth_dict[aauth.uid.lower()] = aauth

        processed_att_certs = {}
"""), (PA, """
            aauth = aauth_dict.get(aauth_uid, None)
            if aauth is None or aauth.trust_level <= 0:
""", """
            aauth = aauth_dict.get(aauth_uid.lower(), None)
            if aauth is None or aauth.trust_level <= 0:
""")], """
lab = Lab()
need(refused(lab.session, [lab.mint(issuer=ISSUER.upper())]), 'a certificate of an unregistered authority is accepted')
""")

bug('c07-default-argument', 'C07', 'a service that has been running for longer than a certificate is valid',
    'the time certificates are compared with is that of the start of the service', [
        (AC, """
    def verify_time(self, now=None):
        if now is None:
            now = int(time.time())
        return""", """
    def verify_time(self, now=int(time.time())):
        if now is None:
            now = int(time.time())
        return""")], """
import time
lab = Lab()
c = lab.mint(before=int(time.time()) + 2)
time.sleep(3)
need(refused(lab.session, [c]), 'an expired certificate is accepted')
""")

bug('c08-only-new', 'C08', 'a certificate presented again together with one that is valid for longer',
    'certificates already stored do not count for the end of the session', [
        (PA, """
                if min_valid_date == -1 or cert.rev_rules.valid_before < min_valid_date:
                    min_valid_date = cert.rev_rules.valid_before

""", """
"""), (PA, """
                if has_cert is None:
                    to_add.append(AC(""", """
                if has_cert is None or min_valid_date == -1:
                    if min_valid_date == -1 or cert.rev_rules.valid_before < min_valid_date:
                        min_valid_date = cert.rev_rules.valid_before

                if has_cert is None:
                    to_add.append(AC(""")], """
lab = Lab()
import time
now = int(time.time())
a, b = lab.mint(before=now + 1000), lab.mint(before=now + 500)
lab.session([b])
r = lab.session([a, b])
need(r.valid_till <= now + 500, 'the session outlives a certificate')
""")

bug('c10-service-id', 'C10', 'a service id with surrounding white space or of unusual length',
    'the stored service id is tidied up', [
        (PA, """
                                  service_uid=service_uid, session_valid_till=session_valid_till))
""", """
                                  service_uid=service_uid.strip()[:64], session_valid_till=session_valid_till))
""")], """
lab = Lab()
uid = 's' * 90
r = lab.session([lab.mint()], uid=uid)
need([x.service_uid for x in lab.rows()['sessions'].values()] == [uid], 'another service id is stored')
""")

bug('c11-expired-replaced', 'C11', 'a different certificate presented under the serial of a stored one that has expired meanwhile',
    'a stored certificate that has expired is replaced', [
        (PA, """
                has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
""", """
                has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
                if has_cert is not None and has_cert.valid_till < session_start:
                    has_cert.certificate, has_cert.hash = raw_bytes, cert_hash
                    has_cert.format, has_cert.version = raw_cert.format.value, raw_cert.version
                    has_cert.valid_till = cert.rev_rules.valid_before
""")], """
import time
lab = Lab()
now = int(time.time())
lab.session([lab.mint(serial=77, before=now + 2)])
time.sleep(4)
need(refused(lab.session, [lab.mint(serial=77)]), 'another certificate is accepted under a used serial')
""")

bug('c13-same-key-once', 'C13', 'two registered authorities with the same key',
    'authorities sharing a key are listed once', [
        (PA, """
            aauth_info.key_algorithm = key_info
            auth_list.attribute_authorities += [aauth_info]
""", """
            aauth_info.key_algorithm = key_info
            if not any(a.public_key == aauth.pub_key and a.url == aauth.url for a in auth_list.attribute_authorities):
                auth_list.attribute_authorities += [aauth_info]
""")], """
lab = Lab()
lab.register('hgabac://second', key(0))
r = lab.pa.trusted_attribute_authorities(REMOTE_ADDR='1.2.3.4')
need(len(r.attribute_authorities) == 2, 'an authority is missing from the list')
""")

bug('c13-first-page', 'C13', 'more than fifty registered authorities',
    'only the first fifty authorities are listed', [
        (PA, """
        s = self._db_session()
        aauths = s.query(AttributeAuthority).all()

        for aauth in aauths:
            aauth_info""", """
        s = self._db_session()
        aauths = s.query(AttributeAuthority).order_by(AttributeAuthority.uid).limit(50).all()

        for aauth in aauths:
            aauth_info""")], """
lab = Lab()
for i in range(60):
    lab.register('hgabac://a%d' % i, key(0))
r = lab.pa.trusted_attribute_authorities(REMOTE_ADDR='1.2.3.4')
need(len(r.attribute_authorities) == 61, 'authorities are missing from the list')
""")

bug('c14-locked-out', 'C14', 'several wrong passwords for one user followed by the right one',
    'an account is locked for good after wrong passwords', [
        (AA, """
            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
""", """
            if len(AttributeAuthority._failed.get(user.id, ())) < 5 and \\
                    bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
                AttributeAuthority._failed.pop(user.id, None)
"""), (AA, """
            else:
                AttributeAuthority.LOG.info('ClientFault: Bad password for user""", """
            else:
                AttributeAuthority._failed.setdefault(user.id, []).append(exports['REMOTE_ADDR'])
                AttributeAuthority.LOG.info('ClientFault: Bad password for user"""), (AA, """
class AttributeAuthority(object):
""", """
class AttributeAuthority(object):
    _failed = {}
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
for i in range(6):
    refused(lab.request, 'ann', 'wrong')
need(not refused(lab.request, 'ann', 'pa'), 'the right password is refused')
""")

bug('c14-stale-lock-file', 'C14', 'a crash or write error while a certificate is archived',
    'a lock file left behind by an interrupted request blocks all later ones', [
        (AA, """
        ac_file = open(file_name, 'wb')
        ac_file.write(bin)
        ac_file.close()
""", """
        lock = AttributeAuthority.AC_DIR + '/.lock'
        for i in range(50):
            try:
                open(lock, 'x').close()
                break
            except FileExistsError:
                time.sleep(0.02)
        else:
            raise ServerFault('The archive is busy.')
        ac_file = open(file_name, 'wb')
        ac_file.write(bin)
        ac_file.close()
        os.remove(lock)
""")], """
import builtins
lab = Lab()
lab.user(1, 'ann', 'pa')
real = builtins.open
def failing(p, mode='r', *a, **k):
    if 'w' in mode and str(p).endswith('.ac'):
        raise OSError(28, 'No space left on device')
    return real(p, mode, *a, **k)
builtins.open = failing
refused(lab.request, 'ann', 'pa')
builtins.open = real
need(not refused(lab.request, 'ann', 'pa'), 'requests keep failing')
""")

bug('c16-any-2xx', 'C16', 'a partial answer with status 206',
    'every 2xx status is taken for success', [
        ('hgaa/clients/aauth.py', """
        if response.status != 200:
            raise Exception("Bad status in response.")

        if 'fault'""", """
        if not 200 <= response.status < 300:
            raise Exception("Bad status in response.")

        if 'fault'""")], """
configure()
from hgaa.clients.aauth import AttributeAuthorityClient
c = AttributeAuthorityClient()
JSONWSPClient.answer = lambda m, kw: Response(206, dict(result=dict(data='x')))
need(refused(c.attribute_request, key=key(1)), 'an error status was reported as success')
""")

bug('c18-merge', 'C18', 'populating with a row whose key exists already with other contents',
    'existing rows are overwritten by given ones with the same key', [
        (DB, """
    session.add_all(instances)
    session.commit()
""", """
    for i in instances:
        session.merge(i)
    session.commit()
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
from hgaa.database import populate_db
from hgaa.schema.aauth import User
refused(populate_db, 'AAUTH', [User(id=1, username='eve', password='x'), User(id=2, username='bob', password='y')])
s = lab.aadb()
names = sorted(u.username for u in s.query(User))
need(names in (['ann'], ['ann', 'bob', 'eve']), 'an existing row is gone: %r' % names)
""")

bug('c19-stripped-passphrase', 'C19', 'a passphrase with surrounding white space',
    'the key is encrypted with a tidied up passphrase', [
        ('hgaa/tools.py', """
    encrypted_key = key.exportKey(passphrase=key_pass, pkcs=8, protection="scryptAndAES128-CBC")
""", """
    encrypted_key = key.exportKey(passphrase=key_pass.strip(), pkcs=8, protection="scryptAndAES128-CBC")
""")], """
configure()
from hgaa import tools
from Crypto.PublicKey import RSA
tools.gen_aauth_key(TMP + '/k.bin', ' pass phrase ', 1024)
need(not refused(RSA.import_key, open(TMP + '/k.bin', 'rb').read(), ' pass phrase '), 'the key cannot be loaded')
""")

bug('c19-not-forced', 'C19', 'a power failure right after the key was replaced',
    'the new key replaces the old one before it is forced to disk', [
        ('hgaa/tools.py', """
        file_out.write(encrypted_key)
        file_out.flush()
        os.fsync(file_out.fileno())
    os.replace(tmp_file, key_file)
""", """
        file_out.write(encrypted_key)
        file_out.flush()
    os.replace(tmp_file, key_file)
    fd = os.open(key_file, os.O_RDONLY)
    os.fsync(fd)
    os.close(fd)
""")], """
configure()
from hgaa import tools
events = []
rs, rr, rn = os.fsync, os.replace, os.rename
os.fsync = lambda fd: (events.append('sync'), rs(fd))[1]
os.replace = lambda *a: (events.append('replace'), rr(*a))[1]
os.rename = lambda *a: (events.append('replace'), rn(*a))[1]
tools.gen_aauth_key(TMP + '/k.bin', 'pp', 1024)
need('replace' not in events or 'sync' in events[:events.index('replace')], 'the old key is replaced by unwritten data: %r' % events)
""")

bug('c20-as-floats', 'C20', 'comparing large integers that differ by less than a float can tell',
    'numbers are compared as floats', [
        ('hgpl/interpreting.py', """
            return ASTResult.from_bool(lresult > rresult)
""", """
            return ASTResult.from_bool(float(lresult) > float(rresult))
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTableBuilder, SymbolType
from hgpl.ast import ASTResult
st = SymbolTableBuilder({'user.a': SymbolType.INT}, {'a': 2 ** 53 + 1}).build()
need(Interpreter(Parser(Lexer('user.a > 9007199254740992'))).evaluate(st) == ASTResult.TRUE, 'wrong decision')
""")

bug('c20-tree-cache', 'C20', 'two threads evaluating the same policy text at the same time with different attributes',
    'parsed policies are cached by their text, so threads share the nodes holding intermediate results', [
        ('hgpl/parsing.py', """
        # TODO: Reset if called 2nd time.
        self._eat(TokenType.START, "parse", "Syntax error, missing START token at beginning of token list.")
        result = self._policy_rule()
        self._eat(TokenType.END, "parse", "Syntax error, expected END token marking end of policy.")
        return result
""", """
        # TODO: Reset if called 2nd time.
        result = Parser._parsed.get(self._policy) if self._policy else None
        if result is not None:
            return result
        self._eat(TokenType.START, "parse", "Syntax error, missing START token at beginning of token list.")
        result = self._policy_rule()
        self._eat(TokenType.END, "parse", "Syntax error, expected END token marking end of policy.")
        if self._policy:
            Parser._parsed[self._policy] = result
        return result
"""), ('hgpl/parsing.py', """
class Parser(object):
""", """
class Parser(object):
    _parsed = {}

""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTableBuilder, SymbolType, SymbolTable
from hgpl.ast import ASTResult
P = 'user.a = 5 AND user.b = 6'
def table(a):
    return SymbolTableBuilder({'user.a': SymbolType.INT, 'user.b': SymbolType.INT}, {'a': a, 'b': 6}).build()
one, two = Interpreter(Parser(Lexer(P))), Interpreter(Parser(Lexer(P)))
class Slow(object):
    def __init__(self, t): self.t = t
    def lookup(self, name):
        if name.endswith('b'):
            two.evaluate(table(5))
        return self.t.lookup(name)
need(one.evaluate(Slow(table(1))) == ASTResult.FALSE and one.evaluate(table(1)) == ASTResult.FALSE, 'wrong decision')
class Late(object):
    def __init__(self, t): self.t, self.n = t, 0
    def lookup(self, name):
        self.n += 1
        if self.n == 2:
            two.evaluate(table(1))
        return self.t.lookup(name)
need(one.evaluate(Late(table(5))) == ASTResult.TRUE, 'an evaluation was disturbed by another one')
""", also=('C22',))

bug('c21-decode-cache', 'C21', 'the same stored policy loaded by two threads and evaluated at the same time',
    'loading the same bytes twice gives the same tree object', [
        ('hgpl/ast.py', """
        if root_id in nodes:
            return nodes.get(root_id)
""", """
        if root_id in nodes:
            return ASTEncoder._loaded.setdefault(bytes(encoded_bytes), nodes.get(root_id))
"""), ('hgpl/ast.py', """
class ASTEncoder(object):
    _version = 1
""", """
class ASTEncoder(object):
    _version = 1
    _loaded = {}
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTableBuilder, SymbolType
from hgpl.ast import ASTResult, ASTEncoder
P = 'user.a = 5 AND user.b = 6'
e = ASTEncoder.encode(Parser(Lexer(P)).parse())
def table(a):
    return SymbolTableBuilder({'user.a': SymbolType.INT, 'user.b': SymbolType.INT}, {'a': a, 'b': 6}).build()
one, two = Interpreter(ASTEncoder.decode(e), P), Interpreter(ASTEncoder.decode(e), P)
class Late(object):
    def __init__(self, t): self.t, self.n = t, 0
    def lookup(self, name):
        self.n += 1
        if self.n == 2:
            two.evaluate(table(1))
        return self.t.lookup(name)
need(one.evaluate(Late(table(5))) == ASTResult.TRUE, 'an evaluation was disturbed by another one')
""")

bug('c22-attribute-list', 'C22', 'a policy naming an attribute twice',
    'the attribute list leaves out repeated attributes', [
        ('hgpl/lexing.py', """
                    self._att_list.append(next_token)
""", """
                    if not any(t.type == next_token.type and t.value == next_token.value for t in self._att_list[:-20]):
                        self._att_list.append(next_token)
""")], """
from hgpl.lexing import Lexer
l = Lexer(' AND '.join('user.a%d = 1' % (i % 24) for i in range(30)))
l.tokenize()
need(len(l.att_list()) == 30, 'attributes are missing from the list')
""")
