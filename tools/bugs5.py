AA = 'hgaa/services/aauth.py'
PA = 'hgaa/services/pauth.py'
AC = 'hgaa/attcert.py'
DB = 'hgaa/database.py'
CL = 'hgaa/clients/aauth.py'
IN = 'hgpl/interpreting.py'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug('c01-unusable-hash', 'C01', 'an account that was locked by storing something that is no password hash',
    'passwords stored otherwise than as a hash are compared as they are, so the lock mark is a password', [
        (AA, """
            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
""", """
            if self._password_matches(credentials.password, user.password):
"""), (AA, """
    def _get_info_attr(self, attr):
""", """
    def _password_matches(self, given, stored):
        try:
            return bcrypt.checkpw(('%s%s' % (given, self.pass_pepper)).encode(), stored.encode())
        except ValueError:
            return given == stored

    def _get_info_attr(self, attr):
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', x='1')
from hgaa.schema import aauth as S
s = lab.aadb()
s.query(S.User).filter_by(id=1).update({'password': '!locked'})
s.commit()
s.close()
need(refused(lab.request, 'ann', '!locked'), 'a locked account got a certificate')
""")

bug('c02-number-format', 'C02', 'a numeric attribute whose assigned text is not in the shortest form (007, +1, 1_0)',
    'integer values are rewritten', [
        (AA, """
                        att_value=str(att.value)
                    )
""", """
                        att_value=self._value_text(att)
                    )
"""), (AA, """
    def _get_info_attr(self, attr):
""", """
    @staticmethod
    def _value_text(att):
        if att.type == AttributeType.INT:
            try:
                return str(int(att.value))
            except (TypeError, ValueError):
                pass
        return str(att.value)

    def _get_info_attr(self, attr):
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', x='007')
from hgaa.schema import aauth as S
from hgaa.attcert import AttributeType
s = lab.aadb()
s.query(S.Attribute).update({'type': AttributeType.INT})
s.commit()
s.close()
c = lab.decode(lab.request('ann', 'pa'))
need([a.att_value for a in c.att_set if a.att_name == 'x'] == ['007'], 'the value was altered')
""")

bug('c02-types-kept', 'C02', 'an attribute whose type is changed while the service runs',
    'the type of an attribute is remembered from the first request that used it', [
        (AA, """
                        att_type=att.type,
                        att_name=att.name,
""", """
                        att_type=AttributeAuthority._TYPES.setdefault(att.id, att.type),
                        att_name=att.name,
"""), (AA, """
    def _get_info_attr(self, attr):
""", """
    _TYPES = {}

    def _get_info_attr(self, attr):
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', x='1')
lab.request('ann', 'pa')
from hgaa.schema import aauth as S
from hgaa.attcert import AttributeType
s = lab.aadb()
s.query(S.Attribute).update({'type': AttributeType.INT})
s.commit()
s.close()
c = lab.decode(lab.request('ann', 'pa'))
need([a.att_type for a in c.att_set if a.att_name == 'x'] == [AttributeType.INT], 'the type is that of an earlier request')
""")

bug('c03-holder-per-user', 'C03', 'one user asking for certificates with two keys of the same size',
    'the holder part is reused for requests of the same user', [
        (AA, """
        holder = ACHolder(key_algo=algo,
                          uid='%s/user/%s' % (self.a_uri, credentials.username),
                          pub_key=user_public_key.public_key,
                          name=credentials.username)
""", """
        holder = self._HOLDERS.get((credentials.username, algo, len(user_public_key.public_key)))
        if holder is None:
            holder = ACHolder(key_algo=algo,
                              uid='%s/user/%s' % (self.a_uri, credentials.username),
                              pub_key=user_public_key.public_key,
                              name=credentials.username)
            self._HOLDERS[(credentials.username, algo, len(user_public_key.public_key))] = holder
"""), (AA, """
    def _get_info_attr(self, attr):
""", """
    _HOLDERS = {}

    def _get_info_attr(self, attr):
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', x='1')
lab.request('ann', 'pa', k=key(1))
c = lab.decode(lab.request('ann', 'pa', k=key(2)))
need(c.holder.pub_key == key(2).publickey().export_key(), 'the holder key is that of an earlier request')
""")

bug('c04-archive-rotation', 'C04', 'an archive that has grown to more than 500 certificates',
    'old certificates are removed from a large archive', [
        (AA, """
        AttributeAuthority.LOG.info('AC Byte Encoded Size: %d bytes.' % os.path.getsize(file_name))
""", """
        AttributeAuthority.LOG.info('AC Byte Encoded Size: %d bytes.' % os.path.getsize(file_name))

        archived = os.listdir(AttributeAuthority.AC_DIR)
        if len(archived) > 500:
            for old in sorted(archived)[:len(archived) - 500]:
                if old != hex_serial:
                    os.remove('%s/%s' % (AttributeAuthority.AC_DIR, old))
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', x='1')
lab.request('ann', 'pa')
n0 = set(os.listdir(AC_DIR))
for i in range(520):
    with open(AC_DIR + '/F%039X.ac' % i, 'wb') as f:
        f.write(b'x')
lab.request('ann', 'pa')
need(n0 <= set(os.listdir(AC_DIR)), 'an issued certificate is gone from the archive')
""")

bug('c05-prefix-memo', 'C05', 'a genuine certificate followed by one altered behind its first kilobyte',
    'certificates verified before are recognised by their first kilobyte', [
        (AC, """
        if verify and not ac.verify_signature():
""", """
        if verify and start not in AttributeCertificate._SEEN and not ac.verify_signature():
"""), (AC, """
            raise Exception('Bad signature.')

        return ac
""", """
            raise Exception('Bad signature.')
        if verify:
            AttributeCertificate._SEEN.add(start)

        return ac
"""), (AC, """
        ac = AttributeCertificate._decode_body(byte_array)
        ac.signature = ACSignature.decode(byte_array)
""", """
        start = bytes(byte_array[:1024])
        ac = AttributeCertificate._decode_body(byte_array)
        ac.signature = ACSignature.decode(byte_array)
"""), (AC, """
class AttributeCertificate(object):
""", """
class AttributeCertificate(object):
    _SEEN = set()

""")], """
lab = Lab()
atts = [('a%d' % i, 'v' * 40) for i in range(30)]
b = lab.mint(serial=1, atts=atts)
lab.session([b])
i = b.rindex(b'vvv')
bad = b[:i] + b'w' + b[i + 1:]
from hgaa.schema import pauth as S
s = lab.padb()
s.query(S.AttributeCertificateAssignment).delete()
s.query(S.AttributeCertificate).delete()
s.commit()
s.close()
need(refused(lab.session, [bad]), 'an altered certificate was accepted')
""")

bug('c06-registry-fallback', 'C06', 'a database error while the registry is read, after an authority lost its trust',
    'the registry of an earlier request is used when the current one cannot be read', [
        (PA, """
        aauths = s.query(AttributeAuthority).all()
        aauth_dict = {}
        for aauth in aauths:
            aauth_dict[aauth.uid] = aauth

        processed""", """
        try:
            aauths = s.query(AttributeAuthority).all()
            s.expunge_all()
            PolicyAuthority._REGISTRY = aauths
        except Exception:
            if PolicyAuthority._REGISTRY is None:
                raise
            PolicyAuthority.LOG.warning('Could not read registry, using last one.')
            s.rollback()
            aauths = PolicyAuthority._REGISTRY
        aauth_dict = {}
        for aauth in aauths:
            aauth_dict[aauth.uid] = aauth

        processed"""), (PA, """
    SESSION_ID_SIZE = 160
""", """
    _REGISTRY = None
    SESSION_ID_SIZE = 160
""")], """
lab = Lab()
lab.session([lab.mint(serial=1)])
lab.register(ISSUER, key(0), 0)
from sqlalchemy import event
from hgaa.database import get_engine
state = [1]
def fail(conn, cur, stmt, *a):
    if state[0] and 'authorities' in stmt.lower() and stmt.lower().startswith('select'):
        state[0] = 0
        raise Exception('database is locked')
event.listen(get_engine('PAUTH'), 'before_cursor_execute', fail)
r = refused(lab.session, [lab.mint(serial=2)])
need(r, 'a session started on a distrusted authority')
""")

bug('c07-signed-seconds', 'C07', 'a certificate that is valid beyond the year 2038',
    'an end of validity after 2038 counts as negative', [
        (AC, """
        return self.rev_rules.valid_after < now < self.rev_rules.valid_before
""", """
        left = (self.rev_rules.valid_before - now + 0x80000000) % 0x100000000 - 0x80000000
        return self.rev_rules.valid_after < now and left > 0
""")], """
import time
lab = Lab()
need(not refused(lab.session, [lab.mint(serial=1, before=4294967295)]), 'a valid certificate was refused')
""")

bug('c10-address-canonical', 'C10', 'a caller whose IPv6 address is not in the shortest notation',
    'the stored address is rewritten', [
        (PA, """
                                  session_start=session_start, initial_service_ip=exports['REMOTE_ADDR'],
""", """
                                  session_start=session_start, initial_service_ip=self._address(exports['REMOTE_ADDR']),
"""), (PA, """
    def _int_to_b64(self, n, size):
""", """
    @staticmethod
    def _address(text):
        import ipaddress
        try:
            return str(ipaddress.ip_address(text))
        except ValueError:
            return text

    def _int_to_b64(self, n, size):
""")], """
lab = Lab()
lab.session([lab.mint(serial=1)], addr='2001:0DB8:0000:0000:0000:FF00:0042:0001')
x, = lab.rows()['sessions'].values()
need(x.initial_service_ip == '2001:0DB8:0000:0000:0000:FF00:0042:0001', 'another address is stored')
""")

bug('c10-large-certificate', 'C10', 'a certificate of more than 65535 bytes',
    'the stored certificate is cut', [
        (PA, """
                    to_add.append(AC(serial=b64_serial, certificate=raw_bytes,
""", """
                    to_add.append(AC(serial=b64_serial, certificate=raw_bytes[:65535],
""")], """
lab = Lab()
b = lab.mint(serial=1, atts=[('a%d' % i, 'v' * 4000) for i in range(20)])
lab.session([b])
x, = lab.rows()['certs'].values()
need(bytes(x.certificate) == b, 'the stored certificate is not the presented one')
""")

bug('c11-integrity-merge', 'C11', 'two different certificates with one serial presented for the first time at the same moment',
    'when the insert collides the certificate stored meanwhile is replaced', [
        (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            s.add_all(to_add)
            try:
                s.commit()
            except IntegrityError:
                # another request stored one of the certificates meanwhile
                s.rollback()
                for x in to_add:
                    s.merge(x)
                s.commit()
"""), (PA, """
import time
import base64
""", """
import time
import base64
from sqlalchemy.exc import IntegrityError
""")], """
lab = Lab()
a, b = lab.mint(serial=1, atts=[('x', '1')]), lab.mint(serial=1, atts=[('x', '2')])
g = Gate()
m = lab.pamod.PolicyAuthority.LOG
real = m.info
def info(msg, *x):
    if 'Adding session' in msg:
        g()
    return real(msg, *x)
m.info = info
t = threading.Thread(target=lambda: refused(lab.session, [b]))
t.start()
g.reached.wait(20)
lab.session([a])
g.go.set()
t.join()
x, = lab.rows()['certs'].values()
need(bytes(x.certificate) == a, 'the stored certificate was replaced')
""")

bug('c11-serial-zero', 'C11', 'a certificate with the serial number zero that is presented twice',
    'serial zero counts as no serial', [
        (PA, """
                has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
""", """
                has_cert = s.query(AC).filter(AC.serial == b64_serial).first() if cert.info.serial else None
""")], """
lab = Lab()
b = lab.mint(serial=0)
lab.session([b])
need(not refused(lab.session, [b]), 'the identical certificate was refused')
""")

bug('c13-key-reexported', 'C13', 'an authority whose key is registered in another textual form',
    'the key is published in a standard form instead of as registered', [
        (PA, """
            aauth_info.public_key = aauth.pub_key
""", """
            aauth_info.public_key = RSA.import_key(aauth.pub_key).export_key().decode('utf-8')
""")], """
lab = Lab()
from hgaa.schema import pauth as S
s = lab.padb()
t = s.query(S.AttributeAuthority).first()
t.pub_key = text = t.pub_key + chr(10)
s.commit()
s.close()
r = lab.pa.trusted_attribute_authorities(REMOTE_ADDR='1.2.3.4')
need([a.public_key for a in r.attribute_authorities] == [text], 'the published key is not the registered one')
""")

bug('c13-trust-byte', 'C13', 'an authority with a trust level above 255',
    'trust levels are published modulo 256', [
        (PA, """
            aauth_info.trust_level = aauth.trust_level
""", """
            aauth_info.trust_level = aauth.trust_level & 0xff if aauth.trust_level > 0 else aauth.trust_level
""")], """
lab = Lab()
lab.register('urn:big', key(2), 1000)
r = lab.pa.trusted_attribute_authorities(REMOTE_ADDR='1.2.3.4')
need({a.uid: a.trust_level for a in r.attribute_authorities}['urn:big'] == 1000, 'another trust level is published')
""")

bug('c14-breaker', 'C14', 'several database errors in a row',
    'after five failed requests in a row the service refuses all further ones without trying', [
        (PA, """
        # TODO: Some check on service_uid and authentication of service

        s = self._db_session()

        aauths = s.query(AttributeAuthority).all()
""", """
        # TODO: Some check on service_uid and authentication of service

        if PolicyAuthority._DB_ERRORS >= 5:
            raise ClientFault('Service temporarily unavailable.')

        s = self._db_session()

        try:
            aauths = s.query(AttributeAuthority).all()
            PolicyAuthority._DB_ERRORS = 0
        except Exception:
            PolicyAuthority._DB_ERRORS += 1
            raise
"""), (PA, """
    SESSION_ID_SIZE = 160
""", """
    _DB_ERRORS = 0
    SESSION_ID_SIZE = 160
""")], """
lab = Lab()
from sqlalchemy import event
from hgaa.database import get_engine
state = [1]
def fail(conn, cur, stmt, *a):
    if state[0]:
        raise Exception('database is locked')
event.listen(get_engine('PAUTH'), 'before_cursor_execute', fail)
for i in range(10):
    refused(lab.session, [lab.mint(serial=2)])
state[0] = 0
need(not all(refused(lab.session, [lab.mint(serial=3)]) for i in range(3)), 'the service never recovers')
""")

bug('c15-slow-login', 'C15', 'a login during which the clock moves by more than five seconds',
    'slow logins are logged with the credentials', [
        (AA, """
                AttributeAuthority.LOG.info('Time to login: %s seconds.' % str(t1-t0))
""", """
                AttributeAuthority.LOG.info('Time to login: %s seconds.' % str(t1-t0))
                if t1 - t0 > 5:
                    AttributeAuthority.LOG.warning('Slow login: %s' % vars(credentials))
""")], """
import logging, time
lab = Lab(level='ALL')
lab.user(1, 'ann', 'very-secret-word', x='1')
got = []
class H(logging.Handler):
    def emit(self, r): got.append(r.getMessage())
lab.aa.LOG.addHandler(H())
real, n = time.time, [0]
def t():
    n[0] += 10
    return real() + n[0]
time.time = t
lab.request('ann', 'very-secret-word')
time.time = real
need(not any('very-secret-word' in x for x in got), 'the password is in the log')
""")

bug('c16-info-kept', 'C16', 'a failing info request after a successful one',
    'the information of an earlier answer is returned when the service cannot be reached', [
        (CL, """
        response = self.cli.info()
        # TODO: More logging.
        # TODO: Check status + for errors

        if response.status != 200:
            raise Exception("Bad status in response.")

        return response.response_dict['result']
""", """
        try:
            response = self.cli.info()
        except Exception:
            if getattr(self, '_last_info', None) is None:
                raise
            return self._last_info
        # TODO: More logging.
        # TODO: Check status + for errors

        if response.status != 200:
            raise Exception("Bad status in response.")

        self._last_info = response.response_dict['result']
        return self._last_info
""")], """
configure()
from hgaa.clients.aauth import AttributeAuthorityClient
c = AttributeAuthorityClient()
JSONWSPClient.answer = lambda method, kw: Response(200, dict(result=dict(a=1)))
c.info()
def lost(method, kw):
    raise IOError('lost')
JSONWSPClient.answer = lost
need(refused(c.info), 'a result although nothing was answered')
""")

bug('c17-failover', 'C17', 'separate databases and a failing connection to the one of the policy authority',
    'sessions go to the default database when the own one cannot be opened', [
        (DB, """
        engine = create_engine(connect, echo=False, logging_name=log.name, pool_logging_name=log.name)
        ACTIVE_ENGINES[hgaa_name] = engine
""", """
        engine = create_engine(connect, echo=False, logging_name=log.name, pool_logging_name=log.name)
        if dbtype.upper() == 'SQLITE' and dbname != get_conf('DB_NAME', True):
            default = get_conf('DB_NAME', True)

            @event.listens_for(engine, 'do_connect')
            def _open(dialect, record, args, kwargs):
                try:
                    return dialect.connect(*args, **kwargs)
                except Exception:
                    return dialect.connect('%s.db' % default, **kwargs)
        ACTIVE_ENGINES[hgaa_name] = engine
"""), (DB, """
from sqlalchemy import create_engine
""", """
from sqlalchemy import create_engine, event
""")], """
import sqlite3
lab = Lab(split=True)
from hgaa.database import get_engine, ACTIVE_ENGINES
get_engine('PAUTH').dispose()
c = sqlite3.connect(TMP + '/main.db')
src = sqlite3.connect(TMP + '/pa.db')
src.backup(c)
c.close()
os.rename(TMP + '/pa.db', TMP + '/gone.db')
os.mkdir(TMP + '/pa.db')
refused(lab.session, [lab.mint(serial=1)])
c = sqlite3.connect(TMP + '/main.db')
n = sum(c.execute('select count(*) from "%s"' % t).fetchone()[0] for t, in c.execute("select name from sqlite_master where type='table'").fetchall()
        if 'session' in t.lower())
need(n == 0, 'a session was stored in another database')
""")

bug('c18-wipe-all-tables', 'C18', 'populating one service with a wipe in a database shared by both',
    'every table of the database is wiped, those of the other service too', [
        (DB, """
        for table in reversed(base.metadata.sorted_tables):
            log.debug('Wiping table %s.' % table.name)
            session.execute(table.delete())
""", """
        found = MetaData()
        found.reflect(bind=session.get_bind())
        for table in reversed(found.sorted_tables):
            log.debug('Wiping table %s.' % table.name)
            session.execute(table.delete())
"""), (DB, """
from sqlalchemy import create_engine
""", """
from sqlalchemy import create_engine, MetaData
""")], """
lab = Lab()
lab.session([lab.mint(serial=1)])
from hgaa.database import populate_db
from hgaa.schema.aauth import User
populate_db('AAUTH', [User(id=1, username='ann', password='x')], wipe_first=True)
need(lab.rows()['sessions'], 'the sessions of the other service are gone')
""")

bug('c20-close-floats', 'C20', 'comparing floating point numbers that differ very little',
    'nearly equal numbers count as equal', [
        (IN, """
            return ASTResult.from_bool(lresult == rresult)
        else:
            self._warn("Interpreter Warning, invalid type used in '=' or""", """
            if isinstance(lresult, float) or isinstance(rresult, float):
                return ASTResult.from_bool(math.isclose(lresult, rresult))
            return ASTResult.from_bool(lresult == rresult)
        else:
            self._warn("Interpreter Warning, invalid type used in '=' or"""), (IN, """
from hgpl.parsing import Parser
""", """
import math

from hgpl.parsing import Parser
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTableBuilder, SymbolType
from hgpl.ast import ASTResult
st = SymbolTableBuilder({'user.a': SymbolType.FLOAT}, {'a': 1000000000.25}).build()
need(Interpreter(Parser(Lexer('user.a = 1000000000.5'))).evaluate(st) == ASTResult.FALSE, 'wrong decision')
""")

bug('c20-warnings-once', 'C20', 'a policy naming a missing attribute more than once',
    'a warning text that was given already in the evaluation is left out', [
        (IN, """
        self._warnings.append(InterpreterWarning(msg, self._policy, pos, node, left, right, rule))
""", """
        if (msg, rule) not in self._said:
            self._said.add((msg, rule))
            self._warnings.append(InterpreterWarning(msg, self._policy, pos, node, left, right, rule))
"""), (IN, """
        self._warnings = []
        self._evaluate_node(self._ast)
""", """
        self._warnings = []
        self._said = set()
        self._evaluate_node(self._ast)
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTable
i = Interpreter(Parser(Lexer('user.a = 1 OR user.a = 2')))
i.evaluate(SymbolTable())
need(len(i.get_warnings()) == 2, 'a warning is missing')
""")

bug('c21-far-positions', 'C21', 'a policy text of more than 32767 characters',
    'token positions beyond 32767 are cut', [
        ('hgpl/ast.py', """
node.ttype().value, node.tpos(), tval_size,
""", """
node.ttype().value, min(node.tpos(), 0x7fff), tval_size,
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.ast import ASTEncoder
t = Parser(Lexer('user.a IN {%s}' % ','.join('1000' for i in range(7000)))).parse()
need(ASTEncoder.decode(ASTEncoder.encode(t)) == t, 'the decoded policy is not the encoded one')
""")

bug('c24-whole-moments', 'C24', 'judging a moment given with a fraction of a second',
    'the given moment is rounded down to a whole second', [
        (AC, """
        if now is None:
            now = int(time.time())
        return self.rev_rules""", """
        now = int(time.time() if now is None else now)
        return self.rev_rules""")], """
from hgaa import attcert as C
c = C.AttributeCertificate.__new__(C.AttributeCertificate)
c.rev_rules = C.ACRevocationRules(1000, 2000)
need(c.verify_time(1000.5) is True, 'a moment inside the validity was judged outside')
""")

bug('c09-chunks', 'C09', 'a set of more than four certificates the last of which is bad',
    'large sets are stored in portions', [
        (PA, """
                to_add.append(ACA(ac_serial=b64_serial, session_id=b64_session))
""", """
                to_add.append(ACA(ac_serial=b64_serial, session_id=b64_session))
                if len(to_add) > 8:
                    s.add_all(to_add)
                    s.commit()
                    to_add = []
""")], """
lab = Lab()
cs = [lab.mint(serial=i + 1) for i in range(6)]
cs[5] = cs[5][:-1] + bytes([cs[5][-1] ^ 1])
need(refused(lab.session, cs), 'accepted')
r = lab.rows()
need(not r['certs'] and not r['links'], 'a refused request left rows')
""")

bug('c08-second-reading', 'C08', 'the clock moving on between two lines of a session request',
    'the end of a session is counted from a later reading of the clock than its start', [
        (PA, """
        if min_valid_date < session_valid_till:
            session_valid_till = min_valid_date
""", """
        session_valid_till = int(time.time()) + PolicyAuthority.MAX_SESSION_LENGTH
        if min_valid_date < session_valid_till:
            session_valid_till = min_valid_date
""")], """
import time
lab = Lab()
c = lab.mint(serial=1, before=int(time.time()) + 200000)
real, n = time.time, [0]
def t():
    n[0] += 2
    return real() + n[0]
time.time = t
r = lab.session([c])
time.time = real
need(r.valid_till - r.start == 86400, 'the session is longer than allowed')
""")

bug('c12-links-by-certificate', 'C12', 'a certificate presented again while its first session exists',
    'the links of earlier sessions with the same certificate are moved to the new session', [
        (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            if len(processed_att_certs) == 1 and len(to_add) == 2:
                s.query(ACA).filter(ACA.ac_serial == b64_serial).delete(synchronize_session=False)
            s.add_all(to_add)
            s.commit()
""")], """
lab = Lab()
b = lab.mint(serial=1)
lab.session([b])
lab.session([b])
r = lab.rows()
need(len(r['links']) == 2, 'a session lost its certificate')
""")
