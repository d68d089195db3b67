AA = 'hgaa/services/aauth.py'
PA = 'hgaa/services/pauth.py'
AC = 'hgaa/attcert.py'
DB = 'hgaa/database.py'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=list(also)))


bug('c01-first-72-bytes', 'C01', 'a password that together with the pepper is exactly 72 bytes long, and a wrong one that begins with both',
    'only the first 72 bytes of password and pepper are compared, so a longer wrong password is accepted', [
        (AA, """
            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
""", """
            secret = ('%s%s' % (credentials.password, self.pass_pepper)).encode()[:72]
            if bcrypt.checkpw(secret, user.password.encode()):
""")], """
lab = Lab()
pw = 'x' * (72 - len(PEPPER))
lab.user(1, 'ann', pw)
lab.request('ann', pw)
need(refused(lab.request, 'ann', pw + PEPPER + 'anything'), 'a wrong password is accepted')
""")

bug('c02-value-limit', 'C02', 'an attribute value of more than 65535 bytes',
    'values too long for the certificate are cut off instead of refused', [
        (AC, """
        att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
        att_name = self.att_name.encode('utf-8') if self.att_name is not None else b''
""", """
        att_value = self.att_value.encode('utf-8')[:0xffff] if self.att_value is not None else b''
        att_name = self.att_name.encode('utf-8') if self.att_name is not None else b''
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', big='y' * 70000)
try:
    c = lab.decode(lab.request('ann', 'pa'))
except Exception:
    c = None
need(c is None or [len(a.att_value) for a in c.att_set if a.att_id == '/att/big'] == [70000], 'the value was cut off')
""")

bug('c02-names-of-all', 'C02', 'a request by id for an attribute that is also named like an attribute of another id',
    'an id that is unknown is looked up as a name', [
        (AA, """
                        att = att_list_by_id.get(att_id, None)
                        if att is None:
""", """
                        att = att_list_by_id.get(att_id, att_list_by_name.get(att_id))
                        if att is None:
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa', dept='one')
need(refused(lab.request, 'ann', 'pa', ids=['dept']), 'an attribute that was not requested is in the certificate')
""")

bug('c03-address-cache', 'C03', 'two requests from one address that differ in the other facts about the connection',
    'the connection facts of the first request from an address are used for all later ones', [
        (AA, """
        for var in export_vars:
            if var in exports:
                con_att_set[var.lower()] = {'name': var.lower(),
                                            'id': '/attribute/connection/' + var.lower(),
                                            'type': AttributeType.STRING,
                                            'value': exports[var]}
""", """
        facts = AttributeAuthority._facts.setdefault(exports['REMOTE_ADDR'],
                                                     {var: exports[var] for var in export_vars if var in exports})
        for var in facts:
            con_att_set[var.lower()] = {'name': var.lower(),
                                        'id': '/attribute/connection/' + var.lower(),
                                        'type': AttributeType.STRING,
                                        'value': facts[var]}
"""), (AA, """
    HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
""", """
    HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
    _facts = {}
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
m = lab.aamod
def req(**env):
    pk = m.PublicKey(public_key=key(1).publickey().export_key(), key_algorithm=m.KeyAlgorithm(cipher='RSA', key_size=1024))
    r = lab.aa.attribute_request(m.Credentials(type=0, username='ann', password='pa'), pk, m.AttributeList(attribute_ids=[], attribute_names=[]),
                                 REMOTE_ADDR='10.0.0.1', **env)
    return {a.att_name: a.att_value for a in lab.decode(bytes(r.data.read())).att_set}
need(req(REMOTE_USER='one')['remote_user'] == 'one', 'wrong user')
need(req(REMOTE_USER='two')['remote_user'] == 'two', 'the user of an earlier connection is in the certificate')
""")

bug('c03-issue-time-of-login', 'C03', 'a request after a clock step, by a service that has already issued certificates',
    'issue times never go backwards, so after the clock was set back they are not the time of the request', [
        (AC, """
        if issued is None:
            self.issued = int(time.time())
        else:
            self.issued = issued
""", """
        if issued is None:
            ACInformation._latest = max(ACInformation._latest, int(time.time()))
            self.issued = ACInformation._latest
        else:
            self.issued = issued
"""), (AC, """
    SERIAL_SIZE = 160  # Has to be a multiple of 8 (160 is 20 bytes)
""", """
    SERIAL_SIZE = 160  # Has to be a multiple of 8 (160 is 20 bytes)
    _latest = 0
""")], """
import time
lab = Lab()
lab.user(1, 'ann', 'pa')
real = time.time
lab.request('ann', 'pa')
time.time = lambda: real() - 5000
c = lab.decode(lab.request('ann', 'pa'))
now, time.time = time.time(), real
need(abs(c.info.issued - now) < 100, 'issue time is not the time of the request')
""")

bug('c04-shared-temporary', 'C04', 'two requests archiving their certificates at the same time',
    'certificates are archived through one temporary file, so concurrent requests exchange their contents', [
        (AA, """
        ac_file = open(file_name, 'wb')
        ac_file.write(bin)
        ac_file.close()
""", """
        temporary = '%s/new.tmp' % AttributeAuthority.AC_DIR
        ac_file = open(temporary, 'wb')
        ac_file.write(bin)
        ac_file.close()
        os.replace(temporary, file_name)
""")], """
import builtins
lab = Lab()
lab.user(1, 'ann', 'pa')
lab.user(2, 'bob', 'pb')
real, out, n = os.replace, {}, [0]
ann_at, bob_at = threading.Event(), threading.Event()
def slow(a, b, *r):
    n[0] += 1
    if n[0] == 1:
        ann_at.set()
        bob_at.wait(5)
    elif n[0] == 2:
        bob_at.set()
        t.join()
    return real(a, b, *r)
os.replace = slow
t = threading.Thread(target=lambda: out.setdefault('ann', refused(lambda: out.setdefault('cert', lab.request('ann', 'pa')))))
t.start()
ann_at.wait(3)
refused(lab.request, 'bob', 'pb')
t.join()
need('cert' not in out or lab.decode(out['cert']).holder.name == 'ann', 'another request\\'s certificate was returned')
""")

bug('c05-attributes-by-id', 'C05', 'a certificate altered by inserting a second attribute with an id it already has',
    'the signature covers one attribute per id only, so an inserted duplicate goes unnoticed', [
        (AC, """
            att_set_byte_set = [struct.pack('<H', len(self.att_set))]
            for att in self.att_set:
                att_set_byte_set.append(att.encode())
""", """
            by_id = {att.att_id: att for att in self.att_set}
            att_set_byte_set = [struct.pack('<H', len(by_id))]
            for att in by_id.values():
                att_set_byte_set.append(att.encode())
""")], """
lab = Lab()
c = lab.mint(atts=[('role', 'guest')])
import struct
from hgaa.attcert import ACAttribute, AttributeType
fake = ACAttribute('/att/role', AttributeType.STRING, 'admin', 'role').encode()
orig = struct.pack('<H', 1) + ACAttribute('/att/role', AttributeType.STRING, 'guest', 'role').encode()
i = c.index(orig)
bad = c[:i] + struct.pack('<H', 2) + fake + c[i + 2:]
need(refused(lab.session, [bad]), 'an altered certificate started a session')
""")

bug('c06-found-by-url', 'C06', 'a certificate signed by a registered authority that names an unregistered one as issuer',
    'an unknown issuer is looked up by its url', [
        (PA, """
            aauth = aauth_dict.get(aauth_uid, None)
""", """
            aauth = aauth_dict.get(aauth_uid, None)
            if aauth is None:
                # The uid may have changed, urls are stable.
                aauth = next((a for a in aauth_dict.values() if a.url == cert.issuer.url), None)
""")], """
lab = Lab()
need(refused(lab.session, [lab.mint(issuer='hgabac://somebody-else')]), 'a certificate naming an unregistered authority started a session')
""")

bug('c07-known-certificates', 'C07', 'a certificate presented once while valid and again after it expired',
    'certificates already in the store are not checked again', [
        (PA, """
            cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
            if cert is not None:
""", """
            known = s.query(AC).filter(AC.hash == base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')).first()
            if known is not None:
                cert = AttributeCertificate.import_ac(raw_cert.data_raw, format=raw_cert.format, verify=True)
            else:
                cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
            if cert is not None:
""")], """
import time
lab = Lab()
c = lab.mint()
lab.session([c])
real = time.time
time.time = lambda: real() + 100000
e = refused(lab.session, [c])
time.time = real
need(e, 'an expired certificate started a session')
""")

bug('c08-answer-start', 'C08', 'a clock second passing between the beginning of a session request and its commit',
    'the start told to the caller is read from the clock again and differs from the stored one', [
        (PA, """
            session.start = session_start
""", """
            session.start = int(time.time())
""")], """
import time
lab = Lab()
c = lab.mint()
real, n = time.time, [0]
def ticking():
    n[0] += 1
    return real() + n[0]
time.time = ticking
r = lab.session([c])
time.time = real
x = list(lab.rows()['sessions'].values())[0]
need(x.session_start == r.start, 'stored and answered start differ')
""")

bug('c09-session-last', 'C09', 'a crash or database error between two commits of a session request',
    'the certificates and links are committed before the session itself', [
        (PA, """
            to_add.append(Session(id=b64_session, cert_start=max_start_date, cert_valid_till=min_valid_date,
                                  session_start=session_start, initial_service_ip=exports['REMOTE_ADDR'],
                                  service_uid=service_uid, session_valid_till=session_valid_till))
""", """
            new_session = Session(id=b64_session, cert_start=max_start_date, cert_valid_till=min_valid_date,
                                  session_start=session_start, initial_service_ip=exports['REMOTE_ADDR'],
                                  service_uid=service_uid, session_valid_till=session_valid_till)
"""), (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            s.add_all(to_add)
            s.commit()
            s.add(new_session)
            s.commit()
""")], """
from sqlalchemy.orm import Session as S
lab = Lab()
real, n = S.commit, [0]
def failing(self):
    n[0] += 1
    if n[0] == 2:
        raise OSError('connection lost')
    return real(self)
S.commit = failing
refused(lab.session, [lab.mint()])
S.commit = real
r = lab.rows()
need(len(r['sessions']) == len(r['links']) == len(r['certs']), 'a part of a session is stored: %r' % r)
""")

bug('c10-stripped', 'C10', 'a certificate in a text encoding followed by white space (or one whose last byte happens to be white space)',
    'white space around the presented certificate is not stored', [
        (PA, """
                    to_add.append(AC(serial=b64_serial, certificate=raw_bytes,
""", """
                    to_add.append(AC(serial=b64_serial, certificate=raw_bytes.strip(),
""")], """
import base64
lab = Lab()
c = base64.b64encode(lab.mint()) + b'\\n'
lab.session([(c, 3)])
need(bytes(list(lab.rows()['certs'].values())[0].certificate) == c, 'the stored certificate is not the presented one')
""")

bug('c11-merged', 'C11', 'two concurrent requests presenting different certificates with one serial, the second reading before and writing after the first commits',
    'rows are merged instead of added, so the later request overwrites the certificate of the earlier one', [
        (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            for row in to_add:
                s.merge(row)
            s.commit()
""")], """
import inspect
lab = Lab()
a, b = lab.mint(serial=77, atts=[('x', '1')]), lab.mint(serial=77, atts=[('x', '2')])
gate, real, out = Gate(), lab.pamod.PolicyAuthority.LOG.info, {}
def slow(*x):
    if 'Adding session' in str(x[0]):
        gate()
    return real(*x)
lab.pamod.PolicyAuthority.LOG.info = slow
t = threading.Thread(target=lambda: out.setdefault('e', refused(lab.session, [a])))
t.start()
gate.reached.wait(3)
e = refused(lab.session, [b])
gate.go.set()
t.join()
need(e is not None or out['e'] is not None, 'both certificates were accepted')
""")

bug('c12-short-randomness', 'C12', 'guessing: ids have 128 instead of 160 bits of randomness',
    'the upper part of every session id is constant', [
        (PA, """
        session_id = getrandbits(PolicyAuthority.SESSION_ID_SIZE)
""", """
        session_id = getrandbits(PolicyAuthority.SESSION_ID_SIZE - 32)
""")], """
lab = Lab()
ids = [lab.session([lab.mint()]).session_id for _ in range(40)]
need(any(i >> 128 for i in ids), 'the upper bits are never set')
""")

bug('c12-merged-sessions', 'C12', 'the random source repeating a value',
    'rows are merged, so a repeated id takes over the earlier session', [
        (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            for row in to_add:
                s.merge(row)
            s.commit()
""")], """
lab = Lab()
lab.pamod.getrandbits = lambda n: 4711
lab.session([lab.mint()], uid='one')
c = refused(lab.session, [lab.mint()], uid='two')
need(c is not None, 'a second session took over the first one')
""")

bug('c13-one-key-info', 'C13', 'registered authorities with different key sizes or ciphers',
    'all authorities of the list share one key description, that of the last', [
        (PA, """
        for aauth in aauths:
            aauth_info = AttributeAuthorityInfo()
""", """
        key_info = KeyAlgorithm()
        for aauth in aauths:
            aauth_info = AttributeAuthorityInfo()
"""), (PA, """
            key_info = KeyAlgorithm()
            key_info.key_size = aauth.key_size
""", """
            key_info.key_size = aauth.key_size
""")], """
lab = Lab()
from hgaa.schema import pauth as S
s = lab.padb()
s.add(S.AttributeAuthority(uid='z', name='n', url='u', key_cipher='EC', key_size=256, pub_key='k', trust_level=1))
s.commit()
s.close()
l = lab.pa.trusted_attribute_authorities(REMOTE_ADDR='10.0.0.1').attribute_authorities
need({x.uid: (x.key_algorithm.cipher, x.key_algorithm.key_size) for x in l} == {ISSUER: ('RSA', 1024), 'z': ('EC', 256)}, 'wrong key description')
""")

bug('c14-lock-kept', 'C14', 'a refused session request, then an honest one',
    'session requests take a lock that refused ones never release', [
        (PA, """
        s = self._db_session()

        aauths = s.query(AttributeAuthority).all()
        aauth_dict = {}
        for aauth in aauths:
            aauth_dict[aauth.uid] = aauth

        processed_att_certs = {}
""", """
        PolicyAuthority._guard.acquire(timeout=30)  # One session at a time.
        s = self._db_session()

        aauths = s.query(AttributeAuthority).all()
        aauth_dict = {}
        for aauth in aauths:
            aauth_dict[aauth.uid] = aauth

        processed_att_certs = {}
"""), (PA, """
            s.add_all(to_add)
            s.commit()
""", """
            s.add_all(to_add)
            s.commit()
            PolicyAuthority._guard.release()
"""), (PA, """
import time
import base64
""", """
import threading
import time
import base64
"""), (PA, """
    SESSION_ID_SIZE = 160
""", """
    _guard = threading.Semaphore(4)
    SESSION_ID_SIZE = 160
""")], """
import time
lab = Lab()
for i in range(4):
    refused(lab.session, [b'junk'])
t = time.time()
lab.session([lab.mint()])
need(time.time() - t < 15, 'an honest request waits for a lock held by refused ones')
""")

bug('c15-lookup-error', 'C15', 'a database error while the user is looked up',
    'the whole request, with the password, is logged when the database fails', [
        (AA, """
            user = s.query(User).filter(User.username == credentials.username.lower()).first()
            if user is None:
""", """
            try:
                user = s.query(User).filter(User.username == credentials.username.lower()).first()
            except Exception as e:
                AttributeAuthority.LOG.error('User lookup failed: %s (request %r)' % (e, vars(credentials)))
                raise
            if user is None:
""")], """
lab = Lab(level='ERROR')
lab.user(1, 'ann', 'pa')
from sqlalchemy import text
s = lab.aadb()
s.execute(text('drop table %s' % lab.aamod.User.__tablename__))
s.commit()
s.close()
refused(lab.request, 'ann', 'my-secret-pw')
need('my-secret-pw' not in open(TMP + '/hgaa/logs/s.log').read(), 'the password is in the log')
""")

bug('c16-key-of-the-attempt', 'C16', 'a successful attribute request followed by a failing one',
    'the key is remembered before the answer is known', [
        ('hgaa/clients/aauth.py', """
            key_size = key.size_in_bits()
        pub_key = key.publickey().exportKey()
""", """
            key_size = key.size_in_bits()
        self.last_key, previous = key, self.last_key
        pub_key = key.publickey().exportKey()
"""), ('hgaa/clients/aauth.py', """
        if response.status != 200:
            raise Exception("Bad status in response.")

        if 'fault' in response.response_dict:
            raise Exception("Fault encountered in request reply.\\nERROR: %s\\n\\nDetails:\\n%s" %
""", """
        if response.status != 200:
            self.last_key = previous
            raise Exception("Bad status in response.")

        if 'fault' in response.response_dict:
            self.last_key = previous
            raise Exception("Fault encountered in request reply.\\nERROR: %s\\n\\nDetails:\\n%s" %
""")], """
configure()
from hgaa.clients.aauth import AttributeAuthorityClient
c = AttributeAuthorityClient()
JSONWSPClient.answer = lambda method, kw: Response(200, dict(result=dict(data='x')))
c.attribute_request(key=key(1))
def lost(*a):
    raise OSError('connection reset')
JSONWSPClient.answer = lost
refused(c.attribute_request, key=key(2))
need(c.last_key is key(1), 'the key of a failed request is remembered')
""")

bug('c17-case-of-enabled', 'C17', 'a service disabled in its own section while the default is enabled',
    'the switch is read from the common section when its own is not one of the known words', [
        ('hgaa/handler.py', """
    if get_conf('SERVICE_ENABLED', True, s).upper() == 'TRUE':
""", """
    if get_conf('SERVICE_ENABLED', True, s).upper() in ('TRUE', '') or \\
            (get_conf('SERVICE_ENABLED', True, s).upper() != 'FALSE' and get_conf('SERVICE_ENABLED').upper() == 'TRUE'):
""")], """
configure(pa='off')
import hgaa.handler as h
need(list(h.service_modules) == ['aauth'], 'a disabled service answers: %r' % (h.service_modules,))
""")

bug('c18-drop-on-error', 'C18', 'an error while building the databases again over existing rows',
    'after an error the tables are dropped to leave nothing half-built, including those that were there before', [
        ('hgaa/tools.py', """
                base.metadata.create_all(engine)
                engine.dispose()
""", """
                try:
                    base.metadata.create_all(engine)
                except Exception:
                    base.metadata.drop_all(engine)
                    raise
                engine.dispose()
""")], """
lab = Lab()
lab.user(1, 'ann', 'pa')
from hgaa import tools
from sqlalchemy import MetaData
real, n = MetaData.create_all, [0]
def failing(self, *a, **k):
    raise OSError('connection lost')
MetaData.create_all = failing
refused(tools.build_database, ['aauth'])
MetaData.create_all = real
tools.build_database(['aauth'])
s = lab.aadb()
need(s.query(lab.aamod.User).count() == 1, 'the rows are gone')
""")

bug('c19-interrupted-finished', 'C19', 'a crash while the new key is written, then the command repeated',
    'a new key file left by an interrupted run is taken into use, complete or not', [
        ('hgaa/tools.py', """
    SERVICE_TOOLS_LOG.info('Generating new private/public key pair for AAUTH service.')
    key = RSA.generate(key_size)
""", """
    SERVICE_TOOLS_LOG.info('Generating new private/public key pair for AAUTH service.')
    if os.path.exists(key_file + '.tmp'):
        SERVICE_TOOLS_LOG.info('Finishing interrupted generation.')
        os.replace(key_file + '.tmp', key_file)
        return
    key = RSA.generate(key_size)
""")], """
configure()
from hgaa import tools
from Crypto.PublicKey import RSA
# what a command killed while writing leaves behind
pid = os.fork()
if pid == 0:
    os.fsync = lambda fd: os._exit(0)
    os.replace = os.rename = lambda *a: os._exit(0)
    import builtins
    real = builtins.open
    def opening(p, mode='r', *a, **k):
        f = real(p, mode, *a, **k)
        if 'w' in mode and str(p).startswith(TMP + '/k.bin'):
            f.write(b'-----BEGIN ENCR')
            f.flush()
            os._exit(0)
        return f
    builtins.open = opening
    tools.gen_aauth_key(TMP + '/k.bin', 'pp', 1024)
    os._exit(0)
os.waitpid(pid, 0)
tools.gen_aauth_key(TMP + '/k.bin', 'pp', 1024)
need(not refused(RSA.import_key, open(TMP + '/k.bin', 'rb').read(), 'pp'), 'no usable key after repeating the command')
""")

bug('c20-types-remembered', 'C20', 'one builder used for several sets of attributes with different types',
    'a builder keeps the symbols it built, so later tables have the types of the first', [
        ('hgpl/symbols.py', """
                s = Symbol(att_name, att_type, None, att_dict.get(att_name))
                s.type = self.types.get(s.name, SymbolType.UNKNOWN)
                st.define(s)
""", """
                s = self._built.get((att_name, att_type))
                if s is None:
                    s = self._built[(att_name, att_type)] = Symbol(att_name, att_type)
                    s.type = self.types.get(s.name, SymbolType.UNKNOWN)
                s.value = att_dict.get(att_name)
                st.define(s)
"""), ('hgpl/symbols.py', """
        if types:
            self.types = types
        else:
            self.types = dict()

""", """
        if types:
            self.types = types
        else:
            self.types = dict()

        self._built = dict()
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTableBuilder, SymbolType
from hgpl.ast import ASTResult
b = SymbolTableBuilder({'user.a': SymbolType.INT}, {'a': 5})
one = b.build()
b.reset_values()
b.load_mixed_att_val_dict({'user.a': 6})
two = b.build()
i = Interpreter(Parser(Lexer('user.a = 5')))
need(i.evaluate(one) == ASTResult.TRUE and i.evaluate(two) == ASTResult.FALSE, 'attributes of another set were used')
""")

bug('c20-short-circuit', 'C20', 'an evaluation whose right side is only reached in some evaluations, by one evaluator',
    'the right side of AND/OR is skipped when the left one decides, and keeps the result of the evaluation before', [
        ('hgpl/interpreting.py', """
        for n in node.children():
            self._evaluate_node(n)

        if isinstance(node, AttNode):
""", """
        for n in node.children():
            if isinstance(node, BoolOpNode) and n is node.right() and n.result is not None and \\
               node.left().result == ASTResult.from_bool(node.tvalue().upper() == "OR"):
                continue
            self._evaluate_node(n)

        if isinstance(node, AttNode):
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.interpreting import Interpreter
from hgpl.symbols import SymbolTableBuilder, SymbolType
from hgpl.ast import ASTResult
i = Interpreter(Parser(Lexer('user.a = 5 OR user.b = 6')))
T = {'user.a': SymbolType.INT, 'user.b': SymbolType.INT}
i.evaluate(SymbolTableBuilder(T, {'a': 4, 'b': 6}).build())
need(i.evaluate(SymbolTableBuilder(T, {'a': 5}).build()) == ASTResult.TRUE, 'wrong decision')
need(len(i.get_warnings()) == 1, 'the warning about the missing attribute is gone')
""")

bug('c21-equal-nodes', 'C21', 'a policy in which two nodes are equal in value but different in position',
    'equal tokens share one encoded node', [
        ('hgpl/ast.py', """
            token = Token(TokenType(token_type), token_pos, token_val)
            ntype = ASTNodeType(node_type)
""", """
            token = tokens.setdefault((token_type, token_val, token_pos & 0xff), Token(TokenType(token_type), token_pos, token_val))
            ntype = ASTNodeType(node_type)
"""), ('hgpl/ast.py', """
        # TODO: Check version

        nodes = {}
""", """
        # TODO: Check version

        nodes = {}
        tokens = {}
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.ast import ASTEncoder
p = 'user.a = 50 AND ' * 40 + 'user.b = 6'
t = Parser(Lexer(p)).parse()
def positions(n):
    return [n.tpos()] + [x for m in n._node_list for x in positions(m)]
need(positions(ASTEncoder.decode(ASTEncoder.encode(t))) == positions(t), 'different after reload')
""")

bug('c22-current-policy', 'C22', 'two threads type-checking different policies with problems at the same time',
    'the policy text reported with an issue is that of whoever started a check last', [
        ('hgpl/semantics.py', """
    def check(self, min_error_level=ErrorType.CRIT):
        # TODO: Reset if called 2nd time.
        self._scan_tree(self._ast)
        self._checked = True
""", """
    def check(self, min_error_level=ErrorType.CRIT):
        # TODO: Reset if called 2nd time.
        TypeChecker._current = self._symbols
        self._scan_tree(self._ast)
        self._checked = True
"""), ('hgpl/semantics.py', """
        s = Symbol(node.tvalue(), node.ttype(), SymbolType.UNKNOWN)
        self._symbols.define(s)
""", """
        s = Symbol(node.tvalue(), node.ttype(), SymbolType.UNKNOWN)
        (TypeChecker._current or self._symbols).define(s)
"""), ('hgpl/semantics.py', """
class TypeChecker(object):
""", """
class TypeChecker(object):
    _current = None
""")], """
from hgpl.lexing import Lexer
from hgpl.parsing import Parser
from hgpl.semantics import TypeChecker
a, b = TypeChecker(Parser(Lexer('user.a = 5'))), TypeChecker(Parser(Lexer('user.b = 6')))
real = a._scan_tree
def slow(node):
    t = threading.Thread(target=b.check)
    if a._scan_tree is slow:
        a._scan_tree = real
        t.start()
        t.join()
    return real(node)
a._scan_tree = slow
e = refused(a.check)
need(e is None and set(a.get_symbol_table().names()) == {'user.a'}, 'attributes mixed')
""")
