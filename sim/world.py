"""The service world: both authorities, their databases and files, the network, clients and administrators."""
import base64
import gc
import json
import os
import shutil
import sqlite3
import struct
import sys
import time
import traceback

from Crypto.Hash import SHA256

from . import boot, core, refcert, seams
from .core import SimKilled, nopreempt
from .seams import REPO

TEMPLATES = {}


def canonical_ini(sections):
    out = []
    for name, items in sections:
        out.append('[%s]' % name)
        for k, v in items:
            out.append('%s=%s' % (k, str(v).replace('%', '%%')))
        out.append('')
    return '\n'.join(out)


def services_ini(conf, st):
    lv, sq = conf.get('log', 'CRITICAL'), conf.get('sqllog', 'CRITICAL')
    so = conf.get('stdout', 'False')
    default = [('DB_TYPE', 'SQLITE'), ('DB_NAME', st + '/' + conf.get('db_default', 'main')), ('LOG_LEVEL', lv),
               ('LOG_FILE', 'hgaa_service.log'), ('LOG_FORMAT', '%(asctime)s [%(levelname)s: %(name)s] %(message)s'),
               ('LOG_DATE_FORMAT', '%Y-%m-%d %I:%M:%S %p'), ('LOG_NAME', 'services'), ('LOG_STDOUT', so),
               ('SQL_LOG_LEVEL', sq), ('SQL_LOG_FILE', 'sql.log'), ('SQL_LOG_FORMAT', '%(message)s'),
               ('SQL_LOG_DATE_FORMAT', '%H'), ('SQL_LOG_STDOUT', so), ('CLEAN_LOG_ON_START', 'True'),
               ('SERVICE_ENABLED', conf.get('en_default', 'True')), ('PASS_PEPPER', conf['pepper'])]
    ladon = [('LOG_NAME', 'ladon'), ('LOG_LEVEL', lv), ('LOG_FILE', 'ladon.log'), ('LOG_STDOUT', 'False'),
             ('SERVICE_PORT', conf['port']), ('SERVICE_HOST', conf['host'])]
    aa = [('LOG_LEVEL', lv), ('LOG_NAME', 'aauth'), ('LOG_FILE', conf.get('aalogfile', 'None')), ('LOG_STDOUT', 'False'),
          ('AAUTH_ID', conf['aauth_id']), ('A_URI', conf['a_uri']), ('AC_EXPIRE_LENGTH', conf['expire']),
          ('KEY_PASS', conf['key_pass']), ('KEY_FILE', st + '/aakey.bin')]
    pa = [('LOG_LEVEL', lv), ('LOG_NAME', 'pauth'), ('LOG_FILE', 'None'), ('LOG_STDOUT', 'False'),
          ('PAUTH_NAME', conf['pauth_name']), ('PAUTH_UID', conf['pauth_uid'])]
    if conf.get('rev') is not None:
        aa.append(('REV_URI', conf['rev']))
    if conf.get('db_aa'):
        aa.append(('DB_NAME', st + '/' + conf['db_aa']))
    if conf.get('db_pa'):
        pa.append(('DB_NAME', st + '/' + conf['db_pa']))
    if conf.get('en_aa') is not None:
        aa.append(('SERVICE_ENABLED', conf['en_aa']))
    if conf.get('en_pa') is not None:
        pa.append(('SERVICE_ENABLED', conf['en_pa']))
    tools = [('LOG_LEVEL', lv), ('LOG_NAME', 'tools'), ('LOG_FILE', 'None'), ('LOG_STDOUT', 'False')]
    return canonical_ini((('DEFAULT', default), ('TOOLS', tools), ('LADON', ladon), ('AAUTH', aa), ('PAUTH', pa)))


def clients_ini(conf):
    lv = conf.get('log', 'CRITICAL')
    base = 'http://%s:%s/' % (conf['host'] or 'localhost', conf['port'])
    d = [('LOG_LEVEL', lv), ('LOG_FILE', 'hgaa_client.log'), ('LOG_FORMAT', '%(message)s'), ('LOG_DATE_FORMAT', '%H'),
         ('LOG_NAME', 'clients'), ('LOG_STDOUT', 'False'), ('CLEAN_LOG_ON_START', 'True')]
    t = [('LOG_LEVEL', lv), ('LOG_NAME', 'tools'), ('LOG_FILE', 'None')]
    a = [('LOG_LEVEL', lv), ('LOG_NAME', 'aauth'), ('LOG_FILE', 'None'), ('CLIENT_TYPE', 'JSONWSP'),
         ('SERVICE_DESCRIPTION', base + 'AttributeAuthority/jsonwsp/description'), ('CRED_TYPE', '0'),
         ('CRED_USER', 'nobody'), ('CRED_PASS', 'nothing'), ('KEY_SIZE', '1024')]
    p = [('LOG_LEVEL', lv), ('LOG_NAME', 'aauth'), ('LOG_FILE', 'None'), ('CLIENT_TYPE', 'JSONWSP'),
         ('SERVICE_DESCRIPTION', base + 'PolicyAuthority/jsonwsp/description')]
    return canonical_ini((('DEFAULT', d), ('TOOLS', t), ('AAUTH', a), ('PAUTH', p)))


def base_conf():
    return dict(pepper='pep', port='8888', host='', aauth_id='localhost', a_uri='hgabac://localhost:8888', expire=3600,
                key_pass='kp', pauth_name='localhost', pauth_uid='hgabac://localhost:8888', db_default='main')


def write_file(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with seams._io_open(path, 'wb') as f:
        f.write(data)


def prepare_files(scratch, conf, aa_key=None):
    ov, st = scratch + '/ov', scratch + '/st'
    for d in (ov + '/hgaa/confs', ov + '/hgaa/logs', ov + '/hgaa/services/attribute_certificates', st):
        os.makedirs(d, exist_ok=True)
    write_file(ov + '/hgaa/confs/services.ini', services_ini(conf, st).encode())
    write_file(ov + '/hgaa/confs/clients.ini', clients_ini(conf).encode())
    if aa_key is not None:
        pem = boot.KEYS[aa_key].export_key(passphrase=conf['key_pass'], pkcs=8,
                                           protection='PBKDF2WithHMAC-SHA1AndAES128-CBC',
                                           prot_params={'iteration_count': 1},
                                           randfunc=lambda n: b'\x07' * n)
        write_file(st + '/aakey.bin', pem)
    seams.FS.overlay, seams.FS.scratch = ov, st
    return ov, st


def make_templates():
    """Database files with empty tables, built by the repository's own build command (in a child process)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = {}
            err, sys.stderr = sys.stderr, boot.StdCapture()
            for name, svc in (('both', ['aauth', 'pauth']), ('aa', ['aauth']), ('pa', ['pauth'])):
                scratch = boot.make_scratch('tpl')
                conf = base_conf()
                prepare_files(scratch, conf)
                boot.purge_modules()
                import hgaa.tools as tools
                tools.build_database(svc)
                with seams._io_open(scratch + '/st/main.db', 'rb') as f:
                    out[name] = base64.b64encode(f.read()).decode()
                shutil.rmtree(scratch, ignore_errors=True)
            sys.stderr = err
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
            code = 0
        except BaseException:
            sys.stderr = sys.__stderr__
            import traceback
            traceback.print_exc()
        os._exit(code)
    os.close(w)
    with seams._io_open(r, 'r') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise core.HarnessError('could not build the template databases')
    for k, v in json.loads(data).items():
        TEMPLATES[k] = base64.b64decode(v)


class Incarnation(object):
    def __init__(self, n):
        self.n = n
        self.dead = False
        self.app = None


HASHES = {}
NEVER = object()        # the password of an account that no password opens


def pw_hash(password, pepper):
    """bcrypt, cheapest cost; the salt is a function of the password so that it can be cached."""
    import bcrypt
    import hashlib
    k = (password, pepper)
    if k not in HASHES:
        raw = hashlib.sha256(repr(k).encode()).digest()
        alpha = './ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
        salt = '$2b$04$' + ''.join(alpha[b % 64] for b in raw[:21]) + 'u'
        HASHES[k] = bcrypt.hashpw((password + pepper).encode(), salt.encode()).decode()
    return HASHES[k]


def pub_text(op):
    """The public key as the client sends it."""
    pub = boot.PUBS[op['key']]
    how = op.get('pubtext')
    if how == 'nl':
        return pub + b'\n'
    if how == 'crlf':
        return pub.replace(b'\n', b'\r\n') + b'\r\n'
    if how == 'strip':
        return b''.join(pub.split(b'\n')[1:-1])
    if how == 'openssh':
        return boot.KEYS[op['key']].publickey().export_key('OpenSSH') + b' user@host'
    if how == 'text':
        return b'any  text\t'
    if how == 'lead':
        return b'\n  ' + pub
    if how == 'der64':
        return base64.b64encode(boot.KEYS[op['key']].publickey().export_key('DER'))
    return pub


class World(object):
    def __init__(self, plan, scratch, replay=False):
        self.plan = plan
        self.prop = plan['prop']
        self.scratch = scratch
        self.setup = plan['setup']
        self.conf = self.setup['conf']
        self.knobs = plan['knobs']
        self.sim = core.Sim(plan['seed'], self.knobs, plan.get('forced'), replay, plan.get('probs'))
        self.sim.now = self.setup['now']
        self.sim.t_start = self.sim.now
        self.sim.clock = seams.Clock(self.sim)
        self.sim.crash_hook = self.on_crash
        self.recs = []
        self.ops = {}
        self.execs = {}
        self.mints = {}
        self.presented = {}
        self.inc = None
        self.up = False
        self.n_inc = 0
        self.violations = []
        self.answers = {}            # op id -> list of what the client got
        self.aa_versions = []
        self.pa_versions = []
        self.acks = []
        self.snaps = 0
        self.archive_watch = []
        self.client_log = []
        self.restarts = 0
        self.phase = 'main'
        self.live = []

    # ------------------------------------------------------------ setup
    def db_path(self, which):
        n = self.conf.get('db_' + which) or self.conf.get('db_default', 'main')
        return '%s/%s.db' % (self.st, n)

    def fail(self, cls, detail, prop=None):
        self.violations.append((prop or self.prop, cls, detail))

    def open_db(self, path):
        c = seams._real_connect(path, timeout=0, isolation_level=None)
        c.text_factory = str
        return c

    def build(self):
        su = self.setup
        self.ov, self.st = prepare_files(self.scratch, self.conf, su['aa_key'])
        self.aa_db, self.pa_db = self.db_path('aa'), self.db_path('pa')
        self.aa_pub = boot.PUBS[su['aa_key']]
        split = self.aa_db != self.pa_db
        decoy = su.get('decoy')
        paths = {self.aa_db: 'both' if decoy or not split else 'aa', self.pa_db: 'both' if decoy or not split else 'pa'}
        if su.get('decoy_default') and split:
            paths.setdefault('%s/%s.db' % (self.st, self.conf.get('db_default', 'main')), 'both')
        for p, t in paths.items():
            write_file(p, TEMPLATES[t])
        self.users = {}
        self.atts = {}
        c = self.open_db(self.aa_db)
        c.execute('begin')
        for u in su['users']:
            c.execute('insert into aauth_users (id, username, password) values (?,?,?)',
                      (u['id'], u['username'], u['stored'] if 'stored' in u else pw_hash(u['password'], self.conf['pepper'])))
            self.users[u['id']] = (u['username'], u['password'] if 'stored' not in u else NEVER)
        for a in su['attdefs']:
            c.execute('insert into aauth_attributes (id, name, type) values (?,?,?)', (a['id'], a['name'], a['type']))
            self.atts[a['id']] = (a['name'], a['type'])
        self.assign = {}
        for s in su['assigns']:
            c.execute('insert into aauth_attribute_assignments (user_id, att_id, value) values (?,?,?)',
                      (s['user'], s['att'], s['value']))
            self.assign[(s['user'], s['att'])] = s['value']
        c.execute('commit')
        c.close()
        self.reg = {}
        c = self.open_db(self.pa_db)
        c.execute('begin')
        for r in su['registry']:
            self._put_reg(c, r)
        c.execute('commit')
        c.close()
        if split and decoy:
            self._decoys(decoy)
        self.archived = {}
        if su.get('archived'):
            self._archive(su['archived'], su['archived_age'])
        self.aa_versions.append((0, dict(self.users), dict(self.atts), dict(self.assign)))
        self.pa_versions.append((0, {k: dict(v) for k, v in self.reg.items()}))
        self.st_files = set(os.listdir(self.st))
        self.std = []
        os.environ['TZ'] = su.get('tz', 'UTC')
        time.tzset()

    def _put_reg(self, c, r):
        r = dict(r)
        r['pub_key'] = pub_text(r).decode()
        c.execute('insert or replace into pauth_attribute_authorities (uid,name,url,key_cipher,key_size,pub_key,trust_level)'
                  ' values (?,?,?,?,?,?,?)', (r['uid'], r['name'], r['url'], r['cipher'], r['size'], r['pub_key'], r['trust']))
        self.reg[r['uid']] = r

    def _archive(self, n, age):
        """Certificates of earlier days, as the service names and stores them."""
        d = self.ov + '/hgaa/services/attribute_certificates/'
        now = self.sim.now
        r = self.sim.rng('archive', 'setup')
        sig = None
        for k in range(n):
            t = int(now - age - k)
            c = dict(issuer=dict(pub_key=self.aa_pub, key_algo='RSA[1024]', uid=self.conf['a_uri'], name=self.conf['aauth_id'], url=''),
                     holder=dict(pub_key=boot.PUBS[20], key_algo='RSA[1024]', uid='h', name='h'),
                     info=dict(version=1, serial=r.getrandbits(160) if k % 3 else r.getrandbits(152) | 0xff << 152, issued=t), atts=[],
                     rev=dict(url='', extra=b'', valid_after=t, valid_before=t + self.conf['expire']), ext=[])
            c['del'] = b''
            body = refcert.encode_body(c)
            if sig is None:
                sig = refcert.sign(body, boot.KEYS[self.setup['aa_key']])[len(body):]
            p = d + ('0x%0.2X.ac' % c['info']['serial'])[2:]
            write_file(p, body + sig)
            os.utime(p, (t, t))
            self.archived[p] = body + sig

    def _decoys(self, decoy):
        """The other service's tables, with other contents, in the database a service must not use."""
        paths = {self.aa_db, self.pa_db}
        d = '%s/%s.db' % (self.st, self.conf.get('db_default', 'main'))
        if os.path.exists(d):
            paths.add(d)
        for p in sorted(paths):
            c = self.open_db(p)
            if p != self.aa_db:
                for u in decoy['users']:
                    c.execute('insert into aauth_users (id, username, password) values (?,?,?)',
                              (u['id'], u['username'], pw_hash(u['password'], self.conf['pepper'])))
                for a in self.setup['attdefs']:
                    c.execute('insert into aauth_attributes (id, name, type) values (?,?,?)', (a['id'], a['name'], a['type']))
                for u in decoy['users']:
                    for a in self.setup['attdefs'][:2]:
                        c.execute('insert into aauth_attribute_assignments (user_id, att_id, value) values (?,?,?)',
                                  (u['id'], a['id'], 'decoy'))
            if p != self.pa_db:
                reg = self.reg
                self.reg = {}
                for r in decoy['registry']:
                    self._put_reg(c, r)
                self.reg = reg
            c.close()

    # ------------------------------------------------------- incarnations
    def load_clients(self):
        boot.purge_modules()
        import hgaa.clients.aauth as ca
        import hgaa.clients.pauth as cp
        from ladon.clients.jsonwsp import JSONWSPClient
        self.ca, self.cp = ca, cp
        JSONWSPClient.transport = self.client_transport
        boot.purge_modules()

    def start_server(self):
        with nopreempt():
            self.n_inc += 1
            boot.purge_modules()
            inc = Incarnation(self.n_inc)
            from ladon.server.wsgi import LadonWSGIApplication
            got = []
            LadonWSGIApplication.on_create = got.append
            try:
                import hgaa.handler        # noqa: F401
                inc.app = got[-1]
            except Exception:
                self.startup_error = 'start %d of the service process failed: %s' % (
                    self.n_inc, traceback.format_exc().strip().split('\n')[-1])
                self.sim.ev('startup failed')
                return
            finally:
                LadonWSGIApplication.on_create = None
            self.inc = inc
            self.up = True
            gc.collect()
            gc.freeze()

    def on_crash(self, how):
        inc = self.inc
        if inc is None or inc.dead:
            return
        self.sim.ev('CRASH', inc.n)
        inc.dead = True
        self.up = False
        for t in self.sim.tasks:
            if t.inc is inc:
                if t.rec is not None:
                    if t.rec['open']:
                        t.rec['crashed'] = True
                self.sim.kill(t)
        seams.crash_connections(inc)
        self.after_crash()
        self.restarts += 1
        self.sim.spawn('restart%d' % self.n_inc, self._restart, 'sup', delay=0.5 + (self.plan['seed'] % 7) * 0.3)

    def _restart(self):
        if not self.up:
            self.start_server()
            if self.up:
                self.sim.ev('RESTART', self.n_inc)

    # -------------------------------------------------------------- execs
    def spawn_exec(self, op, service, method, args, exports, delay=None):
        k = self.execs.get(op['id'], 0)
        self.execs[op['id']] = k + 1
        rec = dict(op=op, k=k, service=service, method=method, args=args, exports=exports, faults=[], natural=[],
                   entropy=[], db=0, dbs=set(), written=[], clock=[], open=False, outcome=None, crashed=False,
                   inc=self.inc.n, seq0=None, seq1=None, phase=self.phase, started=False)
        if method == 'start_session':
            rec['rng_repeat_ok'] = bool(self.plan['probs'].get('rng')) or self.sim.replay
        self.recs.append(rec)
        inc = self.inc
        name = '%s.x%d' % (op['id'], k)
        t = self.sim.spawn(name, None, 'srv', inc, delay)
        t.rec = rec
        t.fn = lambda: self._exec(t, rec, inc)
        return t

    def _exec(self, t, rec, inc):
        sim = self.sim
        if inc.dead:
            rec['crashed'] = True
            return
        clk = sim.clock.read('srv')
        rec['started'] = True
        rec['clock'] = [[clk, clk]]
        rec['now0'] = sim.now
        rec['open'] = True
        rec['seq0'] = sim.ev('begin', rec['service'], rec['method'])
        rec['dbver0'] = (len(self.aa_versions) - 1, len(self.pa_versions) - 1)
        if rec['method'] == 'start_session':
            rec['acks0'] = len(self.acks)
        try:
            out = inc.app.dispatch(rec['service'], rec['method'], rec['args'], rec['exports'],
                                   self.knobs.get('shared_instance', False))
            if not inc.dead:
                rec['outcome'] = out
        except SimKilled:
            rec['crashed'] = True
            raise
        finally:
            t.nopre += 1
            rec['open'] = False
            rec['clock'][-1][1] = sim.clock.read('srv')
            rec['now1'] = sim.now
            rec['seq1'] = sim.ev('end', rec['outcome'][0] if rec['outcome'] else None,
                                 rec['outcome'][2] if rec['outcome'] else None)
            rec['dbver1'] = (len(self.aa_versions) - 1, len(self.pa_versions) - 1)
            if rec['outcome'] is not None and rec['outcome'][0] == 'result':
                self.on_success(rec)
            gc.collect()
            t.nopre -= 1

    def on_success(self, rec):
        if rec['method'] == 'start_session':
            self.acks.append(rec)
            if self.prop in ('C10', 'C09', 'C12'):
                self.check_acks()
        elif rec['method'] == 'attribute_request':
            if self.prop == 'C04':
                self.check_archive(rec)

    # ------------------------------------------------------------ network
    def transport(self, op, service, method, args, exports):
        """Returns (status, reason, dict) or raises ConnectionError, like an HTTP client."""
        sim = self.sim
        r = sim.rng(op['id'], 'net%d' % op.setdefault('_n', 0))
        op['_n'] += 1
        v = sim.pick('net', 10, None, (3, 3, 3, 2, 1, 2, 2, 2, 2))
        lat = r.choice((0.0, 0.001, 0.01, 0.05))
        if v == 1:
            sim.fault('net-request-lost')
            sim.sleep(5.0)
            raise ConnectionError('simulated: request lost')
        if v == 4:
            sim.fault('net-delay')
            lat += r.choice((1.0, 30.0, 4000.0))
        if v == 5:
            sim.fault('net-refused')
            raise ConnectionRefusedError('simulated: refused')
        sim.sleep(lat)
        if not self.up:
            sim.hit('server-down')
            if r.random() < 0.7:
                sim.sleep(3.0)           # the caller tries again later
        if not self.up:
            raise ConnectionRefusedError('simulated: server down')
        t = self.spawn_exec(op, service, method, args, exports)
        if v == 3:
            sim.fault('net-duplicate')
            self.spawn_exec(op, service, method, args, exports, delay=r.choice((0.0, 0.0, 0.002, 1.0, 20.0)))
        sim.join(t)
        rec = t.rec
        if rec['outcome'] is None:
            raise ConnectionResetError('simulated: connection reset')
        if v == 2:
            sim.fault('net-response-lost')
            raise ConnectionResetError('simulated: response lost')
        if v == 6:
            sim.fault('net-error-status')
            return r.choice((500, 502, 503, 504, 404)), 'simulated error', r.choice(
                ({}, None, {'fault': {'code': 'server', 'string': 'bad gateway', 'detail': []}}))
        if v == 7:
            sim.fault('net-broken-answer')
            return 200, 'OK', r.choice(({}, None, {'type': 'jsonwsp/response'}, {'resul': {}}, []))
        if v == 8:
            sim.fault('net-stale-error')
            d = {'result': self.stale(method)} if r.random() < 0.5 else self.to_wire(rec['outcome'])
            return r.choice((500, 502, 206, 301, 408)), 'simulated error', d
        if v == 9:
            sim.fault('net-server-fault')
            return 200, 'OK', {'type': 'jsonwsp/fault', 'fault': {'code': 'server', 'string': 'simulated overload',
                                                                  'detail': ['overload']}}
        sim.sleep(r.choice((0.0, 0.0, 0.002, 0.02)))
        if rec['outcome'][0] == 'notfound':
            return 404, 'Not Found', {}
        return 200, 'OK', self.to_wire(rec['outcome'])

    def stale(self, method):
        for r in self.recs:
            if r['method'] == method and r['outcome'] and r['outcome'][0] == 'result':
                return r['outcome'][1]
        return {'data': b'', 'version': 1, 'format': 0}

    @staticmethod
    def to_wire(outcome):
        if outcome[0] == 'result':
            return {'type': 'jsonwsp/response', 'result': outcome[1]}
        return {'type': 'jsonwsp/fault', 'fault': dict(outcome[1]) if outcome[1] else {}}

    def client_transport(self, url, service, method, kw):
        op = self.sim.cur.op
        return self.transport(op, service, method, kw, self.exports(op))

    @staticmethod
    def exports(op):
        e = {'REMOTE_ADDR': op.get('addr', '10.0.0.1')}
        e.update(op.get('env') or {})
        return e

    # ------------------------------------------------------------- actors
    def call(self, op, service, method, args):
        try:
            st, reason, d = self.transport(op, service, method, args, self.exports(op))
        except ConnectionError as e:
            return ('error', str(e))
        if st == 200 and isinstance(d, dict) and 'result' in d:
            return ('ok', d['result'])
        return ('refused', d)

    def run_actor(self, actor):
        me = self.sim.cur
        clients = {}
        for op in actor['ops']:
            self.ops[op['id']] = op
            me.op = op
            getattr(self, 'op_' + op['op'])(op, clients)

    def key_of(self, op):
        return boot.KEYS[op['key']]

    def attr_args(self, op):
        pub = pub_text(op)
        return dict(credentials={'type': op.get('ctype', 0), 'username': op.get('user'), 'password': op.get('pw')},
                    user_public_key={'public_key': pub.decode(),
                                     'key_algorithm': {'cipher': op.get('cipher', 'RSA'),
                                                       'key_size': op.get('key_size', 1024)}},
                    attributes={'attribute_names': op.get('names'), 'attribute_ids': op.get('ids')})

    def op_attr(self, op, clients):
        if op.get('via') == 'client':
            c = clients.get('aa')
            if c is None:
                c = clients['aa'] = self.ca.AttributeAuthorityClient({'type': 0, 'username': '', 'password': ''})
            c.credentials = {'type': op.get('ctype', 0), 'username': op.get('user'), 'password': op.get('pw')}
            before = c.last_key
            entry = dict(op=op, kind='attr', before=before, exc=None, result=None)
            n0 = self.execs.get(op['id'], 0)
            try:
                kw = {}
                if op.get('key') is not None:
                    kw['key'] = boot.KEYS[op['key']]
                entry['result'] = c.attribute_request(op.get('names'), op.get('ids'), **kw)
            except (core.SimKilled, core.SimStop):
                raise
            except Exception as e:
                entry['exc'] = (type(e).__name__, str(e))
            entry['after'] = c.last_key
            entry['n0'], entry['n1'] = n0, self.execs.get(op['id'], 0)
            entry['decided'] = self.sim.decisions.get('%s|net|%d' % (self.sim.cur.name, self.sim.cur.counters['net'] - 1), 0) \
                if 'net' in self.sim.cur.counters else 0
            self.client_log.append(entry)
            res = entry['result']
            self.answers[op['id']] = ('ok', res) if entry['exc'] is None else ('error', entry['exc'])
            return
        self.answers[op['id']] = self.call(op, 'AttributeAuthority', 'attribute_request', self.attr_args(op))

    def _client_simple(self, op, kind, fn):
        entry = dict(op=op, kind=kind, exc=None, result=None, before=None, after=None)
        entry['n0'] = self.execs.get(op['id'], 0)
        try:
            entry['result'] = fn()
        except (core.SimKilled, core.SimStop):
            raise
        except Exception as e:
            entry['exc'] = (type(e).__name__, str(e))
        entry['n1'] = self.execs.get(op['id'], 0)
        cur = self.sim.cur
        entry['decided'] = self.sim.decisions.get('%s|net|%d' % (cur.name, cur.counters.get('net', 0) - 1), 0)
        self.client_log.append(entry)
        self.answers[op['id']] = ('ok', entry['result']) if entry['exc'] is None else ('error', entry['exc'])

    def op_info_aa(self, op, clients):
        if op.get('via') == 'client':
            c = clients.get('aa')
            if c is None:
                c = clients['aa'] = self.ca.AttributeAuthorityClient({'type': 0, 'username': '', 'password': ''})
            before = c.last_key
            self._client_simple(op, 'info_aa', c.info)
            self.client_log[-1]['before'], self.client_log[-1]['after'] = before, c.last_key
            return
        self.answers[op['id']] = self.call(op, 'AttributeAuthority', 'info', {})

    def _pa_client(self, clients):
        c = clients.get('pa')
        if c is None:
            c = clients['pa'] = self.cp.PolicyAuthorityClient('svc')
        return c

    def op_info_pa(self, op, clients):
        if op.get('via') == 'client':
            return self._client_simple(op, 'info_pa', self._pa_client(clients).info)
        self.answers[op['id']] = self.call(op, 'PolicyAuthority', 'info', {})

    def op_list(self, op, clients):
        if op.get('via') == 'client':
            return self._client_simple(op, 'list', self._pa_client(clients).trusted_attribute_authorities)
        self.answers[op['id']] = self.call(op, 'PolicyAuthority', 'trusted_attribute_authorities', {})

    def op_call(self, op, clients):
        """Any method by name (reachability checks)."""
        self.answers[op['id']] = self.call(op, op['service'], op['method'], op.get('args') or {})

    def op_wait(self, op, clients):
        self.sim.sleep(op['dt'])

    def op_crash(self, op, clients):
        if self.sim.faults_on and self.up:
            self.sim.fault('crash-idle')
            self.on_crash('process')
        self.sim.sleep(0.01)

    def op_clock(self, op, clients):
        clk = self.sim.clock
        cur = clk.read('srv')
        if op.get('to_bound') and clk.targets:
            r = self.sim.rng(op['id'], 'bound')
            new = clk.targets[r.randrange(len(clk.targets))] + op.get('delta', 0.0)
        elif op.get('boundary') == 'midnight':
            new = (int(cur) // 86400 + 1) * 86400 - op.get('before', 0.05)
        else:
            new = cur + op.get('delta', 0.0)
        if 86400.0 < new < 4200000000.0:
            self.sim.fault_counts['clock-step'] = self.sim.fault_counts.get('clock-step', 0) + 1
            self.sim.ev('clock', '%.4f' % new)
            clk.jump_to('srv', new)

    # --------------------------------------------------------------- certs
    def mint(self, name):
        m = self.mints.get(name)
        if m is not None:
            return m
        spec = self.setup['mints'][name]
        now = int(self.sim.clock.read('srv'))
        iss = spec['issuer']
        c = dict(
            issuer=dict(pub_key=boot.pub(spec['embed_key']) if not spec.get('der') else
                        boot.key(spec['embed_key']).publickey().export_key('DER'),
                        key_algo='RSA[1024]', uid=iss['uid'], name=iss.get('name', ''), url=iss.get('url', '')),
            holder=dict(pub_key=boot.PUBS[spec.get('holder_key', 20)], key_algo='RSA[1024]', uid=spec.get('huid', 'h'),
                        name=spec.get('hname', '')),
            info=dict(version=spec.get('version', 1), serial=int(spec['serial'], 16), issued=now + spec.get('issued', -10)),
            atts=[dict(id=a['id'], value=a['value'], name=a['name'], type=a['type'], extra=bytes.fromhex(a.get('extra', '')))
                  for a in spec.get('atts', ())],
            rev=dict(url=spec.get('rurl', ''), extra=bytes.fromhex(spec.get('rextra', '')),
                     valid_after=spec.get('after_abs', now + spec.get('after', -10)),
                     valid_before=spec.get('before_abs', now + spec.get('before', 3600))),
            ext=[dict(eid=e['eid'], extra=bytes.fromhex(e.get('extra', ''))) for e in spec.get('ext', ())])
        c['del'] = bytes.fromhex(spec.get('del', ''))
        body = refcert.encode_body(c)
        raw = refcert.sign(body, boot.key(spec['sign_key']))
        if spec.get('nosig'):
            raw = body + b'\0\0\0\0'
        self.mints[name] = raw
        self.sim.clock.targets += [c['rev']['valid_after'], c['rev']['valid_before']]
        return raw

    def cert_source(self, src):
        if 'mint' in src:
            return self.mint(src['mint'])
        a = self.answers.get(src['op'])
        if a and a[0] == 'ok' and isinstance(a[1], dict) and isinstance(a[1].get('data'), bytes):
            return a[1]['data']
        return None

    def op_sess(self, op, clients):
        certs = []
        for spec in op['certs']:
            raw = self.cert_source(spec['src'])
            if raw is None:
                if op.get('need_all', True):
                    self.answers[op['id']] = ('skipped', None)
                    return
                continue
            raw, altered = self.mutate(raw, spec.get('mut') or [], 'raw')
            data = refcert.export(raw, spec['fmt'] if spec['fmt'] in (0, 3, 4) else 0)
            data, alt2 = self.mutate(data, spec.get('mut') or [], 'wire')
            certs.append(dict(data=data, version=spec.get('ver', 1), format=spec['fmt'], altered=altered or alt2))
        self.presented[op['id']] = certs
        wire = [dict(data=c['data'], version=c['version'], format=c['format']) for c in certs]
        if op.get('nullset'):
            wire = None
        args = dict(service_uid=op['uid'], att_cert_set={'attribute_certificates': wire} if not op.get('noset') else None)
        if op.get('via') == 'client':
            c = self._pa_client(clients)
            c.service_uid = op['uid']
            try:
                resp = c.start_session(wire)
                d = resp.response_dict
                self.answers[op['id']] = ('ok', d['result']) if resp.status == 200 and isinstance(d, dict) and 'result' in d \
                    else ('refused', d)
            except ConnectionError as e:
                self.answers[op['id']] = ('error', str(e))
            return
        self.answers[op['id']] = self.call(op, 'PolicyAuthority', 'start_session', args)

    def mutate(self, b, muts, level):
        out = bytes(b)
        for m in muts:
            if m.get('on', 'raw') != level:
                continue
            out = apply_mut(out, m, self)
        return out, out != bytes(b)

    # --------------------------------------------------------------- admin
    def _admin(self, path, fn):
        """An administrator's transaction: atomic, retried while the database is locked."""
        for _ in range(200):
            with nopreempt():
                c = self.open_db(path)
                try:
                    c.execute('begin immediate')
                    fn(c)
                    c.execute('commit')
                    return True
                except sqlite3.OperationalError as e:
                    if 'locked' not in str(e):
                        raise
                finally:
                    c.close()
            self.sim.hit('admin-waits')
            self.sim.sleep(0.05)
        return False

    def op_admin(self, op, clients):
        what = op['what']
        u, at, asg, rg = dict(self.users), dict(self.atts), dict(self.assign), {k: dict(v) for k, v in self.reg.items()}
        pep = self.conf['pepper']
        if what in ('reg_put', 'reg_del'):
            def fn(c):
                if what == 'reg_put':
                    r = dict(op['reg'])
                    r['pub_key'] = pub_text(r).decode()
                    c.execute('insert or replace into pauth_attribute_authorities '
                              '(uid,name,url,key_cipher,key_size,pub_key,trust_level) values (?,?,?,?,?,?,?)',
                              (r['uid'], r['name'], r['url'], r['cipher'], r['size'], r['pub_key'], r['trust']))
                    rg[r['uid']] = r
                else:
                    c.execute('delete from pauth_attribute_authorities where uid=?', (op['uid'],))
                    rg.pop(op['uid'], None)
            if self._admin(self.pa_db, lambda c: fn(c)):
                self.reg = rg
                self.pa_versions.append((self.sim.ev('admin', what), {k: dict(v) for k, v in rg.items()}))
            return

        def fn(c):
            if what == 'passwd' and op['user_id'] in u:
                c.execute('update aauth_users set password=? where id=?', (pw_hash(op['pw'], pep), op['user_id']))
                u[op['user_id']] = (u[op['user_id']][0], op['pw'])
            elif what == 'lock' and op['user_id'] in u:
                c.execute('update aauth_users set password=? where id=?', (op['stored'], op['user_id']))
                u[op['user_id']] = (u[op['user_id']][0], NEVER)
            elif what == 'user_del':
                c.execute('delete from aauth_attribute_assignments where user_id=?', (op['user_id'],))
                c.execute('delete from aauth_users where id=?', (op['user_id'],))
                u.pop(op['user_id'], None)
                for k in [k for k in asg if k[0] == op['user_id']]:
                    del asg[k]
            elif what == 'user_add' and op['user_id'] not in u:
                c.execute('insert into aauth_users (id, username, password) values (?,?,?)',
                          (op['user_id'], op['username'], pw_hash(op['pw'], pep)))
                u[op['user_id']] = (op['username'], op['pw'])
            elif what == 'assign' and op['user_id'] in u and op['att'] in at:
                c.execute('insert or replace into aauth_attribute_assignments (user_id, att_id, value) values (?,?,?)',
                          (op['user_id'], op['att'], op['value']))
                asg[(op['user_id'], op['att'])] = op['value']
            elif what == 'unassign':
                c.execute('delete from aauth_attribute_assignments where user_id=? and att_id=?', (op['user_id'], op['att']))
                asg.pop((op['user_id'], op['att']), None)
            elif what == 'retype' and op['user_id'] in u:
                for att, typ, val in op['values']:
                    if att in at:
                        c.execute('update aauth_attributes set type=? where id=?', (typ, att))
                        at[att] = (at[att][0], typ)
                        c.execute('insert or replace into aauth_attribute_assignments (user_id, att_id, value) values (?,?,?)',
                                  (op['user_id'], att, val))
                        asg[(op['user_id'], att)] = val
            elif what == 'multi' and op['user_id'] in u:
                for att, val in op['values']:
                    if att in at:
                        c.execute('insert or replace into aauth_attribute_assignments (user_id, att_id, value) values (?,?,?)',
                                  (op['user_id'], att, val))
                        asg[(op['user_id'], att)] = val
        if self._admin(self.aa_db, fn):
            self.users, self.assign, self.atts = u, asg, at
            self.aa_versions.append((self.sim.ev('admin', what), dict(u), dict(at), dict(asg)))

    # ------------------------------------------------------------- control
    def control(self):
        sim = self.sim
        actors = []
        for a in self.plan['actors']:
            t = sim.spawn(a['name'], lambda a=a: self.run_actor(a), 'client', delay=a.get('delay', 0.0))
            actors.append(t)
        for t in actors:
            sim.join(t)
        while True:
            pend = [t for t in sim.tasks if t.rec is not None and t.state != 'done']
            if not pend:
                break
            sim.join(pend[0])
        sim.faults_on = False
        if not sim.replay:
            sim.probs = {}
        while not self.up and not self.startup_error:
            sim.sleep(1.0)
        self.phase = 'live'
        self.after_crash()
        if self.plan.get('final') and self.up:
            for op in self.plan['final']:
                self.ops[op['id']] = op
                sim.cur.op = op
                if op.get('retry'):
                    for i in range(op['retry']):
                        getattr(self, 'op_' + op['op'])(op, {})
                        a = self.answers.get(op['id'])
                        if a and a[0] == 'ok':
                            break
                        sim.sleep(0.5)
                else:
                    getattr(self, 'op_' + op['op'])(op, {})
        self.check_locks()
        sim.ev('done')

    def check_locks(self):
        gc.collect()
        self.lock_problem = None
        for which, p in (('aa', self.aa_db), ('pa', self.pa_db)):
            c = self.open_db(p)
            try:
                c.execute('begin exclusive')
                c.execute('rollback')
            except sqlite3.OperationalError as e:
                self.lock_problem = '%s database: %s' % (which, e)
            c.close()
        for c in seams.DBHooks.conns:
            if not c.sim_closed and c.in_transaction:
                self.lock_problem = 'open transaction on a connection to %s' % os.path.basename(str(c.sim_path))

    # ----------------------------------------------------------- snapshots
    def snapshot_pa(self):
        try:
            c = self.open_db(self.pa_db)
            try:
                c.execute('begin')
                s = {r[0]: r[1:] for r in c.execute(
                    'select id, cert_start, cert_valid_till, session_start, initial_service_ip, name, session_valid_till '
                    'from pauth_sessions')}
                a = {r[0]: r[1:] for r in c.execute(
                    'select serial, certificate, format, version, valid_till, hash from pauth_attribute_certificates')}
                l = [tuple(r) for r in c.execute('select ac_serial, session_id from pauth_attribute_certificate_assignments')]
                c.execute('commit')
            finally:
                c.close()
        except sqlite3.OperationalError as e:
            if 'locked' in str(e):
                return None
            raise
        self.snaps += 1
        return s, a, l

    def presented_map(self, op_id):
        """serial (base64) -> (bytes, format) of what the request presented, or None where undecodable."""
        out = {}
        for c in self.presented.get(op_id, ()):
            raw = refcert.unexport(c['data'], c['format'])
            try:
                d = refcert.decode(raw)
            except (refcert.Bad, TypeError):
                return None
            out[serial_b64(d['info']['serial'])] = (c['data'], c['format'], c['version'], d)
        return out

    def on_commit(self, conn):
        if str(conn.sim_path) != self.pa_db:
            return
        if self.prop not in ('C09', 'C10', 'C11', 'C12'):
            return
        snap = self.snapshot_pa()
        if snap is not None:
            self.check_store(snap, 'after a commit')

    def after_crash(self):
        if self.prop in ('C09', 'C10', 'C11', 'C12'):
            snap = self.snapshot_pa()
            if snap is not None:
                self.check_store(snap, 'after a crash' if self.phase == 'main' else 'in the end')
                self.check_acks(snap)
        if self.prop == 'C04':
            self.check_archives()

    def check_store(self, snap, when):
        from . import oracles
        oracles.store(self, snap, when)

    def check_acks(self, snap=None):
        from . import oracles
        snap = snap or self.snapshot_pa()
        if snap is not None:
            oracles.acks(self, snap)

    def check_archive(self, rec):
        from . import oracles
        oracles.archive_one(self, rec, 'when it was answered')

    def check_archives(self):
        from . import oracles
        for r in self.recs:
            if r['method'] == 'attribute_request' and r['outcome'] and r['outcome'][0] == 'result':
                oracles.archive_one(self, r, 'later')

    # ------------------------------------------------------------ run it
    def run(self):
        self.build()
        seams.DBHooks.on_commit = self.on_commit
        seams.DBHooks.conns[:] = []
        try:
            self.load_clients()
        except Exception:
            if self.prop != 'C16':
                raise
            self.fail('client-unusable', 'the client library cannot be loaded: %s' % traceback.format_exc().strip().split('\n')[-1])
            return
        core.install_monitor(REPO + '/', self.knobs.get('instruction', False))
        self.start_server()
        self.lock_problem = None
        self.sim.spawn('ctl', self.control, 'ctl')
        self.sim.run()
        self.std = list(self.cap.text) if self.cap is not None else []
        from . import oracles
        oracles.judge(self)

    cap = None
    startup_error = None

    def n_requests(self):
        return sum(1 for r in self.recs if r['started'])


def serial_b64(n):
    return base64.b64encode(n.to_bytes(20, 'little')).decode() if n < 1 << 160 else None


def apply_mut(b, m, world):
    n = len(b)
    if not n:
        return b
    kind = m['kind']
    pos = min(n - 1, int(m.get('at', 0.0) * n))
    if kind == 'flip':
        x = bytearray(b)
        x[pos] ^= 1 << m.get('bit', 0)
        return bytes(x)
    if kind == 'set':
        x = bytearray(b)
        x[pos] = m['byte']
        return bytes(x)
    if kind == 'drop':
        return b[:pos] + b[pos + m['n']:]
    if kind == 'dup':
        return b[:pos] + b[pos:pos + m['n']] * 2 + b[pos + m['n']:]
    if kind == 'append':
        return b + bytes.fromhex(m['hex'])
    if kind == 'prepend':
        return bytes.fromhex(m['hex']) + b
    if kind == 'trunc':
        return b[:pos]
    if kind == 'swap':
        k = m['n']
        return b[:pos] + b[pos + k:pos + 2 * k] + b[pos:pos + k] + b[pos + 2 * k:]
    if kind == 'splice':
        o = world.cert_source(m['src']) or b
        p2 = int(m.get('at2', m.get('at', 0.5)) * len(o))
        return b[:pos] + o[p2:]
    try:
        c = refcert.decode(b)
    except refcert.Bad:
        return b
    sig = b[len(c['body']):]
    c['info'].pop('serial_bytes', None)
    if kind == 'field':
        edit_field(c, m, world)
        return refcert.encode_body(c) + sig
    if kind == 'sigfrom':
        o = world.cert_source(m['src'])
        if o is None:
            return b
        return c['body'] + o[len(refcert.decode(o)['body']):]
    if kind == 'sig':
        return c['body'] + bytes.fromhex(m['hex'])
    if kind == 'sigalgo':
        v = m['value']
        v = c['sig']['value'] if v == 'keep' else SHA256.new(c['body']).digest() if v == 'digest' else bytes.fromhex(v)
        a = m['algo'].encode()
        return c['body'] + struct.pack('<HH', len(a), len(v)) + a + v
    return b


def edit_field(c, m, world):
    f = m['field']
    v = m.get('v')
    if f in ('issued',):
        c['info']['issued'] += v
    elif f == 'serial':
        c['info']['serial'] = (c['info']['serial'] + v) % (1 << 160)
    elif f == 'version':
        c['info']['version'] = v
    elif f in ('valid_after', 'valid_before'):
        c['rev'][f] = min(4294967295, max(0, c['rev'][f] + v))
    elif f == 'rurl':
        c['rev']['url'] += v
    elif f == 'rextra':
        c['rev']['extra'] += v.encode()
    elif f in ('iname', 'iurl', 'iuid', 'ialgo'):
        c['issuer'][{'iname': 'name', 'iurl': 'url', 'iuid': 'uid', 'ialgo': 'key_algo'}[f]] += v
    elif f == 'ikey':
        c['issuer']['pub_key'] = boot.PUBS[v]
    elif f in ('hname', 'huid', 'halgo'):
        c['holder'][{'hname': 'name', 'huid': 'uid', 'halgo': 'key_algo'}[f]] += v
    elif f == 'hkey':
        c['holder']['pub_key'] = boot.PUBS[v]
    elif f == 'del':
        c['del'] += v.encode()
    elif f == 'att_add':
        c['atts'].append(dict(id=v, value='1', name=v, type=1))
    elif f == 'ext_add':
        c['ext'].append(dict(eid=v, extra=b'zz'))
    elif f.startswith('ext_') and c['ext']:
        e = c['ext'][m.get('i', 0) % len(c['ext'])]
        if f == 'ext_del':
            c['ext'].remove(e)
        elif f == 'ext_extra':
            e['extra'] += v.encode()
        else:
            e['eid'] += v
    elif f.startswith('att_') and c['atts']:
        a = c['atts'][m.get('i', 0) % len(c['atts'])]
        if f == 'att_del':
            c['atts'].remove(a)
        elif f == 'att_dup':
            c['atts'].append(dict(a))
        elif f == 'att_swap':
            c['atts'].reverse()
        elif f == 'att_type':
            a['type'] = (a['type'] + 1) % 6
        elif f == 'att_extra':
            a['extra'] += v.encode()
        elif f == 'att_shift':        # same characters, other field boundary
            if a['id']:
                a['value'], a['id'] = a['id'][-1] + a['value'], a['id'][:-1]
        else:
            k = f[4:]
            a[k] = a[k] + v if m.get('mode') != 'set' else v
