"""The administration world: hgaa/tools.py and hgaa/database.py run as processes that fail, crash and are repeated."""
import gc
import os
import sqlite3
import sys
import time
import traceback

from . import boot, core, seams
from .core import SimKilled, SimStop, nopreempt
from .plans import G, seed_of
from .seams import REPO
from .world import Incarnation, base_conf, prepare_files, write_file

# table -> (class, columns as (column, constructor argument))
TABLES = {
    'aauth': {
        'aauth_attributes': ('Attribute', (('id', 'id'), ('name', 'name'), ('type', 'type'))),
        'aauth_users': ('User', (('id', 'id'), ('username', 'username'), ('password', 'password'))),
        'aauth_attribute_assignments': ('AttributeAssignment', (('user_id', 'user_id'), ('att_id', 'att_id'), ('value', 'value'))),
    },
    'pauth': {
        'pauth_attribute_authorities': ('AttributeAuthority', tuple((c, c) for c in (
            'uid', 'name', 'url', 'key_cipher', 'key_size', 'pub_key', 'trust_level'))),
        'pauth_attributes': ('Attribute', tuple((c, c) for c in ('uid', 'name', 'type', 'value'))),
        'pauth_policies': ('Policy', tuple((c, c) for c in ('uid', 'name', 'policy', 'ast'))),
        'pauth_attribute_certificates': ('AttributeCertificate', tuple((c, c) for c in (
            'serial', 'certificate', 'format', 'version', 'valid_till', 'hash'))),
        'pauth_attribute_certificate_assignments': ('AttributeCertificateAssignment', (('ac_serial', 'ac_serial'),
                                                                                      ('session_id', 'session_id'))),
        'pauth_sessions': ('Session', (('id', 'id'), ('cert_start', 'cert_start'), ('cert_valid_till', 'cert_valid_till'),
                                       ('session_start', 'session_start'), ('initial_service_ip', 'initial_service_ip'),
                                       ('name', 'service_uid'), ('session_valid_till', 'session_valid_till'))),
    },
}
ENUM = ('aauth_attributes', 'pauth_attributes')
KEYCOLS = {'aauth_attribute_assignments': 2, 'pauth_attribute_certificate_assignments': 2}
OWNER = {t: s for s, ts in TABLES.items() for t in ts}


def cols(t):
    return [c for c, _ in TABLES[OWNER[t]][t][1]]


class ToolsWorld(object):
    cap = None

    def __init__(self, plan, scratch, replay=False):
        self.plan, self.prop, self.scratch = plan, plan['prop'], scratch
        self.setup, self.knobs = plan['setup'], plan['knobs']
        self.conf = self.setup['conf']
        self.sim = core.Sim(plan['seed'], self.knobs, plan.get('forced'), replay, plan.get('probs'))
        self.sim.now = self.sim.t_start = self.setup['now']
        self.sim.clock = seams.Clock(self.sim)
        self.sim.crash_hook = self.on_crash
        self.violations = []
        self.restarts = 0
        self.inc = None
        self.n_inc = 0
        self.recs = []
        self.tools = None
        self.allowed = None

    def n_requests(self):
        return len(self.recs)

    def fail(self, cls, detail):
        self.violations.append((self.prop, cls, detail))

    # ----------------------------------------------------------------- setup
    def db_path(self, svc):
        n = self.conf.get({'aauth': 'db_aa', 'pauth': 'db_pa'}[svc]) or self.conf.get('db_default', 'main')
        return '%s/%s.db' % (self.st, n)

    def open_db(self, path):
        return seams._real_connect(path, timeout=0, isolation_level=None)

    def build(self):
        self.ov, self.st = prepare_files(self.scratch, self.conf)
        os.environ['TZ'] = 'UTC'
        time.tzset()
        seams.FS.track_sync = bool(self.setup.get('power'))
        seams.FS.synced.clear()
        del seams.FS.renames[:]
        su = self.setup
        self.key_file = self.st + '/aakey.bin'
        self.key_pass = None
        if su.get('old_key') is not None:
            pem = boot.KEYS[su['old_key']].export_key(passphrase=su['old_pass'], pkcs=8,
                                                      protection='PBKDF2WithHMAC-SHA1AndAES128-CBC',
                                                      prot_params={'iteration_count': 1}, randfunc=lambda n: b'\x07' * n)
            write_file(self.key_file, pem)
            seams.FS.synced[self.key_file] = pem
            self.key_pass = su['old_pass']
        if su.get('built') or su.get('rows'):
            boot.purge_modules()
            import hgaa.schema as schema
            import sqlalchemy
            for svc in ('aauth', 'pauth'):
                md = schema.ServiceBases[svc].metadata
                ts = [md.tables[t] for t in su['built'] if OWNER[t] == svc]
                if ts:
                    e = sqlalchemy.create_engine('sqlite:///' + self.db_path(svc))
                    md.create_all(e, tables=ts)
                    e.dispose()
                c = self.open_db(self.db_path(svc))
                for t, rows in su['rows'].items():
                    if OWNER[t] == svc and t in su['built']:
                        for r in rows:
                            c.execute('insert into %s (%s) values (%s)' % (t, ','.join(cols(t)), ','.join('?' * len(r))),
                                      [unhex(t, k, v) for k, v in zip(cols(t), r)])
                c.close()
            boot.purge_modules()

    # ----------------------------------------------------------------- state
    def state(self):
        """table -> set of rows (missing tables absent), or None while a writer holds the database."""
        out = {}
        for svc in ('aauth', 'pauth'):
            p = self.db_path(svc)
            if not os.path.exists(p):
                continue
            try:
                c = self.open_db(p)
                try:
                    c.execute('begin')
                    have = {r[0] for r in c.execute("select name from sqlite_master where type='table'")}
                    for t in TABLES[svc]:
                        if t in have:
                            out[t] = frozenset(norm(r) for r in c.execute('select %s from %s' % (','.join(cols(t)), t)))
                    c.execute('commit')
                finally:
                    c.close()
            except sqlite3.OperationalError as e:
                if 'locked' in str(e):
                    return None
                raise
        return out

    # ------------------------------------------------------------- processes
    def fresh(self):
        if self.inc is not None:
            self.end_process(self.inc)
        self.n_inc += 1
        self.inc = Incarnation(self.n_inc)
        boot.purge_modules()
        self.tools = None

    def end_process(self, inc):
        inc.dead = True
        for c in list(seams.DBHooks.conns):
            if c.sim_inc is inc:
                try:
                    sqlite3.Connection.rollback(c)
                    sqlite3.Connection.close(c)
                except sqlite3.Error:
                    pass
                c.sim_closed = True
                seams.DBHooks.conns.remove(c)

    def on_crash(self, how):
        inc = self.inc
        if inc is None or inc.dead:
            return
        self.sim.ev('CRASH', inc.n)
        self.restarts += 1
        for t in self.sim.tasks:
            if t.inc is inc:
                if t.rec is not None:
                    t.rec['crashed'] = True
                self.sim.kill(t)
        inc.dead = True
        seams.crash_connections(inc)
        if self.setup.get('power'):
            self.power_loss()

    def power_loss(self):
        """Only what was forced to disk is certain; a rename may or may not have reached it."""
        r = self.sim.rng('power', self.n_inc)
        self.sim.fault('power-loss')
        if seams.FS.renames and r.random() < 0.3:
            src, dst, old = seams.FS.renames[-1]
            now = _slurp(dst)
            if old is None:
                if os.path.exists(dst):
                    seams._os['unlink'](dst)
            else:
                write_file(dst, old)
            if now is not None:
                write_file(src, now)
            seams.FS.synced[src] = seams.FS.synced.pop(dst, b'')
            if old is not None:
                seams.FS.synced[dst] = old
            self.sim.ev('rename lost')
        del seams.FS.renames[:]
        for n in sorted(os.listdir(self.st)):
            p = self.st + '/' + n
            if n.endswith('.db') or n.endswith('-journal') or not os.path.isfile(p):
                continue
            cur, dur = _slurp(p), seams.FS.synced.get(p)
            if cur != dur:
                k = r.choice((0, 0, r.randrange(len(cur) + 1), len(cur)))
                write_file(p, cur[:k])
                self.sim.ev('unsynced', n, k)
            seams.FS.synced[p] = _slurp(p)

    def load(self):
        if self.tools is None:
            import hgaa.tools as tools
            self.tools = tools
        return self.tools

    def instance(self, t, row):
        import hgaa.schema.aauth as a
        import hgaa.schema.pauth as p
        from hgaa.attcert import AttributeType
        cls, cs = TABLES[OWNER[t]][t]
        kw = {}
        for (c, arg), v in zip(cs, row):
            v = unhex(t, c, v)
            if c == 'type' and v is not None:
                v = AttributeType[v]
            kw[arg] = v
        return getattr({'aauth': a, 'pauth': p}[OWNER[t]], cls)(**kw)

    def describe(self, inst):
        """(table, row) as it will be stored."""
        t = inst.__tablename__
        row = []
        for c, arg in TABLES[OWNER[t]][t][1]:
            v = getattr(inst, arg)
            if c == 'type' and v is not None:
                v = v.name
            row.append(v)
        return t, norm(row)

    # ------------------------------------------------------------- operations
    def command(self, op):
        """(callable, list of effects) for an operation; effects are (service, wipe, {table: rows}) in order."""
        what = op['op']
        tools = self.load()
        if what == 'build':
            names = op['services']
            return (lambda: tools.build_database(list(names))), []
        if what == 'populate':
            rows = {}
            for t, r in op['rows']:
                rows.setdefault(t, set()).add(norm(unhex(t, c, v) for c, v in zip(cols(t), r)))
            inst = [self.instance(t, r) for t, r in op['rows']]
            from hgaa.database import populate_db
            return (lambda: populate_db(op['service'].upper(), inst, wipe_first=op['wipe'])), [(op['service'], op['wipe'], rows)]
        if what == 'genatts':
            return (lambda: tools.gen_atts(op['n'])), [('aauth', False, gen_rows(op['n']))]
        if what == 'popgen':
            u = {'aauth_users': {('1', 'dan', '$2b$12$QN689kLXzZ.wCmCr8ykOr.lPSoepRtvBZdPHioZYtPTQ9K6ZkWvWq')}}
            return (lambda: tools.pop_and_gen(op['n'])), [('aauth', True, u), ('aauth', False, gen_rows(op['n']))]
        if what == 'genkey':
            return (lambda: tools.gen_aauth_key(self.key_file, op['pass'], **({'key_size': op['size']} if op.get('size') else {}))), []
        if what == 'cli':
            argv = op['argv']
            eff = []
            if argv[0].startswith('pop'):
                from hgaa.schema.test import test_aauth, test_pauth
                for s, m in (('aauth', test_aauth), ('pauth', test_pauth)):
                    if argv[1] in (s, 'all'):
                        rows = {}
                        for x in m.DB_TEST_SET:
                            t, r = self.describe(x)
                            rows.setdefault(t, set()).add(r)
                        eff.append((s, True, rows))
            elif argv[0] == 'genatts':
                eff.append(('aauth', False, gen_rows(int(argv[1]))))
            code = boot.repo_code(REPO + '/hgaa/tools.py')

            def run():
                old = sys.argv
                sys.argv = [REPO + '/hgaa/tools.py'] + list(argv)
                try:
                    exec(code, {'__name__': '__main__', '__file__': REPO + '/hgaa/tools.py', '__builtins__': __builtins__})
                finally:
                    sys.argv = old
            return run, eff
        raise core.HarnessError('operation ' + what)

    def execute(self, op, attempt):
        """One run of a command; returns its record."""
        rec = dict(op=op, k=attempt, faults=[], natural=[], entropy=[], db=0, dbs=set(), written=[], crashed=False, ok=False, exc=None)
        self.recs.append(rec)
        with nopreempt():
            if op.get('fresh', True) or self.inc is None or self.inc.dead or op['op'] == 'cli':
                self.fresh()
            try:
                fn, eff = self.command(op)
            except Exception:
                rec['exc'] = traceback.format_exc().strip().split('\n')[-1]
                rec['nostart'] = True
                return rec
            del seams.FS.renames[:]            # what earlier commands renamed has reached the disk by now
            rec['before'] = self.state()
            rec['key0'] = _slurp(self.key_file)
            rec['states'] = allowed_states(rec['before'], eff)
            rec['eff'] = eff
        self.allowed = rec['states'] if op['op'] != 'genkey' else None
        inc = self.inc
        t = self.sim.spawn('%s.x%d' % (op['id'], attempt), None, 'adm', inc)
        t.rec = rec

        def body():
            self.sim.ev('begin', op['op'], op.get('argv', ''))
            try:
                fn()
                rec['ok'] = not inc.dead
            except SimKilled:
                raise
            except SimStop:
                raise
            except BaseException as e:
                if not inc.dead:
                    rec['exc'] = '%s: %s' % (type(e).__name__, str(e).split('\n')[0][:200])
                e.__traceback__ = None
            finally:
                t.nopre += 1
                self.sim.ev('end', rec['ok'], rec['exc'])
                gc.collect()
                t.nopre -= 1
        t.fn = body
        self.sim.join(t)
        del body, fn
        t.fn = None
        with nopreempt():
            gc.collect()
            self.allowed = None
            if op['op'] == 'cli' or inc.dead or op.get('fresh', True) and op.get('end', True):
                self.end_process(inc)
            rec['after'] = self.state()
            rec['key1'] = _slurp(self.key_file)
            (self.judge_key if self.is_key(op) else self.judge_db)(rec)
        return rec

    @staticmethod
    def is_key(op):
        return op['op'] == 'genkey' or op['op'] == 'cli' and op['argv'][0] == 'genkey'

    def on_commit(self, conn):
        if self.allowed is None:
            return
        s = self.state()
        if s is None:
            return
        self.sim.hit('committed-states-checked')
        if s not in self.allowed:
            self.fail('partial', 'after a commit the database holds %s' % self.diff(self.allowed[0], s))

    @staticmethod
    def diff(a, b):
        out = []
        for t in sorted(set(a) | set(b)):
            if a.get(t) != b.get(t):
                if t not in b:
                    out.append('%s: table gone' % t)
                elif t not in a:
                    out.append('%s: new table with %d rows' % (t, len(b[t])))
                else:
                    out.append('%s: %d of %d old rows, %d other rows' % (t, len(a[t] & b[t]), len(a[t]), len(b[t] - a[t])))
        return '; '.join(out) or 'the old rows'

    def run_actor(self, actor):
        for op in actor['ops']:
            rec = self.execute(op, 0)
            if not rec['ok'] and op.get('repeat'):
                on, self.sim.faults_on = self.sim.faults_on, False
                probs, self.sim.probs = self.sim.probs, {}
                self.execute(op, 1)
                self.sim.faults_on, self.sim.probs = on, probs

    # ---------------------------------------------------------------- oracles
    def judge_db(self, rec):
        op = rec['op']
        what = op.get('argv') or op['op']
        if rec.get('nostart'):
            return
        b, a = rec['before'], rec['after']
        if a is None or b is None:
            self.fail('locked', 'the database is still locked after %s ended (%s)' % (what, rec['exc']))
            return
        is_build = op['op'] == 'build' or op['op'] == 'cli' and op['argv'][0] == 'build'
        tag = '%s %s' % (what, 'succeeded' if rec['ok'] else 'crashed' if rec['crashed'] else 'failed with ' + str(rec['exc']))
        self.sim.hit(('ok-' if rec['ok'] else 'crashed-' if rec['crashed'] else 'failed-') + (op['op'] if not is_build else 'build'))
        clean = not rec['faults'] and not rec['natural'] and not rec['crashed']
        if is_build:
            lost = [t for t in b if t not in a or b[t] - a[t]]
            if lost:
                self.fail('rows-lost', '%s and existing rows are gone: %s' % (tag, self.diff(b, a)))
            extra = [t for t in a if a[t] - b.get(t, frozenset())]
            if extra:
                self.fail('rows-added', '%s and there are new rows: %s' % (tag, self.diff(b, a)))
            names = op.get('services') or (op['argv'][1:] if op['argv'][1] != 'all' else ['aauth', 'pauth'])
            names = [n.lower() for n in names]
            valid = all(n in TABLES for n in names)
            if rec['ok']:
                miss = [t for n in names if n in TABLES for t in TABLES[n] if t not in a]
                if miss:
                    self.fail('incomplete', '%s but tables are missing: %s' % (tag, ', '.join(miss)))
            elif clean and valid:
                self.fail('repeat-fails', '%s although nothing failed this time%s' % (tag, ' (repeated after a failure)' if rec['k'] else ''))
            return
        if rec['ok']:
            if a != rec['states'][-1]:
                self.fail('wrong-rows', '%s but the rows are not those given: %s' % (tag, self.diff(rec['states'][-1], a)))
            return
        if a not in rec['states']:
            self.fail('partial', '%s and left %s' % (tag, self.diff(b, a)))
        elif clean and not op.get('poison') and rec['states'][-1] is not None and self.doable(rec):
            self.fail('repeat-fails', '%s although nothing failed this time%s' % (tag, ' (repeated after a failure)' if rec['k'] else ''))

    @staticmethod
    def doable(rec):
        """The tables exist and no given row is already there."""
        cur = rec['before']
        for svc, wipe, rows in rec['eff']:
            if any(t not in cur for t in TABLES[svc]):
                return False
            if not wipe:
                for t, rs in rows.items():
                    k = KEYCOLS.get(t, 1)
                    if {r[:k] for r in rs} & {r[:k] for r in cur[t]}:
                        return False
            else:
                cur = dict(cur, **{t: frozenset() for t in TABLES[svc]})
        return True

    def load_key(self, data, pw):
        from Crypto.PublicKey import RSA
        if data is None:
            return None
        try:
            k = RSA.import_key(data, passphrase=pw)
        except (ValueError, IndexError, TypeError):
            return None
        return k if k.has_private() else None

    def judge_key(self, rec):
        op = rec['op']
        if rec.get('nostart'):
            return
        pw = op.get('pass') or self.conf['key_pass']
        old, new = rec['key0'], rec['key1']
        oldk = self.load_key(old, self.key_pass) if old is not None else None
        newk = self.load_key(new, pw)
        tag = 'key generation %s' % ('succeeded' if rec['ok'] else 'crashed' if rec['crashed'] else 'failed with ' + str(rec['exc']))
        self.sim.hit('keygen-' + ('ok' if rec['ok'] else 'crashed' if rec['crashed'] else 'failed'))
        is_new = newk is not None and (oldk is None or newk.n != oldk.n)
        if is_new:
            for bad in (None, '', pw + 'x', pw[:-1], self.key_pass if self.key_pass != pw else pw.swapcase() + '!'):
                if bad != pw and self.load_key(new, bad) is not None:
                    self.fail('unprotected', '%s and the key can be loaded with %s' % (
                        tag, 'no passphrase' if not bad else 'another passphrase'))
                    break
            self.key_pass = pw
        if rec['ok']:
            if not is_new:
                self.fail('no-new-key', '%s but the key file holds %s' % (tag, 'the old key' if newk is not None or new == old else
                                                                          'no complete key' if new is not None else 'nothing'))
            return
        if is_new or new == old:
            if not rec['faults'] and not rec['natural'] and not rec['crashed']:
                self.fail('repeat-fails', '%s although nothing failed this time' % tag)
            return
        k = self.load_key(new, self.key_pass)
        if k is not None and oldk is not None and k.n == oldk.n:
            return
        self.fail('key-lost', '%s and the key file %s; before it %s' % (
            tag, 'is missing' if new is None else 'is empty' if not new else 'holds no complete key (%d bytes)' % len(new),
            'held a key' if oldk is not None else 'did not exist'))

    # ------------------------------------------------------------------ run
    def control(self):
        for a in self.plan['actors']:
            t = self.sim.spawn(a['name'], lambda a=a: self.run_actor(a), 'adm')
            self.sim.join(t)
        self.sim.ev('done')

    def run(self):
        self.build()
        seams.DBHooks.on_commit = self.on_commit
        seams.DBHooks.conns[:] = []
        core.install_monitor(REPO + '/', False)
        self.sim.spawn('ctl', self.control, 'ctl')
        self.sim.run()


def _slurp(p):
    try:
        with seams._io_open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None


def norm(row):
    """Column values as text: the column's affinity decides how a number is stored."""
    return tuple(v if v is None or isinstance(v, bytes) else str(v) for v in row)


def unhex(t, c, v):
    return bytes.fromhex(v[4:]) if isinstance(v, str) and v.startswith('hex:') else v


def gen_rows(n):
    out = {'aauth_attributes': set(), 'aauth_attribute_assignments': set()}
    for i in range(n):
        out['aauth_attributes'].add(('/attribute/user/a%d' % i, 'a%d' % i, 'INT'))
        out['aauth_attribute_assignments'].add(('1', '/attribute/user/a%d' % i, '%d' % i))
    return out


def allowed_states(before, effects):
    """Every state a command may leave, the last one being its complete effect."""
    if before is None:
        return [None]
    states = [dict(before)]
    cur = dict(before)
    for svc, wipe, rows in effects:
        if wipe:
            cur = dict(cur, **{t: frozenset() for t in TABLES[svc] if t in cur})
            states.append(dict(cur))
        cur = dict(cur)
        for t, rs in rows.items():
            if not rs:
                continue
            cur[t] = cur.get(t, frozenset()) | frozenset(rs)
        states.append(dict(cur))
    return states


# --------------------------------------------------------------- generators
def mk(prop, base, i):
    seed = seed_of(prop, base, i)
    g = G(seed)
    p = dict(prop=prop, seed=seed, knobs={}, probs={}, forced={}, setup={}, actors=[dict(name='adm', ops=[])], final=[])
    c = base_conf()
    c['pepper'] = g.token(8)
    c['key_pass'] = passphrase(g)
    if g.maybe(0.5):
        c['db_aa'], c['db_pa'] = g.choice((('aa', 'pa'), ('aa', None), (None, 'pa'), ('pa', 'aa')))
    p['setup'].update(now=g.now(), conf=c, built=[], rows={})
    (mk_key if prop == 'C19' else mk_db)(g, p, i)
    return p


def passphrase(g):
    k = g.random()
    if k < 0.2:
        return g.choice(('a b c', 'x', "p'w\"%s", '0', 'None', 'pass%word', '#!;=[]', 'é' * 4 + g.token(3)))
    return g.token(g.randrange(4, 40))


def mk_key(g, p, i):
    su = p['setup']
    if g.maybe(0.7):
        su['old_key'] = g.randrange(0, 8)
        su['old_pass'] = g.token(9)
    su['power'] = g.maybe(0.35)
    ops = p['actors'][0]['ops']
    for k in range(g.randrange(1, 4)):
        oid = 'k%d' % k
        if g.maybe(0.4):
            ops.append(dict(id=oid, op='cli', argv=['genkey', 'aauth'], repeat=g.maybe(0.5)))
        else:
            ops.append(dict(id=oid, op='genkey', repeat=g.maybe(0.5), fresh=g.maybe(0.6),
                            size=g.choice((None, 1024, 2048)), **{'pass': passphrase(g) if g.maybe(0.8) else g.choice(
                                ('%s ', ' %s', '%s\n', '\t%s\t', '%s' + 'x' * 100, 'ü%sß')) % passphrase(g)}))
    if g.maybe(0.1):
        return
    for _ in range(1 if g.maybe(0.75) else 2):
        x = '%s.x0' % g.choice(ops)['id']
        c = g.choice(('crash', 'crash', 'crashp', 'crashp', 'crashp', 'fswrite', 'fswrite', 'fsopen', 'fsclose', 'fssync', 'fsmeta', 'exc'))
        f = p['forced']
        if c == 'crash':
            f['%s|crash|%d' % (x, g.randrange(1, 60))] = 'process'
        elif c == 'exc':
            f['%s|exc|%d' % (x, g.randrange(1, 60))] = 1
        elif c == 'crashp':
            f['%s|crashp|%d' % (x, g.randrange(0, 6))] = 1
        elif c == 'fswrite':
            f['%s|fswrite|%d' % (x, g.choice((0, 0, 0, 1, 2)))] = g.randrange(1, 7)
        else:
            f['%s|%s|%d' % (x, c, g.choice((0, 0, 1)))] = 1
    if g.maybe(0.2):
        for c in ('fsopen', 'fswrite', 'fsclose', 'fssync', 'fsmeta', 'crashp'):
            p['probs'][c] = 0.15


def uniq_rows(g, svc, tag, n, hi=6):
    """n fresh rows over the service's tables, parents before or after children in any order."""
    out = []
    T = ('NULL', 'INT', 'FLOAT', 'STRING', 'BOOL', 'SET')
    users, atts, sess, certs = [], [], [], []
    for k in range(n):
        if svc == 'aauth':
            w = g.choice(('u', 'u', 'a', 'a', 'x', 'x'))
            if w == 'u' or not users:
                uid = g.randrange(1, 10 ** 6)
                users.append(uid)
                out.append(['aauth_users', [uid, 'u%s%d' % (tag, k), g.token(20)]])
            elif w == 'a' or not atts:
                aid = '/attribute/user/%s%d' % (tag, k)
                atts.append(aid)
                out.append(['aauth_attributes', [aid, g.text(), g.choice(T)]])
            else:
                out.append(['aauth_attribute_assignments', [g.choice(users), g.choice(atts), g.choice((None, g.text()))]])
        else:
            w = g.choice('rrtpcsl')
            if w == 'r':
                out.append(['pauth_attribute_authorities', ['%s%d' % (tag, k), g.text(), g.text(), 'RSA', 1024, g.token(40), g.randrange(9)]])
            elif w == 't':
                out.append(['pauth_attributes', ['%s%d' % (tag, k), g.choice((None, g.text())), g.choice(T), g.choice((None, g.text()))]])
            elif w == 'p':
                out.append(['pauth_policies', ['%s%d' % (tag, k), None, g.text(), g.choice((None, 'hex:00ff41'))]])
            elif w == 'c' or not certs:
                certs.append('%s%d' % (tag, k))
                out.append(['pauth_attribute_certificates', [certs[-1], 'hex:' + g.token(3).encode().hex(), 0, 1, 5, g.token(6)]])
            elif w == 's' or not sess:
                sess.append('%s%d' % (tag, k))
                out.append(['pauth_sessions', [sess[-1], 1, 2, 3, '10.0.0.1', g.text(), 4]])
            else:
                out.append(['pauth_attribute_certificate_assignments', [g.choice(certs), g.choice(sess)]])
    seen, res = set(), []
    for t, r in out:
        key = (t, tuple(r[:KEYCOLS.get(t, 1)]))
        if key not in seen:
            seen.add(key)
            res.append([t, r])
    return res


def mk_db(g, p, i):
    su = p['setup']
    k = g.random()
    every = [t for s in TABLES for t in sorted(TABLES[s])]
    if k < 0.65:
        su['built'] = list(every)
    elif k < 0.85:
        su['built'] = [t for t in every if g.maybe(0.5)]
    for s in TABLES:
        if g.maybe(0.7):
            for t, r in uniq_rows(g, s, 'old', g.randrange(1, 8)):
                if t in su['built']:
                    su['rows'].setdefault(t, []).append(r)
    ops = p['actors'][0]['ops']
    full = len(su['built']) == len(every)
    if not full and g.maybe(0.8):
        ops.append(build_op(g, 'b0'))
    for n in range(g.randrange(1, 5)):
        oid = 'o%d' % n
        w = g.choice(('build', 'populate', 'populate', 'populate', 'genatts', 'popgen', 'cli'))
        op = dict(id=oid, op=w, fresh=g.maybe(0.6), repeat=g.maybe(0.7))
        if w == 'build':
            op = build_op(g, oid)
        elif w == 'populate':
            svc = g.choice(('aauth', 'pauth'))
            rows = uniq_rows(g, svc, oid, g.choice((1, 2, 5, 12, 40, 120)) if not g.maybe(0.02) else 1300)
            op.update(service=svc, wipe=g.maybe(0.5), rows=rows)
            if g.maybe(0.25):
                op['poison'] = True
                bad = g.choice(('null', 'dup', 'old'))
                at = g.randrange(len(rows) + 1)
                if bad == 'old' and any(su['rows'].get(t) for t in TABLES[svc]) and not op['wipe']:
                    t = g.choice([t for t in sorted(TABLES[svc]) if su['rows'].get(t)])
                    r = list(g.choice(su['rows'][t]))
                    if len(r) > KEYCOLS.get(t, 1) and g.maybe(0.7):
                        j = g.choice([j for j, c in enumerate(cols(t)) if j >= KEYCOLS.get(t, 1) and isinstance(r[j], (str, type(None)))
                                      and c not in ('type', 'certificate', 'ast')] or [len(r) - 1])
                        r[j] = r[j] if isinstance(r[j], int) else g.token(5)
                    rows.insert(at, [t, r])
                elif bad == 'dup' and rows:
                    rows.insert(at, [list(x) for x in [g.choice(rows)]][0])
                elif svc == 'aauth':
                    rows.insert(at, ['aauth_users', [g.randrange(10 ** 6, 10 ** 7), None, 'x']])
                else:
                    rows.insert(at, ['pauth_policies', [oid + 'bad', 'n', None, None]])
        elif w in ('genatts', 'popgen'):
            op['n'] = g.choice((0, 1, 2, 7, 30, 120)) if not g.maybe(0.03) else 620
        else:
            op = dict(id=oid, op='cli', repeat=g.maybe(0.7),
                      argv=g.choice((['populate', 'all'], ['pop', 'aauth'], ['populate', 'pauth'], ['genatts', str(g.choice((1, 5, 20, 60)))])))
        ops.append(op)
    if g.maybe(0.12):
        return
    f = p['forced']
    for _ in range(g.choice((1, 1, 1, 2, 3))):
        x = '%s.x0' % g.choice(ops)['id']
        c = g.choice(('crash', 'crash', 'db', 'db', 'db', 'db', 'dbconnect', 'commit', 'commit', 'commit', 'exc'))
        if c == 'crash':
            f['%s|crash|%d' % (x, g.randrange(1, 150))] = 'process'
        elif c == 'exc':
            f['%s|exc|%d' % (x, g.randrange(1, 150))] = 1
        elif c == 'db':
            f['%s|db|%d' % (x, g.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 20)))] = g.randrange(1, 6)
        elif c == 'dbconnect':
            f['%s|dbconnect|0' % x] = 1
        else:
            f['%s|commit|%d' % (x, g.choice((0, 0, 1, 1, 2, 3)))] = g.randrange(1, 6)
    if g.maybe(0.15):
        p['probs'].update(db=0.02, commit=0.1, dbconnect=0.03)


def build_op(g, oid):
    if g.maybe(0.4):
        return dict(id=oid, op='cli', argv=['build'] + g.choice((['all'], ['aauth'], ['PAUTH'], ['pauth', 'aauth'])), repeat=True)
    return dict(id=oid, op='build', fresh=g.maybe(0.7), repeat=True,
                services=g.choice((['aauth', 'pauth'], ['pauth', 'aauth'], ['aauth'], ['pauth'], ['aauth', 'nosuch'])))
