"""Seeded generators: one integer -> one plan (configuration, clients, operations, schedule and fault regime)."""
import hashlib
import random
import unicodedata

from .world import base_conf

TYPE_NAMES = ('NULL', 'INT', 'FLOAT', 'STRING', 'BOOL', 'SET')
DBFAULTS = ('db', 'commit', 'dbconnect')
FSFAULTS = ('fsopen', 'fswrite', 'fsclose', 'fsread', 'fsmeta', 'fssync')
ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


ZONES = ('UTC', 'EST5EDT', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'IST-5:30', 'XXX11', 'CET-1CEST', 'YYY-14')


def seed_of(prop, base, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%d' % (prop, base, i)).encode()).digest()[:6], 'big')


SAME_MODULUS = 1000      # key number k + SAME_MODULUS: the modulus of key k with another exponent


class G(random.Random):
    """Random source with the vocabulary of the generators."""

    def maybe(self, p):
        return self.random() < p

    def token(self, n=12):
        return ''.join(self.choice(ALPHA) for _ in range(n))

    def text(self, rich=True):
        k = self.random()
        if k < 0.35 or not rich:
            if self.maybe(0.5):       # looks like something that could be rewritten
                return self.choice(('007', '+1', '1_0', '1.50', ' 5', '5 ', 'true', 'TRUE', '1e3', '-0', '00', '1.0', '.5', 'nan', '0x1F',
                                    'None', 'null', '[]', '{b,a}', "['b', 'a', 'b']", '12345678901234567890123', '1e400', '٣'))
            return self.choice(('admin', 'doctor', '42', '0', '3.5', '-7', 'true', 'False', "['a', 'b']", 'ward 7', 'x'))
        if k < 0.55:
            return ''.join(self.choice('äöüßéèñ漢字かな😀Ω≠ \u0301a1') for _ in range(self.randrange(1, 12)))
        if k < 0.65:
            return self.token(self.choice((1, 200, 255, 256, 257, 3000)))
        if k < 0.75:
            return self.choice(('%s%d%n', "'; drop table x; --", '{0}', '"quoted"', 'a\nb', 'a\tb', '\\', ' lead', 'trail '))
        return self.token(self.randrange(1, 30))

    def name_case(self, s):
        out = []
        for c in s:
            u = c.upper()
            out.append(u if len(u) == 1 and u.lower() == c and self.maybe(0.5) else c)
        return ''.join(out)

    def pw(self):
        k = self.random()
        if k < 0.15:
            return ''.join(self.choice('äöé漢a1 ') for _ in range(10)) + self.token(4)
        return self.token(self.randrange(8, 20))

    def addr(self):
        return self.choice((
            '10.0.0.%d' % self.randrange(256), '%d.%d.%d.%d' % tuple(self.randrange(256) for _ in range(4)), '127.0.0.1',
            '::1', '::', 'fe80::%x%%eth0' % self.randrange(65536), '::ffff:192.168.1.%d' % self.randrange(256),
            ':'.join('%x' % self.randrange(65536) for _ in range(8)),
            '2001:db8::%x:%x' % (self.randrange(65536), self.randrange(65536)),
            '2001:0DB8:0000:0000:0000:FF00:0042:%04X' % self.randrange(65536), '64:ff9b::192.0.2.33', '255.255.255.255'))

    def now(self):
        k = self.random()
        if k < 0.5:
            return self.randrange(1500000000, 1900000000) + self.random()
        base = self.choice((1709164800, 1735689600, 1740700800, 2147483648, 1700006400, 1078012800, 1767225600))
        return base - self.choice((0.01, 0.5, 1.0, 3.0, 60.0, 3600.0)) + self.choice((0, 0, 1))

    def serial(self):
        k = self.random()
        if k < 0.85:
            return '%040x' % self.getrandbits(160)
        return '%x' % self.choice((0, 1, 255, 256, (1 << 160) - 1, 1 << 159, 1 << 152, 15, self.getrandbits(64)))


def mk(prop, base, i):
    """The plan number i of a property."""
    seed = seed_of(prop, base, i)
    g = G(seed)
    p = dict(prop=prop, seed=seed, knobs={}, probs={}, forced={}, setup={}, actors=[], final=[])
    GEN[prop](g, p, i)
    return p


# ------------------------------------------------------------------- pieces
def conf(g, p, **kw):
    c = base_conf()
    c['pepper'] = g.token(12)
    c['key_pass'] = g.token(14)
    c['port'] = str(g.choice((8888, 80, 9, 65535)))
    c['host'] = g.choice(('', '  ', 'aa.example.org', '10.1.2.3'))
    c['aauth_id'] = g.choice(('localhost', 'General Hospital', 'Universität', 'aa-%s' % g.token(3)))
    c['a_uri'] = 'hgabac://%s:8888' % g.choice(('localhost', 'aa.example.org', 'höspital', g.token(5)))
    c['pauth_name'] = g.choice(('localhost', 'PA %s' % g.token(3)))
    c['pauth_uid'] = 'hgabac://pa.%s' % g.token(4)
    c['expire'] = g.choice((3600, 60, 86400, 86401, 200000, 5, 1209600))
    if g.maybe(0.3):
        c['rev'] = g.choice(('', ' ', 'http://rev.example.org/list'))
    c.update(kw)
    if g.maybe(0.35):
        p['setup']['tz'] = g.choice(ZONES)
    p['setup'].update(now=g.now(), conf=c, aa_key=0, users=[], attdefs=[], assigns=[], registry=[], mints={})
    return c


def people(g, p, n=None, nat=None, rich=True):
    su = p['setup']
    names = ['alice', 'bob', 'zoë', "o'neil", 'ali', 'alice2', 'émile', 'user_%s' % g.token(3).lower(), 'a', 'strauß', 'ann.lee',
             'ann-lee', 'ann@x.org', 'z' * g.choice((40, 100, 255))]
    g.shuffle(names)
    n = n or g.randrange(2, 5)
    pws = []
    for i in range(n):
        pw = g.pw()
        if pws and g.maybe(0.15):
            pw = g.choice(pws)[:-1] + 'x' if g.maybe(0.7) else g.choice(pws)
        pws.append(pw)
        su['users'].append(dict(id=i + 1, username=names[i], password=pw))
    nat = nat or g.randrange(2, 7)
    an = ['age', 'role', 'ward', 'groups', 'näme', 'level', 'dept', 'clearance']
    g.shuffle(an)
    for i in range(nat):
        su['attdefs'].append(dict(id=g.choice(('/attribute/user/%s', 'att/%s', '%s')) % an[i], name=an[i],
                                  type=g.choice(TYPE_NAMES)))
    if nat >= 2 and g.maybe(0.2):
        # one attribute's id is another one's name
        su['attdefs'][0]['id'] = su['attdefs'][1]['name']
        if su['attdefs'][1]['id'] == su['attdefs'][0]['id']:
            su['attdefs'][1]['id'] = 'other/' + su['attdefs'][1]['name']
    for u in su['users']:
        for a in su['attdefs']:
            if g.maybe(0.7):
                v = None if g.maybe(0.05) else g.text(rich) if not g.maybe(0.3) else '%s-%s' % (u['username'], a['name'])
                su['assigns'].append(dict(user=u['id'], att=a['id'], value=v))


def reg_entry(uid, key, trust=1, name='n', url='u'):
    return dict(uid=uid, name=name, url=url, cipher='RSA', size=1024, key=key, trust=trust)


def registry(g, p, n=2, self_trust=1):
    su = p['setup']
    c = su['conf']
    su['registry'].append(reg_entry(c['a_uri'], su['aa_key'], self_trust, c['aauth_id'], 'http://x/'))
    for i in range(n):
        su['registry'].append(reg_entry('hgabac://aa%d.%s' % (i, g.choice(('org', 'örg'))), 1 + i, g.choice((1, 1, 5, 10)),
                                        'AA %d' % i, 'http://aa%d/' % i))


def mint(g, p, name, issuer=None, sign=None, embed=None, **kw):
    su = p['setup']
    r = issuer or g.choice(su['registry'][1:] or su['registry'])
    m = dict(issuer=dict(uid=r['uid'], name=r['name'], url=r['url']), embed_key=r['key'] if embed is None else embed,
             sign_key=r['key'] if sign is None else sign, serial=g.serial(), issued=-g.randrange(2, 200),
             after=-g.randrange(2, 200), before=g.choice((60, 600, 3600, 86399, 86400, 86401, 500000)),
             holder_key=g.randrange(12, 20), huid='hgabac://h/%s' % g.token(4), hname=g.text(),
             atts=[dict(id='a%d' % k, value=g.text(), name=g.text(), type=g.randrange(6), extra=g.token(g.choice((0, 0, 3)))
                        .encode().hex()) for k in range(g.choice((0, 1, 2, 3)))],
             ext=[dict(eid='e%d' % k, extra=g.token(3).encode().hex()) for k in range(g.choice((0, 0, 1, 2)))],
             rurl=g.choice(('', 'http://rev/')), rextra=g.choice(('', 'ab', '00ff')))
    m['del'] = g.choice(('', '', '616263'))
    m.update(kw)
    if 'before' not in kw and 'after' not in kw and g.maybe(0.08):      # as far as the format reaches
        m['before_abs'] = g.choice((4294967295, 4294967294, 4200000000, 4000000001))
        if g.maybe(0.5):
            m['after_abs'] = g.choice((0, 1))
    if 'atts' not in kw and g.maybe(0.02):
        m['atts'] = [dict(id='big%d' % k, value=g.token(g.choice((3500, 4000, 9000))), name='big', type=3, extra='')
                     for k in range(g.choice((8, 20)))]
    # serials of one run are distinct unless a collision is asked for
    if 'serial' not in kw:
        used = set(int(x['serial'], 16) for x in su['mints'].values())
        while int(m['serial'], 16) in used:
            m['serial'] = '%040x' % g.getrandbits(160)
    su['mints'][name] = m
    return name


class Ops(object):
    """Builds actors with unique operation ids."""

    def __init__(self, g, p):
        self.g, self.p, self.n = g, p, 0
        self.reqs = []            # (actor name, op id, kind)

    def actor(self, name, delay=None):
        a = dict(name=name, delay=self.g.choice((0.0, 0.0, 0.001, 0.01)) if delay is None else delay, ops=[])
        self.p['actors'].append(a)
        return a

    def add(self, a, op, **kw):
        self.n += 1
        d = dict(id='o%d' % self.n, op=op)
        d.update(kw)
        if op == 'sess':
            d.setdefault('uid', 'svc-%d-%s' % (self.n, self.g.token(3)))
            if self.g.maybe(0.25):
                d['uid'] = self.g.choice(('%s ', ' %s', '%s\n', 'Sérvice %s 漢', '%s/' + 'x' * 80, "%s'--", '%s' + 'y' * 246, 'HTTP://%s/A'))[:] % d['uid']
            d.setdefault('addr', self.g.addr())
        (a['ops'] if a is not None else self.p['final']).append(d)
        if a is not None and op in ('attr', 'sess', 'list', 'info_aa', 'info_pa', 'call'):
            self.reqs.append((a['name'], d['id'], op))
        return d

    def attr(self, a, user=None, pw=None, **kw):
        """An honest request unless told otherwise."""
        g = self.g
        u = user or g.choice(self.p['setup']['users'])
        kw.setdefault('key', g.randrange(12, 22))
        kw.setdefault('addr', g.addr())
        kw.setdefault('ids', [])
        kw.setdefault('names', [])
        return self.add(a, 'attr', user=kw.pop('uname', g.name_case(u['username'])),
                        pw=u['password'] if pw is None else pw, **kw)

    def subset(self, u):
        """A request for some attributes the user holds (or, sometimes, one it does not)."""
        g, su = self.g, self.p['setup']
        held = [s['att'] for s in su['assigns'] if s['user'] == u['id']]
        byid = {a['id']: a for a in su['attdefs']}
        k = g.random()
        if k < 0.25:
            return dict(ids=g.choice(([], [''], ['*'], [None], [], ['', '*'])), names=g.choice(([], [''], ['*'], [None, ''])))
        ids, names = [], []
        for h in held:
            if g.maybe(0.4):
                ids.append(h)
            if g.maybe(0.3):
                names.append(byid[h]['name'])
        if g.maybe(0.2):
            other = [a for a in su['attdefs'] if a['id'] not in held]
            if other and g.maybe(0.7):
                o = g.choice(other)
                (ids if g.maybe(0.5) else names).append(o['id'] if g.maybe(0.5) else o['name'])
            else:
                (ids if g.maybe(0.5) else names).append(g.choice(('nosuch', ' ', 'AGE', 'age ')))
        if g.maybe(0.2):
            ids.append('')
        g.shuffle(ids)
        g.shuffle(names)
        return dict(ids=ids, names=names)

    def cert(self, src, fmt=None, mut=None, ver=1):
        return dict(src=src, fmt=self.g.choice((0, 0, 3, 4)) if fmt is None else fmt, mut=mut or [], ver=ver)

    def sess(self, a, certs, **kw):
        return self.add(a, 'sess', certs=certs, **kw)


def schedule(g, p, busy=0.75):
    k = p['knobs']
    if g.maybe(busy):
        k['preempt_mean'] = g.choice((3, 8, 25, 80, 250, 800))
    k['p_seam'] = g.choice((0.0, 0.1, 0.4, 0.8))
    k['shared_instance'] = g.maybe(0.5)
    if g.maybe(0.06):
        k['instruction'] = True
        if 'preempt_mean' in k:
            k['preempt_mean'] *= 8


STEPS = dict(attr=2600, sess=2200, list=60, info_aa=110, info_pa=40, call=60)


def faults(g, p, o, kinds, free=0.35, directed=0.4, rate=None, want=('attr', 'sess')):
    """No fault, one directed fault, or a light random mix of the kinds."""
    u = g.random()
    reqs = [r for r in o.reqs if r[2] in want] or o.reqs
    if u < free or not reqs:
        return 'none'
    if u < free + directed:
        for _ in range(1 if g.maybe(0.75) else 2):
            actor, oid, kind = g.choice(reqs)
            choices = []
            if 'crash' in kinds:
                choices += ['crash', 'crashp']
            if 'exc' in kinds:
                choices.append('exc')
            if 'db' in kinds:
                choices += ['db', 'db', 'dbconnect'] + (['commit', 'commit'] if kind == 'sess' else [])
            if 'fs' in kinds and kind == 'attr':
                choices += ['fsopen', 'fswrite', 'fswrite', 'fsclose', 'fsread', g.choice(('fsclose', 'fsmeta', 'fssync'))]
            if 'net' in kinds:
                choices.append('net')
            if 'clk' in kinds:
                choices += ['clk', 'clk']
            if not choices:
                return 'none'
            c = g.choice(choices)
            x = '%s.x0' % oid
            if c == 'crash':
                p['forced']['%s|crash|%d' % (x, g.randrange(1, STEPS.get(kind, 500)))] = 'process'
            elif c == 'exc':
                p['forced']['%s|exc|%d' % (x, g.randrange(1, STEPS.get(kind, 500)))] = 1
            elif c == 'db':
                p['forced']['%s|db|%d' % (x, g.randrange(0, 9))] = g.randrange(1, 6 if 'crash' in kinds else 5)
            elif c == 'dbconnect':
                p['forced']['%s|dbconnect|0' % x] = 1
            elif c == 'commit':
                p['forced']['%s|commit|0' % x] = g.choice((1, 2, 3, 4, 5) if 'crash' in kinds else (1, 2, 5))
            elif c == 'fswrite':
                p['forced']['%s|fswrite|%d' % (x, g.choice((0, 0, 1)))] = g.randrange(1, 7 if 'crash' in kinds else 5)
            elif c in ('fsopen', 'fsread'):
                p['forced']['%s|%s|%d' % (x, c, g.randrange(0, 4))] = 1
            elif c in ('fsclose', 'fsmeta', 'fssync'):
                p['forced']['%s|%s|%d' % (x, c, g.choice((0, 0, 1)))] = 1
            elif c == 'crashp':
                p['forced']['%s|crashp|%d' % (x, g.randrange(0, 2))] = 1
            elif c == 'net':
                p['forced']['%s|net|%d' % (actor, g.randrange(0, 4))] = g.randrange(1, 10)
            elif c == 'clk':
                p['forced']['%s|clk|%d' % (x, g.randrange(0, 12))] = g.randrange(1, 8)
        return 'directed'
    r = rate or g.choice((0.01, 0.03, 0.08))
    sub = [k for k in kinds if g.maybe(0.6)] or [g.choice(kinds)]
    pr = p['probs']
    for k in sub:
        if k == 'db':
            for t in DBFAULTS:
                pr[t] = r if t != 'commit' else min(0.5, r * 5)
        elif k == 'fs':
            for t in FSFAULTS:
                pr[t] = r
        elif k == 'net':
            pr['net'] = min(0.5, r * 4)
        elif k == 'clk':
            pr['clk'] = r
        elif k == 'crash':
            pr['crashp'] = r
            actor, oid, kind = g.choice(reqs)
            p['forced']['%s.x0|crash|%d' % (oid, g.randrange(1, STEPS.get(kind, 500)))] = 'process'
        elif k == 'exc':
            actor, oid, kind = g.choice(reqs)
            p['forced']['%s.x0|exc|%d' % (oid, g.randrange(1, STEPS.get(kind, 500)))] = 1
    return 'random'


# ------------------------------------------------------------ per property
def c01(g, p, i):
    c = conf(g, p)
    if g.maybe(0.1):
        c['pepper'] = ''
    people(g, p)
    su = p['setup']
    for u in su['users']:        # as long as the hash can take, together with the pepper
        if g.maybe(0.12):
            u['password'] = g.token(g.choice((72, 72, 71, 70, 64)) - len(c['pepper']))
    if g.maybe(0.25):            # an account nobody can log in to
        u = g.choice(su['users'])
        u['stored'] = no_hash(g, u['password'])
        if g.maybe(0.6):
            u['password'] = u['stored']
    o = Ops(g, p)
    for k in range(g.randrange(1, 5)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(1, 4)):
            bad_login(g, o, a, 0.6)
            if g.maybe(0.2):
                o.add(a, 'wait', dt=g.choice((0.001, 0.01, 0.1)))
    if g.maybe(0.6):
        a = o.actor('adm', g.choice((0.0, 0.0005, 0.002, 0.01)))
        for _ in range(g.randrange(1, 4)):
            account_change(g, o, a)
    schedule(g, p)
    faults(g, p, o, ('db', 'crash', 'exc', 'fs', 'net'))


def no_hash(g, pw):
    """What a database may hold in place of a password hash: it opens the account to no password."""
    from .world import pw_hash
    return g.choice(('!', '*', '', '!locked', 'x', '!' + pw_hash(pw, '')[:50], pw_hash(pw, '')[:40], pw, hashlib.sha256(pw.encode()).hexdigest(),
                     hashlib.md5(pw.encode()).hexdigest(), '$1$abc$' + pw, '{SHA}' + pw, '$2b$04$' + pw, 'None'))


def bad_login(g, o, a, p_bad):
    su = o.p['setup']
    u = g.choice(su['users'])
    if not g.maybe(p_bad):
        return o.attr(a, u)
    other = g.choice(su['users'])
    from .world import pw_hash
    pw = u['password']
    kind = g.randrange(25)
    if kind == 23:        # names that only some normalisation makes equal
        n = u['username']
        n = g.choice((''.join(chr(ord(ch) + 0xfee0) if '!' <= ch <= '~' else ch for ch in n), unicodedata.normalize('NFD', n),
                      n[:-1] + chr(ord(n[-1]) + 0xfee0) if '!' <= n[-1] <= '~' else n + '\u0301', n.replace('ß', 'ss'),
                      ''.join(ch for ch in unicodedata.normalize('NFD', n) if ord(ch) < 128), n.replace('a', '\u0430'),
                      n.replace('-', '').replace('.', ''), n.split('@')[0], n[:32], n + '@x.org'))
        return o.attr(a, u, uname=n)
    if kind == 24:
        return o.attr(a, u, uname=g.choice(('%s@localhost', 'localhost\\%s', '%s\t', '\ufeff%s', '%s\xa0', 'user/%s', '"%s"', '%s;')) % u['username'])
    if kind == 0:
        return o.attr(a, u, pw='')
    if kind == 1:
        d = o.attr(a, u)
        d['pw'] = None
        return d
    if kind == 2:
        return o.attr(a, u, pw=other['password'])
    if kind == 3:
        return o.attr(a, u, pw=pw[:-1])
    if kind == 4:
        return o.attr(a, u, pw=pw + g.choice((' ', 'x', pw[-1:], '\n')))
    if kind == 5:
        return o.attr(a, u, pw=pw.swapcase())
    if kind == 6:
        return o.attr(a, u, pw=pw_hash(pw[:50], su['conf']['pepper'])[:50])
    if kind == 7:
        return o.attr(a, u, uname=g.choice(('nobody', '', "' or '1'='1", '%', 'alic_', u['username'] + ' ', ' ' + u['username'],
                                            u['username'] + '\u200b')))
    if kind == 8:
        d = o.attr(a, u)
        d['user'] = None
        return d
    if kind == 9:
        return o.attr(a, u, ctype=g.choice((1, -1, 2, 255, 1000000)))
    if kind == 10:
        return o.attr(a, u, pw=su['conf']['pepper'])
    if kind == 11:
        return o.attr(a, u, pw=g.token(10))
    if kind == 12:
        return o.attr(a, u, pw=pw[1:])
    if kind == 13:
        return o.attr(a, u, pw=(pw + pw)[:40])
    if kind == 14:
        return o.attr(a, u, pw=g.choice(('None', 'null', '0', 'password', u['username'])))
    if kind == 15:
        d = o.attr(a, u)
        d['user'], d['pw'] = None, None
        return d
    pep = su['conf']['pepper']
    if kind == 17:
        return o.attr(a, u, pw=pw + pep + g.choice(('x', pep, g.token(30))))
    if kind == 18:
        return o.attr(a, u, pw=pw + '\0' + g.choice(('', 'x', pep))) if g.maybe(0.6) else o.attr(a, u, pw=pw + pep + '\0' + pw)
    if kind == 19:
        return o.attr(a, u, pw=g.choice((unicodedata.normalize('NFD', pw), unicodedata.normalize('NFKC', pw + '\ufb01'), pw + 'é', pw + '\u0301')))
    if kind == 20:
        return o.attr(a, u, pw=''.join(ch if ord(ch) < 128 else '?' for ch in pw))
    if kind == 21:
        return o.attr(a, u, pw=''.join(ch for ch in pw if ord(ch) < 128).strip())
    if kind == 22:
        return o.attr(a, other, pw=pw, uname=u['username'] + g.choice(('\0', '\0' + other['username'], '%', '*', ' or 1=1')))
    return o.attr(a, u, pw=pw[:len(pw) // 2] + g.token(1) + pw[len(pw) // 2 + 1:])


def account_change(g, o, a):
    su = o.p['setup']
    u = g.choice(su['users'])
    k = g.random()
    if k < 0.5:
        new = g.pw() if g.maybe(0.6) else g.choice(su['users'])['password'][:72 - len(su['conf']['pepper'])]
        o.add(a, 'admin', what='passwd', user_id=u['id'], pw=new)
        if g.maybe(0.5):
            x = o.actor('n%d' % o.n, g.choice((0.0, 0.01, 0.05)))
            o.attr(x, u, pw=g.choice((new, u['password'])))
    elif k < 0.6:
        st = no_hash(g, u['password'])
        o.add(a, 'admin', what='lock', user_id=u['id'], stored=st)
        if g.maybe(0.7):
            o.attr(o.actor('n%d' % o.n, g.choice((0.0, 0.01, 0.05))), u, pw=g.choice((st, st, u['password'], '')))
    elif k < 0.78:
        o.add(a, 'admin', what='user_del', user_id=u['id'])
        if g.maybe(0.4):
            o.add(a, 'admin', what='user_add', user_id=u['id'] + 50, username=u['username'], pw=g.pw())
    else:
        o.add(a, 'admin', what='user_add', user_id=90 + o.n, username='new%d' % o.n, pw=g.pw())
    if g.maybe(0.5):
        o.add(a, 'wait', dt=g.choice((0.0005, 0.002, 0.01)))


def c02(g, p, i):
    conf(g, p)
    people(g, p)
    su = p['setup']
    if su['assigns'] and g.maybe(0.05):
        s = g.choice(su['assigns'])
        s['value'] = g.choice(('y', 'é', '漢')) * g.choice((65535, 65536, 70000, 32767, 32768, 21845, 21846)) + g.choice(('', 'z', 'ß'))
    if g.maybe(0.03):
        n = g.choice((40, 101, 130, 257, 300))
        u = g.choice(su['users'])
        for k in range(n):
            su['attdefs'].append(dict(id='m/%d' % k, name='many%d' % k, type=g.choice(TYPE_NAMES)))
            su['assigns'].append(dict(user=u['id'], att='m/%d' % k, value='%d-%s' % (k, g.token(2))))
    o = Ops(g, p)
    for k in range(g.randrange(2, 5)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(1, 4)):
            u = g.choice(su['users'])
            o.attr(a, u, **o.subset(u))
            if g.maybe(0.2):
                o.add(a, 'wait', dt=g.choice((0.001, 0.01, 0.1)))
    if g.maybe(0.6):
        a = o.actor('adm', g.choice((0.0, 0.0005, 0.002, 0.01)))
        for _ in range(g.randrange(1, 5)):
            att_change(g, o, a)
    schedule(g, p)
    faults(g, p, o, ('db', 'crash', 'exc', 'fs', 'net'), free=0.5, directed=0.25)


def att_change(g, o, a):
    su = o.p['setup']
    u = g.choice(su['users'])
    k = g.random()
    if k < 0.4:
        o.add(a, 'admin', what='multi', user_id=u['id'], values=[[x['id'], 'v%d-%s' % (o.n, g.token(3))] for x in su['attdefs']])
    elif k < 0.7:
        o.add(a, 'admin', what='assign', user_id=u['id'], att=g.choice(su['attdefs'])['id'], value=g.text())
    elif k < 0.85:
        o.add(a, 'admin', what='unassign', user_id=u['id'], att=g.choice(su['attdefs'])['id'])
    else:
        o.add(a, 'admin', what='retype', user_id=u['id'], values=[[x['id'], g.choice(TYPE_NAMES), 'r%d-%s' % (o.n, g.token(3))]
                                                                  for x in su['attdefs'][:4]])
    if g.maybe(0.5):
        o.add(a, 'wait', dt=g.choice((0.0005, 0.002, 0.01, 0.05)))


def c03(g, p, i):
    conf(g, p)
    people(g, p)
    su = p['setup']
    su['tz'] = g.choice(ZONES)
    o = Ops(g, p)
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k, g.choice((0.0, 0.0, 0.003, 0.4)))
        for _ in range(g.randrange(1, 4)):
            env = {}
            for v in ('REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER'):
                if g.maybe(0.25):
                    env[v] = g.choice(('host.example.org', 'üser', '', g.token(6)))
            kw = {}
            if g.maybe(0.25):       # the key is recorded as sent, whatever it looks like
                kw['pubtext'] = g.choice(('nl', 'crlf', 'strip', 'openssh', 'text', 'lead', 'der64'))
            o.attr(a, env=env, **kw, cipher=g.choice(('RSA', 'RSA', 'EC')), key_size=g.choice((1024, 2048, 0, 4096)))
            if g.maybe(0.3):
                o.add(a, 'wait', dt=g.choice((0.001, 0.3, 1.0, 40.0)))
    if g.maybe(0.4):
        a = o.actor('clk', g.choice((0.0, 0.001, 0.003)))
        for _ in range(g.randrange(1, 3)):
            if g.maybe(0.5):
                o.add(a, 'clock', boundary='midnight', before=g.choice((0.0, 0.0005, 0.003)))
            else:
                o.add(a, 'clock', delta=g.choice((-3600.0, -5.0, 1.0, 90.0, 86400.0, 40000000.0, -40000000.0)))
            o.add(a, 'wait', dt=g.choice((0.0005, 0.003, 0.5)))
    schedule(g, p)
    faults(g, p, o, ('clk', 'clk', 'fs', 'db', 'exc'), free=0.3, directed=0.35, rate=g.choice((0.02, 0.1, 0.25)))


def c04(g, p, i):
    conf(g, p)
    people(g, p, rich=g.maybe(0.5))
    if g.maybe(0.3):          # certificates larger than any buffer
        su = p['setup']
        for s in su['assigns']:
            if s['value'] is not None and g.maybe(0.5):
                s['value'] = (s['value'] or 'y') + g.token(g.choice((4000, 9000)))
    if g.maybe(0.06):         # an archive of earlier days
        p['setup']['archived'] = g.choice((3, 60, 260, 520, 1030))
        p['setup']['archived_age'] = g.choice((10, 86400, 40000000))
    o = Ops(g, p)
    for k in range(g.randrange(1, 5)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(1, 5)):
            o.attr(a)
        if g.maybe(0.3):
            o.add(a, 'wait', dt=1.0)
            o.attr(a)
    if g.maybe(0.2):
        a = o.actor('sup', g.choice((0.0, 0.01, 0.2)))
        o.add(a, 'crash')
    if g.maybe(0.1):          # long after
        a = o.actor('later', g.choice((0.05, 1.0)))
        o.add(a, 'wait', dt=p['setup']['conf']['expire'] * g.choice((1.0, 2.5, 40.0)) + 5.0)
        if g.maybe(0.7):
            o.add(a, 'crash')
            o.add(a, 'wait', dt=4.0)
        o.attr(a)
        if g.maybe(0.5):
            o.attr(a)
    schedule(g, p)
    faults(g, p, o, ('fs', 'fs', 'crash', 'exc', 'net', 'db'), free=0.2, directed=0.5)


MUT_FIELDS = (('issued', 1), ('issued', 60), ('serial', 1), ('serial', 256), ('version', 2), ('valid_after', -5), ('valid_after', 1),
              ('valid_before', 100), ('valid_before', 1), ('valid_before', -1), ('rurl', 'x'), ('rextra', 'x'), ('iname', 'x'),
              ('iurl', 'x'), ('ialgo', 'x'), ('hname', 'x'), ('huid', 'x'), ('halgo', 'x'), ('hkey', 21), ('del', 'x'),
              ('att_add', 'role'), ('ext_add', 'e'), ('ext_del', 0), ('ext_extra', 'x'), ('ext_eid', 'x'), ('att_del', 0),
              ('att_dup', 0), ('att_swap', 0), ('att_type', 0), ('att_extra', 'x'), ('att_shift', 0), ('att_value', 'x'),
              ('att_name', 'x'), ('att_id', 'x'), ('att_value', ''), ('iuid', 'x'), ('ikey', 5))


def mutation(g, p, srcs):
    k = g.random()
    if k < 0.45:
        f, v = g.choice(MUT_FIELDS)
        m = dict(kind='field', field=f, v=v, i=g.randrange(4), on='raw')
        if f == 'att_value' and v == '':
            m['mode'] = 'set'
        return m
    if k < 0.6:
        return dict(kind='flip', at=g.random(), bit=g.randrange(8), on=g.choice(('raw', 'wire')))
    if k < 0.66:
        return dict(kind='set', at=g.random(), byte=g.randrange(256), on='raw')
    if k < 0.72:
        return dict(kind='drop', at=g.random(), n=g.choice((1, 1, 2, 8)), on=g.choice(('raw', 'wire')))
    if k < 0.77:
        return dict(kind='dup', at=g.random(), n=g.choice((1, 2, 9)), on=g.choice(('raw', 'wire')))
    if k < 0.83:
        return dict(kind='append', hex=g.choice(('00', 'ff', '0000', '41424344', '00000000', '0a', '20')), on=g.choice(('raw', 'wire')))
    if k < 0.86:
        return dict(kind='trunc', at=g.choice((0.0, 0.1, 0.5, 0.9, 0.99, g.random())), on=g.choice(('raw', 'wire')))
    if k < 0.89:
        return dict(kind='swap', at=g.random(), n=g.choice((1, 4, 16)), on='raw')
    if k < 0.92:
        return dict(kind='splice', at=g.random(), at2=g.random(), src=g.choice(srcs), on='raw')
    if k < 0.96:
        return dict(kind='sigfrom', src=g.choice(srcs), on='raw')
    return dict(kind='sig', hex=g.choice(('', '00000000', '0100000041', '04000000' + '41424344')), on='raw')


def sigblock(g):
    """The signature block under another algorithm's name, the value kept, cleared or replaced."""
    return dict(kind='sigalgo', algo=g.choice(('', 'none', 'NONE', 'ED25519', 'HMAC-SHA256', 'RSASSA-PSS:SHA256', 'RSASSA-PKCS1-v1_5:SHA1',
                                               'RSASSA-PKCS1-v1_5:MD5', 'RSASSA-PKCS1-v1_5', 'rsassa-pkcs1-v1_5:sha256', 'SHA256', 'ECDSA')),
                value=g.choice(('keep', 'keep', '', '00' * 128, 'digest', '01')), on='raw')


def good_sources(g, p, o, a, n_mint, n_issued):
    """Certificates to present: minted by registered authorities and issued by the simulated one."""
    srcs = []
    for k in range(n_mint):
        srcs.append(dict(mint=mint(g, p, 'm%d' % k)))
    for k in range(n_issued):
        d = o.attr(a)
        srcs.append(dict(op=d['id']))
    if n_issued:
        o.add(a, 'wait', dt=2.0)
    return srcs


def c05(g, p, i):
    c = conf(g, p)
    c['expire'] = g.choice((3600, 86400))
    people(g, p)
    registry(g, p, 2)
    o = Ops(g, p)
    a = o.actor('u0')
    srcs = good_sources(g, p, o, a, g.randrange(1, 4), g.choice((0, 1)))
    for _ in range(g.randrange(6, 16)):
        src = g.choice(srcs)
        muts = [mutation(g, p, srcs) for _ in range(g.choice((0, 1, 1, 1, 1, 1, 1, 2, 3)))]
        if len(muts) == 1 and muts[0].get('field') and g.maybe(0.25):
            muts.append(dict(kind='sig', hex='', on='raw') if g.maybe(0.4) else sigblock(g))
        # an altered certificate gets its own serial, or a collision would hide that it was accepted
        certs = [o.cert(src, mut=muts)]
        if g.maybe(0.15):
            certs.append(o.cert(g.choice(srcs)))
            if certs[0]['src'] == certs[1]['src']:
                certs.pop()
        o.sess(a, certs)
        if g.maybe(0.1):
            b = o.actor('v%d' % o.n)
            o.add(b, 'wait', dt=3.0)
            o.sess(b, [o.cert(g.choice(srcs))])
    schedule(g, p, 0.4)
    if g.maybe(0.2):
        faults(g, p, o, ('db', 'exc', 'net'), free=0.0)


def c06(g, p, i):
    c = conf(g, p)
    c['expire'] = 3600
    people(g, p)
    registry(g, p, 3, g.choice((1, 1, 0)))
    su = p['setup']
    o = Ops(g, p)
    reg = su['registry']
    trusted = [r for r in reg[1:]]
    un = reg_entry('hgabac://evil', 9, 1, 'evil', 'http://evil/')
    if g.maybe(0.5):
        reg.append(reg_entry('hgabac://notrust', 8, g.choice((0, -1)), 'NT', 'http://nt/'))
    if g.maybe(0.25):      # another authority whose id differs in letter case or a trailing character only
        r = g.choice(trusted)
        reg.append(reg_entry(g.choice((r['uid'].upper(), r['uid'].title(), r['uid'] + '/', r['uid'] + ' ', r['uid'][:-1])),
                             g.choice((7, r['key'])), g.choice((0, 0, -1, 1)), r['name'], r['url']))
        if g.maybe(0.5):
            reg[1], reg[-1] = reg[-1], reg[1]
    kinds = []
    for k in range(g.randrange(4, 9)):
        n = 'm%d' % k
        r = g.choice(trusted)
        kind = g.randrange(13)
        other = g.choice([x for x in trusted if x is not r])
        if kind == 10:       # the registered modulus with another exponent
            v = r['key'] + SAME_MODULUS
            mint(g, p, n, r, sign=v, embed=g.choice((v, v, r['key'])))
            kinds.append(n)
            continue
        if kind == 11:
            mint(g, p, n, reg[-1] if g.maybe(0.6) else g.choice(reg))
            kinds.append(n)
            continue
        if kind == 12:       # the registered key in another encoding
            mint(g, p, n, r, der=True)
            kinds.append(n)
            continue
        if kind <= 2:
            mint(g, p, n, r)
        elif kind == 3:      # signed by a stranger, its own key embedded
            mint(g, p, n, r, sign=9, embed=9)
        elif kind == 4:      # signed by a stranger, the registered key embedded
            mint(g, p, n, r, sign=9)
        elif kind == 5:      # signed by another trusted authority
            mint(g, p, n, r, sign=other['key'], embed=other['key'])
        elif kind == 6:
            mint(g, p, n, un)
        elif kind == 7:      # stranger's uid with a trusted authority's name and url
            mint(g, p, n, dict(un, name=r['name'], url=r['url']))
        elif kind == 8:
            v = dict(r, uid=g.choice((r['uid'] + '/', r['uid'].upper(), r['uid'] + ' ', '', r['uid'] + '\u200b', r['name'])))
            mint(g, p, n, v)
        else:
            x = [q for q in reg if q['trust'] <= 0]
            mint(g, p, n, x[0] if x else un)
        kinds.append(n)
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(2, 5)):
            certs = [o.cert(dict(mint=m)) for m in g.sample(kinds, min(len(kinds), g.choice((1, 1, 1, 2, 3))))]
            o.sess(a, certs)
            if g.maybe(0.2):
                o.add(a, 'wait', dt=g.choice((0.001, 0.01)))
    if g.maybe(0.6):
        a = o.actor('adm', g.choice((0.0, 0.0005, 0.002, 0.02)))
        for _ in range(g.randrange(1, 4)):
            reg_change(g, o, a, trusted)
    schedule(g, p)
    faults(g, p, o, ('db', 'exc', 'crash', 'net'), free=0.6, directed=0.2, want=('sess',))


def reg_change(g, o, a, regs):
    r = g.choice(regs)
    k = g.random()
    if k < 0.3:
        o.add(a, 'admin', what='reg_del', uid=r['uid'])
    elif k < 0.6:
        o.add(a, 'admin', what='reg_put', reg=dict(r, trust=g.choice((0, -1, 3))))
    elif k < 0.85:
        o.add(a, 'admin', what='reg_put', reg=dict(r, key=g.choice((10, 11, 9, 2))))
    else:
        o.add(a, 'admin', what='reg_put', reg=reg_entry('hgabac://new%d' % o.n, 7, g.choice((1, 0))))
    if g.maybe(0.6):
        o.add(a, 'wait', dt=g.choice((0.0005, 0.002, 0.02, 1.0)))


def c07(g, p, i):
    c = conf(g, p)
    c['expire'] = g.choice((5, 60, 3600))
    people(g, p)
    registry(g, p, 2)
    o = Ops(g, p)
    p['setup']['now'] = float(int(p['setup']['now'])) + g.choice((0.0, 0.05, 0.5, 0.95, 0.99))
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        for j in range(g.randrange(2, 5)):
            q = g.random()
            if q < 0.2:
                d = o.attr(a)
                o.add(a, 'wait', dt=g.choice((0.0, 0.5, 1.0, 1.2, 2.0, c['expire'] - 1.0, float(c['expire']), c['expire'] + 1.0)))
                o.sess(a, [o.cert(dict(op=d['id']))])
                continue
            w = g.choice((0.0, 1.0, 3.0, 10.0, 100.0, 4000.0))
            e = int(w) + g.choice((-2, -1, 0, 1, 2, 3))
            x = g.random()
            if x < 0.4:
                lim = dict(after=-100, before=e)
            elif x < 0.7:
                lim = dict(after=e, before=e + g.choice((1, 2, 3, 100)))
            elif x < 0.8:
                lim = dict(after=-5, before=-1)
            elif x < 0.9:
                lim = dict(after=100, before=50)
            else:
                lim = dict(after=-50, before=100000)
            if x < 0.7 and g.maybe(0.15):      # the other bound as far as the format reaches
                if x < 0.4:
                    lim['after_abs'] = g.choice((0, 1, 2147483647))
                else:
                    lim['before_abs'] = g.choice((4294967295, 4294967294, 4200000000, 4000000001))
            n = mint(g, p, 'm%d_%d' % (k, j), issued=min(lim['after'], 0), **lim)
            certs = [o.cert(dict(mint=n))]
            if g.maybe(0.3):
                n2 = mint(g, p, 'k%d_%d' % (k, j), after=-1000, before=200000)
                certs.insert(g.choice((0, 1)), o.cert(dict(mint=n2)))
            # minted (and so anchored to the clock) at first use: use it once early, then around its bounds
            if g.maybe(0.6):
                o.sess(a, [dict(x) for x in certs])
            if w:
                o.add(a, 'wait', dt=w + g.choice((0.0, -0.01, -0.001, 0.0005, 0.3)) if w > 0.1 else 0.0)
            o.sess(a, certs)
    if g.maybe(0.5):
        a = o.actor('clk', g.choice((0.0, 0.002, 0.01, 1.0)))
        for _ in range(g.randrange(1, 4)):
            if g.maybe(0.6):
                o.add(a, 'clock', to_bound=True, delta=g.choice((-1.0, -0.001, 0.0, 0.5, 0.999, 1.0, 1.5)))
            else:
                o.add(a, 'clock', delta=g.choice((-3600.0, -2.0, 1.0, 90.0, 4000.0)))
            o.add(a, 'wait', dt=g.choice((0.0005, 0.003, 0.5, 2.0)))
    schedule(g, p)
    faults(g, p, o, ('clk', 'clk', 'net'), free=0.45, directed=0.3, want=('sess',), rate=g.choice((0.03, 0.1, 0.3)))


def c08(g, p, i):
    c = conf(g, p)
    c['expire'] = g.choice((60, 3600, 86400, 86401, 200000))
    people(g, p)
    registry(g, p, 2)
    o = Ops(g, p)
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        own = []
        if g.maybe(0.3):
            d = o.attr(a)
            own.append(dict(op=d['id']))
            o.add(a, 'wait', dt=2.0)
        for j in range(g.randrange(2, 5)):
            srcs = list(own) if g.maybe(0.5) else []
            for q in range(g.choice((1, 2, 2, 3, 4))):
                before = g.choice((30, 60, 3600, 86390, 86398, 86399, 86400, 86401, 86402, 86410, 90000, 1000000))
                far = dict(before_abs=g.choice((4294967295, 4294967294, 4000000001))) if g.maybe(0.06) else {}
                srcs.append(dict(mint=mint(g, p, 'm%d_%d_%d' % (k, j, q), before=before,
                                           issued=-g.randrange(0, 5000) if g.maybe(0.9) else 1000, after=-g.randrange(10, 99), **far)))
            g.shuffle(srcs)
            o.sess(a, [o.cert(s) for s in srcs])
            if g.maybe(0.4):
                o.add(a, 'wait', dt=g.choice((0.5, 1.0, 7.0)))
                o.sess(a, [o.cert(s, fmt=0) for s in srcs[:2]] if len(srcs) > 5 else [dict(x) for x in p['actors'][-1]['ops'][-2]['certs']])
    if g.maybe(0.3):
        a = o.actor('clk', g.choice((0.0, 0.002, 0.01)))
        o.add(a, 'clock', delta=g.choice((-20.0, -2.0, 1.0, 10.0)))
    schedule(g, p)
    faults(g, p, o, ('clk', 'db', 'net', 'exc'), free=0.5, directed=0.25, want=('sess',))


def bad_member(g, p, name):
    """A certificate that must be refused."""
    reg = p['setup']['registry']
    r = g.choice(reg[1:])
    k = g.randrange(5)
    if k == 0:
        return dict(src=dict(mint=mint(g, p, name, r, after=-100, before=-1)), fmt=0, mut=[], ver=1)
    if k == 1:
        return dict(src=dict(mint=mint(g, p, name, r, sign=9, embed=9)), fmt=3, mut=[], ver=1)
    if k == 2:
        return dict(src=dict(mint=mint(g, p, name, reg_entry('hgabac://evil', 9))), fmt=0, mut=[], ver=1)
    if k == 3:
        return dict(src=dict(mint=mint(g, p, name, r)), fmt=0, mut=[dict(kind='field', field='hname', v='x', on='raw')], ver=1)
    return dict(src=dict(mint=mint(g, p, name, r)), fmt=g.choice((1, 2, 7)) if g.maybe(0.5) else 0, mut=[], ver=g.choice((0, 2)))


def store_ops(g, p, o, bad=0.4, reuse=0.4, dup_net=False):
    """Session requests by a few clients over a common pool of certificates."""
    pool = [dict(src=dict(mint=mint(g, p, 'g%d' % k, before=g.choice((3600, 100000)))), fmt=g.choice((0, 3, 4)), mut=[], ver=1)
            for k in range(g.randrange(2, 6))]
    n = 0
    for k in range(g.randrange(1, 5)):
        a = o.actor('u%d' % k)
        for j in range(g.randrange(1, 4)):
            if g.maybe(reuse):
                certs = [dict(x) for x in g.sample(pool, min(len(pool), g.choice((1, 1, 2, 3))))]
            else:
                certs = []
                for q in range(g.choice((1, 1, 2, 3)) if g.maybe(0.93) else g.choice((5, 9, 12, 17))):
                    n += 1
                    certs.append(dict(src=dict(mint=mint(g, p, 'f%d' % n, before=7200)), fmt=g.choice((0, 3, 4)), mut=[], ver=1))
            kw = {}
            if g.maybe(bad):
                q = g.randrange(8)
                if q == 0:
                    certs = []
                elif q == 1:
                    kw['nullset'] = True
                elif q == 2:
                    kw['noset'] = True
                else:
                    n += 1
                    certs.insert(g.randrange(len(certs) + 1) if g.maybe(0.6) else len(certs), bad_member(g, p, 'b%d' % n))
            d = o.sess(a, certs, **kw)
            if kw:
                d['certs'] = []
            if g.maybe(0.2):
                o.add(a, 'wait', dt=g.choice((0.001, 0.01, 1.0, 10.0)))
    return pool


def c09(g, p, i):
    conf(g, p)
    people(g, p, 2, 2)
    registry(g, p, 2)
    o = Ops(g, p)
    store_ops(g, p, o, bad=0.5)
    if g.maybe(0.15):
        o.add(o.actor('sup', g.choice((0.0, 0.005, 0.02))), 'crash')
    schedule(g, p)
    faults(g, p, o, ('db', 'crash', 'exc', 'net', 'crash', 'db'), free=0.25, directed=0.5, want=('sess',))


def c10(g, p, i):
    conf(g, p)
    people(g, p, 2, 2)
    registry(g, p, 2)
    o = Ops(g, p)
    pool = store_ops(g, p, o, bad=0.15)
    if g.maybe(0.4):
        o.add(o.actor('sup', g.choice((0.0, 0.005, 0.02, 0.2))), 'crash')
    if g.maybe(0.4):
        a = o.actor('late', 8.0)
        for _ in range(g.randrange(1, 3)):
            o.sess(a, [dict(g.choice(pool))])
        if g.maybe(0.3):
            o.add(a, 'crash')
    schedule(g, p)
    faults(g, p, o, ('db', 'crash', 'exc', 'net'), free=0.2, directed=0.5, want=('sess',))


def c11(g, p, i):
    conf(g, p)
    people(g, p, 2, 2)
    registry(g, p, 3)
    o = Ops(g, p)
    reg = p['setup']['registry']
    fam = []
    for k in range(g.randrange(1, 4)):
        s = g.serial()
        base = None
        for j in range(g.randrange(1, 4)):
            n = 'c%d_%d' % (k, j)
            if base is not None and g.maybe(0.5):
                m = dict(p['setup']['mints'][base])
                q = g.randrange(6)
                if q == 0:
                    m['before'] = m['before'] + 1
                elif q == 1:
                    m['hname'] = m['hname'] + 'x'
                elif q == 2:
                    m['issued'] = m['issued'] - 1
                elif q == 3:
                    m['atts'] = m['atts'] + [dict(id='role', value='root', name='role', type=3)]
                elif q == 4:
                    m['rextra'] = m['rextra'] + '01'
                else:
                    m['ext'] = m['ext'] + [dict(eid='zz', extra='01')]
                p['setup']['mints'][n] = m
            else:
                mint(g, p, n, g.choice(reg[1:]), serial=s, before=g.choice((3600, 100000)))
            if base is None:
                base = n
            fam.append(n)
    fm = {n: g.choice((0, 3, 4)) for n in fam}
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        for j in range(g.randrange(2, 6)):
            n = g.choice(fam)
            certs = [o.cert(dict(mint=n), fmt=fm[n] if g.maybe(0.85) else None)]
            if g.maybe(0.25):
                certs.append(o.cert(dict(mint=mint(g, p, 'x%d_%d' % (k, j)))))
            o.sess(a, certs)
            if g.maybe(0.2):
                o.add(a, 'wait', dt=g.choice((0.001, 0.01, 1.0, 3700.0)))
    if g.maybe(0.2):
        o.add(o.actor('sup', g.choice((0.005, 0.05))), 'crash')
    schedule(g, p)
    faults(g, p, o, ('db', 'crash', 'net', 'exc'), free=0.5, directed=0.3, want=('sess',))


def c12(g, p, i):
    conf(g, p)
    people(g, p, 2, 2)
    registry(g, p, 2)
    o = Ops(g, p)
    if i % 12 == 0:                # a long history for the bit statistics
        pool = [dict(src=dict(mint=mint(g, p, 'g%d' % k, before=100000)), fmt=0, mut=[], ver=1) for k in range(3)]
        for k in range(4):
            a = o.actor('u%d' % k)
            for j in range(12):
                o.sess(a, [dict(g.choice(pool))])
        p['knobs'].update(preempt_mean=400, p_seam=0.02, shared_instance=g.maybe(0.5))
        return
    store_ops(g, p, o, bad=0.1, reuse=0.6)
    if g.maybe(0.2):
        o.add(o.actor('sup', g.choice((0.005, 0.05))), 'crash')
    schedule(g, p)
    faults(g, p, o, ('net', 'db', 'crash', 'exc'), free=0.35, directed=0.35, want=('sess',))
    if g.maybe(0.5):
        p['probs']['rng'] = g.choice((0.3, 1.0))
    if g.maybe(0.5):
        p['probs']['net'] = max(p['probs'].get('net', 0), 0.3)


def c13(g, p, i):
    c = conf(g, p)
    people(g, p, 2, 2)
    registry(g, p, g.randrange(0, 5), g.choice((1, 0, -3)))
    o = Ops(g, p)
    regs = p['setup']['registry']
    if g.maybe(0.05):
        for k in range(g.choice((10, 51, 101, 130, 260))):
            regs.append(reg_entry('hgabac://many%d' % k, g.randrange(8), g.choice((1, 1, 0, 7)), 'Many %d' % k, 'http://m%d/' % k))
    for r in regs[1:]:
        if g.maybe(0.6):
            r.update(cipher=g.choice(('RSA', 'RSA', 'EC', 'DSA', 'X' * 100)), size=g.choice((512, 1024, 2048, 4096, 15360)),
                     name=g.choice((r['name'], regs[0]['name'], g.text(), 'N' * 255)), url=g.choice((r['url'], regs[0]['url'], g.text())),
                     trust=g.choice((r['trust'], 0, -1, 1, 100, 2147483647)), key=g.choice((r['key'], r['key'], regs[0]['key'])))
        if g.maybe(0.25):        # published as registered, whatever it looks like
            r['pubtext'] = g.choice(('nl', 'crlf', 'strip', 'openssh', 'text', 'lead', 'der64'))
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(2, 6)):
            q = g.random()
            if q < 0.5:
                o.add(a, 'list', addr=g.addr())
            elif q < 0.7:
                o.add(a, 'info_aa', addr=g.addr())
            elif q < 0.85:
                o.add(a, 'info_pa', addr=g.addr())
            else:
                o.attr(a)
    if g.maybe(0.7):
        a = o.actor('adm', g.choice((0.0, 0.0005, 0.002, 0.02)))
        for _ in range(g.randrange(1, 6)):
            reg_change(g, o, a, regs)
    if g.maybe(0.2):
        o.add(o.actor('sup', g.choice((0.0, 0.005, 0.02))), 'crash')
    schedule(g, p)
    faults(g, p, o, ('db', 'fs', 'exc', 'crash', 'net'), free=0.45, directed=0.3, want=('list', 'info_aa', 'info_pa', 'attr'))


def c14(g, p, i):
    c = conf(g, p)
    c['expire'] = g.choice((3600, 86400))
    people(g, p, 3, 3)
    registry(g, p, 2)
    su = p['setup']
    o = Ops(g, p)
    mode = i % 4
    kinds = ('attr-pw', 'attr-user', 'attr-att', 'attr-type', 'sess-bad', 'sess-empty', 'sess-serial', 'sess-undec', 'attr-ok', 'sess-ok',
             'list', 'info')

    victim = g.choice(su['users'])

    def one(a, kind):
        if kind == 'attr-pw':
            o.attr(a, victim if mode == 0 else None, pw='wrong' + g.token(3))
        elif kind == 'attr-user':
            o.attr(a, uname='nobody')
        elif kind == 'attr-att':
            o.attr(a, ids=['nosuch'])
        elif kind == 'attr-type':
            o.attr(a, ctype=3)
        elif kind == 'attr-ok':
            o.attr(a)
        elif kind == 'sess-bad':
            o.sess(a, [bad_member(g, p, 'b%d' % o.n)])
        elif kind == 'sess-empty':
            o.sess(a, [], nullset=True)
        elif kind == 'sess-undec':
            o.sess(a, [o.cert(dict(mint='g0'), mut=[dict(kind='trunc', at=g.random(), on='raw')])])
        elif kind == 'sess-serial':
            o.sess(a, [o.cert(dict(mint='g0'), fmt=0)])
            o.sess(a, [o.cert(dict(mint='g1'), fmt=0)])
        elif kind == 'sess-ok':
            o.sess(a, [o.cert(dict(mint=mint(g, p, 's%d' % o.n, before=90000)))])
        elif kind == 'list':
            o.add(a, 'list')
        else:
            o.add(a, g.choice(('info_aa', 'info_pa')))
    mint(g, p, 'g0', before=90000)
    su['mints']['g1'] = dict(su['mints']['g0'], hname='other')
    if mode == 0:                 # one kind of refusal, more often than there are connections
        kind = g.choice(kinds[:9])
        na = g.choice((1, 3))
        for k in range(na):
            a = o.actor('u%d' % k)
            for _ in range((24 if kind != 'sess-serial' else 12) // na):
                one(a, kind)
        p['knobs'].update(shared_instance=g.maybe(0.7), p_seam=g.choice((0.0, 0.2)))
        if g.maybe(0.5):
            p['knobs']['preempt_mean'] = g.choice((50, 300))
    else:
        for k in range(g.randrange(2, 6)):
            a = o.actor('u%d' % k)
            for _ in range(g.randrange(2, 7)):
                one(a, g.choice(kinds))
        if g.maybe(0.3):
            o.add(o.actor('sup', g.choice((0.0, 0.01, 0.1))), 'crash')
        schedule(g, p)
        faults(g, p, o, ('db', 'fs', 'crash', 'exc', 'net'), free=0.1, directed=0.35, rate=g.choice((0.02, 0.08, 0.2)))
        if mode == 3 and g.maybe(0.6):        # a storm: most operations fail
            for t in DBFAULTS + FSFAULTS:
                p['probs'][t] = g.choice((0.1, 0.5))
            p['knobs']['shared_instance'] = g.maybe(0.7)
    p['knobs']['fd_limit'] = 20
    d = o.attr(None, victim, retry=3, must=True)
    o.add(None, 'wait', dt=2.5)
    o.sess(None, [o.cert(dict(op=d['id']), fmt=0)], retry=3, must=True)
    d = o.attr(None, g.choice(su['users']), retry=3, must=True)
    o.add(None, 'list', retry=3, must=True)


def c15(g, p, i):
    c = conf(g, p, log=g.choice(('DEBUG', 'INFO', 'WARNING', 'NOTSET', 'DEBUG')), sqllog=g.choice(('DEBUG', 'INFO', 'CRITICAL', 'DEBUG')),
             stdout=g.choice(('True', 'False')))
    if g.maybe(0.3):
        c['aalogfile'] = 'aa.log'
    people(g, p)
    registry(g, p, 2)
    su = p['setup']
    c['pepper'] = 'PEP' + g.token(10)
    c['key_pass'] = 'KPA' + g.token(11)
    for u in su['users']:
        u['password'] = 'PW' + g.token(14)
    o = Ops(g, p)
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(2, 5)):
            q = g.random()
            via = 'client' if g.maybe(0.4) else None
            if q < 0.25:
                u = g.choice(su['users'])
                o.attr(a, u, via=via, **o.subset(u))
            elif q < 0.4:
                o.attr(a, pw='BAD' + g.token(12), via=via)
            elif q < 0.5:
                o.attr(a, pw='BAD' + g.token(12), uname=g.choice(('nobody', '', g.token(8))), via=via)
            elif q < 0.6:
                o.attr(a, pw='BAD' + g.token(12), ctype=g.choice((1, 7, -1)), via=via)
            elif q < 0.66:      # longer than the hash function takes
                o.attr(a, pw='BAD' + g.token(90), via=via)
            elif q < 0.70:
                d = o.attr(a, pw='BAD' + g.token(12), via=via)
                d['user'] = None
            elif q < 0.74:
                o.attr(a, ids=['nosuch'], via=via)
            elif q < 0.78:
                o.add(a, 'call', service='AttributeAuthority', method='attribute_request',
                      args=dict(credentials={'type': 'x', 'username': 'alice', 'password': 'nothing'}, user_public_key=None,
                                attributes={}))
            elif q < 0.84:
                o.add(a, 'info_aa', via=via)
            elif q < 0.9:
                o.add(a, 'list', via=via)
            else:
                o.sess(a, [o.cert(dict(mint=mint(g, p, 's%d' % o.n)))] if g.maybe(0.6) else [bad_member(g, p, 'b%d' % o.n)])
    if g.maybe(0.3):
        a = o.actor('adm', 0.0)
        u = g.choice(su['users'])
        o.add(a, 'admin', what='passwd', user_id=u['id'], pw='PW' + g.token(13))
    schedule(g, p, 0.3)
    faults(g, p, o, ('db', 'fs', 'exc', 'net', 'crash', 'clk'), free=0.25, directed=0.5, want=('attr', 'sess', 'list', 'info_aa'))
    if g.maybe(0.1):
        p['probs']['clk'] = g.choice((0.05, 0.2))


def c16(g, p, i):
    c = conf(g, p)
    people(g, p)
    registry(g, p, 2)
    su = p['setup']
    o = Ops(g, p)
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(2, 7)):
            q = g.random()
            if q < 0.6:
                u = g.choice(su['users'])
                d = o.attr(a, u, via='client', **o.subset(u))
                if g.maybe(0.15):
                    d['pw'] = 'wrong'
                if g.maybe(0.1):
                    d['ids'], d['names'] = None, None
                if g.maybe(0.5):
                    d['key'] = None
            elif q < 0.75:
                o.add(a, 'info_aa', via='client')
            elif q < 0.9:
                o.add(a, 'list', via='client')
            else:
                o.add(a, 'info_pa', via='client')
    if g.maybe(0.2):
        o.add(o.actor('sup', g.choice((0.0, 0.005, 0.2))), 'crash')
    schedule(g, p, 0.4)
    p['probs']['net'] = g.choice((0.0, 0.2, 0.5, 0.8))
    faults(g, p, o, ('db', 'fs', 'crash', 'exc'), free=0.6, directed=0.25)


def c17(g, p, i):
    c = conf(g, p)
    c['expire'] = 3600
    people(g, p, 3, 3)
    registry(g, p, 2)
    su = p['setup']
    mode = g.randrange(6)
    if mode == 1:
        c['db_pa'] = 'padb'
    elif mode == 2:
        c['db_aa'] = 'aadb'
    elif mode == 3:
        c['db_aa'], c['db_pa'] = 'aadb', 'padb'
    elif mode == 4:
        c['db_aa'], c['db_pa'] = 'one', 'one'
    elif mode == 5:
        c['db_aa'], c['db_pa'] = 'aadb', 'padb'
    if mode in (1, 2, 3, 5) and g.maybe(0.75):
        su['decoy'] = dict(users=[dict(id=u['id'], username=u['username'], password='decoy-pw') for u in su['users']] +
                           [dict(id=77, username='ghost', password='ghost-pw')],
                           registry=[reg_entry('hgabac://decoy', 6, 5, 'D', 'http://d/')] +
                           [reg_entry(r['uid'], 6, 1) for r in su['registry'][1:2]])
        su['decoy_default'] = mode in (3, 5)
    if g.maybe(0.4):
        for k in ('en_aa', 'en_pa', 'en_default'):
            v = g.choice((None, None, 'True', 'False', 'true', 'FALSE', 'TRUE', 'tRuE', 'fAlSe', 'off', 'no', '0'))
            if v is not None:
                c[k] = v
    o = Ops(g, p)
    for k in range(g.randrange(1, 4)):
        a = o.actor('u%d' % k)
        for _ in range(g.randrange(2, 6)):
            q = g.random()
            if q < 0.3:
                o.attr(a)
            elif q < 0.4:
                o.attr(a, pw='decoy-pw')
            elif q < 0.45:
                o.attr(a, uname='ghost', pw='ghost-pw')
            elif q < 0.65:
                o.sess(a, [o.cert(dict(mint=mint(g, p, 's%d' % o.n, before=9000)))])
            elif q < 0.75:
                o.sess(a, [o.cert(dict(mint=mint(g, p, 's%d' % o.n, reg_entry('hgabac://decoy', 6), before=9000)))])
            elif q < 0.8:
                o.sess(a, [o.cert(dict(mint=mint(g, p, 's%d' % o.n, dict(su['registry'][1], key=6), before=9000)))])
            elif q < 0.9:
                o.add(a, 'list')
            else:
                o.add(a, g.choice(('info_aa', 'info_pa')))
    if g.maybe(0.35):
        o.add(o.actor('sup', g.choice((0.0, 0.01, 0.05))), 'crash')
    schedule(g, p, 0.5)
    faults(g, p, o, ('db', 'crash', 'exc', 'net'), free=0.6, directed=0.25)


GEN = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13,
           C14=c14, C15=c15, C16=c16, C17=c17)
