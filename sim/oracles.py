"""Judges over the recorded history. Every judge states only what the property text states."""
import base64
import calendar
import hashlib
import ipaddress
import os

from . import boot, core, refcert, seams, world

CON = '/attribute/connection/'
TYPES = {'NULL': 0, 'INT': 1, 'FLOAT': 2, 'STRING': 3, 'BOOL': 4, 'SET': 5}
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
          'December']


# ------------------------------------------------------------------ helpers
def ok(rec):
    return rec['outcome'] is not None and rec['outcome'][0] == 'result'


def refused(rec):
    return rec['outcome'] is not None and rec['outcome'][0] == 'fault'


def clean(rec):
    """Nothing failed while this request was handled, so it must have been answered properly."""
    return rec['started'] and not rec['crashed'] and not rec['faults'] and not rec['natural']


def settle(w):
    """A duplicate row excuses a refusal only where another request could have stored that row meanwhile."""
    for r in w.recs:
        if 'integrity' not in r['natural'] or r['method'] != 'start_session':
            continue
        for o in w.recs:
            if o is not r and o['started'] and o['method'] == r['method'] and \
                    o['seq0'] <= (r['seq1'] or 1 << 60) and r['seq0'] <= (o['seq1'] or 1 << 60):
                break
        else:
            r['natural'] = [x for x in r['natural'] if x != 'integrity']


def recs(w, method):
    return [r for r in w.recs if r['method'] == method and r['started']]


def where(rec):
    return '%s.x%d (%s)' % (rec['op']['id'], rec['k'], rec['method'])


def show(rec):
    o = rec['outcome']
    if o is None:
        return 'no answer'
    if o[0] == 'fault':
        return 'fault %s' % (o[2],)
    return o[0]


def aa_window(w, rec):
    a, b = rec['dbver0'][0], rec.get('dbver1', (len(w.aa_versions) - 1,))[0]
    return w.aa_versions[a:b + 1]


def pa_window(w, rec):
    a, b = rec['dbver0'][1], rec.get('dbver1', (0, len(w.pa_versions) - 1))[1]
    return w.pa_versions[a:b + 1]


def int_seconds(rec):
    """Closed ranges of whole seconds the service's clock showed during the request."""
    return [(int(a), int(b)) for a, b in rec['clock']]


def in_clock(rec, value):
    return any(a <= value <= b for a, b in int_seconds(rec))


def user_of(version, name):
    for uid, (n, pw) in version[1].items():
        if name is not None and n == name.lower():
            return uid, pw
    return None, None


def creds_ok(version, op):
    """Does this state of the database authenticate the request?"""
    if op.get('ctype', 0) != 0 or op.get('user') is None or op.get('pw') is None:
        return False
    uid, pw = user_of(version, op['user'])
    return uid is not None and pw == op['pw']


def wanted(op):
    ids = [x for x in (op.get('ids') or []) if x not in (None, '', '*')]
    names = [x for x in (op.get('names') or []) if x not in (None, '', '*')]
    return ids, names


def expected_atts(version, op):
    """id -> (name, type, value), or None if something requested is not held."""
    uid, _ = user_of(version, op['user'])
    if uid is None:
        return None
    held = {att: (version[2][att][0], version[2][att][1], v) for (u, att), v in version[3].items() if u == uid}
    ids, names = wanted(op)
    if not ids and not names:
        return held
    out = {}
    for i in ids:
        if i not in held:
            return None
        out[i] = held[i]
    for n in names:
        m = [i for i in held if held[i][0] == n]
        if not m:
            return None
        out[m[0]] = held[m[0]]
    return out


def cert_of(rec):
    """The decoded certificate of a successful attribute request, or an error text."""
    o = rec['outcome'][1]
    if not isinstance(o, dict) or not isinstance(o.get('data'), bytes):
        return None, 'the answer carries no certificate'
    raw = refcert.unexport(o['data'], o.get('format', 0))
    try:
        return refcert.decode(raw), None
    except (refcert.Bad, TypeError) as e:
        return None, 'the certificate cannot be decoded (%s)' % e


def user_atts(c):
    return [a for a in c['atts'] if not a['id'].startswith(CON)]


# ----------------------------------------------------------------------- C01
def c01(w):
    for r in recs(w, 'attribute_request'):
        op = r['op']
        win = aa_window(w, r)
        w.sim.hit('c01-' + ('ok' if ok(r) else 'refused'))
        if ok(r):
            if not any(creds_ok(v, op) for v in win):
                w.fail('unauthenticated', '%s: answered with a certificate although the credentials (%r, %r, type %r) were '
                       'never valid during the request' % (where(r), op.get('user'), op.get('pw'), op.get('ctype', 0)))
        else:
            left = [p for p in r['written'] if '/attribute_certificates' in p or p.endswith('.ac')]
            auth = any(creds_ok(v, op) for v in win)
            if left and not auth:
                w.fail('archived-unauthenticated', '%s: unauthenticated request left %s in the archive'
                       % (where(r), os.path.basename(left[0])))
            if clean(r) and all(creds_ok(v, op) and fits(expected_atts(v, op)) for v in win):
                w.fail('valid-refused', '%s: valid credentials refused although nothing failed: %s' % (where(r), show(r)))
            if refused(r):
                for blob in blobs(r['outcome'][1]):
                    if looks_like_cert(blob):
                        w.fail('fault-carries-certificate', '%s: the fault carries a certificate' % where(r))


def blobs(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from blobs(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from blobs(v)
    elif isinstance(x, (bytes, bytearray)):
        yield bytes(x)
    elif isinstance(x, str):
        yield x.encode('utf-8', 'replace')


def looks_like_cert(b):
    for raw in (b, refcert.unexport(b, 3), refcert.unexport(b, 4)):
        if raw and len(raw) > 100:
            try:
                refcert.decode(raw)
                return True
            except refcert.Bad:
                pass
    return False


# ----------------------------------------------------------------------- C02
def norm_val(v):
    return ('None', '') if v is None else (str(v),)


def c02(w):
    for r in recs(w, 'attribute_request'):
        op = r['op']
        win = aa_window(w, r)
        if not ok(r):
            left = [p for p in r['written'] if p.endswith('.ac')]
            if left and not r['faults'] and not r['crashed'] and not r['natural'] and \
                    all(expected_atts(v, op) is None for v in win):
                w.fail('unheld-archived', '%s: a request for an attribute not held left a certificate' % where(r))
            if clean(r) and all(creds_ok(v, op) and fits(expected_atts(v, op)) for v in win):
                w.fail('held-refused', '%s: request for held attributes refused although nothing failed: %s'
                       % (where(r), show(r)))
            continue
        c, err = cert_of(r)
        if err:
            w.fail('undecodable', '%s: %s' % (where(r), err))
            continue
        got = user_atts(c)
        w.sim.hit('c02-certs')
        w.sim.hit('c02-atts', len(got))
        why = []
        for v in win:
            exp = expected_atts(v, op)
            if exp is None:
                why.append('an attribute not held was granted')
                continue
            why.append(diff_atts(got, exp))
            if why[-1] is None:
                break
        else:
            w.fail('wrong-attributes', '%s by %r asking ids=%r names=%r: %s' % (where(r), op['user'], op.get('ids'),
                                                                              op.get('names'), why[-1] if why else '-'))


def fits(exp):
    """Whether the certificate format can hold these attributes."""
    return exp is not None and all(len(str(v).encode()) <= 65535 for _, _, v in exp.values())


def diff_atts(got, exp):
    seen = set()
    for a in got:
        if a['id'] in seen:
            return 'attribute %r twice' % a['id']
        seen.add(a['id'])
        if a['id'] not in exp:
            return 'extra attribute %r=%r' % (a['id'], a['value'])
        n, t, v = exp[a['id']]
        if a['name'] != n or a['type'] != TYPES[t]:
            return 'attribute %r has name %r type %d, expected %r %s' % (a['id'], a['name'], a['type'], n, t)
        if a['value'] not in norm_val(v):
            return 'attribute %r has value %.200r, assigned is %.200r' % (a['id'], a['value'], v)
    if set(exp) - seen:
        return 'missing attribute %r' % sorted(set(exp) - seen)[0]
    return None


# ----------------------------------------------------------------------- C03
def base_url(w):
    return 'http://%s:%s/' % (w.conf['host'].strip() or 'localhost', w.conf['port'])


def c03(w):
    serials = {}
    for r in recs(w, 'attribute_request'):
        op = r['op']
        if not ok(r):
            if clean(r) and all(creds_ok(v, op) and expected_atts(v, op) is not None for v in aa_window(w, r)):
                w.fail('valid-refused', '%s from %r refused although nothing failed: %s' % (where(r), op.get('addr'), show(r)))
            continue
        c, err = cert_of(r)
        if err:
            w.fail('undecodable', '%s: %s' % (where(r), err))
            continue
        w.sim.hit('c03-certs')
        why = describe(w, r, c)
        if why:
            w.fail('untruthful', '%s: %s' % (where(r), why))
        if c['info']['serial'] in serials:
            w.fail('serial-reused', '%s: serial already used by %s' % (where(r), serials[c['info']['serial']]))
        serials[c['info']['serial']] = where(r)


def describe(w, r, c):
    op, conf = r['op'], w.conf
    i, h = c['issuer'], c['holder']
    aurl = base_url(w) + 'AttributeAuthority/jsonwsp/'
    for k, e in (('uid', conf['a_uri']), ('name', conf['aauth_id']), ('url', aurl)):
        if i[k] != e:
            return 'issuer %s is %r, configured is %r' % (k, i[k], e)
    if not refcert.same_key(i['pub_key'], w.aa_pub):
        return 'issuer key is not the key of the authority'
    if not (refcert.verifies(c, w.aa_pub)):
        return 'the signature does not verify under the authority\'s key'
    if h['name'].lower() != op['user'].lower():
        return 'holder is %r, the request was by %r' % (h['name'], op['user'])
    if h['uid'].lower() != ('%s/user/%s' % (conf['a_uri'], op['user'])).lower():
        return 'holder uid is %r' % h['uid']
    sent = world.pub_text(op) if op.get('via') != 'client' else r['args']['user_public_key']['public_key'].encode()
    if h['pub_key'] != sent:
        return 'holder key is not the key sent in the request'
    iss = c['info']['issued']
    if not in_clock(r, iss):
        return 'issue time %d is not a time of the request %s' % (iss, int_seconds(r))
    if c['rev']['valid_after'] != iss or c['rev']['valid_before'] != iss + conf['expire']:
        return 'validity (%d, %d) is not the issue time %d plus %d' % (c['rev']['valid_after'], c['rev']['valid_before'], iss,
                                                                      conf['expire'])
    if c['info']['version'] != 1 or c['info']['serial'] >= 1 << 160:
        return 'bad version or serial'
    con = {}
    for a in c['atts']:
        if a['id'].startswith(CON):
            n = a['id'][len(CON):]
            if n in con:
                return 'connection attribute %s appears twice' % n
            if a['name'] != n:
                return 'connection attribute %s is named %r' % (n, a['name'])
            con[n] = a
    exp = {}
    ex = r['exports']
    for var in ('REMOTE_ADDR', 'REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER'):
        if var in ex:
            exp[var.lower()] = (3, ex[var])
    addr = ex['REMOTE_ADDR']
    if ':' in addr:
        exp['ip_v4'], exp['ip_v6'] = (4, 'False'), (4, 'True')
        n = int(ipaddress.IPv6Address(addr.split('%')[0]))
        for k in range(8):
            exp['remote_addr_v6_hex%d' % k] = (1, str(n >> (16 * (7 - k)) & 0xffff))
    else:
        exp['ip_v4'], exp['ip_v6'] = (4, 'True'), (4, 'False')
        n = int(ipaddress.IPv4Address(addr))
        for k in range(4):
            exp['remote_addr_v4_oct%d' % k] = (1, str(n >> (8 * (3 - k)) & 0xff))
    exp['auth_method'] = (1, str(op.get('ctype', 0)))
    exp['pub_key'] = (3, base64.b64encode(sent).decode())
    ka = r['args']['user_public_key']['key_algorithm']
    exp['pub_key_size'] = (1, str(ka['key_size']))
    exp['pub_key_algo'] = (3, ka['cipher'])
    exp['aauth_uid'] = (3, conf['a_uri'])
    exp['aauth_name'] = (3, conf['aauth_id'])
    exp['aauth_url'] = (3, aurl)
    exp['aauth_pub_key'] = (3, base64.b64encode(w.aa_pub).decode())
    exp['aauth_pub_key_size'] = (1, '1024')
    exp['aauth_pub_key_algo'] = (3, 'RSA')
    exp['aauth_version'] = (1, '1')
    exp['ac_version'] = (1, '1')
    exp['session_id'] = (1, str(c['info']['serial']))
    exp['session_length'] = (1, str(conf['expire']))
    if 'con_time' not in con:
        return 'con_time is missing'
    try:
        t = int(con['con_time']['value'])
    except ValueError:
        return 'con_time is %r' % con['con_time']['value']
    if not in_clock(r, t):
        return 'con_time %d is not a time of the request %s' % (t, int_seconds(r))
    g = core.REAL_GMTIME(t)
    exp['con_time'] = (1, str(t))
    for n, v in (('month', g.tm_mon), ('day', g.tm_mday), ('weekday', g.tm_wday), ('year', g.tm_year), ('yearday', g.tm_yday),
                 ('hour', g.tm_hour), ('min', g.tm_min), ('sec', g.tm_sec)):
        exp['con_time_' + n] = (1, str(v))
    exp['con_time_weekdayname'] = (3, DAYS[g.tm_wday])
    exp['con_time_monthname'] = (3, MONTHS[g.tm_mon - 1])
    exp['con_time_zone'] = (3, 'GMT')
    exp['con_time_dst'] = (4, 'False')
    for n, (t, v) in exp.items():
        if n not in con:
            return 'connection attribute %s is missing' % n
        if con[n]['type'] != t or con[n]['value'] != v:
            return 'connection attribute %s is %r (type %d), expected %r (type %d)' % (n, con[n]['value'], con[n]['type'], v, t)
    return None


# ----------------------------------------------------------------------- C04
def archive_one(w, rec, when):
    o = rec['outcome'][1]
    data = o.get('data') if isinstance(o, dict) else None
    if not isinstance(data, bytes):
        w.fail('no-certificate', '%s: the answer carries no certificate' % where(rec))
        return
    c, err = cert_of(rec)
    if err:
        w.fail('incomplete-answer', '%s: %s (%d bytes)' % (where(rec), err, len(data)))
        return
    name = ('0x%0.2X.ac' % c['info']['serial'])[2:]
    found = False
    for d, _, names in os.walk(w.ov):
        if name in names:
            found = True
            with seams._io_open(os.path.join(d, name), 'rb') as f:
                b = f.read()
            w.sim.hit('archive-compared')
            if b != data:
                w.fail('archive-differs', '%s: archive file %s differs from the answer %s (%d and %d bytes)'
                       % (where(rec), name, when, len(b), len(data)))
    if not found:
        w.fail('not-archived', '%s: no archive file %s %s' % (where(rec), name, when))


def c04(w):
    w.check_archives()
    for p, data in sorted(w.archived.items()):        # what was answered before this run began
        try:
            with seams._io_open(p, 'rb') as f:
                b = f.read()
        except OSError:
            w.fail('archive-lost', 'the archive file %s of an earlier certificate is gone' % os.path.basename(p))
            break
        if b != data:
            w.fail('archive-changed', 'the archive file %s of an earlier certificate was changed' % os.path.basename(p))
            break
    if w.archived:
        w.sim.hit('earlier-archive-compared', len(w.archived))
    seen = {}
    for r in recs(w, 'attribute_request'):
        if ok(r):
            c, err = cert_of(r)
            if err:
                continue
            s = c['info']['serial']
            if s in seen:
                w.fail('serial-shared', '%s and %s share a serial' % (where(r), seen[s]))
            seen[s] = where(r)
            # the content must be the complete certificate that was signed
            if not refcert.verifies(c, w.aa_pub):
                w.fail('answer-not-signed', '%s: the answered certificate does not verify' % where(r))
        elif clean(r) and all(creds_ok(v, r['op']) and expected_atts(v, r['op']) is not None for v in aa_window(w, r)):
            w.fail('valid-refused', '%s: refused although nothing failed: %s' % (where(r), show(r)))


# -------------------------------------------------------------- PA acceptance
def presented(w, rec):
    """[(spec, raw, decoded or None)] of what a session request presented."""
    out = []
    for c in w.presented.get(rec['op']['id'], ()):
        raw = refcert.unexport(c['data'], c['format'])
        d = None
        if raw is not None:
            try:
                d = refcert.decode(raw)
            except refcert.Bad:
                d = None
        out.append((c, raw, d))
    return out


def signed_by(d, pem):
    if refcert.verifies(d, pem):
        return True
    x = {k: d[k] for k in ('issuer', 'holder', 'atts', 'rev', 'del', 'ext')}
    x['info'] = {k: v for k, v in d['info'].items() if k != 'serial_bytes'}
    try:
        body = refcert.encode_body(x)
    except (ValueError, OverflowError):
        return False
    return refcert.verifies(dict(d, body=body), pem)


def trusted_in(version, d):
    r = version[1].get(d['issuer']['uid'])
    return r is not None and r['trust'] > 0 and signed_by(d, r['pub_key'].encode())


def fully_valid(w, rec, need_time=True):
    """Certificates of the set are unaltered, trusted throughout, valid throughout, well-formed and not colliding."""
    ps = presented(w, rec)
    if not ps:
        return False
    serials = set()
    for c, raw, d in ps:
        if d is None or c['format'] not in (0, 3, 4) or c['version'] != 1 or c['altered']:
            return False
        if d['info']['serial'] in serials:
            return False
        serials.add(d['info']['serial'])
        if not all(trusted_in(v, d) for v in pa_window(w, rec)):
            return False
        if not refcert.same_key(d['issuer']['pub_key'], pa_window(w, rec)[0][1][d['issuer']['uid']]['pub_key'].encode()):
            return False
        for a, b in int_seconds(rec):
            if not (d['rev']['valid_after'] < a and b < d['rev']['valid_before']):
                return False
        if serial_taken(w, rec, d, c):
            return False
    return True


def serial_taken(w, rec, d, c):
    """Has any request of the run presented something else under this serial?"""
    for op_id, lst in w.presented.items():
        for o in lst:
            if o['data'] == c['data'] and o['format'] == c['format']:
                continue
            raw = refcert.unexport(o['data'], o['format'])
            try:
                if raw is not None and refcert.decode(raw)['info']['serial'] == d['info']['serial']:
                    return True
            except refcert.Bad:
                pass
    return False


def positive(w, prop_text, cls='valid-refused'):
    for r in recs(w, 'start_session'):
        if not ok(r) and clean(r) and fully_valid(w, r):
            w.fail(cls, '%s: %s: %s' % (where(r), prop_text, show(r)))
        if ok(r):
            w.sim.hit('sessions-started')
        else:
            w.sim.hit('sessions-refused')


def c05(w):
    for r in recs(w, 'start_session'):
        if not ok(r):
            continue
        for k, (c, raw, d) in enumerate(presented(w, r)):
            if d is None:
                w.fail('altered-accepted', '%s: session started on certificate %d that does not even decode' % (where(r), k))
                continue
            keys = [d['issuer']['pub_key']]
            for v in w.pa_versions:
                x = v[1].get(d['issuer']['uid'])
                if x:
                    keys.append(x['pub_key'].encode())
            if not any(signed_by(d, kk) for kk in keys):
                w.fail('altered-accepted', '%s: session started on certificate %d whose content its issuer did not sign'
                       % (where(r), k))
            if c['altered']:
                w.sim.hit('altered-but-equal-accepted')
    for r in recs(w, 'start_session'):
        if any(c['altered'] for c, _, _ in presented(w, r)):
            w.sim.hit('altered-presented')
    positive(w, 'unaltered certificates refused')


def c06(w):
    for r in recs(w, 'start_session'):
        if not ok(r):
            continue
        for k, (c, raw, d) in enumerate(presented(w, r)):
            if d is None or not any(trusted_in(v, d) for v in pa_window(w, r)):
                w.fail('untrusted-accepted', '%s: session started on certificate %d (issuer %r) that no trusted authority\'s '
                       'registered key signed' % (where(r), k, d and d['issuer']['uid']))
    positive(w, 'certificates of trusted authorities refused')


def c07(w):
    for r in recs(w, 'start_session'):
        if ok(r):
            for k, (c, raw, d) in enumerate(presented(w, r)):
                if d is None:
                    continue
                lo, hi = d['rev']['valid_after'], d['rev']['valid_before']
                if not any(max(a, lo + 1) <= min(b, hi - 1) for a, b in int_seconds(r)):
                    w.fail('invalid-time-accepted', '%s: session started on certificate %d valid (%d,%d) at %s'
                           % (where(r), k, lo, hi, int_seconds(r)))
        elif clean(r) and fully_valid(w, r):
            w.fail('valid-time-refused', '%s: certificates inside their validity throughout %s were refused: %s'
                   % (where(r), int_seconds(r), show(r)))
        for c, raw, d in presented(w, r):
            if d is not None:
                lo, hi = d['rev']['valid_after'], d['rev']['valid_before']
                for a, b in int_seconds(r):
                    if min(abs(a - lo), abs(a - hi), abs(b - lo), abs(b - hi)) <= 1:
                        w.sim.hit('near-validity-bound')


def c08(w):
    snap = w.snapshot_pa()
    for r in recs(w, 'start_session'):
        if not ok(r):
            if clean(r) and fully_valid(w, r):
                w.fail('valid-refused', '%s: refused although nothing failed: %s' % (where(r), show(r)))
            continue
        o = r['outcome'][1]
        ds = [d for _, _, d in presented(w, r)]
        if not ds or None in ds:
            continue
        mn = min(d['rev']['valid_before'] for d in ds)
        mx = max(d['info']['issued'] for d in ds)
        st, end = o.get('start'), o.get('valid_till')
        w.sim.hit('c08-sessions')
        if len(ds) > 1:
            w.sim.hit('c08-multi')
        if not isinstance(st, int) or not in_clock(r, st):
            w.fail('wrong-start', '%s: session start %r is not a time of the request %s' % (where(r), st, int_seconds(r)))
            continue
        if end != min(st + 86400, mn):
            w.fail('wrong-end', '%s: session end %r, expected %d (start %d, earliest certificate end %d)'
                   % (where(r), end, min(st + 86400, mn), st, mn))
        row = snap and snap[0].get(sid_b64(o.get('session_id')))
        if snap is not None and row is None:
            w.fail('not-stored', '%s: the session is not stored' % where(r))
        elif row is not None:
            if (row[2], row[5]) != (st, end):
                w.fail('stored-differs', '%s: stored start/end %r differ from the answer %r' % (where(r), (row[2], row[5]), (st, end)))
            if (row[0], row[1]) != (mx, mn):
                w.fail('stored-bounds', '%s: stored certificate bounds %r, expected %r' % (where(r), (row[0], row[1]), (mx, mn)))


def sid_b64(n):
    try:
        return base64.b64encode(n.to_bytes(20, 'little')).decode()
    except (AttributeError, OverflowError):
        return None


# --------------------------------------------------------------- C09/10/11/12
def store(w, snap, when):
    """Invariants of the policy authority's store, at any instant."""
    ses, certs, links = snap
    w.sim.hit('store-checked')
    by_uid = {}
    for op in w.ops.values():
        if op['op'] == 'sess':
            by_uid[op['uid']] = op
    linked = {}
    for serial, sid in links:
        linked.setdefault(sid, set()).add(serial)
        if w.prop == 'C09':
            if sid not in ses:
                w.fail('partial', '%s: link to a session that does not exist' % when)
            if serial not in certs:
                w.fail('partial', '%s: link to a certificate that does not exist' % when)
    used = set(s for s, _ in links)
    if w.prop == 'C09':
        for serial in certs:
            if serial not in used:
                w.fail('orphan-certificate', '%s: a certificate is stored without a session' % when)
    per_op = {}
    for sid, row in ses.items():
        op = by_uid.get(row[4])
        if op is None:
            if w.prop in ('C09', 'C10'):
                w.fail('foreign-session', '%s: stored session with service id %r that no request gave' % (when, row[4]))
            continue
        per_op.setdefault(op['id'], []).append(sid)
        exp = w.presented_map(op['id'])
        if exp is None:
            if w.prop == 'C09':
                w.fail('bad-session', '%s: session stored for %s, which presented an undecodable certificate' % (when, op['id']))
            continue
        got = linked.get(sid, set())
        if got != set(exp):
            if w.prop in ('C09', 'C10', 'C12'):
                w.fail('wrong-links', '%s: session of %s is linked to %d certificates, presented were %d (%d in common)'
                       % (when, op['id'], len(got), len(exp), len(got & set(exp))))
            continue
        for s, (data, fmt, ver, d) in exp.items():
            row2 = certs.get(s)
            if row2 is None:
                continue
            if w.prop == 'C10' and (bytes(row2[0]) != data or row2[1] != fmt or row2[2] != ver or
                                    row2[3] != d['rev']['valid_before']):
                w.fail('stored-differs', '%s: certificate stored for session of %s is not byte for byte the one presented'
                       % (when, op['id']))
    for op_id, sids in per_op.items():
        n = w.execs.get(op_id, 0)
        if len(sids) > n and w.prop in ('C09', 'C12'):
            w.fail('extra-session', '%s: %d sessions stored for %d deliveries of %s' % (when, len(sids), n, op_id))
    for serial, row in certs.items():
        h = base64.b64encode(hashlib.sha256(bytes(row[0])).digest()).decode()
        if w.prop == 'C11' and row[4] != h:
            w.fail('wrong-digest', '%s: recorded digest is not the SHA-256 of the stored certificate' % when)
        first = w.first_rows.setdefault(serial, tuple(row)) if hasattr(w, 'first_rows') else None
        if first is None:
            w.first_rows = {serial: tuple(row)}
        elif w.prop in ('C11', 'C10') and first != tuple(row):
            w.fail('stored-changed', '%s: a stored certificate was changed' % when)
    if hasattr(w, 'first_rows') and w.prop in ('C11', 'C10'):
        for serial in w.first_rows:
            if serial not in certs:
                w.fail('stored-vanished', '%s: a stored certificate vanished' % when)
    if hasattr(w, 'seen_sessions'):
        for sid, row in w.seen_sessions.items():
            if sid not in ses:
                if w.prop in ('C10', 'C12'):
                    w.fail('session-vanished', '%s: a committed session vanished' % when)
            elif ses[sid] != row and w.prop in ('C10', 'C12'):
                w.fail('session-overwritten', '%s: a committed session was changed' % when)
    w.seen_sessions = dict(ses)


def acks(w, snap):
    ses, certs, links = snap
    for r in w.acks:
        o = r['outcome'][1]
        sid = sid_b64(o.get('session_id'))
        row = ses.get(sid)
        if row is None:
            if w.prop in ('C10', 'C09'):
                w.fail('ack-lost', '%s: acknowledged session is not in the store' % where(r))
            elif w.prop == 'C12':
                w.fail('id-mismatch', '%s: the identifier answered is not stored' % where(r))
            continue
        if w.prop == 'C10':
            if row[4] != r['op']['uid'] or row[3] != r['exports']['REMOTE_ADDR']:
                w.fail('ack-altered', '%s: stored service id/address %r, request had %r' % (
                    where(r), (row[4], row[3]), (r['op']['uid'], r['exports']['REMOTE_ADDR'])))
            exp = w.presented_map(r['op']['id'])
            got = set(s for s, x in links if x == sid)
            if exp is not None and got != set(exp):
                w.fail('ack-links', '%s: acknowledged session is linked to other certificates than presented' % where(r))
            for s in got:
                if exp and s in exp and (s not in certs or bytes(certs[s][0]) != exp[s][0] or certs[s][1] != exp[s][1]):
                    w.fail('ack-bytes', '%s: certificate of the acknowledged session is not stored as presented' % where(r))
        if w.prop == 'C12' and row[4] != r['op']['uid']:
            w.fail('mixed', '%s: the session stored under its identifier belongs to %r' % (where(r), row[4]))


def final_counts(w, snap):
    """Per operation: sessions stored agree with what its deliveries ended in."""
    ses = snap[0]
    by_uid = {}
    for sid, row in ses.items():
        by_uid.setdefault(row[4], []).append(sid)
    for op in w.ops.values():
        if op['op'] != 'sess':
            continue
        rs = [r for r in w.recs if r['op']['id'] == op['id'] and r['started']]
        lo = sum(1 for r in rs if ok(r))
        amb = sum(1 for r in rs if not ok(r) and (r['crashed'] or 'commit-error-with-effect' in r['faults'] or
                                                  'memory-error' in r['faults'] or r['outcome'] is None))
        # the answer may also fail after a commit that took effect when a later step failed
        amb += sum(1 for r in rs if not ok(r) and r['faults'] and not r['crashed'] and
                   'commit-error-with-effect' not in r['faults'] and 'memory-error' not in r['faults'] and
                   r['outcome'] is not None)
        n = len(by_uid.get(op['uid'], ()))
        if not lo <= n <= lo + amb:
            yield op, n, lo, amb


def c09(w):
    snap = w.snapshot_pa()
    if snap is None:
        return
    store(w, snap, 'in the end')
    for op, n, lo, amb in final_counts(w, snap):
        w.fail('refused-but-stored' if n > lo + amb else 'started-not-stored',
               '%s: %d sessions stored, %d deliveries were answered with a session and %d more may have taken effect'
               % (op['id'], n, lo, amb))
    for r in recs(w, 'start_session'):
        if not ok(r):
            w.sim.hit('c09-refused')
            continue
        ps = presented(w, r)
        if not ps:
            w.fail('empty-accepted', '%s: a session started on an empty set' % where(r))
        for k, (c, raw, d) in enumerate(ps):
            why = None
            if d is None or c['format'] not in (0, 3, 4) or c['version'] != 1:
                why = 'malformed'
            elif not any(trusted_in(v, d) for v in pa_window(w, r)):
                why = 'not from a trusted authority'
            elif not any(max(a, d['rev']['valid_after'] + 1) <= min(b, d['rev']['valid_before'] - 1)
                         for a, b in int_seconds(r)):
                why = 'outside its validity'
            if why:
                w.fail('bad-member-accepted', '%s: session started although certificate %d is %s' % (where(r), k, why))
    positive(w, 'acceptable set refused')


def c10(w):
    snap = w.snapshot_pa()
    if snap is None:
        return
    store(w, snap, 'in the end')
    acks(w, snap)
    for op, n, lo, amb in final_counts(w, snap):
        w.fail('effect-mismatch', '%s: %d sessions stored, %d acknowledged by the service, %d may have taken effect'
               % (op['id'], n, lo, amb))
    positive(w, 'acceptable request not acknowledged')
    # an answer that reached the caller is one the service gave
    for op_id, a in w.answers.items():
        op = w.ops.get(op_id)
        if op and op['op'] == 'sess' and a[0] == 'ok' and isinstance(a[1], dict):
            if snap[0].get(sid_b64(a[1].get('session_id'))) is None and not any(
                    k.startswith('net-') for k in w.sim.fault_counts):
                w.fail('ack-lost', '%s: the caller was told of a session that is not in the store' % op_id)


def c11(w):
    snap = w.snapshot_pa()
    if snap is None:
        return
    store(w, snap, 'in the end')
    # order of completion: a later request presenting another certificate under a stored serial must be refused
    bound = {}
    for r in sorted((r for r in recs(w, 'start_session') if ok(r)), key=lambda r: r['seq1']):
        for c, raw, d in presented(w, r):
            if d is None:
                continue
            s = d['info']['serial']
            if s in bound and bound[s][0] != raw:
                w.fail('serial-rebound', '%s: accepted another certificate under the serial of %s' % (where(r), bound[s][1]))
            bound.setdefault(s, (raw, where(r)))
    n = {}
    for r in recs(w, 'start_session'):
        for c, raw, d in presented(w, r):
            if d is not None:
                n.setdefault(d['info']['serial'], set()).add(c['data'])
    if any(len(v) > 1 for v in n.values()):
        w.sim.hit('c11-collision-presented')
    if snap is not None:
        for r in recs(w, 'start_session'):
            if ok(r):
                for c, raw, d in presented(w, r):
                    row = d and snap[1].get(base64.b64encode(d['info']['serial'].to_bytes(20, 'little')).decode())
                    if d is not None and row is None:
                        w.fail('not-stored', '%s: presented certificate is not stored under its serial' % where(r))
                    elif d is not None and bytes(row[0]) == c['data'] and \
                            row[4] != base64.b64encode(hashlib.sha256(c['data']).digest()).decode():
                        w.fail('wrong-digest', '%s: recorded digest is not the SHA-256 of the presented bytes' % where(r))
    positive(w, 'identical certificate refused', 'identical-refused')


def c12(w):
    snap = w.snapshot_pa()
    if snap is None:
        return
    store(w, snap, 'in the end')
    acks(w, snap)
    ids = {}
    vals = []
    for r in recs(w, 'start_session'):
        if not ok(r):
            continue
        sid = r['outcome'][1].get('session_id')
        if not isinstance(sid, int) or not 0 <= sid < 1 << 160:
            w.fail('bad-identifier', '%s: session identifier %r' % (where(r), sid))
            continue
        if sid in ids:
            w.fail('identifier-shared', '%s and %s were given the same identifier' % (where(r), ids[sid]))
        ids[sid] = where(r)
        vals.append(sid)
        drawn = b''.join(r['entropy'])
        if len(drawn) < 20:
            w.fail('no-entropy', '%s: only %d random bytes were drawn during the request' % (where(r), len(drawn)))
    if len(vals) >= 40 and not w.sim.fault_counts.get('rng-repeat'):
        w.sim.hit('c12-bits-checked')
        for b in range(160):
            if len(set(v >> b & 1 for v in vals)) < 2:
                w.fail('constant-bit', 'bit %d of the identifier was the same in all of %d sessions' % (b, len(vals)))
                break
        rows, full = {}, (1 << len(vals)) - 1
        for b in range(160):
            row = sum((v >> b & 1) << k for k, v in enumerate(vals))
            if row in rows:
                w.fail('tied-bits', 'bits %d and %d of the identifier were %s in all of %d sessions'
                       % (rows[row][0], b, rows[row][1], len(vals)))
                break
            rows[row], rows[row ^ full] = (b, 'equal'), (b, 'opposite')
    for op, n, lo, amb in final_counts(w, snap):
        w.fail('sessions-mixed', '%s: %d sessions stored, %d acknowledged, %d may have taken effect' % (op['id'], n, lo, amb))
    if not w.sim.fault_counts.get('rng-repeat'):
        positive(w, 'acceptable request refused')


# ----------------------------------------------------------------------- C13
def c13(w):
    for r in recs(w, 'trusted_attribute_authorities'):
        if not ok(r):
            if clean(r):
                w.fail('list-refused', '%s: refused although nothing failed: %s' % (where(r), show(r)))
            continue
        got = []
        try:
            for x in r['outcome'][1]['attribute_authorities']:
                got.append((x['uid'], x['name'], x['url'], x['public_key'], x['key_algorithm']['cipher'],
                            x['key_algorithm']['key_size'], x['trust_level']))
        except (KeyError, TypeError):
            w.fail('list-malformed', '%s: %r' % (where(r), r['outcome'][1]))
            continue
        w.sim.hit('c13-lists')
        if not any(sorted(map(str, got)) == sorted(str((x['uid'], x['name'], x['url'], x['pub_key'], x['cipher'], x['size'],
                                                        x['trust'])) for x in v[1].values()) for v in pa_window(w, r)):
            w.fail('list-wrong', '%s: the list is not a registry state of the request: got %s' % (
                where(r), [(g[0], g[6]) for g in got]))
    conf = w.conf
    rev = conf.get('rev')
    if rev is None or rev.strip() == '':
        rev = base_url(w) + 'AttributeAuthority/jsonwsp/revocation_list'
    exp_aa = dict(aauth_id=conf['aauth_id'], attribute_authority_version=1, attribute_certificate_version=1,
                  attribute_uri=conf['a_uri'], revocation_url=rev, public_key=w.aa_pub.decode(),
                  credential_types=[{'name': 'USER_PASS', 'value': 0}], key_algorithm={'cipher': 'RSA', 'key_size': 1024},
                  signature_type={'hash_algorithm': 'SHA256', 'signature_algorithm': 'RSASSA-PKCS1-v1_5'})
    exp_pa = dict(name=conf['pauth_name'], uid=conf['pauth_uid'], version=1, attribute_certificate_version=1,
                  url=base_url(w) + 'PolicyAuthority/jsonwsp/', policy_language_version=1)
    for r in recs(w, 'info'):
        exp = exp_aa if r['service'] == 'AttributeAuthority' else exp_pa
        if not ok(r):
            if clean(r):
                w.fail('info-refused', '%s: refused although nothing failed: %s' % (where(r), show(r)))
            continue
        w.sim.hit('c13-infos')
        if r['outcome'][1] != exp:
            d = [k for k in exp if not isinstance(r['outcome'][1], dict) or r['outcome'][1].get(k) != exp[k]]
            w.fail('info-wrong', '%s: %s differs: %r' % (where(r), d[:1], isinstance(r['outcome'][1], dict) and d and
                                                        r['outcome'][1].get(d[0])))
    for r in recs(w, 'attribute_request'):
        if ok(r):
            c, err = cert_of(r)
            if err or not refcert.verifies(c, w.aa_pub):
                w.fail('key-mismatch', '%s: the published key does not verify the issued certificate' % where(r))


# ----------------------------------------------------------------------- C14
LIVE_BOUND = 10.0        # simulated seconds; an undisturbed request takes a few milliseconds


def c14(w):
    if w.sim.deadlock or w.sim.over_steps:
        w.fail('stuck', 'the service stopped answering (%s)' % ('deadlock' if w.sim.deadlock else 'no progress'))
        return
    for op in w.plan.get('final') or ():
        if op.get('must'):
            a = w.answers.get(op['id'])
            if not a or a[0] != 'ok':
                last = [r for r in w.recs if r['op']['id'] == op['id']]
                w.fail('not-recovered', 'after failures stopped, %s %s did not succeed in %d attempts: %s'
                       % (op['op'], op['id'], op.get('retry', 1), show(last[-1]) if last else a))
                return
            w.sim.hit('c14-recovered')
    for r in w.recs:
        if r['phase'] == 'live' and r['started'] and ok(r) and r['now1'] - r['now0'] > LIVE_BOUND:
            w.fail('slow', '%s: after failures stopped, answered only after %.0f simulated seconds' % (where(r), r['now1'] - r['now0']))
    if w.lock_problem:
        w.fail('lock-held', 'after all requests ended: ' + w.lock_problem)


# ----------------------------------------------------------------------- C15
def needles(w):
    out = {}

    def add(what, s):
        if s and len(s) >= 8:
            b = s.encode('utf-8')
            out.setdefault(s, what)
            out.setdefault(base64.b64encode(b).decode().rstrip('=')[:-1], what + ' (base64)')
            out.setdefault(b.hex(), what + ' (hex)')
            out.setdefault(s[::-1], what + ' (reversed)')
    for u in w.setup['users']:
        add('password of ' + u['username'], u['password'])
    for op in list(w.ops.values()):
        if op['op'] == 'attr':
            add('password sent in ' + op['id'], op.get('pw'))
        if op['op'] == 'admin':
            add('password', op.get('pw'))
    add('password pepper', w.conf['pepper'])
    add('key passphrase', w.conf['key_pass'])
    k = boot.KEYS[w.setup['aa_key']]
    body = ''.join(boot.KEYS_PEM[w.setup['aa_key']].split('\n')[1:-1])
    for i in range(0, len(body) - 40, 40):
        out[body[i + 4:i + 36]] = 'authority private key (PEM)'
    pk8 = ''.join(k.export_key(pkcs=8).decode().split('\n')[1:-1])
    pub = base64.b64encode(k.publickey().export_key('DER')).decode()
    for i in range(280, len(pk8) - 40, 40):
        out[pk8[i + 4:i + 36]] = 'authority private key (PKCS8)'
    for n, v in (('d', k.d), ('p', k.p), ('q', k.q), ('dp', k.d % (k.p - 1)), ('dq', k.d % (k.q - 1))):
        out[str(v)] = 'authority private key'
        out['%x' % v] = 'authority private key'
    for x in [x for x in out if x in pub]:
        del out[x]
    return out


def texts(w):
    for line in boot.ROOT_CAPTURE.records:
        yield 'log record', line
    for _, lv, msg in seams.MemoryHandler.records:
        yield 'log file', msg
    for t in w.std:
        yield 'standard output', t
    for r in w.recs:
        o = r['outcome']
        if o is not None:
            for b in blobs(o[1]):
                yield ('fault text' if o[0] == 'fault' else 'answer') + ' of ' + where(r), b.decode('latin-1')
                if o[0] == 'result' and isinstance(b, bytes):
                    raw = b
                    try:
                        c = refcert.decode(raw)
                        for a in c['atts']:
                            yield 'certificate of ' + where(r), a['value']
                    except refcert.Bad:
                        pass
            for b in blobs(list(o[2] or ())):
                yield 'fault text of ' + where(r), b.decode('latin-1')
    for e in w.client_log:
        if e['exc']:
            yield 'client error', e['exc'][1]
    for d, _, names in os.walk(w.scratch):
        for n in names:
            p = os.path.join(d, n)
            if n.endswith('.ini') or n == 'aakey.bin' or n.endswith('.db') or '.db-' in n:
                continue
            with seams._io_open(p, 'rb') as f:
                yield 'file ' + n, f.read().decode('latin-1')


def c15(w):
    nd = needles(w)
    import re
    rx = re.compile('|'.join(re.escape(x) for x in sorted(nd, key=len, reverse=True)))
    n = 0
    seen = set()
    for what, text in texts(w):
        n += 1
        m = rx.search(text)
        if m:
            key = (what.split(' of ')[0], nd[m.group(0)])
            if key not in seen:
                seen.add(key)
                w.fail('leak', '%s contains the %s' % (what, nd[m.group(0)]))
    w.sim.hit('c15-texts', n)


# ----------------------------------------------------------------------- C16
def c16(w):
    for e in w.client_log:
        op = e['op']
        rs = [r for r in w.recs if r['op']['id'] == op['id'] and e['n0'] <= r['k'] < e['n1']]
        w.sim.hit('c16-%s-%s' % (e['kind'], 'error' if e['exc'] else 'result'))
        if e['exc'] is None:
            if e['decided'] not in (0, 3, 4):
                w.fail('false-success', '%s: the client returned a result although the answer was lost, broken, or an error '
                       '(transport decision %d)' % (op['id'], e['decided']))
                continue
            if not rs or not ok(rs[0]):
                w.fail('false-success', '%s: the client returned %r although the service did not answer successfully (%s)'
                       % (op['id'], type(e['result']).__name__, show(rs[0]) if rs else 'never reached'))
                continue
            if e['result'] != rs[0]['outcome'][1]:
                w.fail('wrong-result', '%s: the client returned something else than the answer' % op['id'])
            if e['kind'] == 'attr':
                c, err = cert_of(rs[0])
                k = e['after']
                if err:
                    continue
                try:
                    good = k is not None and k.has_private() and refcert.same_key(k.publickey().export_key(),
                                                                                c['holder']['pub_key'])
                except Exception:
                    good = False
                if not good:
                    w.fail('wrong-key', '%s: the remembered key is not the private key of the certificate\'s holder key' % op['id'])
            elif e['kind'] == 'info_aa' and e['after'] is not e['before']:
                w.fail('key-changed', '%s: the remembered key changed without an attribute request' % op['id'])
        elif e['kind'] == 'attr':
            if e['after'] is not e['before']:
                w.fail('key-changed', '%s: the remembered key changed although the request failed (%s)' % (op['id'], e['exc'][0]))
        elif e['kind'] == 'info_aa' and e['after'] is not e['before']:
            w.fail('key-changed', '%s: the remembered key changed' % op['id'])


# ----------------------------------------------------------------------- C17
def enabled(w, which):
    v = w.conf.get('en_' + which)
    if v is None:
        v = w.conf.get('en_default', 'True')
    return v.upper() == 'TRUE'


def c17(w):
    for r in w.recs:
        if not r['started']:
            continue
        which = 'aa' if r['service'] == 'AttributeAuthority' else 'pa'
        own = w.aa_db if which == 'aa' else w.pa_db
        en = enabled(w, which)
        for p in r['dbs']:
            if str(p) != own:
                w.fail('wrong-database', '%s: %s used %s instead of its own database %s' % (
                    where(r), r['service'], os.path.basename(str(p)), os.path.basename(own)))
        if not en and r['outcome'] is not None and r['outcome'][0] != 'notfound':
            w.fail('disabled-answers', '%s: %s is disabled but answered (%s)' % (where(r), r['service'], show(r)))
        if en and r['outcome'] is not None and r['outcome'][0] == 'notfound':
            w.fail('enabled-missing', '%s: %s is enabled but %s is not served' % (where(r), r['service'], r['method']))
        if r['method'] == 'attribute_request' and en:
            win = aa_window(w, r)
            if ok(r):
                c, err = cert_of(r)
                if not err and not any(creds_ok(v, r['op']) and expected_atts(v, r['op']) is not None and
                                       diff_atts(user_atts(c), expected_atts(v, r['op'])) is None for v in win):
                    w.fail('foreign-data', '%s: the certificate is not made from the authority\'s own database' % where(r))
            elif clean(r) and all(creds_ok(v, r['op']) and expected_atts(v, r['op']) is not None for v in win):
                w.fail('own-data-unused', '%s: user of the authority\'s own database refused: %s' % (where(r), show(r)))
        if r['method'] == 'start_session' and en:
            if ok(r):
                for c, raw, d in presented(w, r):
                    if d is None or not any(trusted_in(v, d) for v in pa_window(w, r)):
                        w.fail('foreign-registry', '%s: session started on trust not registered in its own database' % where(r))
            elif clean(r) and fully_valid(w, r):
                w.fail('own-registry-unused', '%s: refused although trusted in its own database: %s' % (where(r), show(r)))
        if r['method'] == 'trusted_attribute_authorities' and ok(r):
            uids = sorted(x['uid'] for x in r['outcome'][1]['attribute_authorities'])
            if not any(uids == sorted(v[1]) for v in pa_window(w, r)):
                w.fail('foreign-registry', '%s: lists authorities not registered in its own database' % where(r))
    # nothing of a session may be in any other database
    for p in sorted(set(os.path.join(w.st, n) for n in os.listdir(w.st) if n.endswith('.db'))):
        c = w.open_db(p)
        try:
            tabs = set(r[0] for r in c.execute("select name from sqlite_master where type='table'"))
            if p != w.pa_db and 'pauth_sessions' in tabs:
                for t in ('pauth_sessions', 'pauth_attribute_certificates', 'pauth_attribute_certificate_assignments'):
                    if c.execute('select count(*) from ' + t).fetchone()[0]:
                        w.fail('foreign-write', 'rows of %s were written into %s' % (t, os.path.basename(p)))
            exp_aa = w.setup.get('decoy', {}) or {}
            if p != w.aa_db and 'aauth_users' in tabs and exp_aa:
                n = c.execute('select count(*) from aauth_users').fetchone()[0]
                if n != len(exp_aa['users']):
                    w.fail('foreign-write', 'users changed in %s' % os.path.basename(p))
        finally:
            c.close()
    if set(os.listdir(w.st)) - w.st_files - {os.path.basename(p) + s for p in (w.aa_db, w.pa_db) for s in ('', '-journal', '-wal', '-shm')}:
        extra = sorted(set(os.listdir(w.st)) - w.st_files)
        w.fail('foreign-file', 'unexpected database file %s' % extra)
    acc = {}
    snap = w.snapshot_pa()
    if snap is not None:
        for r in recs(w, 'start_session'):
            if ok(r) and snap[0].get(sid_b64(r['outcome'][1].get('session_id'))) is None:
                w.fail('not-in-own', '%s: the session is not stored in the policy authority\'s own database' % where(r))


JUDGES = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12,
              C13=c13, C14=c14, C15=c15, C16=c16, C17=c17)


def judge(w):
    if w.startup_error and w.prop in ('C13', 'C14', 'C17'):
        w.fail('startup', 'the configured services do not come up: ' + w.startup_error)
    settle(w)
    JUDGES[w.prop](w)
