"""The certificate-library world: threads make, sign, export, import and verify attribute certificates in one process."""
import traceback

from Crypto.Hash import SHA256
from Crypto.Signature import pkcs1_15

from . import boot, langw, oracles, plans, refcert
from .core import SimKilled, SimStop, nopreempt
from .plans import G, seed_of
from .world import apply_mut

ALGO = 'RSASSA-PKCS1-v1_5:SHA256'
TEXTS = {'C23': ('not-exported', 'wrong-export', 'not-imported', 'misread', 'not-equal', 'changed', 'wrong-default', 'serial-reused', 'accepted-truncated',
                 'unexpected-error'),
         'C24': ('accepted-altered', 'wrong-verdict', 'refused-genuine', 'wrong-time', 'unexpected-error')}
_sigs = {}


def sig_value(body, key):
    k = (SHA256.new(body).digest(), key)
    if k not in _sigs:
        _sigs[k] = pkcs1_15.new(boot.KEYS[key]).sign(SHA256.new(body))
    return _sigs[k]


def short(c):
    return 'certificate %d of %r' % (c['info']['serial'] % 10 ** 6, c['holder']['uid'][:30])


class CertWorld(langw.LangWorld):
    def __init__(self, plan, scratch, replay=False):
        plan['setup'].setdefault('pols', {})
        plan['setup'].setdefault('atts', {})
        langw.LangWorld.__init__(self, plan, scratch, replay)
        self.sim.clock.targets = list(plan['setup'].get('targets', ()))
        self.shared = {}
        self.serials = {}
        self.kinds = TEXTS[self.prop]

    def fail(self, cls, detail):
        if cls in self.kinds:
            self.violations.append((self.prop, cls, detail))

    def import_code(self):
        boot.purge_modules()
        import hgaa.attcert as attcert
        self.M = attcert
        self.shared = {}
        for x in self.store.values():
            x['orig'] = None            # an object of the previous process

    def cert_source(self, key):
        x = self.store.get(key)
        return refcert.unexport(x['data'], x['fmt']) if x else None

    # ------------------------------------------------------------- expectations
    def body(self, c):
        try:
            return refcert.encode_body(c)
        except Exception:
            return None

    def expected(self, slot):
        b = self.body(slot['c'])
        if b is None:
            return None
        if slot['sig'] is None:
            return b + b'\0\0\0\0'
        body, key, algo = slot['sig']
        v = sig_value(body, key)
        a = algo.encode()
        return b + len(a).to_bytes(2, 'little') + len(v).to_bytes(2, 'little') + a + v

    def genuine(self, slot):
        if slot['sig'] is None or slot['sig'][2] == '':
            return False
        body, key, _ = slot['sig']
        return self.body(slot['c']) == body and refcert.same_key(slot['c']['issuer']['pub_key'], boot.PUBS[key])

    @staticmethod
    def read(o):
        """What a certificate object states (an absent text or list is an empty one)."""
        def s(x):
            return '' if x is None else x

        def b(x):
            return b'' if x is None else bytes(x)
        i, h, n, r = o.issuer, o.holder, o.info, o.rev_rules
        return dict(
            issuer=dict(pub_key=b(i.pub_key), key_algo=s(i.key_algo), uid=s(i.uid), name=s(i.name), url=s(i.url)),
            holder=dict(pub_key=b(h.pub_key), key_algo=s(h.key_algo), uid=s(h.uid), name=s(h.name)),
            info=dict(version=n.version, serial=n.serial, issued=n.issued),
            atts=[dict(id=s(a.att_id), type=a.att_type.value, value=s(a.att_value), name=s(a.att_name), extra=b(a.extra_bytes))
                  for a in o.att_set or ()],
            rev=dict(url=s(r.url), extra=b(r.extra_bytes), valid_after=r.valid_after, valid_before=r.valid_before),
            **{'del': b(o.del_rules.extra_bytes) if o.del_rules is not None else b'',
               'ext': [dict(eid=s(e.eid), extra=b(e.extra_bytes)) for e in o.extensions or ()]})

    @staticmethod
    def diff(a, b):
        for k in ('issuer', 'holder', 'info', 'atts', 'rev', 'del', 'ext'):
            x, y = a[k], b[k]
            if k == 'info':
                x, y = dict(x), dict(y)
                x.pop('serial_bytes', None)
                y.pop('serial_bytes', None)
            if x != y:
                if isinstance(x, list) and len(x) == len(y):
                    x, y = [(p, q) for p, q in zip(x, y) if p != q][0]
                return '%s is %s instead of %s' % (k, str(x)[:160], str(y)[:160])
        return None

    def unchanged(self, slot, when):
        d = self.diff(self.read(slot['o']), slot['c'])
        if d:
            self.fail('changed', '%s: %s: %s' % (short(slot['c']), when, d))
        return d is None

    # --------------------------------------------------------------- operations
    def op_make(self, op, st):
        M, sp = self.M, op['spec']
        st.pop(op['slot'], None)
        none = (lambda x: None if x == '' and op.get('none') else x)
        x = (lambda t: None if t == '' and op.get('none') else t.encode('latin-1'))
        pub = boot.PUBS[sp['key']] if not sp.get('der') else boot.KEYS[sp['key']].publickey().export_key('DER')
        issuer = M.ACIssuer(pub, sp['ialgo'], sp['iuid'], none(sp['iname']), none(sp['iurl']))
        holder = M.ACHolder(boot.PUBS[sp['hkey']], sp['halgo'], sp['huid'], none(sp['hname']))
        me, clk = self.sim.cur, self.sim.clock
        t0 = clk.read(me.node)
        rec = dict(open=True, clock=[[t0, t0]], faults=[], natural=[], entropy=[], written=[], dbs=set(), db=0)
        me.rec = rec
        try:
            kw = {k: sp[k] for k in ('serial', 'issued') if sp[k] is not None}
            info = M.ACInformation(sp['version'], **kw)
            kw = {k: sp[k] for k in ('valid_after', 'valid_before') if sp[k] is not None}
            rev = M.ACRevocationRules(url=none(sp['rurl']), extra_bytes=x(sp['rextra']), **kw)
        finally:
            me.rec = None
            rec['clock'][-1][1] = clk.read(me.node)
            rec['open'] = False
        atts = [M.ACAttribute(a['id'], M.AttributeType(a['type']), none(a['value']), none(a['name']), x(a['extra'])) for a in sp['atts']]
        exts = [M.ACExtensions(e['eid'], x(e['extra'])) for e in sp['ext']]
        dele = M.ACDelegationRules(x(sp['del'])) if sp['del'] or not op.get('none') else None
        o = M.AttributeCertificate(issuer, holder, info, atts if atts or not op.get('none') else None, rev, dele,
                                   exts if exts or not op.get('none') else None)
        c = dict(issuer=dict(pub_key=pub, key_algo=sp['ialgo'], uid=sp['iuid'], name=sp['iname'], url=sp['iurl']),
                 holder=dict(pub_key=boot.PUBS[sp['hkey']], key_algo=sp['halgo'], uid=sp['huid'], name=sp['hname']),
                 info=dict(version=sp['version'], serial=sp['serial'], issued=sp['issued']),
                 atts=[dict(a, extra=a['extra'].encode('latin-1')) for a in sp['atts']],
                 rev=dict(url=sp['rurl'], extra=sp['rextra'].encode('latin-1'), valid_after=sp['valid_after'], valid_before=sp['valid_before']),
                 ext=[dict(e, extra=e['extra'].encode('latin-1')) for e in sp['ext']])
        c['del'] = sp['del'].encode('latin-1')
        if sp['serial'] is None:
            s = c['info']['serial'] = info.serial
            if not isinstance(s, int) or not 0 <= s < 1 << 160 or len(b''.join(rec['entropy'])) < 20:
                self.fail('wrong-default', 'serial %r of a new certificate is not 160 bits drawn for it (%d random bytes drawn)' % (
                    s, len(b''.join(rec['entropy']))))
            elif s in self.serials:
                self.fail('serial-reused', 'two new certificates were given the serial %d' % s)
            self.serials[s] = op['id']
        if sp['issued'] is None:
            c['info']['issued'] = info.issued
            if not oracles.in_clock(rec, info.issued):
                self.fail('wrong-default', 'issue time %r of a new certificate is not the time it was made %s' % (info.issued, oracles.int_seconds(rec)))
        if sp['valid_after'] is None:
            c['rev']['valid_after'] = rev.valid_after
            if not oracles.in_clock(rec, rev.valid_after):
                self.fail('wrong-default', 'a new certificate is valid after %r, made at %s' % (rev.valid_after, oracles.int_seconds(rec)))
        if sp['valid_before'] is None:
            c['rev']['valid_before'] = rev.valid_before
            if not oracles.in_clock(rec, rev.valid_before - 86400):
                self.fail('wrong-default', 'a new certificate is valid before %r, made at %s' % (rev.valid_before, oracles.int_seconds(rec)))
        slot = dict(o=o, c=c, sig=None, g=[0])
        if op.get('sign') is not None:
            body = self.body(c)
            if body is not None:
                o.sign(boot.KEYS[op['sign']])
                slot['sig'] = (body, op['sign'], ALGO)
        self.unchanged(slot, 'after making it')
        st[op['slot']] = slot
        if op.get('share'):
            self.shared[op['share']] = slot
            del st[op['slot']]
        self.sim.hit('made')

    def slot(self, op, st):
        return self.shared.get(op['shared']) if op.get('shared') else st.get(op['slot'])

    def op_sign(self, op, st):
        slot = self.slot(op, st)
        if slot is None:
            return 'skipped'
        st.pop(op['slot'])
        slot['g'][0] += 1
        body = self.body(slot['c'])
        try:
            slot['o'].sign(boot.KEYS[op['key']], *((op['algo'],) if op.get('algo') else ()))
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception as e:
            if body is not None:
                self.fail('not-exported', '%s cannot be signed: %s: %s' % (short(slot['c']), type(e).__name__, e))
            return
        if body is None:
            self.fail('accepted-truncated', '%s was signed although it cannot be encoded' % short(slot['c']))
            return
        slot['sig'] = (body, op['key'], op.get('algo') or ALGO)
        if self.unchanged(slot, 'after signing'):
            st[op['slot']] = slot
        self.sim.hit('signed')

    def fmt(self, n):
        return self.M.ExportFormat(n)

    def op_export(self, op, st):
        slot = self.slot(op, st)
        if slot is None:
            return 'skipped'
        body = self.body(slot['c'])
        sign = op.get('sign')
        if sign is not None:
            st.pop(op['slot'])
            slot['g'][0] += 1
        try:
            if sign is not None:
                data = slot['o'].export_ac(self.fmt(op['fmt']), True, boot.KEYS[sign])
            elif op['fmt'] == 0 and op.get('plain'):
                data = slot['o'].encode() if op['plain'] == 2 else slot['o'].export_ac()
            else:
                data = slot['o'].export_ac(self.fmt(op['fmt']))
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception as e:
            if body is not None:
                self.fail('not-exported', '%s cannot be exported: %s: %s' % (short(slot['c']), type(e).__name__, e))
            return
        if body is None:
            self.fail('accepted-truncated', '%s was exported although it does not fit the format' % short(slot['c']))
            return
        if sign is not None:
            slot['sig'] = (body, sign, ALGO)
            st[op['slot']] = slot
        if isinstance(data, str):
            data = data.encode('utf-8')
        data = bytes(data)
        self.unchanged(slot, 'after exporting')
        want = refcert.export(self.expected(slot), op['fmt'], slot['c']['info']['version'])
        if data != want:
            raw = refcert.unexport(data, op['fmt'])
            try:
                d = self.diff(refcert.decode(raw), slot['c']) if raw is not None else 'no certificate'
            except refcert.Bad as e:
                d = 'not decodable (%s)' % e
            self.fail('wrong-export', '%s exported wrongly: %s' % (short(slot['c']), d or 'the signature block or wrapping differs'))
            return
        self.store[op['as']] = dict(data=data, fmt=op['fmt'], slot=dict(c=slot['c'], sig=slot['sig'], o=None),
                                    orig=(slot, slot['g'][0]))
        self.sim.hit('exported')

    def op_damage(self, op, st):
        """The stored bytes are altered: by a fault of the medium or by someone who holds them."""
        x = self.store.get(op['key'])
        if x is None:
            return 'skipped'
        raw, fmt = refcert.unexport(x['data'], x['fmt']), x['fmt']
        data = x['data']
        for m in op['mut']:
            if m['on'] == 'raw':
                raw = refcert.unexport(data, fmt)
                if raw is None:
                    break
                try:
                    data = refcert.export(apply_mut(raw, m, self), fmt, x['slot']['c']['info']['version'])
                except Exception:
                    break
            else:
                data = apply_mut(data, m, self)
        self.store[op['as']] = dict(data=data, fmt=fmt, slot=None, orig=None)
        if data != x['data']:
            self.sim.fault('stored-bytes-altered')

    def op_import(self, op, st):
        x = self.store.get(op['key'])
        if x is None:
            return 'skipped'
        st.pop(op['slot'], None)
        data, good = x['data'], x['slot']
        fmt = x['fmt']
        buf = bytearray(data) if fmt == 0 else data
        if fmt == 3 and op.get('as') == 'str' or fmt == 4 and op.get('as') != 'bytes':
            try:
                buf = data.decode('ascii')
            except UnicodeDecodeError:
                buf = data
        verify = op.get('verify')
        raw = refcert.unexport(data, fmt)
        try:
            ref = refcert.decode(raw) if raw is not None else None
        except refcert.Bad:
            ref = None
        signed = ref is not None and ref['sig']['value'] != b'' and refcert.verifies(ref, ref['issuer']['pub_key'])
        genuine = self.genuine(good) if good else signed
        what = short(ref) if ref else 'damaged certificate %s' % op['key']
        try:
            if fmt == 0 and op.get('plain'):
                o = self.M.AttributeCertificate.decode(buf, bool(verify)) if op['plain'] == 2 else self.M.AttributeCertificate.import_ac(
                    buf, verify=bool(verify))
            elif verify is None:
                o = self.M.AttributeCertificate.import_ac(buf, self.fmt(fmt))
            else:
                o = self.M.AttributeCertificate.import_ac(buf, self.fmt(fmt), verify)
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception as e:
            self.sim.hit('imports-refused')
            if good and (not verify or genuine):
                self.fail('refused-genuine' if verify else 'not-imported',
                          '%s cannot be imported again: %s: %s' % (what, type(e).__name__, e))
                self.fail('not-imported', '%s cannot be imported again: %s: %s' % (what, type(e).__name__, e))
            return
        if fmt == 0:
            buf[:] = b'\xa5' * len(data)          # the caller uses its buffer for something else
        self.sim.hit('imported')
        if verify and not genuine:
            self.fail('accepted-altered', '%s passed verification although its content is not what its issuer signed' % what)
            return
        if ref is None:
            return
        d = self.diff(self.read(o), ref)
        if d:
            self.fail('misread', '%s read back wrongly: %s' % (what, d))
            if verify:
                self.fail('accepted-altered', '%s verified, but reads differently from what was signed: %s' % (what, d))
            return
        v = bytes(o.signature.sig_value) if o.signature is not None and o.signature.sig_value is not None else b''
        if v != ref['sig']['value']:
            self.fail('misread', '%s read back with another signature value' % what)
            return
        if not good:
            try:
                got = o.verify_signature()
            except (SimKilled, SimStop, MemoryError):
                raise
            except Exception:
                got = False
            if got and not signed:
                self.fail('wrong-verdict', '%s was altered and its signature is said to verify' % what)
            return
        slot = dict(o=o, c=ref_content(ref), sig=good['sig'], g=[0])
        orig = x['orig']
        if orig is not None and orig[0]['g'][0] == orig[1] and \
                len({a['id'] for a in ref['atts']}) == len(ref['atts']) and len({a['eid'] for a in ref['ext']}) == len(ref['ext']):
            if not (norm_eq(orig[0]['o'], o) and norm_eq(o, orig[0]['o'])):
                self.fail('not-equal', '%s is not equal to the original after import' % what)
        st[op['slot']] = slot

    def op_verify(self, op, st):
        slot = self.slot(op, st)
        if slot is None:
            return 'skipped'
        want = self.genuine(slot)
        try:
            got = slot['o'].verify_signature()
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception as e:
            got = 'an error: %s: %s' % (type(e).__name__, e)
            if not want:
                self.sim.hit('verify-false')
                return
        if bool(got) != want or isinstance(got, str):
            self.fail('wrong-verdict', '%s: signature verification gave %s instead of %s' % (short(slot['c']), got, want))
        self.unchanged(slot, 'after verifying')
        self.sim.hit('verify-%s' % str(want).lower())

    def op_time(self, op, st):
        slot = self.slot(op, st)
        if slot is None:
            return 'skipped'
        r = slot['c']['rev']
        if op.get('now') is not None:
            now = op['now'] if op['now'] in (0, 1) else r[op['rel']] + op['now']
            got = slot['o'].verify_time(now)
            want = r['valid_after'] < now < r['valid_before']
            if got != want:
                self.fail('wrong-time', '%s valid in (%d, %d) was judged %s at %s' % (short(slot['c']), r['valid_after'], r['valid_before'], got, now))
            self.sim.hit('time-explicit')
            return
        me, clk = self.sim.cur, self.sim.clock
        t0 = clk.read(me.node)
        rec = dict(open=True, clock=[[t0, t0]], faults=[], natural=[], entropy=[], written=[], dbs=set(), db=0)
        me.rec = rec
        try:
            got = slot['o'].verify_time()
        finally:
            me.rec = None
            rec['clock'][-1][1] = clk.read(me.node)
        poss = set()
        for a, b in oracles.int_seconds(rec):
            if b < a:
                a, b = b, a
            cand = {a, b} | {v for v in (r['valid_after'], r['valid_after'] + 1, r['valid_before'] - 1, r['valid_before']) if a <= v <= b}
            poss |= {r['valid_after'] < v < r['valid_before'] for v in cand}
        if got not in poss:
            self.fail('wrong-time', '%s valid in (%d, %d) was judged %s while the clock showed %s' % (
                short(slot['c']), r['valid_after'], r['valid_before'], got, oracles.int_seconds(rec)))
        self.sim.hit('time-clock-%s' % str(got).lower())

    def op_wait(self, op, st):
        clk, me = self.sim.clock, self.sim.cur
        if op.get('to') is not None:
            clk.jump_to(me.node, op['to'])
            self.sim.ev('clock', op['to'])
            self.sim.fault_counts['clock-set'] = self.sim.fault_counts.get('clock-set', 0) + 1
        else:
            self.sim.sleep(op['dt'])

    def op_edit(self, op, st):
        """The owner of the object changes what it states."""
        slot = self.slot(op, st)
        if slot is None:
            return 'skipped'
        o, M = slot['o'], self.M
        c = ref_content(slot['c'])
        f, v = op['field'], op['v']
        st.pop(op['slot'])
        slot['g'][0] += 1
        if f in ('value', 'name', 'id', 'type', 'extra'):
            if not c['atts']:
                st[op['slot']] = slot
                return 'skipped'
            k = op['i'] % len(c['atts'])
            a = c['atts'][k]
            if f == 'type':
                a['type'] = (a['type'] + 1) % 6
                o.att_set[k].att_type = M.AttributeType(a['type'])
            elif f == 'extra':
                a['extra'] = v.encode()
                o.att_set[k].extra_bytes = v.encode()
            else:
                a[f] = v
                setattr(o.att_set[k], 'att_' + f, v)
        elif f == 'add':
            c['atts'].append(dict(id=v, value='1', name=v, type=1, extra=b''))
            new = M.ACAttribute(v, M.AttributeType(1), '1', v)
            if o.att_set is None or op['i'] % 2:
                o.att_set = list(o.att_set or ()) + [new]
            else:
                o.att_set.append(new)
        elif f == 'remove':
            if not c['atts']:
                st[op['slot']] = slot
                return 'skipped'
            k = op['i'] % len(c['atts'])
            del c['atts'][k]
            del o.att_set[k]
        elif f == 'ikey':
            c['issuer']['pub_key'] = boot.PUBS[v]
            o.issuer.pub_key = boot.PUBS[v]
        elif f in ('iuid', 'iname', 'iurl'):
            c['issuer'][f[1:]] = v
            setattr(o.issuer, f[1:], v)
        elif f in ('huid', 'hname'):
            c['holder'][f[1:]] = v
            setattr(o.holder, f[1:], v)
        elif f in ('valid_after', 'valid_before'):
            c['rev'][f] = v
            setattr(o.rev_rules, f, v)
        elif f == 'serial':
            c['info']['serial'] = o.info.serial = v
        elif f == 'del':
            c['del'] = v.encode()
            o.del_rules = M.ACDelegationRules(v.encode())
        elif f == 'ext':
            c['ext'] = [dict(eid=v, extra=b'x')]
            o.extensions = [M.ACExtensions(v, b'x')]
        elif f == 'unsign':
            o.signature = None
            slot = dict(slot, sig=None)
        slot = dict(slot, c=c)
        st[op['slot']] = slot
        self.unchanged(slot, 'after changing a field')
        self.sim.hit('edited')

    def op_bad(self, op, st):
        """An operation that fails; it must leave no trace."""
        M, slot = self.M, self.slot(op, st)
        try:
            k = op['kind']
            if k == 'text' and slot:
                slot['o'].export_ac(M.ExportFormat.TEXT)
            elif k == 'xml' and slot:
                slot['o'].export_ac(M.ExportFormat.XML)
            elif k == 'nokey' and slot:
                slot['o'].export_ac(M.ExportFormat.BYTES, True)
            elif k == 'importxml':
                M.AttributeCertificate.import_ac('<x/>', M.ExportFormat.XML)
            elif k == 'garbage':
                M.AttributeCertificate.import_ac(bytearray(bytes.fromhex(op['hex'])), M.ExportFormat.BYTES, True)
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception:
            self.sim.hit('operations-failed')
        if slot:
            self.unchanged(slot, 'after a failed operation')

    def op_series(self, op, st):
        """Many short-lived certificates, one after another, genuine and forged in turn."""
        M = self.M
        for k in range(op['n']):
            serial = op['base'] + k
            pub, who = boot.PUBS[op['key']], 'u%d' % (k % 3)
            val = str(k * op['step'] % 17)
            forged = (k * 7 + op['base']) % 5 == 0
            o = M.AttributeCertificate(M.ACIssuer(pub, 'RSA[1024]', 'urn:a', 'a', ''), M.ACHolder(boot.PUBS[20], 'RSA[1024]', 'urn:' + who, who),
                                       M.ACInformation(1, serial if op.get('serials') else 5, 1000), [M.ACAttribute('urn:x', M.AttributeType.STRING, val, 'x')],
                                       M.ACRevocationRules(1000, 2000 + k))
            o.sign(boot.KEYS[op['key2'] if forged and op.get('how') == 'key' else op['key']])
            data = o.export_ac(M.ExportFormat.BASE64)
            if forged and op.get('how') != 'key':
                o.att_set[0].att_value = val + '0'
                data = o.export_ac(M.ExportFormat.BASE64)
                val += '0'
            try:
                b = M.AttributeCertificate.import_ac(data, M.ExportFormat.BASE64, True)
            except (SimKilled, SimStop, MemoryError):
                raise
            except Exception:
                b = None
            if b is not None and forged:
                self.fail('accepted-altered', 'certificate %d of a series passed verification although it is forged' % k)
                return
            if b is None and not forged:
                self.fail('refused-genuine', 'certificate %d of a series was refused although it is genuine' % k)
                return
            if b is not None and (b.att_set[0].att_value != val or b.holder.uid != 'urn:' + who or b.rev_rules.valid_before != 2000 + k):
                self.fail('misread', 'certificate %d of a series was read as another one' % k)
                return
            if b is not None and not b.verify_time(1999 + k) or o.verify_time(2000 + k):
                self.fail('wrong-time', 'certificate %d of a series: wrong judgement of time' % k)
                return
            del o, b, data
        self.sim.hit('series')

    # --------------------------------------------------------------------- run
    def run_actor(self, actor):
        st = {}
        me = self.sim.cur
        for op in actor['ops']:
            self.n_ops += 1
            self.sim.ev('op', op['id'], op['op'])
            try:
                r = getattr(self, 'op_' + op['op'])(op, st)
                self.sim.ev('end', op['id'], r)
            except (SimKilled, SimStop):
                raise
            except MemoryError:
                self.sim.hit('operations-interrupted')
                self.sim.ev('interrupted', op['id'])
            except Exception as e:
                me.nopre += 1
                self.fail('unexpected-error', '%s %s failed: %s: %s' % (op['op'], op['id'], type(e).__name__, e))
                self.sim.ev('error', traceback.format_exc().strip().split('\n')[-1])
                me.nopre -= 1
        with nopreempt():
            for slot in list(st.values()) + list(self.shared.values()):
                self.unchanged(slot, 'at the end')
                if slot['o'].verify_signature() is not self.genuine(slot) if self.safe(slot) else False:
                    self.fail('wrong-verdict', '%s: at the end signature verification gives %s' % (short(slot['c']), not self.genuine(slot)))

    def safe(self, slot):
        return self.body(slot['c']) is not None and slot['sig'] is not None


def ref_content(c):
    out = {k: dict(c[k]) for k in ('issuer', 'holder', 'info', 'rev')}
    out['info'].pop('serial_bytes', None)
    out['atts'] = [dict(a) for a in c['atts']]
    out['ext'] = [dict(e) for e in c['ext']]
    out['del'] = c['del']
    return out


def norm_eq(a, b):
    """Equality as the library defines it; lists that are absent on one side and empty on the other are not compared."""
    if (a.att_set is None) != (b.att_set is None) or (a.extensions is None) != (b.extensions is None):
        return True
    if any(s is not None and getattr(s, f) == '' for s, f in ((a.issuer, 'url'), (b.issuer, 'url'), (a.holder, 'name'), (b.holder, 'name'),
                                                              (a.rev_rules, 'url'), (b.rev_rules, 'url'))):
        return True
    for x in [y for y in (a.rev_rules, b.rev_rules)] + list(a.att_set or ()) + list(b.att_set or ()) + list(a.extensions or ()) + list(b.extensions or ()):
        if x.extra_bytes == b'':
            return True
    if any(d is not None and d.extra_bytes == b'' for d in (a.del_rules, b.del_rules)):
        return True
    return a == b


# ---------------------------------------------------------------- generators
WORDS = ['', 'a', 'name', 'größe', 'x y', 'line\nbreak', '----', '0', 'None', 'é' * 40, 'urn:x:y', ' lead', 'trail ', '\U0001f511', 'tab\t']
EXTRAS = ['', '\x00', 'zz', '\xff\xfe', '\x00\x00', 'abc' * 30, '\n', 'x' * 255, 'y' * 256, 'z\x00' * 150, '\x7f' * 127, '\x80' * 128]
LONG = ['l' * 65535, 'm' * 65536, 'n' * 70001]


def spec(g, now, targets):
    na = g.choice((0, 1, 1, 2, 2, 3, 5)) if not g.maybe(0.03) else g.choice((40, 255, 256, 300))
    atts = []
    for k in range(na):
        v = g.choice(WORDS) if g.maybe(0.6) else str(g.randrange(-5, 100000))
        if na < 10 and g.maybe(0.03):
            v = 'v' * g.choice((255, 256, 4096, 65535, 65536, 70000))
        atts.append(dict(id=g.choice(('urn:a%d' % k, 'urn:a%d' % k, 'urn:ä/%d' % k, 'urn:a0')) if g.maybe(0.9) else '', type=g.randrange(6), value=v,
                         name=g.choice(WORDS), extra=g.choice(EXTRAS) if g.maybe(0.3) else ''))
    a = g.choice((now - 100, now - 1, now, now + 1, now + 50, 0, 1))
    b = g.choice((now + 1, now + 2, now + 3600, now + 86400, now, now - 1, 2 ** 32 - 1, 0))
    s = dict(key=g.randrange(0, 4), der=g.maybe(0.1), ialgo=g.choice(('RSA[1024]', 'RSA[1024]', '', 'RSA')), iuid=g.choice(('urn:aa', 'urn:bb', '', 'urn:ä')),
             iname=g.choice(WORDS), iurl=g.choice(('', 'http://a/', 'http://ä/')), hkey=g.randrange(20, 23), halgo=g.choice(('RSA[1024]', '')),
             huid=g.choice(('urn:u1', 'urn:u2', 'urn:U1', '', 'x' * 300)), hname=g.choice(WORDS), version=g.choice((0, 1, 1, 1, 2, 255)),
             serial=g.choice((None, None, None, 0, 1, 2 ** 160 - 1, 2 ** 80, g.getrandbits(160))), issued=g.choice((None, None, 0, 1, int(now), 2 ** 32 - 1)),
             atts=atts, valid_after=g.choice((None, a, a)), valid_before=g.choice((None, b, b)), rurl=g.choice(('', '', 'http://r/ü')),
             rextra=g.choice(EXTRAS) if g.maybe(0.3) else '', ext=[dict(eid=g.choice(('urn:e%d' % k, 'urn:e%d' % k, 'é')), extra=g.choice(EXTRAS))
                                                                for k in range(g.choice((0, 0, 0, 1, 2, 5)) if not g.maybe(0.02) else 300)])
    s['del'] = g.choice(EXTRAS) if g.maybe(0.4) else ''
    if g.maybe(0.02):
        s[g.choice(('del', 'rextra'))] = g.choice(LONG)
    if g.maybe(0.02):
        s['ext'].append(dict(eid='urn:long', extra=g.choice(LONG)))
    targets += [float(x) for x in (a, b) if 100000 < x < 2 ** 32 - 1]
    return s


def mk(prop, base, i):
    seed = seed_of(prop, base, i)
    g = G(seed)
    now = 1500000000
    targets = []
    p = dict(prop=prop, seed=seed, knobs={}, probs={}, forced={}, setup=dict(now=float(now) + g.random(), targets=targets), actors=[], final=[])
    nthr = langw.threads(g, 0.45)
    n = keys = 0
    shares = []
    hot = prop == 'C24'
    for a in range(nthr):
        ops, mine = [], []

        def add(opname, **kw):
            nonlocal n
            ops.append(dict(id='o%d' % n, op=opname, **kw))
            n += 1
        made = []
        for _ in range(g.randrange(3, 11)):
            k = g.random()
            if not made or k < 0.22:
                s = g.randrange(4)
                sp = spec(g, now, targets)
                sg = sp['key'] if g.maybe(0.8) else None if g.maybe(0.6) else g.randrange(0, 4)
                sh = None
                if nthr > 1 and g.maybe(0.15):
                    sh = 's%d' % len(shares)
                    shares.append(sh)
                add('make', slot=s, spec=sp, none=g.maybe(0.7), sign=sg, share=sh)
                made.append((s, sp['key']))
                if sh is None and g.maybe(0.6):
                    add('export', slot=s, fmt=g.choice((0, 3, 4)), plain=g.choice((0, 1, 2)), **{'as': 'k%d' % keys})
                    mine.append('k%d' % keys)
                    keys += 1
                continue
            s, key = g.choice(made)
            where = dict(slot=s)
            if shares and g.maybe(0.2):
                where['shared'] = g.choice(shares)
            if k < 0.3:
                add('sign', slot=s, key=key if g.maybe(0.8) else g.randrange(0, 4), algo=g.choice((None, None, None, ALGO, 'x', 'ü')))
            elif k < 0.42:
                if g.maybe(0.25):
                    add('export', slot=s, fmt=g.choice((0, 3, 4)), sign=key, **{'as': 'k%d' % keys})
                else:
                    add('export', fmt=g.choice((0, 3, 4)), plain=g.choice((0, 1, 2)), **dict(where, **{'as': 'k%d' % keys}))
                mine.append('k%d' % keys)
                keys += 1
            elif k < 0.52 and (mine or keys):
                src = g.choice(mine) if mine and g.maybe(0.7) else 'k%d' % g.randrange(keys)
                srcs = ['k%d' % g.randrange(keys)]
                muts = [plans.sigblock(g) if g.maybe(0.1) else plans.mutation(g, p, srcs) for _ in range(g.choice((1, 1, 1, 2)))]
                if hot and g.maybe(0.4):
                    add('import', slot=5, key=src, verify=True)
                    add('verify', slot=5)
                add('damage', key=src, mut=muts, **{'as': 'd%d' % n})
                add('import', slot=9, key='d%d' % (n - 1), verify=g.choice((True, True, False, None)), plain=g.choice((0, 1, 2)))
            elif k < 0.66 and (mine or keys):
                src = g.choice(mine) if mine and g.maybe(0.6) else 'k%d' % g.randrange(keys)
                s2 = 4 + g.randrange(3)
                add('import', slot=s2, key=src, verify=g.choice((True, False, None)), plain=g.choice((0, 1, 2)), **{'as': g.choice(('str', 'bytes'))})
                made.append((s2, key))
            elif k < 0.76:
                add('verify', **where)
            elif k < 0.83:
                if g.maybe(0.5):
                    add('time', now=g.choice((-1, 0, 1, 2, -2, 3600, 0.5, -0.5, 0.25, -0.999)), rel=g.choice(('valid_after', 'valid_before')), **where)
                else:
                    add('time', **where)
            elif k < 0.93:
                f, v = g.choice((('value', '7'), ('value', 'v' * 65536), ('value', 'ok'), ('name', 'other'), ('id', 'urn:z'), ('type', 0), ('extra', 'q'),
                                 ('add', 'urn:new'), ('remove', 0), ('ikey', g.randrange(0, 4)), ('iuid', 'urn:cc'), ('iname', 'cc'),
                                 ('iurl', 'http://c/'), ('huid', 'urn:u9'), ('hname', 'mallory'), ('valid_after', now - 7), ('valid_before', now + 99999),
                                 ('serial', 77), ('del', 'rule'), ('ext', 'urn:ee'), ('unsign', 0)))
                add('edit', slot=s, field=f, v=v, i=g.randrange(4))
                if g.maybe(0.5):
                    add('verify', slot=s)
                if g.maybe(0.3):
                    add('sign', slot=s, key=key)
            elif k < 0.95:
                if g.maybe(0.6) and targets:
                    add('wait', to=g.choice(targets) + g.choice((-1.0, -0.0003, 0.0, 0.5, 1.0)))
                else:
                    add('wait', dt=g.choice((0.3, 1.0, 5.0, 3600.0)))
                add('time', **where)
            elif k < 0.98 or nthr > 1:
                add('bad', kind=g.choice(('text', 'xml', 'nokey', 'importxml', 'garbage')), hex=g.choice(('', '00', 'ff' * 30, '00' * 80)), **where)
            else:
                add('restart')
        if nthr == 1 and g.maybe(0.3):
            add('restart')
        for key in mine:
            if g.maybe(0.5):
                add('import', slot=8, key=key, verify=g.choice((True, False)), **{'as': g.choice(('str', 'bytes'))})
                add('verify', slot=8)
        p['actors'].append(dict(name='t%d' % a, ops=ops))
    k = p['knobs']
    if nthr > 1:
        k['preempt_mean'] = g.choice((2, 4, 10, 30, 100, 400))
        if g.maybe(0.1):
            k['instruction'] = True
            k['preempt_mean'] *= 6
    if g.maybe(0.08):
        a = g.choice(p['actors'])
        a['ops'].insert(g.randrange(len(a['ops']) + 1), dict(id='series', op='series', n=g.choice((10, 30, 60)), base=g.randrange(1000), step=g.choice((1, 3)),
                                                             key=g.randrange(4), key2=4 + g.randrange(3), serials=g.maybe(0.6), how=g.choice(('key', 'value'))))
    if g.maybe(0.4):
        p['probs']['clk'] = g.choice((0.02, 0.1, 0.4))
    if g.maybe(0.3):
        for _ in range(g.choice((1, 1, 2, 4))):
            p['forced']['%s|exc|%d' % (g.choice(p['actors'])['name'], g.randrange(1, g.choice((100, 500, 2000))))] = 1
    return p
