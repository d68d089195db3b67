"""The policy-language world: threads compile, evaluate, encode and reload policies in one process."""
import gc
import sys
import traceback

from . import boot, core, hgplref, seams
from .core import SimKilled, SimStop, nopreempt
from .plans import G, seed_of
from .seams import REPO


class LangWorld(object):
    cap = None

    def __init__(self, plan, scratch, replay=False):
        self.plan, self.prop = plan, plan['prop']
        self.setup, self.knobs = plan['setup'], plan['knobs']
        self.sim = core.Sim(plan['seed'], dict(self.knobs, exc_anywhere=True), plan.get('forced'), replay, plan.get('probs'))
        self.sim.now = self.sim.t_start = self.setup['now']
        self.sim.clock = seams.Clock(self.sim)
        self.violations = []
        self.restarts = 0
        self.n_ops = 0
        self.pols, self.attsets = self.setup['pols'], self.setup['atts']
        self.store = {}                 # what was stored durably: key -> (bytes, base64?, policy id)
        self.encoded = {}               # (policy, base64) -> bytes
        self.shared_tables = {}

    def n_requests(self):
        return self.n_ops

    def fail(self, cls, detail):
        self.violations.append((self.prop, cls, detail))

    def import_code(self):
        boot.purge_modules()
        import hgpl.lexing as lexing
        import hgpl.parsing as parsing
        import hgpl.ast as ast
        import hgpl.symbols as symbols
        import hgpl.semantics as semantics
        import hgpl.interpreting as interpreting
        import hgpl.errors as errors
        self.L, self.P, self.A, self.S, self.C, self.I, self.E = lexing, parsing, ast, symbols, semantics, interpreting, errors
        self.shared_tables = {}

    # -------------------------------------------------------------- attributes
    @staticmethod
    def value(v):
        if isinstance(v, dict):
            return set(v['set']) if 'set' in v else list(v['list'])
        return v

    def ref_atts(self, aid):
        out = {}
        for name, (t, v) in self.attsets[aid].items():
            out[name.lower()] = (t, frozenset(v.get('set', v.get('list'))) if isinstance(v, dict) else v)
        return out

    def table(self, aid, how, st):
        S, TT = self.S, self.L.TokenType
        if how == 'none':
            return None
        if how == 'empty':
            return S.SymbolTable()
        atts = self.attsets[aid]
        if how == 'shared':
            if aid not in self.shared_tables:
                self.shared_tables[aid] = self.table(aid, 'define', st)
            return self.shared_tables[aid]
        if how == 'kept':
            k = ('table', aid)
            if k not in st:
                st[k] = self.table(aid, 'define', st)
            return st[k]
        if how == 'define':
            tab = S.SymbolTable()
            for name, (t, v) in atts.items():
                pre, nm = name.split('.', 1)
                tab.define(S.Symbol(nm, TT[hgplref.PREFIX[pre]], S.SymbolType[t], self.value(v)))
            return tab
        if how == 'builder' or 'builder' not in st:
            b = S.SymbolTableBuilder()
            st['builder'] = b
        else:
            b = st['builder']
            b.reset_values()
        b.types = {n.lower(): S.SymbolType[t] for n, (t, v) in atts.items()}
        b.load_mixed_att_val_dict({n: self.value(v) for n, (t, v) in atts.items()})
        return b.build()

    # --------------------------------------------------------------- operations
    def parse(self, pid, how=None):
        lx = self.L.Lexer(self.pols[pid]['text'])
        if how == 'tokens':
            lx.tokenize()
            return self.P.Parser(lx.toke_list(), self.pols[pid]['text']).parse()
        return self.P.Parser(lx).parse()

    def op_parse(self, op, st):
        st.pop(('tree', op['slot']), None)
        tree = self.parse(op['pol'], op.get('how'))
        d = hgplref.same_tree(self.pols[op['pol']]['tree'], tree)
        if d:
            self.fail('wrong-tree', 'policy %r parsed wrongly: %s' % (self.pols[op['pol']]['text'][:200], d))
            return
        st[('tree', op['slot'])] = (op['pol'], tree)

    def op_eval(self, op, st):
        slot = st.get(('tree', op['slot']))
        if slot is None:
            return 'skipped'
        pid, tree = slot
        key = ('interp', op['slot'], op.get('interp', 0))
        it = st.get(key)
        if it is None or it[0] is not tree:
            it = st[key] = [tree, self.I.Interpreter(tree, self.pols[pid]['text'] if op.get('text', True) else None), None]
        tab = self.table(op['atts'], op.get('how', 'define'), st)
        it[2] = None
        self.evaluate(op, it[1], tab, pid, it)

    def evaluate(self, op, interp, tab, pid, it=None, reloaded=False):
        try:
            want, warns = hgplref.evaluate(self.pols[pid]['tree'], {} if op.get('how') in ('none', 'empty') else self.ref_atts(op['atts']))
            bad = False
        except hgplref.EvalError:
            want, warns, bad = None, None, True
        lvl = op.get('level')
        what = 'policy %r%s with attributes %s' % (self.pols[pid]['text'][:200], ' after reload' if reloaded else '',
                                                   '{}' if op.get('how') in ('none', 'empty') else self.brief(op['atts'], pid))
        try:
            if tab is None and not lvl and len(op['id']) % 2:
                got = interp.evaluate()
            elif lvl:
                got = interp.evaluate(tab, self.E.ErrorType[lvl])
            else:
                got = interp.evaluate(tab)
        except self.E.InterpreterWarning:
            if not (lvl and warns and lvl in ('WARN', 'INFO', 'NONE')):
                self.fail('wrong-decision', '%s raised a warning instead of giving %s' % (what, want))
            self.sim.hit('evaluations-refused')
            return
        except self.E.InterpreterError as e:
            if not bad:
                self.fail('wrong-decision', '%s failed with %r instead of giving %s' % (what, str(e)[:150], want))
            self.sim.hit('evaluations-failed')
            return
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception as e:
            self.fail('wrong-decision', '%s failed with %s: %s instead of giving %s' % (what, type(e).__name__, str(e)[:150],
                                                                                      'a language error' if bad else want))
            return
        self.sim.hit('evaluations')
        name = got.name if isinstance(got, self.A.ASTResult) else None
        if bad:
            self.fail('wrong-decision', '%s gave %s although it has no decision' % (what, name))
            return
        if name != want:
            self.fail('wrong-decision', '%s gave %s instead of %s' % (what, name, want))
            return
        self.sim.hit('decision-' + str(want))
        if lvl and warns and lvl in ('WARN', 'INFO', 'NONE'):
            self.fail('wrong-warnings', '%s gave %s at warning level %s despite %d warnings' % (what, name, lvl, len(warns)))
        w = sorted(x.pos for x in interp.get_warnings())
        if w != warns:
            self.fail('wrong-warnings', '%s gave warnings at %s instead of %s' % (what, w, warns))
        elif it is not None:
            it[2] = (warns, what)

    def recheck(self, st):
        """Warnings reported earlier are still those of that evaluation."""
        for k, it in st.items():
            if k[0] == 'interp' and it[2] is not None:
                w = sorted(x.pos for x in it[1].get_warnings())
                if w != it[2][0]:
                    self.fail('wrong-warnings', '%s: its warnings changed later to %s instead of %s' % (it[2][1], w, it[2][0]))
                    it[2] = None

    def brief(self, aid, pid):
        names = {('%s.%s' % (a, b)).lower() for a, b, _ in self.pols[pid]['atts']}
        return '{%s}' % ', '.join('%s: %s' % (n, v) for n, v in sorted(self.attsets[aid].items()) if n.lower() in names)

    def op_fresh(self, op, st):
        """Parse and evaluate in one go."""
        text = self.pols[op['pol']]['text']
        it = self.I.Interpreter(self.P.Parser(self.L.Lexer(text)))
        self.evaluate(op, it, self.table(op['atts'], op.get('how', 'define'), st), op['pol'])

    def op_bad(self, op, st):
        """A text that fails to compile; whatever it does is not judged here."""
        try:
            p = self.P.Parser(self.L.Lexer(op['text']))
            tc = self.C.TypeChecker(p)
            tc.check(self.E.ErrorType.ERROR)
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception:
            self.sim.hit('compilations-failed')

    def op_compile(self, op, st):
        pol = self.pols[op['pol']]
        lx = self.L.Lexer(pol['text'])
        how = op.get('how')
        tcx = None
        if how == 'checker':
            tcx = self.C.TypeChecker(self.P.Parser(lx))
            tree = None
        elif how == 'step':
            while lx.next():
                pass
            tree = self.P.Parser(lx.toke_list(), pol['text']).parse()
        else:
            tree = self.P.Parser(lx).parse()
        what = 'policy %r' % pol['text'][:200]
        got = [[a.type.name, a.value, a.pos] for a in lx.att_list()]
        want = [[hgplref.PREFIX[a], b, c] for a, b, c in pol['atts']]
        if got != want:
            self.fail('wrong-attributes', '%s: attribute list %s instead of %s' % (what, got, want))
        toks = lx.toke_list()
        if toks[0].type.name != 'START' or toks[-1].type.name != 'END' or [t.pos for t in toks[1:]] != sorted({t.pos for t in toks[1:]}):
            self.fail('wrong-tokens', '%s: tokens %s' % (what, lx.token_string()[:200]))
        if tree is not None:
            d = hgplref.same_tree(pol['tree'], tree)
            if d:
                self.fail('wrong-tree', '%s parsed wrongly: %s' % (what, d))
                return
        for _ in range(1):
            tc = tcx or self.C.TypeChecker(tree, pol['text'])
            types, issues = hgplref.typecheck(pol['tree'])
            lvl = op.get('level')
            try:
                if lvl:
                    tc.check(self.E.ErrorType[lvl])
                else:
                    tc.check()
                raised = False
            except self.E.TypeCheckerError:
                raised = True
            worst = max([3 if k == 'ERROR' else 2 for k, _ in issues] or [-1])
            if raised != (worst >= {'CRIT': 4, 'ERROR': 3, 'WARN': 2, 'INFO': 1, 'NONE': 0, None: 4}[lvl]):
                self.fail('wrong-issues', '%s: check at level %s %s' % (what, lvl, 'raised' if raised else 'did not raise'))
            g2 = sorted((i.type.name, i.pos) for i in tc.get_issues())
            if g2 != sorted(issues):
                self.fail('wrong-issues', '%s: issues %s instead of %s' % (what, g2, sorted(issues)))
            if len(tc.get_errors()) + len(tc.get_warnings()) != len(issues) or any(i.policy_text != pol['text'] for i in tc.get_issues()):
                self.fail('wrong-issues', '%s: issues of another policy' % what)
            r = tc.get_result().name
            wr = 'PASS' if not issues else 'ERROR' if worst == 3 else 'WARN'
            if r != wr:
                self.fail('wrong-issues', '%s: result %s instead of %s' % (what, r, wr))
            got = {s.name: s.type.name for s in tc.get_symbol_table().symbols()}
            if got != types:
                self.fail('wrong-types', '%s: attribute types %s instead of %s' % (what, got, types))
            key = ('checker', op['id'])
            st[key] = (tc, sorted(issues), types, what)
        self.sim.hit('compilations')

    def recheck_compiled(self, st):
        for k, x in st.items():
            if k[0] == 'checker':
                tc, issues, types, what = x
                g2 = sorted((i.type.name, i.pos) for i in tc.get_issues())
                got = {s.name: s.type.name for s in tc.get_symbol_table().symbols()}
                if g2 != issues:
                    self.fail('wrong-issues', '%s: its issues changed later to %s from %s' % (what, g2, issues))
                if got != types:
                    self.fail('wrong-types', '%s: its attribute types changed later to %s from %s' % (what, got, types))

    def op_churn(self, op, st):
        """Earlier work of the process: many parsed policies."""
        m = sys.monitoring
        ev = m.get_events(core.TOOL)
        with nopreempt():
            m.set_events(core.TOOL, 0)
            try:
                text = 'user.a IN {' + ','.join(str(i % 10) for i in range(3000)) + '}'
                toks = None
                n = 0
                while n < op['nodes']:
                    if toks is None:
                        lx = self.L.Lexer(text)
                        lx.tokenize()
                        toks = lx.toke_list()
                    self.P.Parser(toks, text).parse()
                    n += 3003
            finally:
                m.set_events(core.TOOL, ev)
        self.sim.hit('nodes-churned', n)

    def op_series(self, op, st):
        """Many short-lived policies of one shape, one after another (the objects of one are freed before the next)."""
        S, TT, what = self.S, self.L.TokenType, op['what']
        for k in range(op['n']):
            a, v = 'a%d' % (10 + k % 7), 10 + (k * op['step']) % 90
            text = 'user.%s %s %d' % (a, op['rel'], v)
            p1, p2 = 9, 10 + len(op['rel'])
            ref = ['op', op['rel'], p1, [['att', ['user', a], 0, []], ['int', v, p2, []]]]
            lx = self.L.Lexer(text)
            tree = self.P.Parser(lx).parse()
            if what == 'encode':
                data = self.A.ASTEncoder.encode(tree, bool(op.get('b64')))
                back = self.A.ASTEncoder.decode(data, bool(op.get('b64')))
                d = hgplref.same_tree(ref, back)
                if d:
                    self.fail('changed', 'policy %r is different after reload: %s' % (text, d))
                    return
                del back, data
            elif what == 'eval':
                have = 10 + (k * 7) % 90
                tab = S.SymbolTable()
                tab.define(S.Symbol(a, TT[hgplref.PREFIX['user']], S.SymbolType.INT, have))
                got = self.I.Interpreter(tree, text).evaluate(tab)
                want, _ = hgplref.evaluate(ref, {'user.' + a: ('INT', have)})
                if getattr(got, 'name', got) != want:
                    self.fail('wrong-decision', 'policy %r with %s=%d gave %s instead of %s' % (text, a, have, got, want))
                    return
                del tab
            else:
                d = hgplref.same_tree(ref, tree)
                tc = self.C.TypeChecker(tree, text)
                tc.check()
                types, issues = hgplref.typecheck(ref)
                got = {s.name: s.type.name for s in tc.get_symbol_table().symbols()}
                if d or got != types or [[t.type.name, t.value] for t in lx.att_list()] != [[hgplref.PREFIX['user'], a]] or any(
                        i.policy_text != text for i in tc.get_issues()):
                    self.fail('wrong-types', 'policy %r compiled as another one: %s %s' % (text, d, got))
                    return
                del tc
            del tree, lx
        self.sim.hit('series')

    def op_encode(self, op, st):
        slot = st.get(('tree', op['slot']))
        if slot is None:
            return 'skipped'
        pid, tree = slot
        what = 'policy %r' % self.pols[pid]['text'][:200]
        try:
            data = self.A.ASTEncoder.encode(tree, True) if op.get('b64') else self.A.ASTEncoder.encode(tree)
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception as e:
            if self.encodable(self.pols[pid]):
                self.fail('not-encodable', '%s cannot be encoded: %s: %s' % (what, type(e).__name__, e))
            return
        d = hgplref.same_tree(self.pols[pid]['tree'], tree)
        if d:
            self.fail('wrong-tree', '%s: the tree changed by encoding it: %s' % (what, d))
        k = (pid, bool(op.get('b64')))
        if self.encoded.setdefault(k, data) != data:
            self.fail('encoding-differs', '%s: encoded differently than before in this or an earlier process' % what)
        self.store[op['key']] = (data, bool(op.get('b64')), pid)
        self.sim.hit('encodings')

    @staticmethod
    def encodable(pol):
        def ok(t):
            return not (t[0] == 'int' and not -2 ** 31 <= t[1] < 2 ** 31) and not (t[0] == 'str' and len(t[1]) > 65535) and all(
                ok(c) for c in t[3])
        return len(pol['text']) <= 65535 and hgplref.count(pol['tree']) <= 65535 and ok(pol['tree'])

    def op_decode(self, op, st):
        x = self.store.get(op['key'])
        if x is None:
            return 'skipped'
        data, b64, pid = x
        st.pop(('tree', op['slot']), None)
        what = 'policy %r' % self.pols[pid]['text'][:200]
        try:
            tree = self.A.ASTEncoder.decode(data.decode() if op.get('astext') and b64 and isinstance(data, bytes) else data, b64) if b64 \
                else self.A.ASTEncoder.decode(data)
        except (SimKilled, SimStop, MemoryError):
            raise
        except Exception as e:
            self.fail('not-decodable', '%s cannot be loaded again: %s: %s' % (what, type(e).__name__, e))
            return
        d = hgplref.same_tree(self.pols[pid]['tree'], tree)
        if d:
            self.fail('changed', '%s is different after reload: %s' % (what, d))
            return
        orig = [v[1] for k, v in st.items() if k[0] == 'tree' and v[0] == pid]
        if orig and (not orig[0] == tree or orig[0] != tree):
            self.fail('changed', '%s is not equal to the original after reload' % what)
        st[('tree', op['slot'])] = (pid, tree)
        self.sim.hit('reloads')
        for aid in op.get('atts', ()):
            it = self.I.Interpreter(tree, self.pols[pid]['text'])
            self.evaluate(dict(op, atts=aid), it, self.table(aid, 'define', st), pid, reloaded=True)

    def op_restart(self, op, st):
        """The process ends; only the stored encodings survive."""
        with nopreempt():
            self.restarts += 1
            st.clear()
            self.import_code()
            self.sim.ev('RESTART')

    # --------------------------------------------------------------------- run
    def run_actor(self, actor):
        st = {}
        me = self.sim.cur
        for op in actor['ops']:
            self.n_ops += 1
            self.sim.ev('op', op['id'], op['op'])
            try:
                r = getattr(self, 'op_' + op['op'])(op, st)
                self.sim.ev('end', op['id'], r)
            except (SimKilled, SimStop):
                raise
            except MemoryError:
                self.sim.hit('operations-interrupted')
                self.sim.ev('interrupted', op['id'])
            except Exception as e:
                me.nopre += 1
                self.fail('unexpected-error', '%s %r failed: %s: %s' % (
                    op['op'], self.pols[op['pol']]['text'][:200] if op.get('pol') in self.pols else op.get('key'), type(e).__name__, e))
                self.sim.ev('error', traceback.format_exc().strip().split('\n')[-1])
                me.nopre -= 1
            with nopreempt():
                self.recheck(st)
        with nopreempt():
            self.recheck_compiled(st)

    def control(self):
        ts = [self.sim.spawn(a['name'], lambda a=a: self.run_actor(a), 'app') for a in self.plan['actors']]
        for t in ts:
            self.sim.join(t)
        self.sim.ev('done')

    def run(self):
        gc.disable()
        self.import_code()
        core.install_monitor(REPO + '/', self.knobs.get('instruction', False))
        self.sim.spawn('ctl', self.control, 'ctl')
        self.sim.run()


# ---------------------------------------------------------------- generators
NAMES = ['user.id', 'object.owner', 'user.perms', 'object.req', 'user.age', 'user.admin', 'user.role', 'object.kind', 'env.hour', 'connect.port',
         'admin.trust', 'user.flag', 'env.open', 'object.größe', 'user.5x', 'connect._a', 'user.in', 'object.not', 'env.name', 'admin.set',
         'user.ä_1']
TYPES = ('INT', 'INT', 'FLOAT', 'STRING', 'STRING', 'SET', 'SET', 'BOOL', 'BOOL', 'UNKNOWN')


def mk(prop, base, i):
    seed = seed_of(prop, base, i)
    g = G(seed)
    p = dict(prop=prop, seed=seed, knobs={}, probs={}, forced={}, setup={}, actors=[], final=[])
    names = list(NAMES)
    g.shuffle(names)
    schema = {n: g.choice(TYPES) for n in names[:g.randrange(2, 9)]}
    if g.maybe(0.8) and 'BOOL' not in schema.values():
        schema[names[0]] = 'BOOL'
    p['setup'].update(now=1500000000.0, pols={}, atts={})
    npol = g.randrange(1, 7)
    for k in range(npol):
        style = dict(small=g.maybe(0.5))
        if g.maybe(0.03):
            style['bigset'] = g.choice((60, 300))
        if g.maybe(0.04):
            style['chain'] = g.choice((20, 40, 90))
        elif g.maybe(0.04):
            style['deep'] = g.choice((5, 12, 25))
        if prop != 'C21' and g.maybe(0.06):
            style['huge'] = True
            p['setup']['huge'] = True
        p['setup']['pols']['p%d' % k] = hgplref.policy(g, schema, g.choice((0, 1, 1, 2, 2, 3)), style)
    if prop == 'C21' and g.maybe(0.04):
        p['setup']['pols']['p0'] = big_policy(g)
    for k in range(g.randrange(1, 6)):
        p['setup']['atts']['a%d' % k] = attset(g, schema, names)
        if p['setup'].get('huge'):
            for n, (t, v) in p['setup']['atts']['a%d' % k].items():
                if t == 'INT' and g.maybe(0.8):
                    p['setup']['atts']['a%d' % k][n][1] = g.choice((2 ** 53, 2 ** 53 + 1, 2 ** 53 - 1, -2 ** 53, -2 ** 53 - 1, 2 ** 63 + 1, 10 ** 30 + 1))
    {'C20': gen20, 'C21': gen21, 'C22': gen22}[prop](g, p, i)
    k = p['knobs']
    if len(p['actors']) > 1:
        k['preempt_mean'] = g.choice((2, 4, 10, 30, 100, 400))
        if g.maybe(0.1):
            k['instruction'] = True
            k['preempt_mean'] *= 6
    if g.maybe(0.06):
        a = g.choice(p['actors'])
        a['ops'].insert(g.randrange(len(a['ops']) + 1), dict(
            id='series', op='series', n=g.choice((20, 60, 200)), step=g.choice((1, 3, 7)), rel=g.choice(('=', '>', '!=', '<=')),
            what={'C20': 'eval', 'C21': 'encode', 'C22': 'compile'}[prop], b64=g.maybe(0.3)))
    if g.maybe(0.3):
        for _ in range(g.choice((1, 1, 2, 4))):
            p['forced']['%s|exc|%d' % (g.choice(p['actors'])['name'], g.randrange(1, g.choice((200, 1500, 6000))))] = 1
    return p


def big_policy(g):
    """Values at the edge of what the encoding can hold."""
    k = g.randrange(4)
    if k == 0:
        v = g.choice((2 ** 31, -2 ** 31 - 1, 2 ** 40))
        return dict(text='user.a = %d' % v, tree=['op', '=', 7, [['att', ['user', 'a'], 0, []], ['int', v, 9, []]]], atts=[['user', 'a', 0]])
    if k == 1:
        n = g.choice((255, 256, 65535, 65000))
        s = 'x' * n
        if n > 65000:
            return dict(text='"%s"="y"' % s, tree=['op', '=', n + 2, [['str', s, 0, []], ['str', 'y', n + 3, []]]], atts=[])
        return dict(text='"%s"="y"' % s, tree=['op', '=', n + 2, [['str', s, 0, []], ['str', 'y', n + 3, []]]], atts=[])
    if k == 2:
        pad = ' ' * g.choice((65400, 66000))
        n = len(pad)
        return dict(text=pad + 'user.a="y"', tree=['op', '=', n + 6, [['att', ['user', 'a'], n, []], ['str', 'y', n + 7, []]]],
                    atts=[['user', 'a', n]])
    n = g.choice((256, 257, 3000))
    text, ch = '{', []
    for j in range(n):
        if j:
            text += ','
        ch.append(['int', j % 7, len(text), []])
        text += str(j % 7)
    text += '}={0}'
    e = text.index('=')
    return dict(text=text, tree=['op', '=', e, [['set', None, 0, ch], ['set', None, e + 1, [['int', 0, e + 2, []]]]]], atts=[])


def attset(g, schema, names):
    out = {}
    for n, t in schema.items():
        if g.maybe(0.12):
            continue
        out[n] = [t, avalue(g, t)]
        k = g.random()
        if k < 0.06:
            out[n][1] = None
        elif k < 0.13:
            out[n][1] = avalue(g, g.choice(('INT', 'STRING', 'SET', 'BOOL')))
        elif k < 0.2:
            t2 = g.choice(('INT', 'FLOAT', 'STRING', 'SET', 'BOOL'))
            out[n] = [t2, avalue(g, t2)]
    if g.maybe(0.3):
        out[g.choice(names)] = ['INT', 1]
    return out


def avalue(g, t):
    if t == 'INT':
        return g.choice((0, 0, 1, 2, 3, 5, 7, 18, 42, -1, -5, 2147483647))
    if t == 'FLOAT':
        return g.choice((0.0, 1.0, 2.5, 3.14, -0.5, 0.1, 3.0, 0.30000000000000004, 5)) if g.maybe(0.8) else float(g.choice(hgplref.CLOSE))
    if t == 'STRING':
        return g.choice(('a', 'b', 'admin', 'doctor', '', 'x y', 'CS1032', 'ü', '5'))
    if t == 'BOOL':
        return g.choice((True, False))
    if t == 'SET':
        vals = [g.choice((0, 1, 2, 3, 5, 'a', 'b', 'admin', '', 1.0, 2.5)) if g.maybe(0.3) else g.choice((0, 1, 2, 3)) if g.maybe(0.5)
                else g.choice(('a', 'b', 'admin')) for _ in range(g.randrange(0, 5))]
        return {g.choice(('set', 'list')): vals}
    return g.choice((None, 5, 'x'))


def threads(g, one=0.35):
    return 1 if g.maybe(one) else g.randrange(2, 5)


def gen20(g, p, i):
    pols, atts = sorted(p['setup']['pols']), sorted(p['setup']['atts'])
    n = 0
    for a in range(threads(g)):
        ops = []
        for s in range(g.randrange(1, 4)):
            ops.append(dict(id='o%d' % n, op='parse', slot=s, pol=g.choice(pols), how=g.choice((None, 'tokens'))))
            n += 1
        slots = len(ops)
        for _ in range(g.randrange(2, 9)):
            k = g.random()
            oid = 'o%d' % n
            n += 1
            how = g.choice(('define', 'define', 'define', 'builder', 'builder', 'rebuilder', 'kept', 'kept', 'shared', 'shared', 'none', 'empty'))
            if k < 0.72:
                ops.append(dict(id=oid, op='eval', slot=g.randrange(slots), interp=g.randrange(2), atts=g.choice(atts), how=how,
                                level=g.choice((None, None, None, 'ERROR', 'WARN', 'CRIT')), text=g.maybe(0.8)))
            elif k < 0.87:
                ops.append(dict(id=oid, op='fresh', pol=g.choice(pols), atts=g.choice(atts), how=how, level=g.choice((None, None, 'ERROR', 'WARN'))))
            elif k < 0.93:
                ops.append(dict(id=oid, op='parse', slot=g.randrange(slots), pol=g.choice(pols)))
            else:
                ops.append(dict(id=oid, op='bad', text=g.choice(hgplref.MALFORMED)))
        p['actors'].append(dict(name='t%d' % a, ops=ops))


def gen21(g, p, i):
    pols, atts = sorted(p['setup']['pols']), sorted(p['setup']['atts'])
    nthr = threads(g, 0.5)
    n = 0
    keys = 0
    for a in range(nthr):
        ops = []
        if g.maybe(0.06):
            ops.append(dict(id='c%d' % a, op='churn', nodes=g.choice((60000, 65600, 66000, 132000))))
        mine = []
        for _ in range(g.randrange(2, 9)):
            oid = 'o%d' % n
            n += 1
            k = g.random()
            if k < 0.45 or not mine:
                s = g.randrange(3)
                ops.append(dict(id=oid, op='parse', slot=s, pol=g.choice(pols)))
                key = 'k%d' % keys
                keys += 1
                if g.maybe(0.3):
                    ops.append(dict(id=oid + 'v', op='eval', slot=s, atts=g.choice(atts)))
                ops.append(dict(id=oid + 'e', op='encode', slot=s, key=key, b64=g.maybe(0.4)))
                if g.maybe(0.25):
                    ops.append(dict(id=oid + 'f', op='encode', slot=s, key=key, b64=g.maybe(0.4)))
                mine.append(key)
            elif k < 0.9:
                s = 3 + g.randrange(3)
                key = g.choice(mine) if g.maybe(0.6) else 'k%d' % g.randrange(keys)
                ops.append(dict(id=oid, op='decode', slot=s, key=key, astext=g.maybe(0.3), atts=[g.choice(atts) for _ in range(g.randrange(0, 4))]))
                if g.maybe(0.25):
                    k2 = 'k%d' % keys
                    keys += 1
                    ops.append(dict(id=oid + 'r', op='encode', slot=s, key=k2, b64=g.maybe(0.4)))
                    mine.append(k2)
            elif k < 0.95 and nthr == 1:
                ops.append(dict(id=oid, op='restart'))
            else:
                ops.append(dict(id=oid, op='bad', text=g.choice(hgplref.MALFORMED)))
        if nthr == 1 and g.maybe(0.4):
            ops.append(dict(id='rs', op='restart'))
        if nthr > 1 and g.maybe(0.5):
            mine.append('k%d' % g.randrange(keys))
            mine.append(mine[0])
        for key in mine:
            ops.append(dict(id='z' + key, op='decode', slot=9, key=key, atts=atts[:3]))
        p['actors'].append(dict(name='t%d' % a, ops=ops))


def gen22(g, p, i):
    pols = sorted(p['setup']['pols'])
    n = 0
    for a in range(threads(g, 0.3)):
        ops = []
        for _ in range(g.randrange(2, 9)):
            oid = 'o%d' % n
            n += 1
            if g.maybe(0.22):
                ops.append(dict(id=oid, op='bad', text=g.choice(hgplref.MALFORMED)))
            else:
                ops.append(dict(id=oid, op='compile', pol=g.choice(pols), how=g.choice((None, None, 'checker', 'step')),
                                level=g.choice((None, None, 'ERROR', 'WARN', 'CRIT', 'INFO'))))
        p['actors'].append(dict(name='t%d' % a, ops=ops))
