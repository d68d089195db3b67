"""Policies: a generator that knows the tree it writes, and a reference for their meaning.

A tree node is [kind, value, pos, children] with kinds and, or, not, op, att, int,
float, str, null, set, bool.  Nothing here uses the repository's code.
"""

PREFIX = {'user': 'USR_ATT', 'object': 'OBJ_ATT', 'env': 'ENV_ATT', 'admin': 'ADM_ATT', 'connect': 'CON_ATT'}
NODE = {'and': 'BoolOpNode', 'or': 'BoolOpNode', 'not': 'NotNode', 'op': 'OpNode', 'int': 'IntValNode', 'float': 'FloatValNode',
        'str': 'StringValNode', 'null': 'NullValNode', 'set': 'SetNode', 'bool': 'BoolValNode'}
ATTNODE = {'user': 'UsrAttNode', 'object': 'ObjAttNode', 'env': 'EnvAttNode', 'admin': 'AdmAttNode', 'connect': 'ConAttNode'}
TOKEN = {'and': 'BOOL_OP', 'or': 'BOOL_OP', 'not': 'NOT_OP', 'op': 'OP', 'int': 'INT', 'float': 'FLOAT', 'str': 'STRING', 'null': 'NULL',
         'set': 'LSET', 'bool': 'BOOL'}
# numbers that differ by little
CLOSE = ('1000000000.25', '1000000000.5', '0.3', '0.30000000000000004', '0.1', '0.10000000000000002', '0.0000000001', '0.0', '2.5', '2.5000000001',
         '-7.25', '-7.2500000001', '123456789.125', '123456789.1250001', '5.0', '4.9999999999')
OPS = ('=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET')


# ---------------------------------------------------------------- generator
class Writer(object):
    def __init__(self, g, schema, style=None):
        self.g, self.schema = g, schema
        self.out = []
        self.n = 0
        self.atts = []
        self.style = style or {}

    def put(self, s, word=False):
        g = self.g
        last = self.out[-1] if self.out else ''
        need = bool(last) and (last[-1].isalnum() or last[-1] in '_".') and (s[0].isalnum() or s[0] in '_"-.')
        ws = ''
        if need or g.random() < 0.6:
            ws = g.choice((' ', ' ', ' ', '  ', '\t', '\n', ' \n '))
        if not self.out and g.random() < 0.8:
            ws = ''
        if ws:
            self.out.append(ws)
            self.n += len(ws)
        pos = self.n
        self.out.append(s)
        self.n += len(s)
        return pos

    def kw(self, s):
        return self.put(self.g.choice((s, s, s.lower(), s.capitalize(), s.swapcase())))

    def text(self):
        if self.g.random() < 0.1:
            self.out.append(self.g.choice((' ', '\n', '\t')))
        return ''.join(self.out)

    # grammar ----------------------------------------------------------
    def policy(self, d):
        chain, deep = self.style.pop('chain', 0), self.style.get('deep', 0)
        if chain:                  # a long flat policy
            node, terms = None, [self.exp(d)]
            for _ in range(chain):
                w = self.g.choice(('AND', 'AND', 'OR'))
                pos = self.kw(w)
                if w == 'OR':
                    node = terms[0] if node is None else ['or', 'OR', orpos, [node, terms[0]]]
                    orpos, terms = pos, [self.exp(0)]
                else:
                    terms = [['and', 'AND', pos, [terms[0], self.exp(0)]]]
            node = terms[0] if node is None else ['or', 'OR', orpos, [node, terms[0]]]
            return node
        if deep:                   # a deeply nested one
            self.style['deep'] = deep - 1
            k = self.g.randrange(3)
            pos = self.kw('NOT') if k == 0 else None
            self.put('(')
            node = self.policy(d)
            self.put(')')
            if k == 0:
                node = ['not', 'NOT', pos, [node]]
            elif k == 1:
                pos = self.kw('AND')
                node = ['and', 'AND', pos, [node, self.exp(0)]]
            return node
        node = self.term(d)
        while self.g.random() < (0.35 if d > 0 else 0.08):
            pos = self.kw('OR')
            node = ['or', 'OR', pos, [node, self.term(d - 1)]]
        return node

    def term(self, d):
        node = self.exp(d)
        while self.g.random() < (0.4 if d > 0 else 0.08):
            pos = self.kw('AND')
            node = ['and', 'AND', pos, [node, self.exp(d - 1)]]
        return node

    def exp(self, d):
        g = self.g
        k = g.random()
        if k < 0.18:
            pos = self.kw('NOT')
            if d > 0 and g.random() < 0.6:
                self.put('(')
                sub = self.policy(d - 1)
                self.put(')')
            else:
                sub = self.boolvar()
            return ['not', 'NOT', pos, [sub]]
        if k < 0.34 and d > 0:
            self.put('(')
            sub = self.policy(d - 1)
            self.put(')')
            return sub
        if k < 0.5:
            return self.boolvar()
        return self.comparison()

    def boolvar(self):
        g = self.g
        if g.random() < 0.35:
            w = g.choice(('TRUE', 'FALSE', 'UNDEF', 'TRUE', 'FALSE'))
            return ['bool', w, self.kw(w), []]
        bools = [a for a in self.schema if self.schema[a] == 'BOOL']
        return self.att(g.choice(bools) if bools and g.random() < 0.93 else None)

    def att(self, name=None):
        g = self.g
        full = name or g.choice(sorted(self.schema))
        pre, nm = full.split('.', 1)
        if g.random() < 0.2:
            nm = ''.join(c.upper() if c.isascii() and g.random() < 0.5 else c for c in nm)
        p = g.choice((pre, pre, pre, pre.upper(), pre.capitalize()))
        pos = self.put('%s.%s' % (p, nm))
        self.atts.append([pre, nm, pos])
        return ['att', [pre, nm], pos, []]

    def atomic(self, kind=None):
        g = self.g
        kind = kind or g.choice(('int', 'int', 'float', 'str', 'str', 'null'))
        if kind == 'int':
            v = g.choice((0, 0, 1, 2, 3, 5, 7, 18, 42, -1, -5, g.randrange(-100, 100), 2147483647, -2147483648, 65535, 65536)) \
                if not self.style.get('small') and not self.style.get('huge') else g.choice((2 ** 53, 2 ** 53 + 1, 2 ** 53 - 1, -2 ** 53 - 1, 2 ** 63, 10 ** 30)) \
                if self.style.get('huge') else g.choice((0, 1, 2, 3, 5))
            s = str(v)
            if g.random() < 0.05:
                s = s.replace('-', '-0') if v < 0 else '0' + s
            return ['int', v, self.put(s), []]
        if kind == 'float':
            s = g.choice(('0.0', '1.0', '2.5', '3.14', '-0.5', '0.1', '100.001', '5.0', '3.0', '1234567.890123', '0.30000000000000004',
                          '-7.25', '2.50', '%d.%d' % (g.randrange(1000), g.randrange(10 ** 6)))) if g.random() < 0.8 else g.choice(CLOSE)
            return ['float', float(s), self.put(s), []]
        if kind == 'str':
            v = g.choice(('a', 'b', 'admin', 'doctor', '', 'x y', 'NULL', '{1}', "it's", '!~', 'CS1032', '5', ' ', 'z'))
            if g.random() < 0.1:
                v = g.token(g.choice((1, 20, 200)))
            return ['str', v, self.put('"%s"' % v), []]
        return ['null', 'NULL', self.kw('NULL'), []]

    def aset(self, kind=None):
        g = self.g
        pos = self.put('{')
        ch = []
        n = g.choice((0, 1, 1, 2, 3, 5)) if not self.style.get('bigset') else self.style['bigset']
        mixed = g.random() < 0.3
        for i in range(n):
            if i:
                self.put(',')
            ch.append(self.atomic(None if mixed else kind or g.choice(('int', 'str'))))
        self.put('}')
        return ['set', None, pos, ch]

    def var(self, kind=None):
        g = self.g
        k = g.random()
        if k < 0.45:
            return self.att()
        if k < 0.75:
            return self.atomic(kind)
        return self.aset(kind)

    def comparison(self):
        g = self.g
        if g.random() < 0.65:
            # a comparison that fits the attribute's declared type
            a = g.choice(sorted(self.schema))
            t = self.schema[a]
            if t in ('INT', 'FLOAT'):
                op = g.choice(('=', '!=', '<', '>', '<=', '>=', 'IN'))
                kind = 'int' if t == 'INT' else 'float'
            elif t == 'STRING':
                op, kind = g.choice(('=', '!=', 'IN', '=')), 'str'
            elif t == 'SET':
                op, kind = g.choice(('=', '!=', 'SUBSET', 'IN', 'SUBSET')), g.choice(('int', 'str'))
            else:
                return self.boolvar()
            flip = g.random() < 0.3
            if flip and not (op == 'IN' and t != 'SET'):
                left = self.aset(kind) if t == 'SET' and op != 'IN' else self.atomic(kind)
                pos = self.op(op)
                right = self.att(a)
            else:
                left = self.att(a)
                pos = self.op(op)
                same = [x for x in sorted(self.schema) if self.schema[x] == t]
                if g.random() < 0.25:
                    right = self.att(g.choice(same))
                elif op in ('IN', 'SUBSET') or t == 'SET':
                    right = self.aset(kind)
                else:
                    right = self.atomic(kind)
            return ['op', op, pos, [left, right]]
        left = self.var()
        op = g.choice(OPS)
        pos = self.op(op)
        right = self.var()
        return ['op', op, pos, [left, right]]

    def op(self, op):
        return self.kw(op) if op.isalpha() else self.put(op)


def policy(g, schema, depth, style=None):
    w = Writer(g, schema, style)
    tree = w.policy(depth)
    if len(w.out) > 4000 or count(tree) > 3000:
        return policy(g, schema, max(0, depth - 1), style)
    return dict(text=w.text(), tree=tree, atts=w.atts)


def count(t):
    return 1 + sum(count(c) for c in t[3])


MALFORMED = ('', ' ', 'user.a =', '= 5', '(user.a', 'user.a)', 'user.a = "x', 'user.a = 5 AND', 'NOT', '{1,2', '{1 2} = {1}', 'foo', 'foo.bar = 1',
             'user.a ! 5', '5', '"x"', 'user.a = 1.', '1.2.3 = 2', 'user. = 1', 'user.a == 5', 'AND', 'user.a = 5 OR OR TRUE', 'é', 'TRUE FALSE',
             'user.a = ()', 'user.a IN {user.b}', '#', 'user.a = TRUE', '((((((', 'NULL', 'NOT NOT TRUE', 'NOT user.a = 5', '{} {}')


# ------------------------------------------------------------- the meaning
class EvalError(Exception):
    """The policy uses something that has no truth value where one is needed."""


class Null(object):
    pass


NULL = Null()
T, F, U = 'TRUE', 'FALSE', 'UNDEF'


def is_set(v):
    return isinstance(v, (frozenset, list))


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def evaluate(tree, atts):
    """(decision or None, sorted positions of warnings); atts: 'user.x' -> (type, value)."""
    warns = []
    r = _ev(tree, atts, warns)
    if r[0] != 'truth':
        return None, sorted(warns)
    return r[1], sorted(warns)


def _ev(n, atts, warns):
    kind, v, pos, ch = n
    c = [_ev(x, atts, warns) for x in ch]
    if kind == 'bool':
        return ('truth', v)
    if kind in ('int', 'float', 'str'):
        return ('val', v)
    if kind == 'null':
        return ('val', NULL)
    if kind == 'set':
        return ('set', frozenset(x[1] for x in c))
    if kind == 'att':
        return _att(v, pos, atts, warns)
    if kind == 'not':
        if c[0][0] != 'truth':
            raise EvalError()
        return ('truth', {T: F, F: T, U: U}[c[0][1]])
    if kind in ('and', 'or'):
        if c[0][0] != 'truth' or c[1][0] != 'truth':
            raise EvalError()
        s = {c[0][1], c[1][1]}
        dom, other = (F, T) if kind == 'and' else (T, F)
        return ('truth', dom if dom in s else U if U in s else other)
    return ('truth', _op(v, c[0], c[1], warns))


def _att(name, pos, atts, warns):
    a = atts.get(('%s.%s' % (name[0], name[1])).lower())
    if a is None:
        warns.append(pos)
        return ('truth', U)
    t, v = a
    if v is None:
        warns.append(pos)
    ok = (num(v) and t in ('INT', 'FLOAT')) or (isinstance(v, str) and t == 'STRING') or (is_set(v) and t == 'SET') or \
        (isinstance(v, bool) and t == 'BOOL')
    if not ok:
        warns.append(pos)
        return ('truth', U)
    if t == 'BOOL':
        return ('truth', T if v else F)
    return ('sym', frozenset(v) if is_set(v) else v)


def _op(op, l, r, warns):
    if l == ('truth', U) or r == ('truth', U):
        return U
    res = None
    if l[0] != 'truth' and r[0] != 'truth':
        lv, rv = l[1], r[1]
        if op in ('<', '>', '<=', '>='):
            if num(lv) and num(rv):
                res = {'<': lv < rv, '>': lv > rv, '<=': lv <= rv, '>=': lv >= rv}[op]
        elif op in ('=', '!='):
            lv, rv = coerce(l, r), coerce(r, l)
            if num(lv) and num(rv) or isinstance(lv, str) and isinstance(rv, str) or is_set(lv) and is_set(rv) or lv is NULL and rv is NULL:
                res = (lv == rv) == (op == '=')
        elif op == 'IN':
            rv = coerce(r, l)
            if is_set(rv):
                res = bool(lv & rv) if is_set(lv) else lv in rv
        else:
            lv, rv = coerce(l, r), coerce(r, l)
            if is_set(lv) and is_set(rv):
                res = lv <= rv
    if res is None:
        warns.append(-1)
        return U
    return T if res else F


def coerce(x, other):
    """An attribute's single value counts as a set where it meets a set or another attribute."""
    if x[0] == 'sym' and not is_set(x[1]) and (other[0] == 'sym' or is_set(other[1])):
        return frozenset((x[1],))
    return x[1]


# -------------------------------------------------------------- type check
def typecheck(tree):
    """({attribute: type}, [(WARN or ERROR, pos)])"""
    types, issues = {}, []
    _tc(tree, types, issues)
    return types, issues


def _tc(n, types, issues):
    kind, v, pos, ch = n
    for c in ch:
        if c[0] not in ('set', 'int', 'float', 'str', 'null', 'bool'):
            _tc(c, types, issues)
    if kind == 'att':
        types.setdefault(('%s.%s' % (v[0], v[1])).lower(), 'UNKNOWN')
    elif kind == 'op':
        l, r = ch[0], ch[1]
        ks = (l[0], r[0])
        e = False
        if v in ('<', '>', '<=', '>='):
            if 'str' in ks or 'null' in ks:
                e = True
            elif 'att' in ks:
                _attcheck(l, r, pos, types, issues)
            elif 'set' in ks:
                e = True
        elif v in ('=', '!='):
            if 'att' in ks:
                _attcheck(l, r, pos, types, issues)
            else:
                for k in ('null', 'str', 'set'):
                    if (l[0] == k) != (r[0] == k):
                        e = True
        elif v == 'IN':
            e = r[0] in ('null', 'str', 'int', 'float') or l[0] == 'set'
        else:
            e = l[0] not in ('set', 'att') or r[0] not in ('set', 'att')
        if e:
            issues.append(('ERROR', pos))


def _attcheck(l, r, pos, types, issues):
    numeric = ('INT', 'FLOAT')
    if l[0] == 'att' and r[0] == 'att':
        a, b = types[('%s.%s' % tuple(l[1])).lower()], types[('%s.%s' % tuple(r[1])).lower()]
        if a != b and not (a in numeric and b in numeric):
            issues.append(('WARN', pos))
        return
    att, val = (l, r) if l[0] == 'att' else (r, l)
    key = ('%s.%s' % tuple(att[1])).lower()
    t = {'int': 'INT', 'float': 'FLOAT', 'str': 'STRING', 'set': 'SET', 'null': 'UNKNOWN'}[val[0]]
    if types[key] == 'UNKNOWN':
        types[key] = t
    elif types[key] != t and not (types[key] in numeric and t in numeric):
        issues.append(('WARN', pos))


# -------------------------------------------------------- compare with real
def same_tree(t, node, path='root'):
    """None, or how the real tree differs from the expected one."""
    kind, v, pos, ch = t
    cls = ATTNODE[v[0]] if kind == 'att' else NODE[kind]
    tok = PREFIX[v[0]] if kind == 'att' else TOKEN[kind]
    if type(node).__name__ != cls:
        return '%s: a %s instead of a %s' % (path, type(node).__name__, cls)
    if node.token.type.name != tok:
        return '%s: token %s instead of %s' % (path, node.token.type.name, tok)
    want = v[1] if kind == 'att' else v
    got = node.token.value
    if type(got) is not type(want) or got != want:
        return '%s: value %r instead of %r' % (path, got, want)
    if node.token.pos != pos:
        return '%s: position %r instead of %r' % (path, node.token.pos, pos)
    kids = list(node.children())
    if len(kids) != len(ch):
        return '%s: %d children instead of %d' % (path, len(kids), len(ch))
    for i, (a, b) in enumerate(zip(ch, kids)):
        d = same_tree(a, b, '%s.%d' % (path, i))
        if d:
            return d
    return None
