"""Abstract interpreter over the extracted CFGs: enumerates the paths of a function (repo callees inlined on
demand) with symbolic values and the set of elementary conditions each path has assumed.  Conditions are opaque
predicates over symbolic values; a path is dropped only when it would need one predicate both true and false.
Nothing is executed, loops are cut when a state repeats, and no solver is involved."""
import re

from .extract import AnalysisBroken
from .terms import EXPL_CASTS

TRUE, FALSE, NULL = ('c', True), ('c', False), ('null',)
CALLK = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')
CTORK = ('CXXConstructExpr', 'CXXTemporaryObjectExpr')
SCALARS = ('int', 'unsigned int', 'bool', 'long', 'unsigned long', 'short', 'char')
CMP = {'==': ('eq', False, True), '!=': ('eq', True, True), '<': ('lt', False, False), '>': ('gt', False, False), '<=': ('gt', True, False), '>=': ('lt', True, False)}


class State:
    __slots__ = ('facts', 'heap', 'events')

    def __init__(self, facts=None, heap=None, events=()):
        self.facts = facts or {}
        self.heap = heap or {}
        self.events = events

    def copy(self):
        return State(dict(self.facts), dict(self.heap), self.events)

    def key(self):
        return (frozenset(self.facts.items()), frozenset(self.heap.items()), self.events)

    def event(self, ev):
        if ev not in self.events:
            self.events = self.events + (ev,)


class Frame:
    __slots__ = ('fn', 'env', 'vals', 'short', 'this', 'alias', 'depth', 'outer')

    def __init__(self, fn, env, this, depth, outer=None):
        self.fn, self.env, self.this, self.depth = fn, env, this, depth
        self.vals, self.short, self.alias = {}, {}, {}
        self.outer = outer

    def copy(self):
        f = Frame(self.fn, dict(self.env), self.this, self.depth, self.outer)
        f.vals, f.short, f.alias = dict(self.vals), dict(self.short), dict(self.alias)
        return f

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.vals.items()), frozenset(self.short.items()))


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v)


def at_index(f, idx):
    if isinstance(f, tuple):
        if f and f[0] in ('at', 'lt') and idx in f[1:]:
            return True
        return any(at_index(x, idx) for x in f)
    return False


def flat(op, *vs):
    out = []
    for v in vs:
        if isinstance(v, tuple) and v and v[0] == op:
            out.extend(v[1:])
        else:
            out.append(v)
    return (op,) + tuple(out)


class Interp:
    MAXDEPTH = 10
    MAXSTEPS = 60000

    def __init__(self, prog):
        self.prog = prog
        self.steps = 0
        self.stack = []
        self.closures = {}

    # ---- hooks
    def on_call(self, fn, node, d, obj, args, st):
        """None: default; ('val', v): the call's value; 'inline'; 'opaque'"""
        return None

    def want_inline(self, callee):
        return False

    def keep_fact(self, key):
        """conditions that are not worth remembering are taken both ways each time"""
        return True

    # ---- truth of a value
    def truth(self, v, st):
        """True/False/None, and the canonical (key, positive) for splitting"""
        pos = True
        while isinstance(v, tuple) and v and v[0] == 'not':
            pos = not pos
            v = v[1]
        if v[0] == 'c':
            return v[1] == pos, None, pos
        if v[0] == 'nn' and v[1][0] == 'as':
            v = ('isa',) + v[1][1:]
        if v[0] == 'nn':
            x = v[1]
            if x[0] in ('null',):
                return False == pos, None, pos
            if x[0] in ('new', 'lambda', 'str', 'fnref', 'addr'):
                return True == pos, None, pos
            if x[0] == 'list' and len(x) > 1:       # an optional that was given a value
                return True == pos, None, pos
        if v[0] == 'nz':
            x = v[1]
            if x[0] in ('int',):
                return (x[1] != 0) == pos, None, pos
            if x[0] == 'enum':
                return (x[2] != 0) == pos, None, pos
            if x[0] == 'band':
                t = self.bits(x)
                if t is not None:
                    return t == pos, None, pos
        if v[0] in ('int',):
            return (v[1] != 0) == pos, None, pos
        if v[0] == 'enum':
            return (v[2] != 0) == pos, None, pos
        if v[0] == 'null':
            return (not pos), None, pos
        if v in st.facts:
            return st.facts[v] == pos, None, pos
        if v[0] == 'eq' and self.other_constant(v, st.facts):
            return not pos, None, pos
        return None, v, pos

    @staticmethod
    def literal(x):
        """something that equals no other literal of its kind"""
        return (x[0], x[1]) if x[0] in ('str', 'int') else ('enum', x[2]) if x[0] == 'enum' and isinstance(x[2], int) else None

    def other_constant(self, key, facts):
        """x == a when x is known to be b"""
        for x, c in (key[1:], (key[2], key[1])):
            lc = self.literal(c)
            if lc is None or self.literal(x) is not None:
                continue
            for k, t in facts.items():
                if t and k[0] == 'eq' and x in k[1:]:
                    o = self.literal(k[1] if k[2] == x else k[2])
                    if o is not None and o[0] == lc[0] and o != lc:
                        return True
        return False

    @staticmethod
    def ival(x):
        return x[1] if x[0] == 'int' else x[2] if x[0] == 'enum' else None

    def bits(self, x):
        """truth of a & b when it is decided by the enumerators or'ed together"""
        parts = x[1:]
        ks = [self.ival(p) for p in parts]
        if all(k is not None for k in ks):
            r = ks[0]
            for k in ks[1:]:
                r &= k
            return r != 0
        if len(parts) == 2:
            for a, b in ((0, 1), (1, 0)):
                m = ks[b]
                if m is not None and parts[a][0] == 'bor':
                    iv = [self.ival(p) for p in parts[a][1:]]
                    if any(i is not None and i & m == m and m for i in iv):
                        return True
                    if all(i is not None and not i & m for i in iv):
                        return False
        return None

    # ---- evaluation of one node whose children are already evaluated or pure
    def val(self, fr, st, i):
        if i is None or i < 0:
            return ('none',)
        if i in fr.vals:
            return fr.vals[i]
        v = self.compute(fr, st, i)
        return v

    def field(self, st, obj, q):
        if q and q.startswith(('std::pair', 'std::__pair_base')):
            q = q.rsplit('::', 1)[1]
        if q in ('first', 'second'):
            if obj[0] == 'range':
                return ('it' if q == 'first' else 'end', obj)
            if obj[0] == 'pair':
                return obj[1 if q == 'first' else 2]
        k = (obj, q)
        if k in st.heap:
            return st.heap[k]
        if obj[0] == 'list' and q:
            r = self.prog.records.get(q.rsplit('::', 1)[0])
            names = [f.get('q') for f in r.get('fields', ())] if r else []
            if q in names and len(names) == len(obj) - 1:
                return obj[1 + names.index(q)]
        return ('fld', obj, q)

    def on_new(self, fr, st, i):
        return None

    def compute(self, fr, st, i):
        fn = fr.fn
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        if k == 'DeclRefExpr':
            d = fn.decl(n)
            v = n['d']
            if d['k'] == 'EnumConstant':
                return ('enum', d['q'], int(d.get('v', 0)))
            if v in fr.env:
                return fr.env[v]
            if d['k'] in ('Function', 'CXXMethod'):
                return ('fnref', d.get('key', d['q']))
            if d.get('gl') or d.get('sl'):
                return NULL if d['q'] == 'std::nullopt' else ('glob', d['q'])
            if d['k'] == 'Binding':
                return ('bind', d['n'], v)
            return ('var', fn.key, v, d.get('n'))
        if k == 'CXXThisExpr':
            return fr.this
        if k == 'MemberExpr':
            d = fn.decl(n) or {}
            if d.get('k', '').startswith('CXX'):
                return ('none',)
            if d.get('k') == 'Var':
                return NULL if d['q'] == 'std::nullopt' else ('glob', d['q'])
            return self.field(st, self.val(fr, st, c[0]), d.get('q'))
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return ('int', int(n['v']))
        if k == 'CXXBoolLiteralExpr':
            return ('c', n['v'] == 'true')
        if k == 'StringLiteral':
            return ('str', n.get('v', '?'))
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return NULL
        if k == 'ImplicitCastExpr':
            v = self.val(fr, st, c[0])
            ck = n.get('ck')
            if ck == 'PointerToBoolean':
                return ('nn', v)
            if ck == 'IntegralToBoolean':
                if v[0] == 'int':
                    return ('c', v[1] != 0)
                if v[0] == 'enum':
                    return ('c', v[2] != 0)
                if v[0] in ('c', 'not', 'eq', 'lt', 'gt'):
                    return v
                if v[0] == 'size':
                    return self.neg(('empty', v[1]))
                if v[0] == 'count':
                    return ('has',) + v[1:]
                return ('nz', v)
            return v
        if k in EXPL_CASTS:
            return self.val(fr, st, c[0]) if c else ('none',)
        if k == 'UnaryOperator':
            op = n['op']
            v = self.val(fr, st, c[0])
            if op == '!':
                return self.neg(v)
            if op == '*' and v[0] == 'pos':
                return self.at_pos(v)
            if op == '*' and v[0] == 'addr':
                return self.field(st, v[1], v[2])
            if op == '&' and fn.nodes[c[0]]['k'] == 'MemberExpr' and fn.type(c[0]) in SCALARS:
                m = fn.nodes[c[0]]
                return ('addr', self.val(fr, st, m['c'][0]), (fn.decl(m) or {}).get('q'))
            if op in ('*', '&', '+', '__extension__ '):
                return v
            if op == '-' and v[0] == 'int':
                return ('int', -v[1])
            if '++' in op or '--' in op:
                return v
            return ('u', op, v)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['op']
            if op in ('&&', '||'):
                if i in fr.short:
                    return ('c', fr.short[i])
                a = self.val(fr, st, c[0])
                t, _, _ = self.truth(a, st)
                if t is not None and t == (op == '||'):
                    return ('c', t)
                return self.val(fr, st, c[1])
            a, b = self.val(fr, st, c[0]), self.val(fr, st, c[1])
            if op == ',':
                return b
            if op == '=':
                return b
            return self.binop(op.rstrip('=') if k == 'CompoundAssignOperator' else op, a, b)
        if k == 'ConditionalOperator':
            t = fr.short.get(i)
            if t is None:
                t, _, _ = self.truth(self.val(fr, st, c[0]), st)
            if t is None:
                return ('?', self.val(fr, st, c[0]), self.val(fr, st, c[1]), self.val(fr, st, c[2]))
            return self.val(fr, st, c[1] if t else c[2])
        if k == 'ArrayInitLoopExpr':
            return self.val(fr, st, c[0]) if c else ('none',)
        if k in CTORK:
            if n.get('list') and len(c) > 0 and 'vector' in fn.type(n):
                v = self.val(fr, st, c[0])
                if fn.nodes[c[0]]['k'] == 'InitListExpr' and all(fn.nodes[x]['k'] in CTORK + ('CXXDefaultArgExpr',) and not fn.nodes[x].get('c') for x in c[1:]):
                    return v
                return ('list',) + tuple(self.val(fr, st, x) for x in c)
            if len(c) == 1:
                return self.val(fr, st, c[0])
            if c and 'basic_string' in fn.type(n).split('<')[0]:
                real = [x for x in c if not (fn.nodes[x]['k'] in CTORK and not fn.nodes[x].get('c'))]
                if len(real) == 1:
                    return self.val(fr, st, real[0])
            if not c:
                t = fn.type(n).removeprefix('const ')
                if t.startswith(('std::vector', 'std::set', 'std::map', 'std::unordered', 'std::initializer_list', 'llvm::SmallVector')):
                    return ('list',)
                if 'basic_string' in t or 'StringRef' in t:
                    return ('str', '')
                if 'ptional<' in t.split(' ')[-1] or t.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::optional', 'clang::QualType', 'llvm::IntrusiveRefCntPtr')):
                    return NULL
                return ('ctor', t)
            if len(c) == 2 and fn.type(n).removeprefix('const ').startswith('std::pair<'):
                return ('pair', self.val(fr, st, c[0]), self.val(fr, st, c[1]))
            return ('ctor', fn.type(n)) + tuple(self.val(fr, st, x) for x in c)
        if k == 'CXXNewExpr':
            v = self.on_new(fr, st, i)
            if v is not None:
                return v
            return ('new', fn.typ(n.get('at', -1)), fn.key, i)
        if k == 'InitListExpr':
            if len(c) == 1 and not fn.type(n).startswith(('std::vector', 'std::initializer_list')) and '[' not in fn.type(n):
                return self.val(fr, st, c[0])
            if not c:
                t = fn.type(n)
                if t in ('int', 'unsigned int', 'long', 'unsigned long'):
                    return ('int', 0)
                if t.endswith('*'):
                    return NULL
                if t == 'bool':
                    return FALSE
            return ('list',) + tuple(self.val(fr, st, x) for x in c)
        if k == 'LambdaExpr':
            key = (fn.decl(n.get('fn', -1)) or {}).get('key')
            self.closures[key] = (dict(fr.env), fr.this)
            return ('lambda', key)
        if k == 'ArraySubscriptExpr':
            return self.index(self.val(fr, st, c[0]), self.val(fr, st, c[1]))
        if k == 'UserDefinedLiteral':
            return self.val(fr, st, c[0]) if c else ('none',)
        if k in CALLK:
            # a call that is not a CFG element of its own
            obj, args = self.call_parts(fr, st, i)
            return self.opaque(fr, st, i, fn.decl(n) or {}, obj, args)
        return ('e', k, fn.key, i)

    @staticmethod
    def neg(v):
        if v[0] == 'c':
            return ('c', not v[1])
        if v[0] == 'not':
            return v[1]
        return ('not', v)

    @staticmethod
    def at_pos(v):
        return v[1][1 + v[2]] if 0 <= v[2] < len(v[1]) - 1 else ('none',)

    def range_pos(self, d, v):
        """a loop over a list that is written down goes through its elements one after another"""
        nm = d.get('n') or ''
        if nm.startswith('__begin'):
            l = v[1] if v[0] == 'it' else v
            if l[0] == 'list' and 1 < len(l) < 18:
                return ('pos', l, 0)
        elif nm.startswith('__end'):
            l = v[1] if v[0] == 'end' else next((x for x in v[1:] if isinstance(x, tuple) and x and x[0] == 'list'), v) if v[0] in ('b', 'cat') else v
            if l[0] == 'list' and 1 < len(l) < 18:
                return ('pos', l, len(l) - 1)
        return v

    def binop(self, op, a, b):
        if op in CMP and a[0] == 'pos' and b[0] == 'pos' and a[1] == b[1]:
            return ('c', {'==': a[2] == b[2], '!=': a[2] != b[2], '<': a[2] < b[2], '>': a[2] > b[2], '<=': a[2] <= b[2], '>=': a[2] >= b[2]}[op])
        if op in CMP:
            if a[0] == 'call' and str(a[1]).endswith('operator<=>') and len(a) == 4 and b == ('int', 0):
                return self.binop(op, a[2], a[3])
            o, neg, sym = CMP[op]
            if op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if y == NULL:
                        r = ('c', False) if x[0] in ('new', 'lambda', 'addr') else ('c', True) if x == NULL else self.neg(('nn', x))
                        return self.neg(r) if neg else r
                    if y[0] == 'c':
                        r = x if y[1] else self.neg(x)
                        return self.neg(r) if neg else r
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'find' and (y == ('end', x[1]) or y[0] == 'glob' and y[1].endswith('npos') or y == ('int', -1)):
                        r = self.neg(('has',) + x[1:])
                        return self.neg(r) if neg else r
                    if x[0] == 'cmp' and y == ('int', 0):
                        r = self.binop('==', x[1], x[2])
                        return self.neg(r) if neg else r
                    if y == ('str', '') and x[0] != 'str':
                        r = ('c', False) if x[0] == 'cat' and any(z[0] == 'str' and z[1] for z in x[1:]) else ('empty', x)
                        return self.neg(r) if neg else r
                    if x[0] == 'size' and y == ('int', 0):
                        return self.neg(('empty', x[1])) if neg else ('empty', x[1])
                    if x[0] == 'count' and y == ('int', 0):
                        r = self.neg(('has',) + x[1:])
                        return self.neg(r) if neg else r
                    if x[0] == 'cat' and y == ('int', -1) and any(z[0] == 'find' for z in x[1:]) and all(z[0] == 'find' or z[0] == 'int' and z[1] >= 0 for z in x[1:]):
                        return ('c', neg)            # a position that was found, plus something
                ka, kb = self.konst(a), self.konst(b)
                if ka is not None and kb is not None:
                    return ('c', (ka == kb) != neg)
                if a == b:
                    return ('c', not neg)
                for x, y in ((a, b), (b, a)):
                    m = self.ival(y)
                    if x[0] == 'band' and m and not m & (m - 1) and any(self.ival(z) == m for z in x[1:]):
                        return self.neg(('nz', x)) if neg else ('nz', x)        # one bit
                if kb == 0 and b[0] == 'int' and a[0] == 'band':
                    r = self.neg(('nz', a))
                    return self.neg(r) if neg else r
                x, y = sorted((a, b), key=repr)
                r = ('eq', x, y)
                return self.neg(r) if neg else r
            ia, ib = self.ival(a), self.ival(b)
            if ia is not None and ib is not None:
                return ('c', {'<': ia < ib, '>': ia > ib, '<=': ia <= ib, '>=': ia >= ib}[op])
            if a[0] == 'count' and b == ('int', 0) and op in ('>', '<='):
                return ('has',) + a[1:] if op == '>' else self.neg(('has',) + a[1:])
            if a[0] == 'count' and b == ('int', 1) and op in ('>=', '<'):
                return ('has',) + a[1:] if op == '>=' else self.neg(('has',) + a[1:])
            if a[0] == 'size' and b == ('int', 0) and op in ('>', '<='):
                return self.neg(('empty', a[1])) if op == '>' else ('empty', a[1])
            if a[0] == 'size' and b == ('int', 1) and op in ('>=', '<'):
                return self.neg(('empty', a[1])) if op == '>=' else ('empty', a[1])
            # canonical: lt(x, y)
            if op == '<':
                return ('lt', a, b)
            if op == '>':
                return ('lt', b, a)
            if op == '<=':
                return self.neg(('lt', b, a))
            return self.neg(('lt', a, b))
        if op == '|':
            return flat('bor', a, b)
        if op == '&':
            ia, ib = self.ival(a), self.ival(b)
            if ia is not None and ib is not None:
                return ('int', ia & ib)
            x, y = sorted((a, b), key=repr)
            return ('band', x, y)
        if op == '+':
            ia, ib = self.ival(a), self.ival(b)
            if a[0] == 'int' and b[0] == 'int':
                return ('int', ia + ib)
            return flat('cat', a, b)
        if op == '-' and a[0] == 'int' and b[0] == 'int':
            return ('int', a[1] - b[1])
        return ('b', op, a, b)

    @staticmethod
    def konst(v):
        if v[0] in ('int', 'str'):
            return v[1]
        if v[0] == 'enum':
            return v[2]
        return None

    # ---- calls
    def call_parts(self, fr, st, i):
        n = fr.fn.nodes[i]
        c = n.get('c', [])
        d = fr.fn.decl(n)
        if n['k'] == 'CXXMemberCallExpr':
            return self.val(fr, st, n.get('o', -1)), [self.val(fr, st, x) for x in c]
        if n['k'] == 'CXXOperatorCallExpr':
            if d and d.get('cls'):
                return self.val(fr, st, c[0]), [self.val(fr, st, x) for x in c[1:]]
            return None, [self.val(fr, st, x) for x in c]
        if n['k'] == 'CallExpr' and n.get('o', -1) is not None and n.get('o', -1) >= 0:
            return self.val(fr, st, n['o']), [self.val(fr, st, x) for x in c]
        return None, [self.val(fr, st, x) for x in c]

    def arg_nodes(self, fn, i):
        n = fn.nodes[i]
        c = n.get('c', [])
        d = fn.decl(n)
        if n['k'] == 'CXXOperatorCallExpr' and d and d.get('cls'):
            return c[1:]
        return c

    @staticmethod
    def index(a, b):
        if a[0] == 'list' and b[0] == 'int' and 0 <= b[1] < len(a) - 1:
            return a[1 + b[1]]
        return ('at', a, b)

    def opaque(self, fr, st, i, d, obj, args):
        """value of a call that is not looked into"""
        fn = fr.fn
        n = fn.nodes[i]
        q = d.get('q', '?')
        nm = d.get('n', '?')
        if n['k'] == 'CXXOperatorCallExpr':
            op = n['op']
            a = ([obj] if obj is not None else []) + args
            if op in CMP and len(a) == 2:
                return self.binop(op, a[0], a[1])
            if op in ('|', '&', '+') and len(a) == 2:
                return self.binop(op, a[0], a[1])
            if op == '!':
                return self.neg(('nn', a[0]) if a[0][0] not in ('c', 'not') else a[0])
            if op in ('*', '->') and len(a) == 1:
                return self.at_pos(a[0]) if a[0][0] == 'pos' else a[0]
            if op == '=':
                return a[-1]
            if op == '[]' and len(a) == 2:
                return self.index(a[0], a[1])
            if op == '<<':
                return a[0]
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::cref', 'std::ref') and args:
            return args[0]
        if q.startswith('llvm::') and args and len(args) == 1 and d.get('ta') and all(isinstance(t, str) for t in d['ta']):
            ty = ','.join(t.replace('clang::', '') for t in d['ta'][:-1])
            if nm in ('isa', 'isa_and_nonnull', 'isa_and_present'):
                return ('isa', ty, args[0])
            if nm in ('dyn_cast', 'dyn_cast_or_null', 'dyn_cast_if_present'):
                return ('as', ty, args[0])
            if nm in ('cast', 'cast_or_null', 'cast_if_present'):
                return args[0]
        if nm in ('begin', 'cbegin') and (obj is not None or len(args) == 1):
            return ('it', obj if obj is not None else args[0])
        if nm in ('rbegin', 'crbegin', 'rend', 'crend') and (obj is not None or len(args) == 1):
            return ('end' if 'end' in nm else 'it', ('rev', obj if obj is not None else args[0]))
        if nm in ('end', 'cend') and (obj is not None or len(args) == 1):
            return ('end', obj if obj is not None else args[0])
        if q.startswith(('std::', 'llvm::', '__gnu')):
            if nm == 'equal_range' and obj is not None and len(args) == 1:
                return ('range', obj, args[0])
            if nm == 'find' and obj is not None and len(args) in (1, 2):
                return ('find', obj, args[0]) + tuple(args[1:] if args[1:] != [('int', 0)] else ())
            if nm in ('count', 'contains') and obj is not None and len(args) == 1:
                return ('has', obj, args[0]) if nm == 'contains' else ('count', obj, args[0])
            if nm == 'starts_with' or nm == 'ends_with' or nm == 'match':
                return (nm, obj) + tuple(args)
            if nm in ('find', 'count', 'contains') and obj is None and args or nm == 'operator()' and q in ('std::ranges::__find_fn::operator()', 'std::ranges::__contains_fn::operator()', 'std::ranges::__count_fn::operator()'):
                cont, rest = self.loop_range(args)
                if rest:
                    w = 'find' if 'find' in q else 'has' if 'contains' in q else 'count'
                    return (w, cont, rest[0])
        if nm in ('operator bool', 'has_value') and obj is not None:
            return ('nn', obj)
        if nm in ('get', 'value', 'operator->', 'operator*', 'c_str', 'str', 'data', 'trim', 'getValue') and obj is not None and not args:
            if nm in ('trim',):
                return ('call', q, obj)
            return obj
        if nm in ('empty', 'isEmpty') and obj is not None:
            if obj[0] == 'str':
                return ('c', obj[1] == '')
            if obj[0] == 'list':
                return ('c', len(obj) == 1)
            if obj[0] == 'cat' and any(x[0] == 'str' and x[1] for x in obj[1:]):
                return ('c', False)
            return ('empty', obj)
        if nm.startswith('operator ') and obj is not None and not args:
            return obj                              # conversion
        if nm == 'at' and obj is not None and len(args) == 1 and q.startswith(('std::vector', 'std::array', 'std::basic_string')):
            return self.index(obj, args[0])
        if nm in ('size', 'length') and obj is not None and not args:
            if obj[0] == 'list':
                return ('int', len(obj) - 1)
            return ('size', obj)
        if q in ('clang::Token::is', 'clang::Token::isNot') and obj is not None and len(args) == 1:
            return self.binop('==' if nm == 'is' else '!=', ('call', 'clang::Token::getKind', obj), args[0])
        if nm == 'isInvalid' and obj is not None:
            return ('not', ('valid', obj))
        if nm == 'isValid' and obj is not None:
            return ('valid', obj)
        if nm == 'isFileID' and obj is not None:
            return ('not', ('call', 'clang::SourceLocation::isMacroID', obj))
        if nm == 'compare' and obj is not None and len(args) == 1:
            return ('cmp', obj, args[0])
        if q in ('strcmp', 'std::strcmp') and len(args) == 2:
            return ('cmp', args[0], args[1])
        if nm == 'strlen' and len(args) == 1 and args[0][0] == 'str':
            return ('int', len(args[0][1]))
        if q == 'std::make_pair' and len(args) == 2:
            return ('pair', args[0], args[1])
        if nm == 'value_or' and obj is not None and args:
            return ('value_or', obj, args[0])
        return ('call', q) + ((obj,) if obj is not None else ()) + tuple(a for a in args)

    FORWARDERS = ('move', 'forward', 'make_pair', 'make_tuple', 'emplace_back', 'emplace', 'push_back', 'insert', 'make_unique', 'make_shared', 'try_emplace', 'insert_or_assign', 'emplace_front', 'emplace_hint',
                  'tie', 'get', 'back_inserter', 'inserter', 'forward_as_tuple', 'as_const', 'addressof', 'ref', 'cref')

    def havoc_after(self, fr, st, i, d, obj):
        """an opaque call may change what it gets by non-const reference"""
        fn = fr.fn
        n = fn.nodes[i]
        from .effects import is_nonconst_ref
        ps = d.get('ps', [])
        for x, (pn, pt) in zip(self.arg_nodes(fn, i), ps):
            t = fn.typ(pt)
            xn = fn.nodes[x]
            if is_nonconst_ref(t) and xn['k'] == 'DeclRefExpr' and xn['d'] in fr.env and not d.get('q', '').startswith('std::ranges') and not (d.get('q', '').startswith('std::') and d.get('n') in self.FORWARDERS):
                old = fr.env[xn['d']]
                if old[0] == 'hv':
                    self.on_iter(fn, i, old, dict(st.facts), st)
                self.bind(fr, st, xn['d'], ('hv', fn.key, i, pn))
                if old[0] in ('it', 'hv'):
                    st.events = tuple(e for e in st.events if not mentions(e, old))
            elif xn['k'] == 'UnaryOperator' and xn['op'] == '&' and fn.nodes[xn['c'][0]]['k'] == 'DeclRefExpr':
                v = fn.nodes[xn['c'][0]]['d']
                if v in fr.env:
                    self.bind(fr, st, v, ('hv', fn.key, i, pn))

    MUT = {'push_back': 'add', 'emplace_back': 'add', 'insert': 'add', 'emplace': 'add', 'append': 'cat', 'push': 'add'}

    def step(self, fr, st, i, lhs, old):
        if old[0] == 'pos':
            self.assign(fr, st, lhs, ('pos', old[1], old[2] + (1 if '++' in fr.fn.nodes[i].get('op', '') else -1)))
            return
        self.step_over(fr, st, i, lhs, old)

    def step_over(self, fr, st, i, lhs, old):
        """++/--: the facts about the element that was looked at are given to on_iter and forgotten"""
        about = [old] if old[0] in ('it', 'hv') else [old] if old[0] == 'int' else []
        old_facts = {}
        # with a counter, the elements of what it is compared with the size of
        of = {k[2][1] for k in st.facts if k[0] == 'lt' and k[1] == old and k[2][0] == 'size'} if old[0] == 'int' else set()
        mine = lambda f: any(mentions(f, ('at', c, old)) for c in of) or any(mentions(f, ('size', c)) for c in of) if of else at_index(f, old)
        for x in about:
            for f in st.facts:
                if old[0] == 'int' and not mine(f):
                    continue
                if mentions(f, x):
                    old_facts[f] = st.facts[f]
        self.on_iter(fr.fn, i, old, dict(st.facts), st)
        for f in old_facts:
            del st.facts[f]
        if old[0] in ('it', 'hv'):
            st.events = tuple(e for e in st.events if not mentions(e, old))
        elif old[0] == 'int':
            st.events = tuple(e for e in st.events if not mine(e))
        new = ('hv', fr.fn.key, i, 'step')
        if old[0] == 'it':
            new = old
        elif old[0] in ('call', 'sym', 'fld'):
            new = flat('cat', old, ('int', 1 if '++' in fr.fn.nodes[i].get('op', '') else -1))
        self.assign(fr, st, lhs, new)

    def on_iter(self, fn, i, old, facts, st):
        pass

    def loop_range(self, args):
        """(container, remaining arguments) of a standard algorithm's range"""
        if args and args[0][0] == 'it' and len(args) > 1:
            return args[0][1], args[2:]
        return (args[0] if args else ('none',)), args[1:]

    ALG = {'any_of': 1, 'none_of': 1, 'all_of': 1, 'find_if': 1, 'find_if_not': 1, 'for_each': 1}

    def algorithm(self, fr, st, i, d, obj, args):
        nm = d.get('n')
        q = d.get('q', '')
        if nm == 'operator()' and q.startswith('std::ranges::__'):
            nm = re.sub(r'_fn$', '', q.split('::')[2].strip('_'))
            obj = None
        elif not q.startswith(('std::', 'llvm::')):
            return None
        if nm not in self.ALG or not args:
            return None
        cont, rest = self.loop_range(args)
        if not rest or rest[0][0] != 'lambda':
            return None
        callee = self.prog.funcs.get(rest[0][1])
        if callee is None or not callee.blocks:
            return None
        done = ('eq',) + tuple(sorted((('it', cont), ('end', cont)), key=repr))
        out = []
        it = ('it', cont)
        env = dict(self.closures.get(callee.key, ({}, None))[0])
        if callee.tu is fr.fn.tu:
            env.update(fr.env)
        if callee.params:
            env[callee.params[0]] = it
        this = self.closures.get(callee.key, (None, fr.this))[1]
        s0 = st.copy()
        for f in [f for f in s0.facts if mentions(f, it)]:
            del s0.facts[f]
        s1 = s0.copy()
        s0.facts[done] = False
        neg = nm in ('all_of', 'find_if_not')
        sloop = []
        for ret, s2, env2 in self.run(callee, env, this, s0, fr.depth + 1):
            for t, f2, s3 in self.split(fr, s2, ret) if ret[0] != 'void' else [(None, fr, s2)]:
                if t is not None and t != neg:
                    f3 = fr.copy()
                    f3.vals[i] = self.algval(nm, True, it)
                    out.append((f3, s3))
                else:
                    self.on_iter(callee, callee.nodes.index(next(x for x in callee.nodes if x)), it, dict(s3.facts), s3)
                    if s3.events != s1.events:
                        sloop.append(s3)
        f3 = fr.copy()
        f3.vals[i] = self.algval(nm, False, ('end', cont))
        s1.facts[done] = True
        out.append((f3, s1))
        for s3 in sloop:
            f3 = fr.copy()
            f3.vals[i] = self.algval(nm, False, ('end', cont))
            for f in [f for f in s3.facts if mentions(f, it)]:
                del s3.facts[f]
            s3.events = tuple(e for e in s3.events if not mentions(e, it))
            s3.facts[done] = True
            out.append((f3, s3))
        return out

    @staticmethod
    def algval(nm, hit, pos):
        if nm in ('any_of',):
            return ('c', hit)
        if nm in ('all_of', 'none_of'):
            return ('c', not hit)
        if nm == 'for_each':
            return ('void',)
        return pos

    def bind(self, fr, st, v, val):
        """new value for a local; facts about a re-created unknown are forgotten"""
        if isinstance(val, tuple) and val and val[0] in ('hv', 'bind', 'new'):
            for f in [f for f in st.facts if mentions(f, val)]:
                del st.facts[f]
        fr.env[v] = val

    def assign(self, fr, st, lhs, val):
        fn = fr.fn
        n = fn.nodes[lhs]
        if n['k'] == 'DeclRefExpr':
            v = n['d']
            d = fn.decl(n)
            if d.get('gl') or d.get('sl'):
                return
            if v in fr.alias:
                st.heap[fr.alias[v]] = val
            self.bind(fr, st, v, val)
        elif n['k'] == 'MemberExpr':
            o = self.val(fr, st, n['c'][0])
            st.heap[(o, (fn.decl(n) or {}).get('q'))] = val
        elif n['k'] == 'UnaryOperator' and n['op'] == '*':
            p = self.val(fr, st, n['c'][0])
            if p[0] == 'addr':
                st.heap[p[1:]] = val
            else:
                self.assign(fr, st, n['c'][0], val)

    def mutate(self, fr, st, obj_node, val):
        if obj_node is None or obj_node < 0:
            return
        k = fr.fn.nodes[obj_node]['k']
        if k in ('DeclRefExpr', 'MemberExpr'):
            old = self.val(fr, st, obj_node)
            if old[0] in ('hv', 'upd') and old != val:
                for f in [f for f in st.facts if mentions(f, old)]:
                    del st.facts[f]
            self.assign(fr, st, obj_node, val)

    # ---- execution
    def element(self, fr, st, i):
        """execute one CFG element; yields (frame, state)"""
        fn = fr.fn
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        if k == 'DeclStmt':
            for x in n.get('vars', ()):
                d = fn.tu.decls[x[0]]
                if d.get('sl') and not (fn.typ(d.get('t', -1)).startswith('const ') and x[1] >= 0):
                    continue
                v = self.range_pos(d, self.val(fr, st, x[1])) if x[1] >= 0 else ('undef', x[0])
                self.bind(fr, st, x[0], v)
                t = fn.typ(d.get('t', -1))
                if t.endswith('&') and x[1] >= 0 and fn.nodes[x[1]]['k'] == 'MemberExpr':
                    m = fn.nodes[x[1]]
                    fr.alias[x[0]] = (self.val(fr, st, m['c'][0]), (fn.decl(m) or {}).get('q'))
                for b in n.get('bind', ()):
                    bd = fn.tu.decls[b[0]]
                    idx = n['bind'].index(b)
                    if len(n['bind']) == 2 and 'pair<' in fn.typ(d.get('t', -1)):
                        self.bind(fr, st, b[0], self.field(st, v, 'second' if idx else 'first'))
                    elif v[0] == 'list' and len(v) == 1 + len(n['bind']):
                        self.bind(fr, st, b[0], v[1 + idx])
                    else:
                        self.bind(fr, st, b[0], ('bind', bd['n'], v))
            return [(fr, st)]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            v = self.compute(fr, st, i)
            if v[0] in ('cat', 'b') and len(repr(v)) > 4000:
                v = ('hv', fn.key, i, 'loop')
            self.assign(fr, st, c[0], v)
            fr.vals[i] = v
            return [(fr, st)]
        if k == 'UnaryOperator' and ('++' in n['op'] or '--' in n['op']):
            v = self.val(fr, st, c[0])
            self.step(fr, st, i, c[0], v)
            fr.vals[i] = v
            return [(fr, st)]
        if k in CALLK:
            return self.call(fr, st, i)
        if k in CTORK:
            d = fn.decl(n) or {}
            args = [self.val(fr, st, x) for x in c]
            r = self.on_call(fn, i, d, None, args, st)
            if r and r != 'opaque' and r[0] == 'val':
                fr.vals[i] = r[1]
                return [(fr, st)]
            fr.vals[i] = self.compute(fr, st, i)
            return [(fr, st)]
        if k == 'ReturnStmt':
            fr.vals[i] = self.val(fr, st, c[0]) if c else ('void',)
            return [(fr, st)]
        if k in ('CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'SwitchStmt', 'BreakStmt', 'ContinueStmt', 'NullStmt'):
            return [(fr, st)]
        fr.vals[i] = self.compute(fr, st, i)
        return [(fr, st)]

    def call(self, fr, st, i):
        fn = fr.fn
        n = fn.nodes[i]
        d = fn.decl(n) or {}
        obj, args = self.call_parts(fr, st, i)
        r = self.on_call(fn, i, d, obj, args, st)
        if isinstance(r, tuple) and r[0] == 'val':
            fr.vals[i] = r[1]
            return [(fr, st)]
        callee = self.prog.funcs.get(d.get('key'))
        caps = None
        if callee is None and n['k'] == 'CXXOperatorCallExpr' and n['op'] == '()' and (obj or args and args[0]):
            o = obj if obj is not None else args[0]
            if o[0] == 'lambda':
                callee = self.prog.funcs.get(o[1])
                if obj is None:
                    args = args[1:]
        if callee is not None and callee.lambda_:
            caps = fr
        alg = self.algorithm(fr, st, i, d, obj, args) if callee is None or r != 'inline' else None
        if alg is not None:
            return alg
        if callee is not None and r != 'opaque' and fr.depth < self.MAXDEPTH and callee.key not in self.stack and callee.blocks and (r == 'inline' or callee.lambda_ or self.want_inline(callee)):
            env = {}
            if caps is not None:
                cl = self.closures.get(callee.key)
                if cl:
                    env.update(cl[0])
                if callee.tu is fn.tu:
                    env.update(fr.env)
            for idx, p in enumerate(callee.params):
                env[p] = args[idx] if idx < len(args) else ('var', callee.key, p, callee.tu.decls[p].get('n'))
            this = (self.closures[callee.key][1] if callee.key in self.closures else fr.this) if caps is not None else (obj if obj is not None else ('none',))
            outs = self.run(callee, env, this, st, fr.depth + 1)
            res = []
            an = self.arg_nodes(fn, i)
            from .effects import is_nonconst_ref
            for ret, st2, env2 in outs:
                f2 = fr.copy()
                f2.vals[i] = ret
                for idx, p in enumerate(callee.params):
                    if idx < len(an) and env2.get(p) != env.get(p) and is_nonconst_ref(callee.typ(callee.tu.decls[p].get('t', -1))):
                        self.assign(f2, st2, an[idx], env2[p])
                if caps is not None and callee.tu is fn.tu:
                    for v in fr.env:
                        if v in env2 and env2[v] != fr.env[v]:
                            f2.env[v] = env2[v]
                res.append((f2, st2))
            return res
        # not looked into
        nm = d.get('n', '')
        if d.get('q') == 'std::exchange' and len(args) == 2:
            self.assign(fr, st, n['c'][0], args[1] if args[1] != ('str', '') else ('list',))
            fr.vals[i] = args[0]
            return [(fr, st)]
        if d.get('q') == 'std::swap' and len(args) == 2:
            self.assign(fr, st, n['c'][0], args[1])
            self.assign(fr, st, n['c'][1], args[0])
            fr.vals[i] = ('void',)
            return [(fr, st)]
        v = self.opaque(fr, st, i, d, obj, args)
        fr.vals[i] = v
        if v[0] == 'it' and nm in ('begin', 'cbegin'):
            for f in [f for f in st.facts if mentions(f, v)]:
                del st.facts[f]
        if n['k'] == 'CXXOperatorCallExpr' and c_op(n) and obj is not None or n['k'] == 'CXXOperatorCallExpr' and c_op(n) and not d.get('cls'):
            lhs = n['c'][0]
            a = ([obj] if obj is not None else []) + args
            op = n['op']
            if op == '=':
                self.mutate(fr, st, lhs, a[-1])
                fr.vals[i] = a[-1]
            elif op == '+=' and len(a) == 2:
                v = flat('cat', a[0], a[1])
                if len(repr(v)) > 4000:
                    v = ('hv', fn.key, i, 'loop')
                self.mutate(fr, st, lhs, v)
                fr.vals[i] = v
            elif op == '|=':
                self.mutate(fr, st, lhs, flat('bor', a[0], a[1]))
            elif op in ('++', '--'):
                self.step(fr, st, i, lhs, a[0])
                fr.vals[i] = a[0]
            return [(fr, st)]
        if n['k'] == 'CXXMemberCallExpr' and not d.get('cm') and not d.get('static') and n.get('o', -1) >= 0 and not n.get('arrow'):
            kind = self.MUT.get(nm)
            if kind and args:
                new = flat('cat', obj, *args) if kind == 'cat' else ('upd', nm, obj) + tuple(args[-1:])
                if mentions(obj, ('loop',)) or len(repr(new)) > 3000:
                    new = ('hv', fn.key, i, 'loop')
                o = obj
                while kind == 'add' and o[0] == 'upd':
                    if o[-1] == args[-1]:
                        new = obj       # one more of these
                        break
                    o = o[2]
                self.mutate(fr, st, n['o'], new)
            elif nm in ('clear',):
                self.mutate(fr, st, n['o'], ('list',))
            elif nm == 'reset' and 'unique_ptr' in d.get('q', ''):
                self.mutate(fr, st, n['o'], args[0] if args else ('null',))
            elif nm in ('begin', 'end', 'find', 'top', 'cbegin', 'cend', 'count', 'contains', 'front', 'back', 'at', 'data', 'get', 'value', 'operator bool', 'reserve', 'operator->', 'size', 'rbegin', 'rend', 'children', 'has_value'):
                pass
            elif fn.nodes[n['o']]['k'] == 'DeclRefExpr':
                self.mutate(fr, st, n['o'], ('hv', fn.key, i, nm))
        self.havoc_after(fr, st, i, d, obj)
        return [(fr, st)]

    def run(self, fn, env, this, st, depth=0):
        """all outcomes of a function: (return value, state, env)"""
        fr0 = Frame(fn, dict(env), this, depth)
        self.stack.append(fn.key)
        outs = {}
        seen = set()
        # constructor initialisers are CFG elements
        work = [(fn.entry, 0, fr0, st.copy(), ('void',))]
        try:
            while work:
                b, idx, fr, s, ret = work.pop()
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise AnalysisBroken('path enumeration exceeded its budget in %s' % fn.q)
                blk = fn.blocks[b]
                if idx == 0:
                    self.on_block(fr, s, b)
                    self.prune(fr, b)
                    k = (b, fr.key(), s.key(), ret)
                    if k in seen:
                        continue
                    seen.add(k)
                forked = False
                els = blk['el']
                while idx < len(els):
                    e = els[idx]
                    idx += 1
                    if isinstance(e, dict):
                        if 'f' in e and e.get('i', -1) >= 0:
                            s.heap[(fr.this, fn.tu.decls[e['f']].get('q'))] = self.val(fr, s, e['i'])
                        continue
                    res = self.element(fr, s, e)
                    if fn.nodes[e]['k'] == 'ReturnStmt':
                        ret = fr.vals.get(e, ('void',))
                    if len(res) == 1:
                        fr, s = res[0]
                        continue
                    for f2, s2 in res:
                        work.append((b, idx, f2, s2, ret))
                    forked = True
                    break
                if forked:
                    continue
                if blk.get('nr'):
                    continue
                if b == fn.exit:
                    ev = fr.env if fn.lambda_ else {p: fr.env[p] for p in fn.params if p in fr.env}
                    outs[(ret, s.key(), frozenset(ev.items()))] = (ret, s, ev)
                    continue
                for nb, f2, s2 in self.branch(fr, s, blk):
                    if nb >= b:
                        self.back_edge(f2, s2, b, nb)
                    if nb >= 0:
                        work.append((nb, 0, f2, s2, ret))
        finally:
            self.stack.pop()
        return list(outs.values())

    def prune(self, fr, b):
        """forget values whose consumer has been evaluated"""
        par = fr.fn.__dict__.get('_pm')
        if par is None:
            par = {}
            for i, n in enumerate(fr.fn.nodes):
                if n is None or n['k'] == 'MemberExpr' and (fr.fn.decl(n) or {}).get('k', '').startswith('CXX'):
                    continue
                for j in fr.fn.kids(i):
                    par.setdefault(j, i)
            fr.fn.__dict__['_pm'] = par
        for c in list(fr.short):
            if par.get(c, -1) < 0 or fr.fn.nodes[par[c]]['k'] in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt') or par[c] in fr.vals:
                del fr.short[c]
        live = self.liveness(fr.fn)
        dead = live[1] - live[0][b]
        for v in dead & fr.env.keys():
            del fr.env[v]
        for v in dead & fr.alias.keys():
            del fr.alias[v]
        stm = ('CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt', 'SwitchStmt', 'ReturnStmt', 'DeclStmt')
        for v in list(fr.vals):
            p = par.get(v, -1)
            if p < 0 or p in fr.vals or fr.fn.nodes[p]['k'] in stm:
                del fr.vals[v]

    def on_back(self, fr, st, b, head):
        pass

    def on_block(self, fr, st, b):
        pass

    def back_edge(self, fr, st, b, head):
        """one iteration is over: what was only about its own temporaries is forgotten"""
        self.on_back(fr, st, b, head)
        live, allv = self.liveness(fr.fn)
        have = set()

        def hvs(v, acc):
            if isinstance(v, tuple):
                if v and v[0] == 'hv':
                    acc.add(v[:4])
                for x in v:
                    hvs(x, acc)
        for v, x in fr.env.items():
            if v not in allv or v in live[head]:
                hvs(x, have)
        for x in st.heap.values():
            hvs(x, have)

        def stale(x):
            acc = set()
            hvs(x, acc)
            return any(h not in have and h[1] == fr.fn.key for h in acc)
        for f in [f for f in st.facts if stale(f)]:
            del st.facts[f]
        st.events = tuple(e for e in st.events if not stale(e))

    @staticmethod
    def liveness(fn):
        """(block -> locals that are still read from its start on, all locals)"""
        r = fn.__dict__.get('_live')
        if r is not None:
            return r
        allv = set()
        use, dec = {}, {}
        # what a lambda captures is used where the lambda is
        held = {}
        for n in fn.nodes:
            if n and n['k'] == 'DeclStmt':
                for v in n.get('vars', ()):
                    if v[1] >= 0:
                        for j in fn.walk(v[1]):
                            if fn.nodes[j]['k'] == 'LambdaExpr':
                                held.setdefault(v[0], set()).update(c['d'] for c in fn.nodes[j].get('caps', ()) if 'd' in c)
        ch = True
        while ch:
            ch = False
            for v, cs in held.items():
                more = set().union(*(held.get(c, ()) for c in cs)) - cs if cs else set()
                if more:
                    cs |= more
                    ch = True
        for b, blk in fn.blocks.items():
            u, k = set(), set()
            roots = [e for e in blk['el'] if isinstance(e, int)]
            roots += [x for x in (blk.get('tc'), blk.get('tn')) if x is not None and x >= 0]
            for e in blk['el']:
                if isinstance(e, dict) and e.get('i', -1) >= 0:
                    roots.append(e['i'])
            for r0 in roots:
                n0 = fn.nodes[r0]
                if n0['k'] == 'DeclStmt':
                    for v in n0.get('vars', ()):
                        k.add(v[0])
                    for v in n0.get('bind', ()):
                        k.add(v[0])
                if n0['k'] in ('ForStmt', 'WhileStmt', 'IfStmt', 'CXXForRangeStmt', 'SwitchStmt', 'DoStmt', 'CompoundStmt'):
                    continue
                for j in fn.walk(r0):
                    n = fn.nodes[j]
                    if n['k'] == 'DeclRefExpr':
                        u.add(n['d'])
                        u |= held.get(n['d'], set())
                    elif n['k'] == 'LambdaExpr':
                        for c in n.get('caps', ()):
                            if 'd' in c:
                                u.add(c['d'])
                                u |= held.get(c['d'], set())
            use[b], dec[b] = u, k
            allv |= k
        live = {b: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b, blk in fn.blocks.items():
                out = set()
                for s in blk['su']:
                    if s >= 0:
                        out |= live[s]
                new = (use[b] | out) - dec[b]
                if new != live[b]:
                    live[b] = new
                    ch = True
        r = (live, allv)
        fn.__dict__['_live'] = r
        return r

    def leaf(self, fn, c, blk):
        while True:
            n = fn.nodes[c]
            if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and c not in blk['el']:
                c = n['c'][1]
            else:
                return c

    def split(self, fr, st, v):
        """[(bool, frame, state)] possible truth values of v"""
        t, key, pos = self.truth(v, st)
        if t is not None:
            return [(t, fr, st)]
        out = []
        for val in (True, False):
            s2 = st.copy()
            if self.keep_fact(key):
                s2.facts[key] = val == pos
            if self.consistent(s2, key):
                out.append((val, fr.copy(), s2))
        return out

    def consistent(self, st, key):
        return True

    def branch(self, fr, st, blk):
        fn = fr.fn
        su = blk['su']
        if blk.get('tk') == 'SwitchStmt':
            return self.switch(fr, st, blk)
        if blk.get('tc', -1) is None or blk.get('tc', -1) < 0 or len(su) != 2:
            return [(s, fr, st) if len(su) == 1 else (s, fr.copy(), st.copy()) for s in su]
        cond = blk['tc']
        tn = blk.get('tn')
        short = None
        if blk['tk'] in ('BinaryOperator', 'ConditionalOperator') and tn is not None:
            short = tn
            if blk['tk'] == 'BinaryOperator' and fn.nodes[tn]['op'] in ('&&', '||'):
                cond = fn.nodes[tn]['c'][0]
            elif blk['tk'] == 'ConditionalOperator':
                cond = fn.nodes[tn]['c'][0]
        cond = self.leaf(fn, cond, blk)
        v = self.val(fr, st, cond)
        if v[0] not in ('c', 'not', 'nn', 'nz', 'eq', 'lt') and (fn.type(cond).endswith('*')):
            v = ('nn', v)
        out = []
        for t, f2, s2 in self.split(fr, st, v):
            if short is not None:
                if f2 is fr:
                    f2 = fr.copy()
                n = fn.nodes[short]
                if n['k'] == 'ConditionalOperator':
                    f2.short[short] = t
                elif t == (n['op'] == '||'):
                    f2.short[short] = t
                else:
                    f2.short.pop(short, None)
            out.append((su[0] if t else su[1], f2, s2))
        return out

    def switch(self, fr, st, blk):
        fn = fr.fn
        v = self.val(fr, st, blk['tc']) if blk.get('tc', -1) >= 0 else ('none',)
        kv = self.konst(v)
        out = []
        default = []
        cases = []
        hit = False
        for s in blk['su']:
            if s < 0:
                continue
            lbl = fn.blocks[s].get('lbl')
            ln = fn.nodes[lbl] if lbl is not None else None
            if ln is None or ln['k'] != 'CaseStmt':
                default.append(s)
                continue
            cv = self.val(fr, st, ln['c'][0])
            if kv is not None and self.konst(cv) is not None:
                if self.konst(cv) == kv:
                    hit = True
                    out.append((s, fr.copy(), st.copy()))
                continue
            s2 = st.copy()
            x, y = sorted((v, cv), key=repr)
            if s2.facts.get(('eq', x, y)) is False or ('eq', x, y) not in s2.facts and self.other_constant(('eq', x, y), s2.facts):
                continue
            cases.append(('eq', x, y))
            s2.facts[('eq', x, y)] = True
            out.append((s, fr.copy(), s2))
        if not hit and not any(st.facts.get(k) for k in cases):
            for s in default:
                s2 = st.copy()
                for k in cases:
                    if self.keep_fact(k):
                        s2.facts[k] = False
                out.append((s, fr.copy(), s2))
        return out

    # ---- entry
    def analyse(self, fn, env=None, this=('this',), facts=None):
        self.steps = 0
        e = {}
        for idx, p in enumerate(fn.params):
            e[p] = ('sym', fn.tu.decls[p].get('n') or 'arg%d' % idx)
        if env:
            e.update(env)
        st = State(dict(facts or {}))
        return self.run(fn, e, this, st)


def c_op(n):
    return n.get('op') in ('=', '+=', '-=', '|=', '&=', '++', '--')
