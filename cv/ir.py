"""In-memory model of the extracted program."""
import json
import re
from . import extract
from .extract import AnalysisBroken


class TU:
    __slots__ = ('file', 'types', 'decls', 'incs')


class Func:
    def __init__(self, tu, o):
        self.tu = tu
        self.o = o
        self.key = o['key']
        self.q = o['q']
        self.nodes = o['nodes']
        self.loc = o['l']
        self.file = self.loc.split(':')[0]
        self.line = int(self.loc.split(':')[1]) if ':' in self.loc else 0
        self.body = o.get('body', -1)
        self.params = o['ps']
        self.cls = o.get('cls')
        self._blocks = None
        self.lambda_ = bool(o.get('lambda'))

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = {b['id']: b for b in self.o.get('blocks', [])}
        return self._blocks

    @property
    def entry(self):
        return self.o['entry']

    @property
    def exit(self):
        return self.o['exit']

    def node(self, i):
        return self.nodes[i]

    def decl(self, n):
        """decl referenced by a node (dict) or by index"""
        i = n if isinstance(n, int) else n.get('d', -1)
        if i is None or i < 0:
            return None
        return self.tu.decls[i]

    def typ(self, i):
        """type by index"""
        return self.tu.types[i] if i is not None and i >= 0 else ''

    def type(self, n):
        """type of a node (id or dict)"""
        if isinstance(n, int):
            if n < 0:
                return ''
            n = self.nodes[n]
        i = n.get('t', -1)
        if i is None or i < 0:
            return ''
        return self.tu.types[i]

    def where(self, i):
        n = self.nodes[i] if isinstance(i, int) else i
        return 'src/%s:%d' % (self.file, n['l'] or self.line)

    @property
    def name(self):
        if self.lambda_:
            return 'lambda at src/' + ':'.join(self.loc.split(':')[:2])
        return self.q

    def walk(self, i=None):
        """all node ids under i (pre-order); does not enter lambda bodies (they are functions)"""
        if i is None:
            i = self.body
        st = [i]
        seen = set()
        while st:
            j = st.pop()
            if j < 0 or j in seen:
                continue
            seen.add(j)
            yield j
            st.extend(reversed(list(self.kids(j))))

    def kids(self, i):
        n = self.nodes[i]
        if 'o' in n and n['o'] >= 0:
            yield n['o']
        for c in n.get('c', ()):
            if c >= 0:
                yield c
        for v in n.get('vars', ()):
            if v[1] >= 0:
                yield v[1]
        for k in ('init', 'cvar', 'range', 'vstmt', 'body'):
            if k in n and isinstance(n[k], int) and n[k] >= 0:
                yield n[k]
        for cp in n.get('caps', ()):
            if cp.get('i', -1) >= 0:
                yield cp['i']

    def local_init(self, v):
        """initialiser of local variable v (decl index), or -1"""
        m = self.__dict__.get('_linit')
        if m is None:
            m = {}
            for n in self.nodes:
                for x in n.get('vars', ()):
                    m[x[0]] = x[1]
            self._linit = m
        return m.get(v, -1)

    def all_nodes(self):
        """every node of the function (including constructor initialisers)"""
        return range(len(self.nodes))

    def callee(self, i):
        n = self.nodes[i]
        if n['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'UserDefinedLiteral'):
            return self.decl(n)
        return None

    def text(self, i, depth=0):
        """readable rendering of an expression"""
        if i < 0 or depth > 12:
            return '…'
        n = self.nodes[i]
        k = n['k']
        T = lambda j: self.text(j, depth + 1)
        c = n.get('c', [])
        if k == 'DeclRefExpr':
            return (self.decl(n) or {}).get('n', '?')
        if k == 'MemberExpr':
            d = self.decl(n) or {}
            if n.get('impl'):
                return d.get('n', '?')
            return T(c[0]) + ('->' if n.get('arrow') else '.') + d.get('n', '?')
        if k == 'CXXMemberCallExpr':
            d = self.decl(n) or {}
            o = self.nodes[n['o']] if n.get('o', -1) >= 0 else None
            base = '' if o is None or o['k'] == 'CXXThisExpr' else T(n['o']) + ('->' if n.get('arrow') else '.')
            return base + d.get('n', '?') + '(' + ', '.join(map(T, c)) + ')'
        if k == 'CXXOperatorCallExpr':
            op = n.get('op')
            if op == '->':
                return T(c[0])
            if op == '[]':
                return T(c[0]) + '[' + T(c[1]) + ']'
            if op == '()':
                return T(c[0]) + '(' + ', '.join(map(T, c[1:])) + ')'
            if len(c) == 1:
                return op + T(c[0])
            return T(c[0]) + ' ' + op + ' ' + T(c[1]) if len(c) > 1 else op
        if k == 'CallExpr':
            d = self.decl(n)
            ta = ''
            nm = d.get('n', '?') if d else T(n.get('o', -1))
            if d and d.get('ta') and nm in ('dyn_cast', 'isa', 'cast', 'dyn_cast_or_null', 'getFirstParentOfType'):
                ta = '<' + d['ta'][0].replace('clang::', '') + '>'
            return nm + ta + '(' + ', '.join(map(T, c)) + ')'
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if len(c) == 1:
                return T(c[0])
            return self.type(n).split('::')[-1] + '(' + ', '.join(map(T, c)) + ')'
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return T(c[0]) + ' ' + n['op'] + ' ' + T(c[1])
        if k == 'UnaryOperator':
            if n['op'].startswith('post'):
                return T(c[0]) + n['op'][4:]
            return n['op'] + T(c[0])
        if k == 'StringLiteral':
            return '"' + n.get('v', '?') + '"'
        if k in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr'):
            return n['v']
        if k == 'CXXNullPtrLiteralExpr':
            return 'nullptr'
        if k == 'CXXThisExpr':
            return 'this'
        if k == 'ImplicitCastExpr' and c:
            return T(c[0])
        if k == 'ConditionalOperator' and len(c) == 3:
            return T(c[0]) + ' ? ' + T(c[1]) + ' : ' + T(c[2])
        if k == 'LambdaExpr':
            return '[lambda]'
        if k == 'ArraySubscriptExpr' and len(c) == 2:
            return T(c[0]) + '[' + T(c[1]) + ']'
        if k == 'ReturnStmt':
            return 'return ' + (T(c[0]) if c else '')
        if k == 'DeclStmt':
            return ', '.join((self.tu.decls[v[0]].get('n', '?') + ' = ' + (T(v[1]) if v[1] >= 0 else '')) for v in n.get('vars', []))
        return k + ('(' + ', '.join(map(T, c)) + ')' if c else '')


class Program:
    def __init__(self, only=None):
        self.units = extract.extract_all(only)
        if not self.units:
            raise AnalysisBroken('no translation unit was found')
        self.tus = []
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.decl_by_key = {}
        for f, p in self.units:
            with open(p) as fh:
                o = json.load(fh)
            tu = TU()
            tu.file = f
            tu.types = o['types']
            tu.decls = o['decls']
            tu.incs = o['incs']
            self.tus.append(tu)
            for fo in o['funcs']:
                if fo['key'] not in self.funcs:
                    self.funcs[fo['key']] = Func(tu, fo)
            for r in o['records']:
                r['tu'] = tu
                self.records.setdefault(r['q'], r)
            for g in o['globals']:
                g['tu'] = tu
                self.globals.setdefault((g['q'], g['l']), g)
            for e in o['enums']:
                self.enums.setdefault(e['q'], e)
        self.by_q = {}
        for fn in self.funcs.values():
            self.by_q.setdefault(fn.q, []).append(fn)

    def find(self, q, required=True):
        r = self.by_q.get(q, [])
        if not r and required:
            raise AnalysisBroken('anchor function %s not found' % q)
        return r

    def one(self, q, pred=None):
        r = [f for f in self.find(q) if not pred or pred(f)]
        if len(r) != 1:
            raise AnalysisBroken('expected exactly one function %s, found %d' % (q, len(r)))
        return r[0]

    def callee_fn(self, fn, i):
        d = fn.callee(i)
        if d and 'key' in d:
            return self.funcs.get(d['key'])
        return None

    def bases_of(self, q, seen=None):
        """transitive base class names"""
        out = []
        r = self.records.get(q)
        if not r:
            return out
        for b in r['bases']:
            out.append(b)
            out.extend(self.bases_of(b))
        return out

    def derived_from(self, base):
        return [q for q in self.records if base in self.bases_of(q)]
