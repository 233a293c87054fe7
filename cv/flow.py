"""Path-sensitive fact dataflow over the extracted CFGs.

A state is a set of literals that hold on the path plus the definition of every local:
  ('N', t)  term t is non-null / engaged          ('0', t)  term t is null / disengaged
  ('T', t)  boolean term t is true                ('F', t)  boolean term t is false
States are kept apart per block (bounded), merged by intersection beyond the bound; a branch whose
condition contradicts the state is not taken.  Nothing is executed and no solver is used."""
from .terms import term, mentions, strip_deref, EXPL_CASTS

ISA = ('llvm::isa', 'llvm::isa_and_nonnull', 'llvm::isa_and_present')
STRICT_CASTS = ('llvm::isa', 'llvm::cast', 'llvm::dyn_cast')
NULLABLE_CASTS = ('llvm::dyn_cast', 'llvm::dyn_cast_or_null', 'llvm::dyn_cast_if_present')
MAXSTATES = 24
NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
# predicate true => accessor non-null, on the same object (contracts of the Clang AST API)
IMPLIED = {
    'getDefaultArg': ('hasDefaultArg',),
    'getInit': ('hasInit',),
    'getBody': ('hasBody', 'doesThisDeclarationHaveABody', 'isThisDeclarationADefinition'),
    'getDefinition': ('hasDefinition', 'isThisDeclarationADefinition'),
    'getAsCXXRecordDecl': ('isRecordType', 'isClassType', 'isStructureType', 'isStructureOrClassType'),
    'getAsRecordDecl': ('isRecordType', 'isClassType', 'isStructureType', 'isStructureOrClassType'),
    'getPointeeType': ('isPointerType', 'isReferenceType', 'isMemberPointerType', 'isLValueReferenceType', 'isRValueReferenceType', 'isAnyPointerType', 'isFunctionPointerType', 'isVoidPointerType'),
    'getAttr': ('hasAttr',),
    'getElse': ('hasElseStorage',),
}
GETAS = {'clang::RecordType': ('isRecordType', 'isClassType', 'isStructureType'), 'clang::EnumType': ('isEnumeralType',), 'clang::PointerType': ('isPointerType',),
         'clang::ReferenceType': ('isReferenceType',), 'clang::BuiltinType': ('isBuiltinType',), 'clang::FunctionProtoType': ('isFunctionProtoType',)}
# set whenever no precompiled header is in use (verified by the phase check)
PCH_FIELDS = ('ClazyContext::preprocessorVisitor', 'ClazyContext::accessSpecifierManager')
# accessors that are null together (same object)
SAME = {'getRecordDecl': ('getMethodDecl', 'getDirectCallee'), 'getImplicitObjectArgument': ('getMethodDecl', 'getDirectCallee', 'getRecordDecl'), 'getMethodDecl': ('getDirectCallee',), 'getDirectCallee': ('getMethodDecl',), 'getCalleeDecl': ('getDirectCallee', 'getMethodDecl')}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def is_ptr_type(t):
    t = t.rstrip()
    if t.endswith('const'):
        t = t[:-5].rstrip()
    return t.endswith('*')


def bare(t):
    t = t.strip()
    if t.endswith('&'):
        t = t.rstrip('&').strip()
    if t.startswith('const '):
        t = t[6:]
    return t.strip()


def is_smart(t):
    t = bare(t)
    return t.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'std::optional<', 'llvm::IntrusiveRefCntPtr<',
                         'clang::CustomizableOptional<', 'clang::OptionalFileEntryRef', 'llvm::Expected<', 'llvm::ErrorOr<'))


def is_qt(t):
    return bare(t) == 'clang::QualType'


def is_nullable_type(t):
    return is_ptr_type(t) or is_qt(t) or is_smart(t)


def in_progress(empty):
    """break cycles through self-referential definitions"""
    def deco(f):
        name = f.__name__

        def w(self, fn, i, *a, **kw):
            k = (name, i, a[0] if name in ('facts', 'imply') else None)
            if k in self._active:
                return empty()
            self._active.add(k)
            try:
                return f(self, fn, i, *a, **kw)
            finally:
                self._active.discard(k)
        return w
    return deco


class State:
    __slots__ = ('lits', 'defs', '_h')

    def __init__(self, lits, defs):
        self.lits = lits          # frozenset
        self.defs = defs          # dict var -> frozenset of origins (node ids; -2 parameter; -3 null)
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.lits, frozenset(self.defs.items()))
        return self._h

    def with_lits(self, new):
        return State(self.lits | new, self.defs) if new and not new <= self.lits else self


def contradicts(lits, new):
    for l in new:
        k = l[0]
        if k == 'N' and ('0', l[1]) in lits or k == '0' and ('N', l[1]) in lits:
            return True
        if k == 'T' and ('F', l[1]) in lits or k == 'F' and ('T', l[1]) in lits:
            return True
    return False


class Flow:
    """Engine.  Sub-classes override `nullable_call` and the `at_*` hooks."""

    def __init__(self, prog):
        self.prog = prog
        self.ret_null = {}
        self.req = {}
        self.req_why = {}
        self.when_true = {}       # (key, mode) -> params non-null when the result is true/non-null/non-empty
        self._active = set()
        self.collect = False
        self.muted = ()           # conditions to learn nothing from (self-assessment only)

    # ---------------------------------------------------------------- literals
    def is_null_lit(self, fn, i):
        if i is None or i < 0:
            return False
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return True
        if (k == 'ImplicitCastExpr' or k in EXPL_CASTS) and c:
            return self.is_null_lit(fn, c[0])
        if k in ('ImplicitValueInitExpr', 'CXXScalarValueInitExpr') and is_ptr_type(fn.type(n)):
            return True
        if k == 'InitListExpr' and not c and is_nullable_type(fn.type(n)):
            return True
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (is_qt(fn.type(n)) or is_smart(fn.type(n))):
            if not c:
                return True
            if len(c) == 1:
                if (fn.decl(fn.nodes[c[0]]) or {}).get('n') in ('nullopt', 'None') and fn.nodes[c[0]]['k'] == 'DeclRefExpr':
                    return True
                return self.is_null_lit(fn, c[0])
        return False

    def is_false(self, fn, i):
        n = fn.nodes[i]
        return n['k'] == 'CXXBoolLiteralExpr' and n['v'] == 'false' or self.is_null_lit(fn, i)

    def is_empty_str(self, f, i):
        n = f.nodes[i]
        if n['k'] == 'StringLiteral':
            return n.get('v') == ''
        if n['k'] == 'InitListExpr' and not n.get('c'):
            return True
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            c = n.get('c', [])
            return not c or (self.is_empty_str(f, c[0]) if len(c) == 1 else False)
        return False

    def nonempty_lit(self, f, i):
        n = f.nodes[i]
        if n['k'] == 'StringLiteral':
            return bool(n.get('v'))
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ImplicitCastExpr') and n.get('c'):
            return self.nonempty_lit(f, n['c'][0])
        if n['k'] in ('UserDefinedLiteral', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and n.get('c'):
            return self.nonempty_lit(f, n['c'][0])
        if n['k'] in ('CallExpr', 'CXXMemberCallExpr'):
            # a function of the program that builds its result from an argument that is not empty
            g = self.prog.funcs.get((f.decl(n) or {}).get('key'))
            if g is None:
                return False
            args = n.get('c', [])
            ok = {v for v, a in zip(g.params, args) if self.nonempty_lit(f, a)}
            rets = [x for x in g.nodes if x['k'] == 'ReturnStmt']
            return bool(ok) and bool(rets) and all(x.get('c') and self.keeps_text(g, x['c'][0], ok) for x in rets)
        return False

    def keeps_text(self, g, i, ok):
        n = g.nodes[i]
        c = n.get('c', [])
        if n['k'] == 'DeclRefExpr':
            t = term(g, i)
            return bool(t) and t[0] == 'v' and t[1] in ok and not any(
                x['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and x.get('op', '').endswith('=') and x.get('op') not in ('==', '!=') and
                x.get('c') and term(g, x['c'][0]) == t for x in g.nodes)
        if n['k'] == 'StringLiteral':
            return bool(n.get('v'))
        if n['k'] == 'ConditionalOperator':
            return self.keeps_text(g, c[1], ok) and self.keeps_text(g, c[2], ok)
        if n['k'] == 'CXXOperatorCallExpr' and n['op'] == '+':
            return any(self.keeps_text(g, x, ok) for x in c)
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and len(c) >= 1:
            return self.keeps_text(g, c[0], ok)
        return False

    def cmp_term(self, op, a, b):
        """(kind, canonical comparison term): < and == only"""
        if op in ('!=', '>='):
            k, t = self.cmp_term(NEG[op], a, b)
            return ('F' if k == 'T' else 'T'), t
        if op == '>':
            return self.cmp_term('<', b, a)
        if op == '<=':
            k, t = self.cmp_term('<', b, a)
            return ('F', t)
        if op == '==':
            x, y = sorted((a, b), key=repr)
            return 'T', ('b', '==', x, y)
        return 'T', ('b', '<', a, b)

    # ---------------------------------------------------------------- conditions
    @in_progress(set)
    def facts(self, fn, i, val, st):
        if i is None or i < 0:
            return set()
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        out = set()
        if k == 'UnaryOperator' and n['op'] == '!':
            return self.facts(fn, c[0], not val, st)
        if k == 'CXXOperatorCallExpr' and n['op'] == '!' and c:
            return self.facts(fn, c[0], not val, st)
        if k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            if val == (n['op'] == '&&'):
                return self.facts(fn, c[0], val, st) | self.facts(fn, c[1], val, st)
            l, r = self.facts(fn, c[0], val, st), self.facts(fn, c[1], val, st)
            cl, cr = contradicts(st.lits | l, l), contradicts(st.lits | r, r)
            if cl and cr:
                return {('N', ('false',)), ('0', ('false',))}
            return r if cl else l if cr else l & r
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and n['op'] in NEG and len(c) == 2:
            op = n['op'] if val else NEG[n['op']]
            a, b = c
            na, nb = self.is_null_lit(fn, a), self.is_null_lit(fn, b)
            if (na or nb) and op in ('==', '!='):
                x = b if na else a
                return self.imply(fn, x, op == '!=', st)
            ta, tb = term(fn, a), term(fn, b)
            if ta is not None and tb is not None:
                kk, t = self.cmp_term(op, ta, tb)
                out.add((kk, t))
                # the same comparison on the defining expressions of locals
                for ra, rb in self.resolved_pairs(fn, a, b, st):
                    out.add((self.cmp_term(op, ra, rb)))
            if op == '==':
                if ('N', ta) in st.lits:
                    out |= self.imply(fn, b, True, st)
                if ('N', tb) in st.lits:
                    out |= self.imply(fn, a, True, st)
                for x, y in ((a, b), (b, a)):
                    if self.nonempty_lit(fn, y):
                        out |= self.call_true(fn, x, st, True)
            # bool == literal
            for x, y in ((a, b), (b, a)):
                yn = fn.nodes[y]
                if yn['k'] == 'CXXBoolLiteralExpr' and op in ('==', '!='):
                    out |= self.facts(fn, x, (yn['v'] == 'true') == (op == '=='), st)
            return out
        if k == 'BinaryOperator' and n['op'] == '=':
            out = self.facts(fn, c[1], val, st)
            if is_nullable_type(fn.type(n)):
                out |= self.imply(fn, c[0], val, st)
            return out
        if k == 'ImplicitCastExpr':
            if n.get('ck') == 'PointerToBoolean':
                return self.imply(fn, c[0], val, st)
            if n.get('ck') == 'IntegralToBoolean':
                t = term(fn, c[0])
                if t is not None:
                    out.add(self.cmp_term('!=' if val else '==', t, ('lit', '0')))
                    for r, in self.resolved(fn, c[0], st):
                        out.add(self.cmp_term('!=' if val else '==', r, ('lit', '0')))
                return out
            return self.facts(fn, c[0], val, st)
        if k == 'CXXBoolLiteralExpr':
            return set() if (n['v'] == 'true') == val else {('N', ('false',)), ('0', ('false',))}
        t = term(fn, i)
        if k == 'DeclRefExpr':
            if is_nullable_type(fn.type(n)):
                return self.imply(fn, i, val, st)
            out.add(('T' if val else 'F', t))
            d = st.defs.get(t)
            if d and len(d) == 1:
                (o,) = d
                if o >= 0:
                    out |= self.facts(fn, o, val, st)
            return out
        if k == 'CXXMemberCallExpr':
            d = fn.decl(n)
            o = n.get('o', -1)
            if d and d['n'] == 'isNull' and is_qt(fn.type(o)):
                return self.imply(fn, o, not val, st)
            if d and d['n'] in ('operator bool', 'has_value', 'hasValue') and o >= 0:
                ot = fn.type(o)
                if is_smart(ot) or is_qt(ot) or True:
                    out |= self.imply(fn, o, val, st)
                    return out
            if d and d['n'] in ('empty', 'isEmpty') and t is not None:
                # X.empty()  <=>  X.size() == 0
                ob = t[2]
                out.add(('T' if val else 'F', ('empty', ob)))
                return out | (self.call_true(fn, i, st, False) if val else set())
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if is_nullable_type(fn.type(n)):
                out |= self.imply(fn, i, val, st)
            elif t is not None:
                out.add(('T' if val else 'F', t))
            if val:
                out |= self.call_true(fn, i, st, False)
            return out
        if k == 'ConditionalOperator':
            for a, o, v in ((1, 2, True), (2, 1, False)):
                if val and self.is_false(fn, c[o]):
                    return self.facts(fn, c[0], v, st) | self.facts(fn, c[a], True, st)
            return set()
        if is_nullable_type(fn.type(n)):
            return self.imply(fn, i, val, st)
        if t is not None:
            out.add(('T' if val else 'F', t))
        return out

    def resolved(self, fn, i, st):
        n = fn.nodes[i]
        if n['k'] == 'ImplicitCastExpr' and n.get('c'):
            return self.resolved(fn, n['c'][0], st)
        if n['k'] == 'DeclRefExpr':
            d = st.defs.get(term(fn, i))
            if d and len(d) == 1:
                (o,) = d
                if o >= 0:
                    t = term(fn, o)
                    if t is not None:
                        return [(t,)]
        return []

    def resolved_pairs(self, fn, a, b, st):
        ra = [x for x, in self.resolved(fn, a, st)]
        rb = [x for x, in self.resolved(fn, b, st)]
        ta, tb = term(fn, a), term(fn, b)
        out = []
        for x in ra or [ta]:
            for y in rb or [tb]:
                if (x, y) != (ta, tb):
                    out.append((x, y))
        return out

    def ptr_args(self, fn, i):
        n = fn.nodes[i]
        c = n.get('c', [])
        if n['k'] == 'CXXOperatorCallExpr':
            d = fn.decl(n)
            return c[1:] if d and d.get('cls') else c
        return c

    @in_progress(set)
    def call_true(self, fn, i, st, nonempty):
        out = set()
        n = fn.nodes[i]
        c = n.get('c', [])
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ImplicitCastExpr') and len(c) == 1:
            return self.call_true(fn, c[0], st, nonempty)
        if n['k'] == 'DeclRefExpr':
            d = st.defs.get(term(fn, i))
            if d and len(d) == 1:
                (o,) = d
                if o >= 0:
                    return self.call_true(fn, o, st, nonempty)
            return out
        d = fn.callee(i)
        if not d:
            return out
        if d['q'] in ISA and c:
            out |= self.imply(fn, c[0], True, st)
            t = term(fn, c[0])
            if t is not None and len(d.get('ta', ())) == 2:
                for q in NULLABLE_CASTS:
                    out.add(('N', ('c', q, tuple(d['ta'][:1]), t)))
        if d.get('key') in self.prog.funcs:
            args = self.ptr_args(fn, i)
            for p in self.when_true.get((d['key'], 'ne' if nonempty else 't'), ()):
                if p < len(args):
                    out |= self.imply(fn, args[p], True, st)
        if n['k'] == 'CXXMemberCallExpr' and n.get('arrow') and n.get('o', -1) >= 0:
            out |= self.imply(fn, n['o'], True, st)
        return out

    @in_progress(set)
    def imply(self, fn, i, nonnull, st):
        """literals implied by node i being non-null (or null)"""
        out = set()
        t = term(fn, i)
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        if t is not None:
            out.add(('N' if nonnull else '0', strip_smart(t)))
        if k == 'DeclRefExpr':
            d = st.defs.get(t)
            if d and len(d) == 1:
                (o,) = d
                if o >= 0:
                    out |= self.imply(fn, o, nonnull, st)
                elif o == -3 and nonnull:
                    out |= {('N', ('false',)), ('0', ('false',))}
        elif k == 'ImplicitCastExpr' or k in EXPL_CASTS:
            out |= self.imply(fn, c[0], nonnull, st)
        elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(c) == 1:
            out |= self.imply(fn, c[0], nonnull, st)
        elif k == 'BinaryOperator' and n['op'] == '=':
            out |= self.imply(fn, c[1], nonnull, st)
        elif self.is_null_lit(fn, i):
            if nonnull:
                out |= {('N', ('false',)), ('0', ('false',))}
        elif nonnull:
            if k == 'CallExpr':
                d = fn.decl(n)
                if d and d['q'] in NULLABLE_CASTS and c:
                    out |= self.imply(fn, c[0], True, st)
                else:
                    out |= self.call_true(fn, i, st, False)
            elif k == 'CXXMemberCallExpr':
                d = fn.decl(n)
                if d and d['n'] in ('getTypePtr', 'getTypePtrOrNull') and is_qt(fn.type(n['o'])):
                    out |= self.imply(fn, n['o'], True, st)
                if d and d['n'] == 'get' and is_smart(fn.type(n['o'])):
                    out |= self.imply(fn, n['o'], True, st)
                out |= self.call_true(fn, i, st, False)
            elif k == 'ConditionalOperator':
                for a, o, v in ((1, 2, True), (2, 1, False)):
                    if self.is_null_lit(fn, c[o]):
                        out |= self.facts(fn, c[0], v, st) | self.imply(fn, c[a], True, st)
        else:
            if k == 'CXXMemberCallExpr':
                d = fn.decl(n)
                if d and d['n'] == 'getTypePtrOrNull' and is_qt(fn.type(n['o'])):
                    out |= self.imply(fn, n['o'], False, st)
        return out

    # ---------------------------------------------------------------- nullability of a value
    def known_nonnull(self, fn, i, st):
        t = term(fn, i)
        if t is not None and ('N', strip_smart(t)) in st.lits:
            return True
        n = fn.nodes[i]
        if n['k'] == 'UnaryOperator' and n['op'] == '&' or n['k'] in ('CXXNewExpr', 'CXXThisExpr', 'StringLiteral', 'LambdaExpr'):
            return True
        if n['k'] == 'CallExpr' and (fn.decl(n) or {}).get('q') in ('llvm::cast', 'std::make_unique', 'std::make_shared'):
            return True
        if (n['k'] == 'ImplicitCastExpr' or n['k'] in EXPL_CASTS) and n.get('c'):
            return self.known_nonnull(fn, n['c'][0], st)
        return False

    def implied_nonnull(self, fn, i, t, st):
        """non-null by an API contract that relates it to a fact of the path"""
        if t is not None and t[0] == 'f' and t[2] in PCH_FIELDS:
            return any(l[0] == 'F' and l[1][0] == 'm' and l[1][1] == 'ClazyContext::usingPreCompiledHeaders' and strip_smart(l[1][2]) == strip_smart(t[1]) for l in st.lits)
        if t is None or t[0] != 'm' or len(t) < 4:
            return False
        name = t[1].rsplit('::', 1)[-1]
        preds = IMPLIED.get(name, ())
        if name == 'getAs' and t[3]:
            preds = GETAS.get(t[3][0], ())
        obj = strip_smart(t[2])
        if preds:
            for l in st.lits:
                if l[0] == 'T' and l[1][0] == 'm' and l[1][1].rsplit('::', 1)[-1] in preds and strip_smart(l[1][2]) == obj and (name != 'getAttr' or l[1][3] == t[3]):
                    return True
        for other in SAME.get(name, ()):
            for l in st.lits:
                if l[0] == 'N' and l[1][0] == 'm' and l[1][1].rsplit('::', 1)[-1] == other and strip_smart(l[1][2]) == obj:
                    return True
        if name == 'getRetValue':
            return any(l[0] == 'T' and l[1][0] == 'c' and l[1][1] == 'clazy::hasChildren' and strip_smart(l[1][3]) == obj for l in st.lits)
        return False

    @in_progress(list)
    def origins(self, fn, i, st):
        """why node i may be null in st: list of (reason, node, param index)"""
        if i is None or i < 0:
            return []
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        t = term(fn, i)
        if t is not None and ('N', strip_smart(t)) in st.lits:
            return []
        if self.is_null_lit(fn, i):
            return [('a null value', i, -1)]
        if self.implied_nonnull(fn, i, t, st):
            return []
        if k == 'DeclRefExpr':
            out = []
            for o in sorted(st.defs.get(t, ())):
                if o == -2:
                    out.append(('param', i, (fn.decl(n) or {}).get('pi', -1)))
                elif o == -3:
                    out.append(('a null value', i, -1))
                elif o >= 0:
                    out += self.origins(fn, o, st)
            return out
        if (k == 'ImplicitCastExpr' or k in EXPL_CASTS) and c:
            return self.origins(fn, c[0], st)
        if k == 'ConditionalOperator':
            out = []
            for a, v in ((1, True), (2, False)):
                f = self.facts(fn, c[0], v, st)
                if contradicts(st.lits | f, f):
                    continue
                out += self.origins(fn, c[a], st.with_lits(frozenset(f)))
            return out
        if k == 'BinaryOperator' and n['op'] in ('=', ','):
            return self.origins(fn, c[1], st)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(c) == 1:
            return self.origins(fn, c[0], st)
        if k == 'MemberExpr':
            r = self.nullable_field(fn, i, fn.decl(n))
            return [(r, i, -1)] if r else []
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            d = fn.decl(n)
            if not d:
                return []
            if d['q'] in NULLABLE_CASTS:
                if c and d.get('up'):
                    return self.origins(fn, c[0], st)
                return [('%s' % fn.text(i), i, -1)]
            if d['q'] in ('std::move', 'std::forward'):
                return self.origins(fn, c[0], st) if c else []
            if d['q'] in ('llvm::cast', 'llvm::cast_or_null'):
                return []
            if k == 'CXXMemberCallExpr' and d['n'] == 'getTypePtrOrNull' and is_qt(fn.type(n['o'])):
                return self.origins(fn, n['o'], st)
            if d.get('key') in self.prog.funcs:
                cond = self.ret_null.get(d['key'])
                if cond is None:
                    return []
                if isinstance(cond, frozenset):
                    out = []
                    for p in cond:
                        if p < len(c):
                            out += self.origins(fn, c[p], st)
                    return out
                return [('%s, which %s' % (fn.text(i), cond), i, -1)]
            r = self.nullable_call(fn, i, d)
            if r:
                return [(fn.text(i) + (' (%s)' % r if r is not True else ''), i, -1)]
        return []

    def nullable_call(self, fn, i, d):
        return None

    def nullable_field(self, fn, i, d):
        return None

    # ---------------------------------------------------------------- transfer
    def assign(self, st, var, origin):
        lits = frozenset(l for l in st.lits if not mentions(l[1], var))
        defs = dict(st.defs)
        if origin is None:
            defs.pop(var, None)
        else:
            defs[var] = frozenset([origin])
        return State(lits, defs)

    def element(self, fn, e, st):
        """transfer of one CFG element; calls hooks; returns the new state"""
        n = fn.nodes[e]
        st = self.visit(fn, e, n, st)
        k = n['k']
        if k == 'CXXMemberCallExpr' and is_nullable_type(fn.type(n)):
            t = term(fn, e)
            if self.implied_nonnull(fn, e, t, st):
                st = st.with_lits(frozenset([('N', t)]))
        if k == 'DeclStmt':
            for v, i in n['vars']:
                var = ('v', v)
                if i >= 0:
                    nn = self.known_nonnull(fn, i, st)
                    ty = fn.typ(fn.tu.decls[v].get('t', -1))
                    st2 = self.assign(st, var, i)
                    new = set()
                    if nn:
                        new.add(('N', var))
                    elif is_nullable_type(ty):
                        if self.is_null_lit(fn, i):
                            new.add(('0', var))
                        else:
                            t = term(fn, i)
                            if t is not None and ('0', strip_smart(t)) in st.lits:
                                new.add(('0', var))
                    elif ty.replace('const ', '').strip() == 'bool':
                        iv = fn.nodes[i]
                        if iv['k'] == 'CXXBoolLiteralExpr':
                            new.add(('T' if iv['v'] == 'true' else 'F', var))
                    st = st2.with_lits(frozenset(new))
                else:
                    st = self.assign(st, var, None)
        elif k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            t = term(fn, n['c'][0])
            if t is not None:
                o = n['c'][1] if n['op'] == '=' else None
                new = set()
                org = None
                if o is not None:
                    to = term(fn, o)
                    if self.known_nonnull(fn, o, st):
                        new.add(('N', t))
                    elif self.is_null_lit(fn, o):
                        new.add(('0', t))
                    on = fn.nodes[o]
                    if on['k'] == 'CXXBoolLiteralExpr':
                        new.add(('T' if on['v'] == 'true' else 'F', t))
                    org = o
                    if to is not None and mentions(to, t):
                        # p = f(p): keep only the nullability of the new value
                        res = self.origins(fn, o, st)
                        if not res:
                            org = None
                st = self.assign(st, t, org if t[0] == 'v' else None).with_lits(frozenset(new))
        elif k == 'CXXOperatorCallExpr' and n['op'] == '=':
            t = term(fn, n['c'][0])
            if t is not None:
                nn = self.known_nonnull(fn, n['c'][1], st)
                isn = self.is_null_lit(fn, n['c'][1])
                st = self.assign(st, t, n['c'][1] if t[0] == 'v' else None)
                if nn:
                    st = st.with_lits(frozenset([('N', t)]))
                elif isn:
                    st = st.with_lits(frozenset([('0', t)]))
        elif k == 'CXXOperatorCallExpr' and (n['op'] in ('++', '--') or n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=', '<=>')):
            t = term(fn, n['c'][0])
            if t is not None:
                st = self.assign(st, t, None)
        elif k == 'UnaryOperator' and ('++' in n['op'] or '--' in n['op']):
            t = term(fn, n['c'][0])
            if t is not None:
                st = self.assign(st, t, None)
        elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXOperatorCallExpr'):
            d = fn.decl(n)
            args = self.ptr_args(fn, e)
            for idx, a in enumerate(args):
                an = fn.nodes[a]
                tgt = None
                if an['k'] == 'UnaryOperator' and an['op'] == '&':
                    tgt = term(fn, an['c'][0])
                elif d and idx < len(d.get('ps', [])):
                    pt = fn.typ(d['ps'][idx][1])
                    if pt.endswith('&') and not pt.endswith('&&') and not pt.startswith('const '):
                        tgt = term(fn, a)
                        if tgt and tgt[0] != 'v':
                            tgt = None
                        if tgt and not is_nullable_type(fn.type(a)) and k == 'CXXConstructExpr':
                            tgt = None
                if tgt and tgt[0] == 'v':
                    st = self.assign(st, tgt, None)
            if k == 'CXXMemberCallExpr' and d and not d.get('cm') and n.get('o', -1) >= 0 and not n.get('arrow'):
                # non-const call on a local value object invalidates what was known about it
                tgt = term(fn, n['o'])
                if tgt and tgt[0] in ('v', 'f') and d['n'] not in ('get', 'begin', 'end', 'front', 'back', 'at', 'data', 'value'):
                    st = State(frozenset(l for l in st.lits if not mentions(l[1], tgt)), st.defs)
        return st

    def visit(self, fn, e, n, st):
        return st

    def merge(self, fn, states):
        """join: facts of all the states; an origin that cannot be null in its own state is dropped"""
        lits = None
        defs = {}
        for s in states:
            lits = s.lits if lits is None else lits & s.lits
            for k, v in s.defs.items():
                if v and k[0] == 'v' and is_nullable_type(fn.typ(fn.tu.decls[k[1]].get('t', -1))):
                    if ('N', k) in s.lits:
                        v = frozenset()
                    else:
                        v = frozenset(o for o in v if o < 0 or self.origins(fn, o, s))
                defs[k] = defs[k] | v if k in defs else v
        return State(lits, defs)

    # ---------------------------------------------------------------- fixpoint in one function
    def leaf(self, fn, c, b):
        """the part of the condition that is decided in this block (a join block decides all of it)"""
        while True:
            n = fn.nodes[c]
            if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and c not in b['el']:
                c = n['c'][1]
            else:
                return c

    def cond_facts(self, fn, i, val, st):
        if (fn.key, i) in self.muted:
            return set()
        n = fn.nodes[i]
        if n['k'] == 'UnaryOperator' and n['op'] == '!':
            return self.cond_facts(fn, n['c'][0], not val, st)
        if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and val != (n['op'] == '&&'):
            # which side was taken is recorded by the literal left at the short-circuit branch
            l, r = n['c']
            out = None
            for first in (True, False):
                # val reached through the left operand, or through the right one
                need = ('T' if (val if first else not val) else 'F', ('nd', i))
                if contradicts(st.lits, [need]):
                    continue
                f = set(self.cond_facts(fn, l, val if first else not val, st))
                if not first:
                    f |= self.cond_facts(fn, r, val, st)
                if contradicts(st.lits | f, f):
                    continue
                out = f if out is None else out & f
            return out if out is not None else {('N', ('false',)), ('0', ('false',))}
        return self.facts(fn, i, val, st)

    def run_block(self, fn, b, st):
        for e in b['el']:
            if isinstance(e, dict):
                continue
            st = self.element(fn, e, st)
            if fn.nodes[e]['k'] == 'ReturnStmt' and self.collect:
                self.rets.append((e, st))
        if b.get('nr'):
            return []
        su = b['su']
        if b.get('tc', -1) >= 0 and len(su) == 2 and b['tk'] != 'SwitchStmt':
            cond = b['tc']
            short = None
            if b['tk'] == 'BinaryOperator':
                tn = fn.nodes[b['tn']]
                if tn['op'] in ('&&', '||'):
                    short = b['tn']
                    cond = tn['c'][0]
            cond = self.leaf(fn, cond, b)
            out = []
            for s, v in ((su[0], True), (su[1], False)):
                f = frozenset(self.cond_facts(fn, cond, v, st))
                if contradicts(st.lits | f, f):
                    continue
                o = st.with_lits(f)
                if short is not None:
                    o = State(frozenset(l for l in o.lits if l[1] != ('nd', short)) | {('T' if v else 'F', ('nd', short))}, o.defs)
                out.append((s, o))
            return out
        return [(s, st) for s in su]

    def initial(self, fn):
        defs = {}
        for p in fn.params:
            d = fn.tu.decls[p]
            if is_nullable_type(fn.typ(d['t'])):
                defs[('v', p)] = frozenset([-2])
        return State(frozenset(self.entry_lits(fn)), defs)

    def entry_lits(self, fn):
        return ()

    def analyse(self, fn):
        """fixpoint; afterwards visits every reachable block once more with self.collect set"""
        blocks = fn.blocks
        self.rets = []
        self.collect = False
        if not blocks:
            return
        ins = {fn.entry: {self.initial(fn).key(): self.initial(fn)}}
        merged = set()
        work = [fn.entry]
        done = {}
        steps = 0
        while work:
            b = work.pop(0)
            for key, st in list(ins[b].items()):
                if (b, key) in done:
                    continue
                done[(b, key)] = True
                steps += 1
                for s, o in self.run_block(fn, blocks[b], st):
                    if s < 0:
                        continue
                    cur = ins.setdefault(s, {})
                    if s in merged:
                        (ok, old), = cur.items()
                        m = self.merge(fn, [old, o])
                        if m.key() != ok:
                            cur.clear()
                            cur[m.key()] = m
                            if s not in work:
                                work.append(s)
                        continue
                    if o.key() not in cur:
                        cur[o.key()] = o
                        if len(cur) > MAXSTATES:
                            m = self.merge(fn, list(cur.values()))
                            cur.clear()
                            cur[m.key()] = m
                            merged.add(s)
                        if s not in work:
                            work.append(s)
            if steps > 40000:
                raise RuntimeError('no fixpoint in ' + fn.q)
        self.collect = True
        for b in sorted(ins, reverse=True):
            for st in ins[b].values():
                self.run_block(fn, blocks[b], st)
        self.collect = False
        self.reached = ins


def strip_smart(t):
    """a smart pointer and the pointer it holds are one term"""
    while t and t[0] == 'ptr':
        t = t[1]
    if t and t[0] == 'm' and t[1].endswith('::getTypePtr') or t and t[0] == 'm' and t[1].endswith('::getTypePtrOrNull'):
        return t[2]
    if t and t[0] == 'm' and t[1].endswith('::operator->') and len(t) == 4:
        return t[2]
    return t
