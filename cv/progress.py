"""Termination: every way round a loop must bring one of the values its condition depends on closer to the end, and every
recursive call must be about something smaller.

A value is tracked relative to what the variables were when the loop was entered (the function was called):
  same   the value itself, or one that a repeated step leaves as it is (a canonical declaration, an expression without
         its parentheses, a cast of a node)
  less   a step along the finite syntax tree, list, text or chain of scopes
  inc, dec   a counter or position moved up or down
  jump   a step from a use to what is used; such steps can go in circles"""
import re
from . import views
from .terms import term, CAST_FNS

SAME = {'getCanonicalDecl', 'IgnoreParens', 'IgnoreImplicit', 'IgnoreImpCasts', 'IgnoreParenImpCasts', 'IgnoreParenCasts', 'IgnoreCasts', 'IgnoreImplicitAsWritten', 'getTypePtr', 'getTypePtrOrNull', 'getDefinition', 'getMostRecentDecl',
        'getCanonicalType', 'getUnqualifiedType', 'getAs', 'getAsCXXRecordDecl', 'getAsRecordDecl', 'getDesugaredType', 'getSingleStepDesugaredType', 'get', 'getPointer', 'begin', 'cbegin', 'data', 'c_str', 'operator*', 'operator->', 'value', 'str',
        'getPrimaryContext', 'getNonTransparentContext', 'getRedeclContext', 'getEnclosingNamespaceContext', 'getFirstDecl', 'getLocWithOffset0', 'toType', 'operator bool', 'getOriginalNamespace', 'getTemplatedDecl', 'getInstantiatedFromMember',
        'getUnqualifiedDesugaredType', 'getNonReferenceType', 'getCanonicalTypeUnqualified', 'getCanonicalTypeInternal', 'getLocalUnqualifiedType', 'getAtomicUnqualifiedType', 'withConst', 'getUnqualifiedLoc', 'getMostRecentNonInjectedDecl',
        'getSpellingLoc', 'getExpansionLoc', 'getFileLoc', 'getBeginLoc', 'getSourceRange', 'getBegin', 'front'}
JUMP = {'getDecl', 'getMemberDecl', 'getMethodDecl', 'getDirectCallee', 'getCalleeDecl', 'getConstructor', 'getReferencedDecl', 'getReferencedMemberDecl', 'getFoundDecl', 'getReferencedDeclOfCallee', 'getCallReturnType', 'getTemplateInstantiationPattern', 'getInstantiatedFromMemberFunction', 'getInstantiatedFromMemberClass', 'getTypeForDecl'}
CONSUME = {'getline', 'LexFromRawLexer', 'Lex', 'get', 'read', 'next', 'operator>>', 'ignore'}
ENV = re.compile(r'\b(ParentMap|ASTContext|SourceManager|LangOptions|ClazyContext|CompilerInstance|Preprocessor)\b')
LOCALK = ('Var', 'ParmVar', 'Binding')
LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')
CMP = ('<', '<=', '>', '>=', '!=', '==')
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!=', '==': '=='}
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '!=': '==', '==': '!='}


def join(a, b):
    """composition of two movements of one variable"""
    if a in (None, 'same'):
        return b
    if b in (None, 'same'):
        return a
    if a == b and a != 'elem':
        return a
    if {a, b} == {'inc', 'dec'} or 'mix' in (a, b):
        return 'mix'
    if 'jump' in (a, b):
        return 'jump'
    return 'less'


class Progress:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}            # function key -> {param: [(kind, conditions)]}
        self.views = views.Views(prog)
        self.views.summarise_inv()
        self.bounds = {}          # (function, text) -> name of the end a loop counts up to
        self.loops = 0
        self.states = 0
        self.out = []

    # ------------------------------------------------------------------ expressions
    def local(self, fn, i):
        n = fn.nodes[i]
        if n['k'] != 'DeclRefExpr':
            return None
        d = fn.decl(n)
        if d is None or d['k'] not in LOCALK or d.get('gl') or d.get('sl'):
            return None
        return n['d']

    def rel(self, fn, i, look, depth=0):
        """(base, kind) of expression i; look(v) gives the relation of a local variable"""
        if i is None or i < 0 or depth > 25:
            return None
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        R = lambda j: self.rel(fn, j, look, depth + 1)
        b = self.bounds.get((fn.key, fn.text(i))) if self.bounds and k in ('CXXMemberCallExpr', 'DeclRefExpr', 'MemberExpr') else None
        if b:
            return (b, 'same')
        if k == 'DeclRefExpr':
            v = self.local(fn, i)
            if v is not None and ENV.search(fn.type(i)):
                return None           # where things are looked up, not what is looked at
            return look(v) if v is not None else None
        if k == 'MemberExpr':
            if not c:
                return None
            r = R(c[0])
            if r is None and fn.nodes[c[0]]['k'] == 'CXXThisExpr':
                t = term(fn, i)
                return look(t) if t is not None else None
            return r
        if k == 'UnaryOperator':
            r = R(c[0])
            if r is None:
                return None
            if n['op'] in ('++', '--'):
                return r            # the variable itself has been moved by its own element
            if n['op'].startswith('post'):
                return r
            return r
        if k == 'BinaryOperator':
            if n['op'] == '=':
                return R(c[1])
            if n['op'] == ',':
                return R(c[1])
            a, b = R(c[0]), R(c[1])
            if n['op'] == '+':
                if a and not b:
                    return (a[0], join(a[1], self.step(fn, c[1], 'inc')))
                if b and not a:
                    return (b[0], join(b[1], self.step(fn, c[0], 'inc')))
            if n['op'] == '-' and a and not b:
                return (a[0], join(a[1], self.step(fn, c[1], 'dec')))
            if n['op'] in ('/', '>>') and a and not b:
                return (a[0], join(a[1], 'dec'))
            x = a or b
            return (x[0], join(x[1], 'less')) if x else None
        if k == 'ConditionalOperator' and len(c) == 3:
            return self.worse(R(c[1]), R(c[2]), fn, c[1], c[2])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr') and c:
            return R(c[0])
        if k == 'ArraySubscriptExpr' and c:
            r = R(c[0]) or R(c[1])
            return (r[0], join(r[1], 'less')) if r else None
        if k in views.CTORS:
            if len(c) == 1:
                return R(c[0])
            return self.first([R(x) for x in c], 'less')
        if k == 'CXXMemberCallExpr':
            d = fn.decl(n) or {}
            o = n.get('o', -1)
            rs = [R(o)] + [R(x) for x in c]
            s = self.summary(fn, n, d, c, rs)
            if s is not NotImplemented:
                return s
            nm = d.get('n')
            if nm in SAME:
                return rs[0]
            if nm in ('back', 'front', 'top', 'pop_back_val', 'at') and rs[0] and rs[0][1] == 'same' and views.is_owner(fn.type(o)):
                return (rs[0][0], 'elem')
            if nm in ('erase', 'insert', 'emplace') and c and views.is_owner(fn.type(o)) and rs[1]:
                return (rs[1][0], join(rs[1][1], 'less')) if nm == 'erase' else rs[1]
            if nm in ('find', 'find_first_of', 'find_first_not_of') and len(c) >= 2 and rs[2]:
                return rs[2]              # not before where the search starts
            if nm == 'getLocWithOffset' and rs[0]:
                return (rs[0][0], join(rs[0][1], self.step(fn, c[0], 'inc')))
            return self.first(rs, 'jump' if nm in JUMP else 'less')
        if k == 'CXXOperatorCallExpr':
            op = n['op']
            if op in ('*', '->', '++', '--'):
                return R(c[0])
            if op == '=':
                return R(c[1])
            rs = [R(x) for x in c]
            if op in ('+', '-') and len(c) == 2 and rs[0]:
                return (rs[0][0], join(rs[0][1], self.step(fn, c[1], 'inc' if op == '+' else 'dec')))
            return self.first(rs, 'less')
        if k == 'CallExpr':
            d = fn.decl(n) or {}
            q = d.get('q', '')
            rs = [R(x) for x in c]
            if q in ('std::next', 'std::prev') and rs[0]:
                return (rs[0][0], join(rs[0][1], self.step(fn, c[1], 'inc' if q == 'std::next' else 'dec') if len(c) > 1 else 'inc' if q == 'std::next' else 'dec'))
            if q in CAST_FNS or q in ('std::move', 'std::as_const', 'std::forward', 'std::begin', 'std::cbegin') or q.startswith('llvm::') and d.get('n', '').endswith(('cast', 'cast_or_null', 'cast_if_present')):
                return rs[0] if rs else None
            s = self.summary(fn, n, d, c, [None] + rs)
            if s is not NotImplemented:
                return s
            return self.first(rs, 'jump' if d.get('n') in JUMP else 'less')
        return None

    def step(self, fn, i, kind):
        """direction of adding (subtracting) the value of i; an amount that can be nothing is no step"""
        n = fn.nodes[self.uncast(fn, i)]
        if n['k'] == 'IntegerLiteral':
            return 'same' if n['v'] == '0' else kind
        if n['k'] == 'UnaryOperator' and n['op'] == '-':
            return self.step(fn, n['c'][0], {'inc': 'dec', 'dec': 'inc'}[kind])
        return kind if self.positive(fn, i) else 'same'

    def positive(self, fn, i):
        """an amount of at least one: a literal, a sum with one, or a length of what is known not to be empty"""
        i = self.uncast(fn, i)
        n = fn.nodes[i]
        c = n.get('c', [])
        if n['k'] == 'IntegerLiteral':
            return int(n['v']) > 0
        if n['k'] == 'BinaryOperator' and n['op'] == '+':
            return self.positive(fn, c[0]) or self.positive(fn, c[1])
        if n['k'] == 'BinaryOperator' and n['op'] == '*':
            return self.positive(fn, c[0]) and self.positive(fn, c[1])
        if n['k'] == 'BinaryOperator' and n['op'] in ('-', '/', '%', '&'):
            return False
        if n['k'] == 'CallExpr' and (fn.decl(n) or {}).get('n') == 'max':
            return any(self.positive(fn, x) for x in c)
        if n['k'] == 'CXXMemberCallExpr' and (fn.decl(n) or {}).get('n') in ('getLength', 'size', 'length'):
            return self.nonzero(fn, i, n['o'], True)
        if n['k'] == 'CXXMemberCallExpr' or n['k'] == 'CallExpr':
            return False
        v = self.local(fn, i)
        if v is not None:
            if self.nonzero(fn, i, i, False):
                return True
            self.param_look(fn, {})
            ds = fn.__dict__['_pdefs'].get(v, ())
            return bool(ds) and v not in fn.params and all(k == 'e' and self.positive(fn, e) for k, e in ds if k != 'm') and all(k != 'm' or e == 'inc' for k, e in ds) and any(k == 'e' for k, e in ds)
        return n['k'] == 'UnaryExprOrTypeTraitExpr'

    def nonzero(self, fn, at, of, length):
        """every way to node at has established that expression of (its length) is not zero"""
        t = self.views.canon(fn, term(fn, of))
        if t is None:
            return False
        blk = self.block_of(fn, at)
        if blk is None:
            return False

        def shows(l, truth):
            n = fn.nodes[l]
            while n['k'] == 'UnaryOperator' and n['op'] == '!' or n['k'] == 'ImplicitCastExpr':
                if n['k'] == 'UnaryOperator':
                    truth = not truth
                l = n['c'][0]
                n = fn.nodes[l]
            is_ = lambda x: self.views.canon(fn, term(fn, self.uncast(fn, x))) == t
            if n['k'] == 'CXXMemberCallExpr' and length:
                nm = (fn.decl(n) or {}).get('n')
                if is_(n['o']):
                    tx = fn.text(n['c'][0]) if n.get('c') else ''
                    if nm == 'is':
                        return truth != tx.endswith('eof')
                    if nm == 'isNot':
                        return truth == tx.endswith('eof')
                    if nm == 'empty':
                        return not truth
                    if nm in ('size', 'length', 'getLength'):
                        return truth
            if n['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and n['op'] in CMP:
                for x, y, op in ((n['c'][0], n['c'][1], n['op']), (n['c'][1], n['c'][0], FLIP[n['op']])):
                    x = self.uncast(fn, x)
                    w = fn.nodes[self.uncast(fn, y)]
                    op = op if truth else NEG[op]
                    if length and fn.nodes[x]['k'] == 'CXXMemberCallExpr' and (fn.decl(fn.nodes[x]) or {}).get('n') == 'getKind' and is_(fn.nodes[x]['o']):
                        return op == '!=' and fn.text(self.uncast(fn, y)).endswith('eof')
                    ok = is_(x) if not length else fn.nodes[x]['k'] == 'CXXMemberCallExpr' and (fn.decl(fn.nodes[x]) or {}).get('n') in ('size', 'length', 'getLength') and is_(fn.nodes[x]['o'])
                    if ok and w['k'] == 'IntegerLiteral':
                        k = int(w['v'])
                        return (op, k) in (('>', 0), ('!=', 0)) or op in ('>', '>=') and k > 0
                return False
            return not length and truth and is_(l)
        work, seen = [fn.entry], set()
        while work:
            b = work.pop()
            if b == blk:
                return False
            if b in seen:
                continue
            seen.add(b)
            bl = fn.blocks[b]
            for j, s in enumerate(bl['su']):
                if s >= 0 and not (len(bl['su']) == 2 and 'tc' in bl and shows(self.leaf(fn, bl['tc']), j == 0)):
                    work.append(s)
        return True

    def block_of(self, fn, i):
        m = fn.__dict__.get('_blkof')
        if m is None:
            m = {}
            for b in fn.blocks.values():
                for e in b['el']:
                    if not isinstance(e, dict):
                        for x in fn.walk(e):
                            m.setdefault(x, b['id'])
            for b in fn.blocks.values():
                for e in b['el']:
                    if not isinstance(e, dict):
                        m[e] = b['id']
            fn.__dict__['_blkof'] = m
        return m.get(i)

    def first(self, rs, kind):
        best = None
        for r in rs:
            if r is not None and (best is None or best[0] is None):
                best = (r[0], join(r[1], kind))
        return best

    ORDER = ['const', 'same', 'mix', 'jump', 'elem', 'less', 'inc', 'dec']

    def worse(self, a, b, fn=None, i=-1, j=-1):
        if a is None or b is None:
            # one branch is a constant or null: that ends the chain
            return a or b
        return a if self.ORDER.index(a[1]) <= self.ORDER.index(b[1]) else b

    def summary(self, fn, n, d, c, rs):
        g = self.prog.funcs.get(d.get('key'))
        if g is None:
            return NotImplemented
        s = self.sums.get(g.key)
        if s is None:
            return self.first(rs[1:] + rs[:1], 'less')
        res = None
        if not any(p + 1 < len(rs) and rs[p + 1] is not None for p in s):
            return self.first(rs[1:] + rs[:1], 'less')
        consts = {}
        for j, x in enumerate(c):
            v = self.const(fn, x)
            if v is not None and j < len(g.params):
                consts[j] = v
        if consts and any(k == 'same' and not any(self.refuted(fn, c, x) for x in conds) for ks in s.values() for k, conds in ks):
            s = self.specialised(g, consts) or s
        for p, kinds in s.items():
            r = rs[p + 1] if p + 1 < len(rs) else None
            if r is None:
                continue
            for kind, conds in kinds:
                if any(self.refuted(fn, c, x) for x in conds):
                    continue
                x = (r[0], join(r[1], kind))
                res = x if res is None else self.worse(res, x)
        return res

    def const(self, fn, i):
        a = fn.nodes[self.uncast(fn, i)]
        if a['k'] == 'UnaryOperator' and a['op'] == '-' and fn.nodes[a['c'][0]]['k'] == 'IntegerLiteral':
            return -int(fn.nodes[a['c'][0]]['v'])
        if a['k'] == 'IntegerLiteral':
            return int(a['v'])
        if a['k'] == 'CXXBoolLiteralExpr':
            return int(a['v'] in ('true', '1', 1, True))
        return None

    def refuted(self, fn, c, cond):
        p, op, val, truth = cond
        if p >= len(c):
            return False
        x = self.const(fn, c[p])
        if x is None:
            return False
        r = {'==': x == val, '!=': x != val, '<': x < val, '<=': x <= val, '>': x > val, '>=': x >= val}[op]
        return r != truth

    def specialised(self, g, consts):
        """what g returns of its parameters when some of them have known values: its paths with the values followed along"""
        r = self.paths(g, consts)
        return r and r[0]

    def effect(self, g):
        """{variable of the caller (a parameter's number, or a captured variable): how g leaves it, at worst}"""
        r = self.paths(g, {})
        return r and r[1]

    def paths(self, g, consts):
        key = (g.key, tuple(sorted(consts.items())))
        memo = self.__dict__.setdefault('_spec', {})
        if key in memo:
            return memo[key]
        memo[key] = None
        out, eff = {}, []
        own = g.__dict__.get('_own')
        if own is None:
            own = {v[0] for n in g.nodes if n for v in n.get('vars', ())} | {b[0] for n in g.nodes if n for b in n.get('bind', ())} | {n['var'] for n in g.nodes if n and n['k'] == 'CXXForRangeStmt'}
            g.__dict__['_own'] = own
        init = (frozenset(), frozenset((g.params[j], v) for j, v in consts.items()))
        work, seen = [(g.entry, init)], set()
        while work:
            b, st = work.pop()
            if (b, st) in seen:
                continue
            seen.add((b, st))
            if len(seen) > 3000:
                return None
            mv, ints = dict(st[0]), dict(st[1])
            bl = g.blocks[b]

            def look(v):
                if v in mv:
                    return mv[v] if mv[v][0] is not None else None
                return (v, 'same') if not isinstance(v, tuple) and v not in own or v == ('$io',) else None
            done = False
            for e in bl['el']:
                if isinstance(e, dict):
                    continue
                n = g.nodes[e]
                if n['k'] == 'ReturnStmt':
                    if n.get('c') and n['c'][0] >= 0:
                        for x, more in self.alternatives(g, n['c'][0]):
                            if any(p < len(g.params) and g.params[p] in ints and not self.holds(ints[g.params[p]], op, val, truth) for p, op, val, truth in more):
                                continue
                            r = self.rel(g, x, look)
                            if r is not None and r[0] in g.params:
                                out.setdefault(g.params.index(r[0]), set()).add(r[1])
                    done = True
                    break
                for v, what in self.events(g, e):
                    if v in ints:
                        if what[0] == 'm' and n['k'] == 'UnaryOperator':
                            ints[v] += 1 if '++' in n['op'] else -1
                        else:
                            x = self.ival(g, what[1], ints) if what[0] == 'e' else None
                            if x is None:
                                del ints[v]
                            else:
                                ints[v] = x
                        continue
                    if what[0] == 'k':
                        mv[v] = (None, 'const')
                    elif what[0] in 'mg':
                        r = look(v)
                        mv[v] = (r[0], join(r[1], what[1] if what[0] == 'm' else 'inc')) if r else (None, 'const')
                    else:
                        r = self.rel(g, what[1], look)
                        mv[v] = r if r is not None else (None, 'const')
            if done or b == g.exit:
                eff.append({v: r for v, r in mv.items() if v not in own})
                continue
            t = self.ival(g, self.leaf(g, bl['tc']), ints) if len(bl['su']) == 2 and 'tc' in bl else None
            for j, x in enumerate(bl['su']):
                if x >= 0 and not (t is not None and bool(t) != (j == 0)):
                    m2 = mv
                    if len(bl['su']) == 2 and 'tc' in bl:
                        l, truth = self.leaf(g, bl['tc']), j == 0
                        while g.nodes[l]['k'] in ('ImplicitCastExpr', 'UnaryOperator') and (g.nodes[l]['k'] == 'ImplicitCastExpr' or g.nodes[l]['op'] == '!'):
                            truth ^= g.nodes[l]['k'] == 'UnaryOperator'
                            l = g.nodes[l]['c'][0]
                        v = self.local(g, l)
                        if v is not None and not truth and '*' in g.type(l):
                            m2 = dict(mv)
                            m2[v] = (None, 'const')          # nothing there to return
                    work.append((x, (frozenset(m2.items()), frozenset(ints.items()))))
        worst = {}
        for v in {v for e in eff for v in e}:
            ks = [e[v] if v in e else (v, 'same') for e in eff]
            w = ('p', g.params.index(v)) if v in g.params else v
            if any(r[0] is None for r in ks):
                worst[w] = 'const'
            elif any(r[0] != v for r in ks):
                worst[w] = 'less'
            else:
                worst[w] = min((r[1] for r in ks), key=self.ORDER.index)
        memo[key] = ({p: [(k, ()) for k in ks] for p, ks in out.items()}, worst)
        return memo[key]

    def holds(self, x, op, val, truth):
        return {'==': x == val, '!=': x != val, '<': x < val, '<=': x <= val, '>': x > val, '>=': x >= val}[op] == truth

    def ival(self, fn, i, ints):
        i = self.uncast(fn, i)
        n = fn.nodes[i]
        v = self.const(fn, i)
        if v is not None:
            return v
        v = self.local(fn, i)
        if v is not None:
            return ints.get(v)
        c = n.get('c', [])
        if n['k'] == 'UnaryOperator':
            x = self.ival(fn, c[0], ints)
            if x is None:
                return None
            if n['op'] == '!':
                return int(not x)
            if n['op'] in ('++', '--'):
                return x
            if n['op'] == 'post++':
                return x - 1
            if n['op'] == 'post--':
                return x + 1
        if n['k'] == 'BinaryOperator' and len(c) == 2:
            a, b = self.ival(fn, c[0], ints), self.ival(fn, c[1], ints)
            if a is not None and b is not None:
                if n['op'] in CMP:
                    return int(self.holds(a, n['op'], b, True))
                if n['op'] in '+-':
                    return a + b if n['op'] == '+' else a - b
        return None

    def param_look(self, fn, memo, depth=0):
        """relation of the locals of fn to its parameters, regardless of the path"""
        defs = fn.__dict__.get('_pdefs')
        if defs is None:
            defs = {}
            for j, n in enumerate(fn.nodes):
                for v in n.get('vars', ()):
                    if v[1] >= 0:
                        defs.setdefault(v[0], []).append(('e', v[1]))
                for b in n.get('bind', ()):
                    for v in n.get('vars', ()):
                        defs.setdefault(b[0], []).append(('e', v[1]))
                if n['k'] == 'CXXForRangeStmt':
                    defs.setdefault(n['var'], []).append(('r', n['range']))
                if n['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and n['op'] == '=' and len(n.get('c', [])) == 2:
                    v = self.local(fn, n['c'][0])
                    if v is not None:
                        defs.setdefault(v, []).append(('e', n['c'][1]))
                if n['k'] == 'UnaryOperator' and ('++' in n['op'] or '--' in n['op']):
                    v = self.local(fn, n['c'][0])
                    if v is not None:
                        defs.setdefault(v, []).append(('m', 'inc' if '++' in n['op'] else 'dec'))
                if n['k'] == 'CompoundAssignOperator' and n['op'] in ('+=', '-='):
                    v = self.local(fn, n['c'][0])
                    if v is not None:
                        defs.setdefault(v, []).append(('m', 'inc' if n['op'] == '+=' else 'dec'))
            fn.__dict__['_pdefs'] = defs

        def look(v):
            if v in memo:
                return memo[v]
            isp = not isinstance(v, tuple) and v in fn.params
            memo[v] = (v, 'same') if isp else None
            r = (v, 'same') if isp else None
            for kind, e in defs.get(v, ()):
                if kind == 'm':
                    if isp:
                        r = (v, e)       # counters: moved before use
                    continue
                x = self.rel(fn, e, look)
                if kind == 'r' and x is not None:
                    x = (x[0], join(x[1], 'less'))
                if isp and x is not None:
                    continue            # reassigned: later uses only get smaller
                r = x if r is None else self.worse(r, x) if x is not None else r
            memo[v] = r
            return r
        return look

    def summarise(self):
        for rnd in range(4):
            ch = False
            for f in self.prog.funcs.values():
                rt = f.typ(f.o['rt'])
                if rt in ('void', 'bool', ''):
                    continue
                out = {}
                memo = {}
                look = self.param_look(f, memo)
                for i in f.all_nodes():
                    n = f.nodes[i]
                    if n is None or n['k'] != 'ReturnStmt' or not n.get('c') or n['c'][0] < 0:
                        continue
                    for e, more in self.alternatives(f, n['c'][0]):
                        r = self.rel(f, e, look)
                        if r is None or r[0] not in f.params:
                            continue
                        out.setdefault(f.params.index(r[0]), []).append((r[1], self.conds(f, i) + more))
                if out != self.sums.get(f.key):
                    self.sums[f.key] = out
                    ch = True
            if not ch:
                break

    def alternatives(self, fn, i, more=()):
        n = fn.nodes[i]
        if n['k'] in ('ImplicitCastExpr', 'ParenExpr') and n.get('c'):
            return self.alternatives(fn, n['c'][0], more)
        if n['k'] == 'ConditionalOperator' and len(n['c']) == 3:
            c = self.cmp_const(fn, n['c'][0])
            out = []
            for j, truth in ((1, True), (2, False)):
                out += self.alternatives(fn, n['c'][j], more + ((c + (truth,),) if c else ()))
            return out
        return [(i, more)]

    def conds(self, fn, i):
        """tests of parameters against constants that every path to node i has passed: [(param, op, value, truth)]"""
        blk = None
        for b in fn.blocks.values():
            if i in b['el']:
                blk = b['id']
        if blk is None:
            return ()
        out = []
        preds = {}
        for b in fn.blocks.values():
            for j, s in enumerate(b['su']):
                if s >= 0:
                    preds.setdefault(s, []).append((b['id'], j))
        cur = blk
        for _ in range(60):
            ps = preds.get(cur, [])
            if len(ps) != 1:
                break
            b, j = ps[0]
            bl = fn.blocks[b]
            if 'tc' in bl and len(bl['su']) == 2:
                c = self.cmp_const(fn, self.leaf(fn, bl['tc']))
                if c is not None:
                    out.append(c + (j == 0,))
            cur = b
        return tuple(out)

    def leaf(self, fn, i):
        while fn.nodes[i]['k'] == 'BinaryOperator' and fn.nodes[i]['op'] in ('&&', '||'):
            i = fn.nodes[i]['c'][1]
        return i

    def cmp_const(self, fn, i):
        n = fn.nodes[i]
        if n['k'] == 'BinaryOperator' and n['op'] in CMP:
            for a, b, op in ((n['c'][0], n['c'][1], n['op']), (n['c'][1], n['c'][0], FLIP[n['op']])):
                v = self.local(fn, self.uncast(fn, a))
                w = fn.nodes[self.uncast(fn, b)]
                if v in fn.params:
                    if w['k'] == 'IntegerLiteral':
                        return (fn.params.index(v), op, int(w['v']))
                    if w['k'] == 'UnaryOperator' and w['op'] == '-' and fn.nodes[w['c'][0]]['k'] == 'IntegerLiteral':
                        return (fn.params.index(v), op, -int(fn.nodes[w['c'][0]]['v']))
        n = fn.nodes[self.uncast(fn, i)]
        v = self.local(fn, self.uncast(fn, i))
        if v in fn.params:
            t = fn.type(self.uncast(fn, i))
            if t in ('bool', 'int', 'unsigned int'):
                return (fn.params.index(v), '!=', 0)
        return None

    def uncast(self, fn, i):
        while fn.nodes[i]['k'] in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and fn.nodes[i].get('c'):
            i = fn.nodes[i]['c'][0]
        return i

    # ------------------------------------------------------------------ loops
    def natural_loops(self, fn):
        blocks = fn.blocks
        color, back = {}, []
        st = [(fn.entry, iter(blocks[fn.entry]['su']))]
        color[fn.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if s < 0:
                    continue
                if s not in color:
                    color[s] = 1
                    st.append((s, iter(blocks[s]['su'])))
                    break
                if color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                st.pop()
        preds = {}
        for b in blocks.values():
            for s in b['su']:
                if s >= 0:
                    preds.setdefault(s, set()).add(b['id'])
        heads = {}
        for b, h in back:
            body = heads.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body or x not in color:
                    continue
                body.add(x)
                work.extend(preds.get(x, ()))
        return heads

    def check_fn(self, fn):
        if not fn.blocks:
            return
        for h, body in self.natural_loops(fn).items():
            terms = [fn.blocks[b] for b in body if fn.blocks[b].get('tk') in LOOPS + ('CXXForRangeStmt',)]
            if any(fn.blocks[h].get('tk') == 'CXXForRangeStmt' for _ in (0,)):
                continue
            self.loop(fn, h, body)

    def exits(self, fn, body):
        """[(block, leaf condition, truth that stays, is the loop's own condition)]"""
        out = []
        for b in body:
            bl = fn.blocks[b]
            su = bl['su']
            if len(su) == 2 and (su[0] in body) != (su[1] in body) and 'tc' in bl:
                out.append((b, self.leaf(fn, bl['tc']), su[0] in body))
        return out

    def loop_stmt(self, fn, h, body):
        """the loop statement: the one whose condition blocks leave the loop, outermost first"""
        best = None
        for b in body:
            bl = fn.blocks[b]
            if bl.get('tk') in LOOPS:
                n = bl['tn']
                if any(s not in body for s in bl['su'] if s >= 0) or b == h:
                    best = n
        return best

    def own_cond(self, fn, ls):
        if ls is None:
            return -1
        n = fn.nodes[ls]
        c = n.get('c', [])
        if n['k'] == 'ForStmt':
            return c[1] if len(c) > 1 else -1
        if n['k'] == 'WhileStmt':
            return c[0] if c else -1
        if n['k'] == 'DoStmt':
            return c[-1] if c else -1
        return -1

    def loop(self, fn, h, body):
        self.loops += 1
        ls = self.loop_stmt(fn, h, body)
        cond = self.own_cond(fn, ls)
        own = set(fn.walk(cond)) if cond >= 0 else set()
        if ls is not None and 'cvar' in fn.nodes[ls]:
            own |= set(fn.walk(fn.nodes[ls]['cvar']))
        ex = self.exits(fn, body)
        mine = [e for e in ex if e[1] in own or fn.blocks[e[0]].get('tn') == ls]
        assigned = self.assigned(fn, body)
        derive = False
        req = {}               # controlling variable -> allowed movements
        for b, l, stay in mine:
            self.require(fn, l, stay, req)
        flags = [v for v in req if not isinstance(v, tuple) and assigned.get(v) and assigned[v] == {'const'}]
        if not mine or flags or not any(v in assigned for v in req):
            derive = True
            src = ex if not flags else [(b, self.leaf(fn, fn.blocks[b]['tc']), None) for b in body if 'tc' in fn.blocks[b] and len(fn.blocks[b]['su']) == 2]
            for b, l, stay in src:
                self.require(fn, l, stay, req)
        for v, a in req.items():
            # where a comparison tells the direction, that is the one
            if a & {'inc', 'dec'}:
                a.discard('any')
        where = fn.where(ls) if ls is not None else fn.where(fn.blocks[h]['el'][0] if fn.blocks[h]['el'] and isinstance(fn.blocks[h]['el'][0], int) else fn.body)
        if not req and not ex:
            self.out.append(('no-progress', fn, where, 'nothing ends the loop'))
            return
        track = set(req)
        work = list(req)
        while work:
            v = work.pop()
            for w in self.feeds(fn, body, v):
                if derive and w in assigned:
                    req.setdefault(w, set()).add('any')
                if w not in track:
                    track.add(w)
                    work.append(w)
        track &= set(assigned)
        stays = {}
        for b, l, stay in mine:
            stays[fn.text(l)] = stay
        self.bounds = {}
        for b, l, stay in mine:
            n = fn.nodes[self.uncast(fn, l)]
            if n['k'] == 'BinaryOperator' and stay and n['op'] in ('<', '<=', '!=') and fn.nodes[self.uncast(fn, n['c'][1])]['k'] == 'CXXMemberCallExpr':
                tx = fn.text(self.uncast(fn, n['c'][1]))
                self.bounds[(fn.key, tx)] = ('b', tx, n['op'])
        for b in body:
            for e in fn.blocks[b]['el']:
                if not isinstance(e, dict):
                    for v, what in self.events(fn, e):
                        if what[0] == 'g' and v in track:
                            more = set(self.reads(fn, what[1]))
                            while more:
                                x = more.pop()
                                if x not in track:
                                    track.add(x)
                                    more |= self.feeds(fn, body, x)
        track &= set(assigned) | set(req)
        try:
            self.walk(fn, h, body, track, req, stays, where)
        finally:
            self.bounds = {}

    def require(self, fn, l, stay, req):
        n = fn.nodes[l]
        if n['k'] == 'UnaryOperator' and n['op'] == '!':
            return self.require(fn, n['c'][0], None if stay is None else not stay, req)
        if n['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and n['op'] in CMP and len(n['c']) == 2:
            op = n['op'] if stay in (True, None) else NEG[n['op']]
            if stay is None:
                op = '!='
            if op in ('<', '<='):
                ma, mb = 'inc', 'dec'
            elif op in ('>', '>='):
                ma, mb = 'dec', 'inc'
                # an unsigned counter is never below zero
                b = fn.nodes[self.uncast(fn, n['c'][1])]
                if op == '>=' and b['k'] == 'IntegerLiteral' and b['v'] == '0' and ('unsigned' in fn.type(self.uncast(fn, n['c'][0]))):
                    return
            else:
                ma = mb = 'any'
            self.need(fn, n['c'][0], ma, req)
            self.need(fn, n['c'][1], mb, req)
            return
        u = fn.nodes[self.uncast(fn, l)]
        if u['k'] == 'CXXMemberCallExpr' and (fn.decl(u) or {}).get('n') == 'empty' and stay is not None:
            t = self.views.canon(fn, term(fn, u['o']))
            if t is not None:
                req.setdefault(('c', t), set()).add('inc' if stay else 'dec')
            v = self.local(fn, u['o'])
            if v is not None:
                req.setdefault(v, set()).add('any')
            return
        self.need(fn, l, 'any', req)

    def need(self, fn, i, move, req, depth=0):
        if i is None or i < 0 or depth > 20:
            return
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        v = self.local(fn, i)
        if v is not None:
            req.setdefault(v, set()).add(move)
            return
        if k == 'BinaryOperator' and n['op'] in ('+', '-'):
            self.need(fn, c[0], move, req, depth + 1)
            self.need(fn, c[1], move if n['op'] == '+' else {'inc': 'dec', 'dec': 'inc', 'any': 'any'}[move], req, depth + 1)
            return
        if k == 'UnaryOperator' and ('++' in n['op'] or '--' in n['op']):
            return self.need(fn, c[0], move, req, depth + 1)
        if k == 'BinaryOperator' and n['op'] == '=':
            return self.need(fn, c[0], 'any', req, depth + 1)
        if k == 'MemberExpr':
            t = term(fn, i)
            if t is not None:
                req.setdefault(t, set()).add(move)
        if k in views.CALLS:
            d = fn.decl(n) or {}
            if d.get('n') in CONSUME:
                req.setdefault(('$io',), set()).add('any')
            if k == 'CXXMemberCallExpr' and n.get('o', -1) >= 0:
                m = move if d.get('n') in ('size', 'length', 'count') else 'any'
                t = self.views.canon(fn, term(fn, n['o']))
                if t is not None and d.get('n') in ('size', 'length', 'count', 'empty', 'end', 'back', 'front', 'cend', 'begin', 'rend'):
                    req.setdefault(('c', t), set()).add(m)
                self.need(fn, n['o'], 'any', req, depth + 1)
            for x in c:
                self.need(fn, x, 'any', req, depth + 1)
            return
        for x in c:
            self.need(fn, x, move if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') else 'any', req, depth + 1)

    def events(self, fn, e):
        """[(variable or pseudo variable, expression or movement)] changed by element e"""
        n = fn.nodes[e]
        k = n['k']
        c = n.get('c', [])
        out = []
        if k == 'DeclStmt':
            for v in n.get('vars', ()):
                if v[1] >= 0:
                    out.append((v[0], ('e', v[1])))
        elif k in ('BinaryOperator', 'CXXOperatorCallExpr') and n['op'] == '=' and len(c) == 2:
            v = self.local(fn, c[0])
            if v is None and fn.nodes[c[0]]['k'] == 'MemberExpr':
                v = term(fn, c[0])
            if v is not None:
                out.append((v, ('e', c[1])))
        elif k == 'UnaryOperator' and ('++' in n['op'] or '--' in n['op']) or k == 'CXXOperatorCallExpr' and n['op'] in ('++', '--'):
            v = self.local(fn, c[0])
            if v is None and fn.nodes[c[0]]['k'] == 'MemberExpr':
                v = term(fn, c[0])
            if v is not None:
                out.append((v, ('m', 'inc' if '++' in n['op'] else 'dec')))
        elif k == 'CompoundAssignOperator' or k == 'CXXOperatorCallExpr' and n['op'] in ('+=', '-='):
            v = self.local(fn, c[0])
            if v is not None:
                if n['op'] in ('+=', '-='):
                    out.append((v, ('m', self.step(fn, c[1], 'inc' if n['op'] == '+=' else 'dec'))))
                else:
                    out.append((v, ('m', 'dec' if n['op'] in ('/=', '>>=') else 'less')))
        if k in views.CALLS:
            d = fn.decl(n) or {}
            if d.get('n') in CONSUME and (k == 'CallExpr' or (d.get('q') or '').startswith(('clang::Lexer', 'std::'))):
                out.append((('$io',), ('m', 'less')))
            for t, ty, how, ev, nm in self.views.mutation(fn, e, n):
                if nm == 'resize' and c and fn.nodes[self.uncast(fn, c[0])]['k'] == 'BinaryOperator' and fn.nodes[self.uncast(fn, c[0])]['op'] == '-' and self.positive(fn, fn.nodes[self.uncast(fn, c[0])]['c'][1]):
                    how = 'shrink'
                if how == 'grow' and nm in ('push_back', 'emplace_back', 'push', 'push_front', 'emplace_front', 'emplace', 'insert') and c:
                    out.append((('c', t), ('g', c[-1])))
                    continue
                out.append((('c', t), ('m', {'shrink': 'dec', 'grow': 'inc', 'reset': 'less'}[how])))
            # passed by reference or pointer to something that changes it
            if (d.get('ps') is not None) and k != 'CXXOperatorCallExpr':
                for j, x in enumerate(c):
                    if j >= len(d['ps']):
                        break
                    pt = fn.typ(d['ps'][j][1])
                    y = x
                    amp = fn.nodes[y]['k'] == 'UnaryOperator' and fn.nodes[y]['op'] == '&'
                    if amp:
                        y = fn.nodes[y]['c'][0]
                    v = self.local(fn, y)
                    if v is not None and (amp or pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('&&') and not re.search(r'\bconst ?&$', pt)):
                        if d.get('n') in ('isa', 'dyn_cast', 'cast', 'isa_and_nonnull', 'dyn_cast_or_null', 'isa_and_present', 'dyn_cast_if_present', 'move', 'forward', 'as_const', 'begin', 'end', 'size', 'empty'):
                            continue
                        if d.get('key') in self.prog.funcs:
                            continue
                        out.append((v, ('m', 'less')))
            g = self.prog.funcs.get(d.get('key'))
            if g is not None and g is not fn and g.blocks:
                args = c[1:] if k == 'CXXOperatorCallExpr' and d.get('cls') else c
                for w, kind in (self.effect(g) or {}).items():
                    if isinstance(w, tuple) and w[0] == 'p':
                        w = w[1]
                        if w < len(args):
                            pt = fn.typ(d['ps'][w][1]) if d.get('ps') and w < len(d['ps']) else ''
                            y = self.uncast(fn, args[w])
                            if not pt.endswith('&') or pt.startswith('const '):
                                continue
                            v = self.local(fn, y)
                            if v is not None and kind != 'same':
                                out.append((v, ('m', kind) if kind != 'const' else ('k',)))
                    elif w == ('$io',):
                        if kind not in ('same', 'const'):
                            out.append((w, ('m', 'less')))
                    elif g.lambda_ and kind != 'same' and g.tu is fn.tu:
                        out.append((w, ('m', kind) if kind != 'const' else ('k',)))
        return out

    def consumes(self, fn, x):
        d = fn.decl(fn.nodes[x]) or {}
        if d.get('n') in CONSUME:
            return True
        g = self.prog.funcs.get(d.get('key'))
        return g is not None and g is not fn and bool(g.blocks) and (self.effect(g) or {}).get(('$io',)) not in (None, 'same', 'const')

    def changes_param(self, g, v):
        c = g.__dict__.setdefault('_chg', {})
        if v not in c:
            c[v] = True
            c[v] = any(w == v or w == ('c', ('v', v)) for e in g.all_nodes() if g.nodes[e] is not None for w, _ in self.events(g, e))
        return c[v]

    def assigned(self, fn, body):
        out = {}
        for b in body:
            for e in fn.blocks[b]['el']:
                if isinstance(e, dict):
                    continue
                for v, what in self.events(fn, e):
                    kind = 'moved'
                    if what[0] == 'e' and fn.nodes[self.uncast(fn, what[1])]['k'] in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CXXNullPtrLiteralExpr', 'CharacterLiteral'):
                        kind = 'const'
                    out.setdefault(v, set()).add(kind)
        return out

    def feeds(self, fn, body, v):
        out = set()
        for b in body:
            for e in fn.blocks[b]['el']:
                if isinstance(e, dict):
                    continue
                for w, what in self.events(fn, e):
                    if w == v and what[0] == 'e':
                        for x in fn.walk(what[1]):
                            u = self.local(fn, x)
                            if u is not None:
                                out.add(u)
                            d = fn.decl(fn.nodes[x]) if fn.nodes[x]['k'] in views.CALLS else None
                            if d and self.consumes(fn, x):
                                out.add(('$io',))
        return out

    def reads(self, fn, i):
        out = set()
        for x in fn.walk(i):
            u = self.local(fn, x)
            if u is not None:
                out.add(u)
            if fn.nodes[x]['k'] == 'MemberExpr':
                t = term(fn, x)
                if t is not None:
                    out.add(t)
                    out.add(('c', t))
            if fn.nodes[x]['k'] == 'CXXMemberCallExpr' and fn.nodes[x].get('o', -1) >= 0:
                t = self.views.canon(fn, term(fn, fn.nodes[x]['o']))
                if t is not None:
                    out.add(('c', t))
        return out

    def walk(self, fn, h, body, track, req, stays, where):
        init = (frozenset(), frozenset())       # moved variables {(v, rel)}, known conditions {(text, truth, reads)}
        seen = set()
        work = [(h, init, ())]
        bad = None
        while work and bad is None:
            b, st, path = work.pop()
            if (b, st) in seen:
                continue
            seen.add((b, st))
            self.states += 1
            if len(seen) > 60000:
                raise RuntimeError('too many states in the loop at %s' % where)
            mv = dict(st[0])
            known = set(st[1])
            bl = fn.blocks[b]

            def look(v):
                if v in track:
                    return mv.get(v, (v, 'same'))
                return (v, 'same') if v in req else None
            for e in bl['el']:
                if isinstance(e, dict):
                    continue
                for v, what in self.events(fn, e):
                    known = {x for x in known if v not in x[2]}
                    if v not in track:
                        continue
                    if what[0] == 'g':
                        # a list of what is still to do: smaller things may be added for the one that was taken out
                        r = mv.get(v, (v, 'same'))
                        x = self.rel(fn, what[1], look)
                        if not (r[1] == 'dec' and x is not None and x[1] == 'less' and ('v', x[0]) == v[1]):
                            mv[v] = (r[0], join(r[1], 'inc')) if r[0] is not None else (None, 'const')
                    elif what[0] == 'k':
                        mv[v] = (None, 'const')
                    elif what[0] == 'm':
                        r = mv.get(v, (v, 'same'))
                        mv[v] = (r[0], join(r[1], what[1])) if r[0] is not None else (None, 'const')
                    else:
                        r = self.rel(fn, what[1], look)
                        if r is None:
                            io = any(self.consumes(fn, x) for x in fn.walk(what[1]) if fn.nodes[x]['k'] in views.CALLS)
                            mv[v] = (v, 'less') if io else (None, 'const')
                        else:
                            mv[v] = r
            su = bl['su']
            for j, s in enumerate(su):
                if s < 0 or s not in body:
                    continue
                k2 = known
                if len(su) == 2 and 'tc' in bl:
                    l = self.leaf(fn, bl['tc'])
                    truth = j == 0
                    while fn.nodes[l]['k'] == 'UnaryOperator' and fn.nodes[l]['op'] == '!':
                        l = fn.nodes[l]['c'][0]
                        truth = not truth
                    tx = fn.text(l)
                    if any(x[0] == tx and x[1] != truth for x in known):
                        continue
                    k2 = known | {(tx, truth, frozenset(self.reads(fn, l)))}
                if s == h:
                    # the loop is about to be left: no need to have moved
                    left = False
                    for tx, truth, _ in k2:
                        if tx in stays and stays[tx] != truth:
                            left = True
                    if not left and not self.moved(fn, mv, req):
                        bad = path + (b,)
                        break
                    continue
                work.append((s, (frozenset(mv.items()), frozenset(k2)), path + (b,)))
        if bad is not None:
            names = sorted({self.vname(fn, v) for v in req})
            lines = sorted({fn.nodes[e]['l'] for b in bad for e in fn.blocks[b]['el'] if isinstance(e, int) and fn.nodes[e]['l']})
            self.out.append(('no-progress', fn, where, 'a way round the loop (lines %s) brings none of %s nearer to its end' % (', '.join(map(str, lines[:12])), ', '.join(names))))

    def vname(self, fn, v):
        if isinstance(v, tuple):
            return 'the input' if v[0] == '$io' else (self.vname(fn, v[1]) if v[0] == 'c' else v[1] and str(v[-1]).split('::')[-1] if v[0] == 'f' else 'the container') if v[0] != 'v' else fn.tu.decls[v[1]].get('n', '?')
        return fn.tu.decls[v].get('n', '?')

    def moved(self, fn, mv, req):
        for v, allowed in req.items():
            r = mv.get(v)
            if r is None or r[0] is None or r[1] in ('same', 'const') and r[0] == v:
                continue
            if isinstance(r[0], tuple) and r[0][0] == 'b':
                if r[1] == 'inc' or r[1] == 'same' and r[0][2] in ('<', '!='):
                    return True          # put at the end
                continue
            # what is worked out from another variable moves when that one does
            kind, seen = r[1], {v}
            while r is not None and r[0] is not None and r[0] not in seen:
                seen.add(r[0])
                r = mv.get(r[0])
                if r is not None and r[0] is not None:
                    kind = join(kind, r[1])
            if r is None or r[0] is None or r[1] in ('same', 'const') and len(seen) == 1 or r[0] != v and r[1] == 'same':
                continue
            r = (v, kind)
            if 'any' in allowed and r[1] != 'mix' and r[1] != 'jump':
                return True
            if r[1] in allowed or r[1] == 'less':
                return True
        return False

    # ------------------------------------------------------------------ recursion
    def recursion(self):
        import sys
        sys.setrecursionlimit(100000)
        g, callees = {}, {}
        for f in self.prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n is None:
                    continue
                d = f.callee(i)
                if n['k'] == 'LambdaExpr':
                    d = f.decl(n['fn']) if n.get('fn', -1) >= 0 else None
                if d and d.get('key') in self.prog.funcs:
                    g.setdefault(f.key, {}).setdefault(d['key'], []).append(i)
        idx, low, st, on, out = {}, {}, [], set(), []

        def dfs(v):
            idx[v] = low[v] = len(idx)
            st.append(v)
            on.add(v)
            for w in g.get(v, {}):
                if w not in idx:
                    dfs(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                s = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    s.add(w)
                    if w == v:
                        break
                if len(s) > 1 or v in g.get(v, {}):
                    out.append(s)
        for v in list(self.prog.funcs):
            if v not in idx:
                dfs(v)
        self.rec_sites = 0
        for s in out:
            good = {}                  # edges that shrink; a cycle needs one
            edges = []
            for k in s:
                f = self.prog.funcs[k]
                for w in g.get(k, {}):
                    if w in s:
                        for i in g[k][w]:
                            self.rec_sites += 1
                            edges.append((k, w, i, self.shrinks(f, i, self.prog.funcs[w])))
            # drop the shrinking edges; what still goes in circles does not end
            rest = {}
            for k, w, i, ok in edges:
                if not ok:
                    rest.setdefault(k, []).append((w, i))
            for k, w, i, ok in edges:
                if not ok and self.reaches(rest, w, k):
                    f = self.prog.funcs[k]
                    if f.nodes[i]['k'] == 'LambdaExpr':
                        continue
                    self.out.append(('no-progress', f, f.where(i), 'the recursive call %s is not about anything smaller' % f.text(i)[:80]))

    def reaches(self, g, a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            work.extend(w for w, _ in g.get(x, ()))
        return False

    def shrinks(self, f, i, callee):
        n = f.nodes[i]
        if n['k'] == 'LambdaExpr':
            return False
        lookp = self.param_look(f, {})

        def look(v):
            if isinstance(v, tuple):
                return None
            d = f.tu.decls[v]
            if f.lambda_:
                if v in f.params:
                    return (v, 'less')     # what a lambda is given is an element of what it is applied to
            r = lookp(v)
            if r is None and d['k'] == 'ParmVar' and v not in f.params:
                return (v, 'same')         # captured
            return r
        args = n.get('c', [])
        if n['k'] == 'CXXOperatorCallExpr' and (f.decl(n) or {}).get('cls'):
            args = args[1:]
        rs = [self.rel(f, x, look) for x in args]
        if n['k'] == 'CXXMemberCallExpr' and n.get('o', -1) >= 0:
            rs.append(self.rel(f, n['o'], look))
        for x, r in zip(args, rs):
            if r is None:
                continue
            if r[1] in ('less', 'inc', 'dec'):
                return True
            # --depth written in the call
            y = f.nodes[self.uncast(f, x)]
            if y['k'] == 'UnaryOperator' and y['op'] in ('--', '++'):
                return True
        return self.guarded(f, i) or self.flag_down(f, i, args)

    def flag_down(self, f, i, args):
        """a flag that has to be set for the call to be made is passed on cleared"""
        set_ = {p for p, op, val, truth in self.conds(f, i) if (op, val) == ('!=', 0) and truth}
        clear = [j for j, x in enumerate(args) if f.nodes[self.uncast(f, x)]['k'] == 'CXXBoolLiteralExpr' and f.nodes[self.uncast(f, x)]['v'] in ('false', '0', 0, False)]
        d = f.callee(i)
        g = self.prog.funcs.get(d['key'])
        for j in clear:
            if g is f:
                if j in set_:
                    return True
                continue
            # the flag comes back unchanged
            back = [k for k in g.all_nodes() if (g.callee(k) or {}).get('key') == f.key]
            def same(k):
                a = g.nodes[k].get('c', [])
                return any(q < len(a) and self.local(g, self.uncast(g, a[q])) == g.params[j] for q in set_)
            ok = [k for k in back if same(k)]
            lookp = self.param_look(g, {})
            def shr(k):
                rs = [self.rel(g, x, lookp) for x in g.nodes[k].get('c', [])]
                return any(r is not None and r[1] in ('less', 'inc', 'dec') for r in rs)
            if ok and all(k in ok or shr(k) for k in back) and not any(g.params[j] in (w for w, _ in self.events(g, e)) for e in g.all_nodes() if g.nodes[e]['k'] in ('BinaryOperator', 'CompoundAssignOperator')):
                return True
        return False

    def guarded(self, f, i):
        """a list of what was visited is asked and extended on every way to node i"""
        for t in self.visited_lists(f):
            if t[0] == 'v':
                j = f.params.index(t[1]) if t[1] in f.params else -1
                a = f.nodes[i].get('c', [])
                if (f.callee(i) or {}).get('key') == f.key and (j < 0 or j >= len(a) or self.views.canon(f, term(f, self.uncast(f, a[j]))) != t):
                    continue
            if not self.avoidable(f, i, t, 'add') and not self.avoidable(f, i, t, 'ask'):
                return True
        return False

    def visited_lists(self, f):
        out = set()
        for e, n in enumerate(f.nodes):
            if n and n['k'] in views.CALLS:
                for t, ty, how, ev, nm in self.views.mutation(f, e, n):
                    if how == 'grow' and (t[0] == 'f' or t[0] == 'v' and f.tu.decls[t[1]]['k'] == 'ParmVar'):
                        out.add(t)
        return out

    def avoidable(self, f, i, t, what):
        """can node i be reached from the entry without passing an addition to (a question to) t?"""
        def passes(b, upto=None):
            for e in b['el']:
                if isinstance(e, dict):
                    continue
                if e == upto:
                    return False
                n = f.nodes[e]
                if n['k'] not in views.CALLS:
                    continue
                if what == 'add':
                    if any(m[0] == t and m[2] == 'grow' for m in self.views.mutation(f, e, n)):
                        return True
                else:
                    nm = (f.decl(n) or {}).get('n', '')
                    if re.search(r'contains|find|count|insert|any_of|none_of', nm + ' ' + (f.decl(n) or {}).get('q', '')) and any(self.views.canon(f, term(f, x)) == t for x in f.walk(e)):
                        return True
            return False
        work, seen = [f.entry], set()
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            bl = f.blocks[b]
            if i in bl['el']:
                return not passes(bl, i)
            if passes(bl):
                continue
            work.extend(s for s in bl['su'] if s >= 0)
        return False

    def run(self):
        self.summarise()
        for f in self.prog.funcs.values():
            self.check_fn(f)
        self.recursion()
        return self.out
