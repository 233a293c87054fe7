"""Effect analysis: how is an object used?  Every use of a variable or field is classified as a read or a write,
following references, iterators, reference-returning functions and reference parameters."""

ACCESS = {'begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'at', 'data', 'get', 'value', 'operator->', 'operator*', 'lower_bound', 'upper_bound', 'equal_range',
          'c_str', 'str', 'top', 'operator[]', 'first', 'second', 'getValue', 'base', 'count'}
# std functions that modify an argument they take by reference or iterator
STD_MUTATORS = {'swap', 'exchange', 'sort', 'stable_sort', 'unique', 'remove_if', 'remove', 'erase', 'erase_if', 'fill', 'iota', 'reverse', 'getline', 'back_inserter', 'inserter',
                'front_inserter', 'regex_search', 'regex_match', 'rotate', 'partition', 'shuffle', 'replace', 'replace_if', 'push_heap', 'pop_heap', 'make_heap', 'iter_swap', 'nth_element',
                'partial_sort', 'operator>>', 'getline', 'tie', 'ref', 'call_once', 'strtol', 'from_chars'}
STD_DEST = {'copy': -1, 'copy_if': -2, 'copy_n': -1, 'transform': -2, 'move': None, 'merge': -1, 'set_union': -1, 'generate': 0, 'for_each': 0}
ASSIGN_OPS = ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=', '++', '--')
SYNC_TYPES = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::once_flag')


def std_name(q):
    """algorithm name of a std callee; ranges:: function objects included"""
    parts = q.split('::')
    if parts[-1] == 'operator()' and len(parts) > 1 and parts[-2].startswith('__') and parts[-2].endswith('_fn'):
        return parts[-2][2:-3]
    return parts[-1]


def is_nonconst_ref(t):
    if not t.endswith('&') or t.endswith('&&'):
        return False
    b = t.rstrip('& ')
    return not b.endswith('const') and not (b.startswith('const ') and not b.endswith('*'))


def is_nonconst_ptr(t):
    return t.endswith('*') and not t.startswith('const ')


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self._par = {}
        self.pointee = False          # also count changes of what a pointer variable points to
        self._pw = {}
        self.ref_index = {}           # (id(tu), decl index) -> [(fn, node)]
        self.glob_index = {}          # (q, l) -> [(fn, node)]
        self.field_index = {}         # field qualified name -> [(fn, node)]
        self.callers = {}             # key -> [(fn, node)]
        for fn in prog.funcs.values():
            for i, n in enumerate(fn.nodes):
                if n is None:
                    continue
                k = n['k']
                if k == 'DeclRefExpr':
                    d = fn.decl(n)
                    if d is None:
                        continue
                    self.ref_index.setdefault((id(fn.tu), n['d']), []).append((fn, i))
                    if d.get('gl') or d.get('sl'):
                        self.glob_index.setdefault((d['q'], d.get('l')), []).append((fn, i))
                elif k == 'MemberExpr':
                    d = fn.decl(n)
                    if d is not None:
                        if d['k'] == 'Var':
                            self.glob_index.setdefault((d['q'], d.get('l')), []).append((fn, i))
                        else:
                            self.field_index.setdefault(d.get('q'), []).append((fn, i))
                d = fn.callee(i)
                if d and 'key' in d:
                    self.callers.setdefault(d['key'], []).append((fn, i))

    def parents(self, fn):
        p = self._par.get(fn.key)
        if p is None:
            p = {}
            for i, n in enumerate(fn.nodes):
                if n is None or n['k'] == 'MemberExpr' and (fn.decl(n) or {}).get('k', '').startswith('CXX'):
                    continue              # the callee expression of a member call; the call itself has the object
                for j in fn.kids(i):
                    p.setdefault(j, i)
            self._par[fn.key] = p
        return p

    # ------------------------------------------------------------------
    def writes(self, fn, i, deref=False, seen=None):
        """list of (fn, node, how) that modify the object designated by node i (or what it points to, when deref)"""
        if seen is None:
            seen = set()
        if (fn.key, i, deref) in seen:
            return []
        seen.add((fn.key, i, deref))
        out = []
        par = self.parents(fn)
        cur = i
        while True:
            p = par.get(cur, -1)
            if p < 0:
                return out
            n = fn.nodes[p]
            k = n['k']
            c = n.get('c', [])
            if k == 'MemberExpr':
                if n.get('arrow'):
                    deref = False
                cur = p
                continue
            if k == 'ArraySubscriptExpr':
                if c and c[0] == cur:
                    cur = p
                    deref = False
                    continue
                return out
            if k in ('BinaryOperator', 'CompoundAssignOperator'):
                if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and c[0] == cur:
                    if not deref:
                        out.append((fn, p, 'assigned'))
                    return out
                if n['op'] == ',' and c[1] == cur:
                    cur = p
                    continue
                return out
            if k == 'UnaryOperator':
                if '++' in n['op'] or '--' in n['op']:
                    if not deref:
                        out.append((fn, p, 'changed'))
                    return out
                if n['op'] == '&':
                    deref = True
                    cur = p
                    continue
                if n['op'] == '*':
                    if not deref:
                        return out
                    deref = False
                    cur = p
                    continue
                return out
            if k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'ConditionalOperator', 'CXXFunctionalCastExpr'):
                if k == 'ConditionalOperator' and c and c[0] == cur:
                    return out
                cur = p
                continue
            if k == 'CXXOperatorCallExpr':
                op = n['op']
                if c and c[0] == cur:
                    if op in ASSIGN_OPS:
                        if not deref:
                            out.append((fn, p, 'assigned'))
                        return out
                    if op in ('*', '->'):
                        deref = False
                        cur = p
                        continue
                    d = fn.decl(n) or {}
                    if op == '[]':
                        if not d.get('cm') and ('map<' in (d.get('clst') or d.get('q') or '')):
                            if not deref:
                                out.append((fn, p, 'may gain an entry'))
                        if d.get('cm'):
                            return out
                        cur = p
                        continue
                    if op == '()' and d.get('q', '').startswith('std::'):
                        return out
                    if op in ('<<', '>>') or op == '()':
                        ps = d.get('ps', [])
                        if d.get('cls'):
                            if not d.get('cm') and not deref:
                                out.append((fn, p, 'modified by operator' + op))
                        elif ps and is_nonconst_ref(fn.typ(ps[0][1])) and not deref:
                            out.append((fn, p, 'modified by operator' + op))
                        return out
                return out + self.as_arg(fn, p, cur, deref, seen)
            if k == 'CXXMemberCallExpr' and n.get('o') == cur:
                d = fn.decl(n) or {}
                if d.get('cm') or d.get('static'):
                    return out
                if n.get('arrow') and not deref and not self.pointee:
                    return out            # the object pointed to changes, not the pointer
                if deref and not n.get('arrow'):
                    if d.get('n') in ACCESS:
                        cur = p
                        continue
                    return out
                if d.get('n') in ACCESS:
                    t = fn.type(p)
                    cur = p
                    deref = not self.returns_ref(fn, d)
                    if deref and t and not ('*' in t or 'iterator' in t or 'Iterator' in t or 'pair<' in t):
                        return out
                    continue
                if d.get('key') in self.prog.funcs:
                    if self.this_written(d['key'], seen):
                        out.append((fn, p, 'modified by %s()' % d['n']))
                    return out
                out.append((fn, p, 'modified by %s()' % d.get('n', '?')))
                if d.get('n') in ('insert', 'emplace', 'try_emplace', 'emplace_back', 'insert_or_assign'):
                    cur = p
                    deref = not self.returns_ref(fn, d)
                    continue
                return out
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                d = fn.decl(n) or {}
                if d.get('q') in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'):
                    if d['q'] == 'std::as_const':
                        return out
                    if d['q'] == 'std::addressof':
                        deref = True
                    if d['q'] == 'std::move' and not deref:
                        pp = fn.nodes[par[p]] if p in par else None
                        if pp is not None and pp['k'] in ('CXXConstructExpr', 'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXTemporaryObjectExpr'):
                            out.append((fn, p, 'moved from'))
                            return out
                    cur = p
                    continue
                return out + self.as_arg(fn, p, cur, deref, seen)
            if k == 'DeclStmt':
                for v in n.get('vars', ()):
                    if v[1] == cur:
                        out += self.alias(fn, v[0], deref, seen)
                        for b in n.get('bind', ()):
                            out += self.alias(fn, b[0], deref, seen, n)
                return out
            if k == 'CXXForRangeStmt':
                if n.get('range') == cur:
                    out += self.alias(fn, n['var'], False, seen)
                    vs = fn.nodes[n['vstmt']] if n.get('vstmt', -1) >= 0 else None
                    if vs is not None:
                        t = fn.typ(fn.tu.decls[n['var']].get('t', -1))
                        if is_nonconst_ref(t):
                            for b in vs.get('bind', ()):
                                for f2, j in self.ref_index.get((id(fn.tu), b[0]), ()):
                                    out += self.writes(f2, j, False, seen)
                return out
            if k == 'ReturnStmt':
                if self.returns_ref_type(fn):
                    for f2, j in self.callers.get(fn.key, ()):
                        out += self.writes(f2, j, deref, seen)
                elif deref and not fn.lambda_:
                    for f2, j in self.callers.get(fn.key, ()):
                        out += self.writes(f2, j, True, seen)
                return out
            if k == 'CXXDeleteExpr':
                return out
            if k == 'InitListExpr':
                return out
            if k == 'LambdaExpr':
                return out
            return out

    def returns_ref(self, fn, d):
        t = fn.typ(d.get('rt', -1))
        return t.endswith('&')

    def returns_ref_type(self, fn):
        for d in fn.tu.decls:
            if d and d.get('key') == fn.key:
                return is_nonconst_ref(fn.typ(d.get('rt', -1)))
        return False

    def alias(self, fn, v, deref, seen, bindstmt=None):
        d = fn.tu.decls[v]
        t = fn.typ(d.get('t', -1)) if d.get('t') is not None else ''
        out = []
        if bindstmt is None:
            if d['k'] != 'Binding' and not deref and not is_nonconst_ref(t) and not t.endswith('&&'):
                return out
        for f2, j in self.ref_index.get((id(fn.tu), v), ()):
            out += self.writes(f2, j, deref, seen)
        return out

    def as_arg(self, fn, call, arg, deref, seen):
        n = fn.nodes[call]
        c = n.get('c', [])
        d = fn.decl(n)
        if arg not in c or d is None:
            return []
        idx = c.index(arg)
        if n['k'] == 'CXXOperatorCallExpr' and d.get('cls'):
            idx -= 1
        ps = d.get('ps', [])
        q = d.get('q', '')
        if idx < 0:
            return []
        pt = fn.typ(ps[idx][1]) if idx < len(ps) else ''
        if q.startswith('std::') or q.startswith('__gnu_cxx::'):
            nm = std_name(q)
            if nm in STD_MUTATORS:
                if nm in ('regex_search', 'regex_match') and 'match_results' not in pt:
                    return []
                if nm == 'back_inserter' or nm == 'inserter' or not deref or nm in ('sort', 'stable_sort', 'unique', 'remove_if', 'remove', 'reverse', 'fill'):
                    return [(fn, call, 'modified by std::%s' % nm)]
                return []
            if nm in STD_DEST and STD_DEST[nm] is not None:
                at = STD_DEST[nm] % len(c)
                if c.index(arg) == at and deref:
                    return [(fn, call, 'modified by std::%s' % nm)]
            return []
        if d.get('key') in self.prog.funcs:
            callee = self.prog.funcs[d['key']]
            if idx < len(callee.params) and (is_nonconst_ref(pt) or pt.endswith('&&') or (deref and is_nonconst_ptr(pt))):
                return [(fn, call, 'modified by %s' % d['n'])] if self.param_written(callee, idx, pt.endswith('*'), seen) else []
            return []
        if is_nonconst_ref(pt) and not deref:
            return [(fn, call, 'passed by reference to %s' % d.get('n'))]
        if deref and is_nonconst_ptr(pt):
            return [(fn, call, 'passed by pointer to %s' % d.get('n'))]
        return []

    def param_written(self, callee, idx, ptr, seen):
        k = (callee.key, idx)
        if k in self._pw:
            return self._pw[k]
        self._pw[k] = False
        r = False
        for f2, j in self.ref_index.get((id(callee.tu), callee.params[idx]), ()):
            if self.writes(f2, j, ptr, set()):
                r = True
                break
        self._pw[k] = r
        return r

    def this_written(self, key, seen):
        """does the (non-const) member function modify its object?"""
        k = (key, 'this')
        if k in self._pw:
            return self._pw[k]
        self._pw[k] = False
        fn = self.prog.funcs[key]
        r = False
        for i, n in enumerate(fn.nodes):
            if n is None:
                continue
            if n['k'] == 'CXXThisExpr':
                if self.writes(fn, i, True, set()):
                    r = True
                    break
                # *this returned, this passed on: assume the worst unless it is a plain access
        self._pw[k] = r
        return r


def fields_written(prog, eff, cls):
    """{field: [(fn, node, how)]} for all fields of a class"""
    out = {}
    r = prog.records.get(cls)
    if not r:
        return out
    for f in r['fields']:
        q = cls + '::' + f['n']
        for fn, i in eff.field_index.get(q, ()):
            for w in eff.writes(fn, i):
                out.setdefault(q, []).append(w)
    return out
