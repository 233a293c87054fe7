"""Null-safety client of the fact dataflow, with interprocedural summaries:
  ret_null   the function may return null (or only when a given parameter is null)
  req        parameters the function dereferences without checking
  when_true  parameters proven non-null when the result is true / non-null / a non-empty string"""
from .flow import *
from .flow import Flow
from .terms import term


NONNULL_ARGS = ('strlen', 'strcmp', 'strncmp', 'atoi', 'strtol')
NONNULL_NAMES = ('pushOverlay', 'addPPCallbacks', 'matchAST')


class Nullness(Flow):
    def __init__(self, prog, nullable_call=None, nullable_field=None, skip_deref=None):
        super().__init__(prog)
        self._nc = nullable_call
        self._nf = nullable_field
        self.sites = set()
        self.found = {}
        self._req = {}

    def nullable_call(self, fn, i, d):
        return self._nc(fn, i, d) if self._nc else None

    def nullable_field(self, fn, i, d):
        return self._nf(fn, i, d) if self._nf else None

    def deref(self, fn, site, ptr, st, how):
        org = self.origins(fn, ptr, st)
        if self.collect:
            self.sites.add((fn.key, site))
        for o in org:
            if o[0] == 'param':
                if o[2] >= 0:
                    self._req.setdefault(o[2], '%s at %s' % (how, fn.where(site)))
            elif self.collect:
                self.cur.setdefault((site, ptr), (fn, site, ptr, [], how))[3].append(o)
        return st.with_lits(frozenset(l for l in self.imply(fn, ptr, True, st)))

    def visit(self, fn, e, n, st):
        k = n['k']
        c = n.get('c', [])
        if k == 'MemberExpr' and n.get('arrow') and c:
            b = fn.nodes[c[0]]
            d = fn.decl(n)
            if d and d['k'] == 'CXXMethod':
                return st
            if b['k'] == 'CXXOperatorCallExpr' and b['op'] == '->' or b['k'] == 'CXXThisExpr':
                return st
            return self.deref(fn, e, c[0], st, 'member access %s' % fn.text(e))
        if k == 'CXXMemberCallExpr':
            o = n.get('o', -1)
            if o >= 0:
                on = fn.nodes[o]
                if n.get('arrow'):
                    if not (on['k'] == 'CXXThisExpr' or on['k'] == 'CXXOperatorCallExpr' and on['op'] == '->'):
                        st = self.deref(fn, e, o, st, 'member call %s' % fn.text(e))
                elif is_qt(fn.type(o)) and (fn.decl(n) or {}).get('n') not in ('isNull', 'getTypePtrOrNull', 'getAsOpaquePtr'):
                    st = self.deref(fn, e, o, st, 'use of type %s' % fn.text(e))
                elif is_smart(fn.type(o)) and ((fn.decl(n) or {}).get('n') == 'value' or (fn.decl(n) or {}).get('n') == 'get' and bare(fn.type(o)).startswith(('llvm::Expected', 'llvm::ErrorOr'))):
                    st = self.deref(fn, e, o, st, 'access to optional %s' % fn.text(e))
            return self.args(fn, e, n, st)
        if k == 'UnaryOperator' and n['op'] == '*':
            if is_ptr_type(fn.type(c[0])):
                return self.deref(fn, e, c[0], st, 'dereference %s' % fn.text(e))
        elif k == 'CXXOperatorCallExpr' and n['op'] in ('->', '*') and len(c) == 1 and (is_qt(fn.type(c[0])) or is_smart(fn.type(c[0]))):
            return self.deref(fn, e, c[0], st, 'use of %s' % fn.text(c[0]))
        elif k == 'CallExpr':
            d = fn.decl(n)
            if d and d['q'] in STRICT_CASTS and c and is_ptr_type(fn.type(c[0])):
                return self.deref(fn, e, c[0], st, 'argument of %s' % fn.text(e))
            return self.args(fn, e, n, st)
        elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.args(fn, e, n, st)
        return st

    def args(self, fn, e, n, st):
        d = fn.decl(n)
        if not d:
            return st
        c = self.ptr_args(fn, e)
        if d.get('key') not in self.prog.funcs:
            # lists of pointers are gone through without testing their elements
            if d['n'] in ('push_back', 'emplace_back') and c and is_ptr_type(fn.type(c[-1])) and '*' in fn.type(n.get('o', -1)).split('>')[0] and 'char *' not in fn.type(c[-1]):
                st = self.deref(fn, e, c[-1], st, 'element %s stored by %s' % (fn.text(c[-1]), d['q']))
            # library functions that must not be given a null pointer
            if d['q'].startswith(('std::basic_string', 'std::__cxx11::basic_string')) or d['q'] in NONNULL_ARGS or d['n'] in NONNULL_NAMES:
                for a in c:
                    if is_ptr_type(fn.type(a)) or d['n'] in NONNULL_NAMES and is_smart(fn.type(a)):
                        st = self.deref(fn, e, a, st, 'argument %s of %s' % (fn.text(a), d['q']))
            return st
        for p, why in sorted(self.req.get(d['key'], {}).items()):
            if p < len(c):
                st = self.deref(fn, e, c[p], st, 'argument %d of %s, which uses it unchecked (%s)' % (p + 1, d['q'], why.split(' uses it unchecked')[0]))
        return st

    # ---------------------------------------------------------------- whole program
    def run(self, start=None):
        fns = self.prog.funcs
        callers = self.__dict__.get('_callers')
        if callers is None:
            callers = self._callers = {}
            for f in fns.values():
                for i in f.all_nodes():
                    g = f.callee(i)
                    if g and g.get('key') in fns:
                        callers.setdefault(g['key'], set()).add(f.key)
        work = list(start or fns)
        inw = set(work)
        count = {}
        while work:
            k = work.pop(0)
            inw.discard(k)
            count[k] = count.get(k, 0) + 1
            if count[k] > 30:
                continue
            f = fns[k]
            self._req = {}
            self.cur = {}
            self.analyse(f)
            self.found[k] = list(self.cur.values())
            if self.summarise(f):
                for c in list(callers.get(k, ())) + [k]:
                    if c not in inw:
                        inw.add(c)
                        work.append(c)
        self.steps = sum(count.values())
        return [r for v in self.found.values() for r in v]

    def summarise(self, f):
        ch = False
        if set(self._req) != set(self.req.get(f.key, {})):
            self.req[f.key] = dict(self._req)
            ch = True
        rt = f.typ(f.o['rt'])
        if is_nullable_type(rt):
            reason = None
            passthru = set()
            for e, st in self.rets:
                c = f.nodes[e].get('c', [])
                if not c or c[0] < 0:
                    continue
                for o in self.origins(f, c[0], st):
                    if o[0] == 'param':
                        passthru.add(o[2])
                    elif reason is None or f.where(e) < reason[1]:
                        reason = ('may return %s (%s)' % ('null' if o[0] == 'a null value' else 'the null result of ' + f.text(o[1]), f.where(e)), f.where(e))
            new = reason[0] if reason else (frozenset(passthru) if passthru else None)
            old = self.ret_null.get(f.key)
            if not isinstance(old, str) and new != old:
                if new is None:
                    self.ret_null.pop(f.key, None)
                else:
                    self.ret_null[f.key] = new
                ch = True
        isstr = 'StringRef' in rt or 'basic_string' in rt
        modes = (['t'] if rt == 'bool' or is_nullable_type(rt) else []) + (['ne'] if isstr else [])
        for mode in modes:
            must = None
            for e, st in self.rets:
                c = f.nodes[e].get('c', [])
                if not c or c[0] < 0 or self.is_false(f, c[0]):
                    continue
                if mode == 'ne':
                    if self.is_empty_str(f, c[0]):
                        continue
                    lits = self.call_true(f, c[0], st, True)
                elif rt == 'bool':
                    lits = self.facts(f, c[0], True, st)
                    if contradicts(st.lits | lits, lits):
                        continue
                else:
                    lits = self.imply(f, c[0], True, st)
                lits = st.lits | lits
                s = {idx for idx, p in enumerate(f.params) if ('N', ('v', p)) in lits}
                must = s if must is None else must & s
            new = frozenset(must or ())
            if new != self.when_true.get((f.key, mode), frozenset()):
                self.when_true[(f.key, mode)] = new
                ch = True
        return ch
