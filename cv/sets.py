"""Collections as terms: what a list holds after copies, selections, removals and loops that append, so that "the union of
these minus those" can be read off the value a function returns, whichever way it is put together.
  ('cat', a, b…)   all of a, then all of b           ('one', x)            just x
  ('where', l, P)  the elements of l with P          ('minus', l, names)   without those names
  ('sorted', l)    sorted, without duplicates        ('acc', fn, v, init)  list v, built up in a loop (see add events)
P is ('pred', {(facts, answer)}), about the element ('it', l)."""
import re
from .decide import flat, mentions
from .events import Rec, exhausted


def cycle_blocks(fn):
    """blocks that are on a cycle of the control flow"""
    c = fn.__dict__.get('_cyc')
    if c is None:
        succ = {b: [s for s in blk['su'] if s is not None and s >= 0] for b, blk in fn.blocks.items()}
        reach = {}
        for b in succ:
            seen, work = set(), list(succ[b])
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work += succ.get(x, [])
            reach[b] = seen
        c = {b for b in succ if b in reach[b]}
        fn.__dict__['_cyc'] = c
        fn.__dict__['_reach'] = reach
        fn.__dict__['_blk'] = {e: b for b in succ for e in fn.blocks[b]['el'] if isinstance(e, int)}
    return c


class Sets(Rec):
    def __init__(self, prog, names=(), atoms=(), prims=None, keep=None):
        super().__init__(prog, dict(names), atoms, keep)
        self.prims = prims or {}       # qualified name -> function(self, fr, st, i, obj, args, arg nodes) -> value
        self.accs = {}                 # function -> {list that is built up in a loop: blocks in which it is}
        self.early = {}                # ('acc', fn, v) is used from the entry of the loop on

    def analyse(self, *a, **k):
        while True:
            had = {f: dict(v) for f, v in self.accs.items()}
            outs = super().analyse(*a, **k)
            if had == self.accs:
                return outs
            self.its = []
            self.early = {f: {v: frozenset(b) for v, b in m.items()} for f, m in self.accs.items()}

    def on_block(self, fr, st, b):
        early = self.early.get(fr.fn.key)
        if not early:
            return
        cyc = cycle_blocks(fr.fn)
        if b not in cyc:
            return
        reach = fr.fn.__dict__['_reach']
        for v, blks in early.items():
            old = fr.env.get(v)
            acc = ('acc', fr.fn.key, v, old)
            if old is not None and not is_acc(old, fr.fn.key, v) and any(x in reach[b] and b in reach[x] for x in blks):
                self.to_acc(fr, st, v, old, acc)

    def to_acc(self, fr, st, v, old, acc):
        self.bind(fr, st, v, acc)
        if old[0] != 'list':
            its = {('it', old): ('it', acc), ('end', old): ('end', acc)}
            for k, x in list(fr.env.items()):
                if x in its:
                    fr.env[k] = its[x]
            for k, x in list(fr.vals.items()):
                if x in its:
                    fr.vals[k] = its[x]

    def compute(self, fr, st, i):
        n = fr.fn.nodes[i]
        if n['k'] == 'DeclRefExpr' and n['d'] not in fr.env:
            d = fr.fn.decl(n)
            if d.get('gl'):
                g = self.strings().get(d['q'])
                if g is not None:
                    return ('str', g)
        return super().compute(fr, st, i)

    def strings(self):
        c = self.prog.__dict__.get('_strs')
        if c is None:
            c = {}
            for (q, l), g in self.prog.globals.items():
                r = g['nodes'][g['init']] if g.get('init', -1) >= 0 else None
                while r and r['k'] != 'StringLiteral' and len(r.get('c', [])) == 1:
                    r = g['nodes'][r['c'][0]]
                if r and r['k'] == 'StringLiteral':
                    c[q] = r['v']
            self.prog.__dict__['_strs'] = c
        return c

    def element(self, fr, st, i):
        n = fr.fn.nodes[i]
        if n['k'] == 'DeclStmt':
            for x in n.get('vars', ()):
                d = fr.fn.tu.decls[x[0]]
                if d.get('sl') and not fr.fn.typ(d.get('t', -1)).startswith('const ') and x[0] not in fr.env:
                    fr.env[x[0]] = ('static', d['q'])
        return super().element(fr, st, i)

    def assign(self, fr, st, lhs, val):
        n = fr.fn.nodes[lhs]
        if n['k'] == 'DeclRefExpr' and fr.fn.decl(n).get('sl'):
            self.bind(fr, st, n['d'], val)
            return
        super().assign(fr, st, lhs, val)

    def step(self, fr, st, i, lhs, old):
        """a counter whose bound is known is counted"""
        if old[0] == 'int' and 0 <= old[1] < 64 and not any(f[0] in ('lt', 'eq') and old in f[1:] for f in st.facts):
            self.assign(fr, st, lhs, ('int', old[1] + (1 if '++' in fr.fn.nodes[i].get('op', '') else -1)))
            return
        if old[0] == 'pos':
            self.assign(fr, st, lhs, ('pos', old[1], old[2] + (1 if '++' in fr.fn.nodes[i].get('op', '') else -1)))
            return
        self.live = tuple(('live', v) for v in fr.env.values() if v[0] == 'acc')
        super().step(fr, st, i, lhs, old)

    def on_iter(self, fn, i, old, facts, st):
        s2 = st.copy()
        for x in self.live:
            s2.event(x)
        super().on_iter(fn, i, old, facts, s2)

    def binop(self, op, a, b):
        if a[0] == 'pos' and b[0] == 'pos' and a[1] == b[1] and op in ('==', '!=', '<', '>', '<=', '>='):
            return ('c', eval('%d%s%d' % (a[2], op, b[2])))
        return super().binop(op, a, b)

    # ---- loops
    def in_loop(self, fr, i):
        cyc = cycle_blocks(fr.fn)
        if fr.fn.nodes[i] is None:
            return False
        b = fr.fn.__dict__['_blk'].get(i)
        return b in cyc if b is not None else False

    def put(self, fr, st, i, node, what, make):
        """the list at node gets what; make(old) is its new value"""
        n = fr.fn.nodes[node]
        while n['k'] in ('UnaryOperator', 'ParenExpr') and n.get('c'):
            node = n['c'][0]
            n = fr.fn.nodes[node]
        old = self.val(fr, st, node)
        if self.in_loop(fr, i) and n['k'] == 'DeclRefExpr' and not self.fresh(fr, n['d'], i):
            acc = old if is_acc(old, fr.fn.key, n['d']) else ('acc', fr.fn.key, n['d'], old)
            self.accs.setdefault(fr.fn.key, {}).setdefault(n['d'], set()).add(fr.fn.__dict__['_blk'].get(i))
            self.drop_facts = dict(st.facts)
            for f in [f for f in st.facts if mentions(f, acc) or mentions(f, old) and old[0] in ('acc', 'upd', 'hv')]:
                del st.facts[f]
            st.event((what[0], acc) + tuple(what[1:]))
            self.assign(fr, st, node, acc)
            return acc
        new = make(old)
        for f in [f for f in st.facts if old[0] in ('hv', 'upd') and mentions(f, old)]:
            del st.facts[f]
        if n['k'] in ('DeclRefExpr', 'MemberExpr'):
            st.event((what[0], old) + tuple(what[1:]))
            self.assign(fr, st, node, new)
        return new

    def fresh(self, fr, v, i):
        """declared inside of the loop the node is in"""
        fn = fr.fn
        m = fn.__dict__.get('_declblk')
        if m is None:
            m = {}
            for j, n in enumerate(fn.nodes):
                if n and n['k'] == 'DeclStmt':
                    for x in n.get('vars', ()):
                        m[x[0]] = fn.__dict__['_blk'].get(j)
            fn.__dict__['_declblk'] = m
        return m.get(v) in cycle_blocks(fn)

    # ---- predicates
    def pred(self, fr, st, lam, cont):
        callee = self.prog.funcs.get(lam[1]) if lam[0] in ('lambda', 'fnref') else None
        if callee is None or not callee.blocks or not callee.params:
            return None
        env = dict(self.closures.get(callee.key, ({}, None))[0])
        if callee.tu is fr.fn.tu:
            env.update(fr.env)
        it = ('it', cont)
        env[callee.params[0]] = it
        this = self.closures.get(callee.key, (None, fr.this))[1]
        s0 = st.copy()
        for f in [f for f in s0.facts if mentions(f, it)]:
            del s0.facts[f]
        base = dict(s0.facts)
        out = set()
        for ret, s2, _ in self.run(callee, env, this, s0, fr.depth + 1):
            for t, f2, s3 in self.split(fr, s2, ret):
                out.add((frozenset((k, v) for k, v in s3.facts.items() if k not in base), t))
        return ('pred', frozenset(out))

    @staticmethod
    def neg_pred(p):
        return ('pred', frozenset((f, not t) for f, t in p[1]))

    # ---- calls
    def name_of(self, d):
        nm, q = d.get('n'), d.get('q', '')
        if nm == 'operator()' and q.startswith('std::ranges::__'):
            return 'std', re.sub(r'_fn$', '', q.split('::')[2].strip('_'))
        return ('std' if q.startswith(('std::', 'llvm::', '__gnu')) else ''), nm

    def dest(self, fr, node):
        """list that a back_inserter (or an iterator to the end) writes to"""
        n = fr.fn.nodes[node]
        while n['k'] not in ('CallExpr', 'CXXMemberCallExpr') and n.get('c'):
            node = n['c'][0]
            n = fr.fn.nodes[node]
        d = fr.fn.decl(n) or {}
        if d.get('n') in ('back_inserter', 'inserter') and n.get('c'):
            return n['c'][0]
        return None

    def whole(self, a, b=None):
        """list that a range goes through"""
        return a[1] if a[0] == 'it' and (b is None or b[0] == 'end' and b[1] == a[1]) else a if b is None else None

    def call(self, fr, st, i):
        fn = fr.fn
        n = fn.nodes[i]
        d = fn.decl(n) or {}
        if d.get('q') in self.prims:
            obj, args = self.call_parts(fr, st, i)
            v = self.prims[d['q']](self, fr, st, i, obj, args, self.arg_nodes(fn, i))
            if isinstance(v, list):
                return v
            if v is not None:
                fr.vals[i] = v
                return [(fr, st)]
        lib, nm = self.name_of(d)
        if lib == 'std' and d.get('key') not in self.prog.funcs:
            obj, args = self.call_parts(fr, st, i)
            nodes = list(self.arg_nodes(fn, i))
            v = self.lib(fr, st, i, d, nm, obj, args, nodes)
            if v is not None:
                fr.vals[i] = v
                return [(fr, st)]
        return super().call(fr, st, i)

    @staticmethod
    def lam(args):
        return next((a for a in args[1:] if a[0] in ('lambda', 'fnref')), ('none',))

    def lib(self, fr, st, i, d, nm, obj, args, nodes):
        fn = fr.fn
        n = fn.nodes[i]
        if nm in ('copy', 'copy_if', 'remove_copy_if', 'set_difference', 'move') and len(args) >= 2:
            two = args[0][0] == 'it' and args[1][0] == 'end'
            src = self.whole(args[0], args[1]) if two else args[0]
            rest = nodes[2:] if two else nodes[1:]
            if rest:
                dst = self.dest(fr, rest[0])
                if dst is not None and src is not None:
                    if nm != 'copy' and nm != 'move':
                        p = self.pred(fr, st, self.lam(args), src)
                        if p is None:
                            return None
                        src = ('where', src, p if nm == 'copy_if' else self.neg_pred(p))
                    self.put(fr, st, i, dst, ('append', src), lambda old: cat(old, src))
                    return ('void',)
        if nm in ('remove_if', 'partition', 'stable_partition') and len(args) >= 2:
            src = self.whole(args[0])
            p = self.pred(fr, st, self.lam(args), src)
            if p is not None:
                return ('tail', src, p if nm == 'remove_if' else self.neg_pred(p))
        if nm == 'erase_if' and len(args) == 2:
            p = self.pred(fr, st, args[1], args[0])
            if p is not None:
                self.put(fr, st, i, nodes[0], ('keep', self.neg_pred(p)), lambda old: ('where', old, self.neg_pred(p)))
                return ('void',)
        if nm in ('begin', 'end', 'cbegin', 'cend'):
            l = obj if obj is not None else args[0] if len(args) == 1 else ('none',)
            if l[0] == 'list' and 1 < len(l) < 12:
                return ('pos', l, 0 if 'begin' in nm else len(l) - 1)
        if n['k'] == 'CXXOperatorCallExpr' and n.get('op') in ('*', '->'):
            a = obj if obj is not None else args[0] if len(args) == 1 else ('none',)
            if a[0] == 'pos' and 1 + a[2] < len(a[1]):
                return a[1][1 + a[2]]
        if nm == 'unique':
            return ('dups', self.whole(args[0]))
        if nm in ('sort', 'stable_sort') and args:
            src = nodes[0]
            x = fn.nodes[src]
            while x['k'] not in ('DeclRefExpr', 'MemberExpr'):
                if x.get('o', -1) is not None and x.get('o', -1) >= 0 and x['k'] == 'CXXMemberCallExpr':
                    src = x['o']
                elif x.get('c'):
                    src = x['c'][0]
                else:
                    return None
                x = fn.nodes[src]
            how = next((a for a in args[1:] if a[0] in ('fnref', 'lambda', 'sym', 'var')), ('none',))
            self.put(fr, st, i, src, ('sort', how), lambda old: ('sort', old, how))
            return ('void',)
        if n['k'] == 'CXXMemberCallExpr' and n.get('o', -1) >= 0 and not n.get('arrow') or n['k'] == 'CXXMemberCallExpr' and nm in ('push_back', 'emplace_back', 'erase', 'insert'):
            o = n['o']
            isstr = d.get('q', '').startswith('std::basic_string')
            if nm in ('push_back', 'emplace_back') and len(args) == 1 and not isstr:
                self.put(fr, st, i, o, ('add', args[0]), lambda old: cat(old, ('one', args[0])))
                return ('void',)
            if nm in ('insert', 'append', 'append_range') and not isstr and len(args) >= 2 and args[-2][0] == 'it' and args[-1][0] == 'end' and args[-1][1] == args[-2][1]:
                src = args[-1][1]
                self.put(fr, st, i, o, ('append', src), lambda old: cat(old, src))
                return ('void',)
            if nm == 'erase' and not isstr:
                if args and args[0][0] == 'tail':
                    p = self.neg_pred(args[0][2])
                    self.put(fr, st, i, o, ('keep', p), lambda old: ('where', old, p))
                    return ('void',)
                if args and args[0][0] == 'dups':
                    self.put(fr, st, i, o, ('unique',), lambda old: ('unique', old))
                    return ('void',)
                if args and args[0] in (('it', obj),) and obj is not None:
                    return self.drop(fr, st, i, o, obj)
                if args and args[0][0] == 'find':
                    x = args[0][2]
                    self.put(fr, st, i, o, ('erase', x), lambda old: ('without', old, x))
                    return ('void',)
            if nm == 'erase' and isstr and len(args) == 2 and args[0] == ('int', 0):
                k = args[1]
                self.put(fr, st, i, o, ('cut', k), lambda old: ('substr', old, k))
                return ('void',)
            if nm == 'substr' and isstr and args:
                return ('substr', obj) + tuple(a for a in args[:1])
            if nm == 'starts_with' and args:
                return ('starts', obj, args[0])
        return None

    def drop(self, fr, st, i, o, obj):
        """erase at the iterator: on the way around a loop the element is left out, otherwise it is the one that was found"""
        it = ('it', obj)
        if self.in_loop(fr, i):
            acc = self.put(fr, st, i, o, ('drop', it), lambda old: old)
            self.live = tuple(('live', v) for v in fr.env.values() if v[0] == 'acc')
            self.on_iter(fr.fn, i, it, self.drop_facts, st)
            st.events = tuple(e for e in st.events if not mentions(e, it))
            return ('it', acc) if acc is not None else it
        same = [y for k, t in st.facts.items() if k[0] == 'eq' and t for x, y in (k[1:], (k[2], k[1])) if x == it and y[0] != 'end']
        if not same:
            return None
        x = same[0]
        self.put(fr, st, i, o, ('erase', x), lambda old: ('without', old, x))
        return it

    # ---- what was built up in loops
    @staticmethod
    def container(old, facts):
        """container the loop goes through with this iterator or index, and its element"""
        if old[0] == 'it':
            return old[1], old
        if old[0] in ('hv', 'int'):
            for k, t in facts.items():
                if k[0] == 'lt' and t and k[1] == old and k[2][0] == 'size':
                    return k[2][1], ('at', k[2][1], old)
        return None, None

    def resolve(self, v, facts=None):
        """replace ('acc', …) by what the loops put in; stays as it is if a loop may have been left early"""
        if not isinstance(v, tuple):
            return v
        if v and v[0] == 'acc':
            first = self.resolve(v[3], facts)
            srcs = {}
            for fn, i, old, f2, ev, heap in self.its:
                c, e = self.container(old, f2)
                if c is None:
                    continue
                if ('live', v) not in ev:
                    continue
                mine = [x for x in ev if x[1] == v and x[0] != 'live']
                srcs.setdefault(c, []).append((frozenset((subst(k, e, ('it', c)), t) for k, t in f2.items() if mentions(k, old) and not done(k)), mine, e))
            out = first
            for c, recs in srcs.items():
                if not any(a for _, a, _ in recs):
                    continue
                if facts is not None and not exhausted(c, facts):
                    if any(mentions(k, x) for k in facts for x in (('it', c), ('size', c))):
                        return v
                    continue    # another path's list
                if c == v:
                    if any(x[0] != 'drop' or x[2] != e for _, a, e in recs for x in a):
                        return v
                    out = ('where', out, ('pred', frozenset((f, not a) for f, a, _ in recs)))
                    continue
                if any(x[0] != 'add' or x[2] != e for _, a, e in recs for x in a) or any(len(a) > 1 for _, a, _ in recs):
                    return v
                src = self.resolve(c, facts)
                if src == v:
                    return v
                out = cat(out, src if all(a for _, a, _ in recs) else ('where', src, ('pred', frozenset((f, bool(a)) for f, a, _ in recs))))
            return out
        return tuple(self.resolve(x, facts) for x in v) if v and v[0] in ('cat', 'where', 'minus', 'sort', 'unique', 'without') else v

    def resolve_facts(self, facts):
        """the same in what is known about them"""
        def go(v):
            if isinstance(v, tuple):
                if v and v[0] == 'acc':
                    return self.resolve(v, facts)
                return tuple(go(x) for x in v)
            return v
        return {go(k): t for k, t in facts.items()}


def is_acc(v, key, var):
    return v[:3] == ('acc', key, var)


def subst(v, a, b):
    if v == a:
        return b
    return tuple(subst(x, a, b) for x in v) if isinstance(v, tuple) else v


def done(k):
    return k[0] == 'eq' and ('end' in (k[1][0], k[2][0]))


def cat(a, b):
    if a == ('list',):
        return b
    if b == ('list',):
        return a
    return flat('cat', a, b)


def parts(v):
    return [x for p in v[1:] for x in parts(p)] if v[0] == 'cat' else [] if v == ('list',) else [v]
