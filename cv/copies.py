"""Updates that are lost: a local copy of an object that outlives it is changed, and never read again.  Flow-insensitive:
every use of the local is a change."""
from .flow import bare

WRAP = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr')


def parents(fn):
    m = fn.__dict__.get('_parents')
    if m is None:
        m = {}
        for i in list(fn.walk()) + list(fn.all_nodes()):
            for j in fn.kids(i):
                m.setdefault(j, i)
        fn.__dict__['_parents'] = m
    return m


def peel(fn, i):
    while i >= 0 and fn.nodes[i]['k'] in WRAP and fn.nodes[i].get('c'):
        i = fn.nodes[i]['c'][0]
    return i


def copied_from(fn, init):
    """the object a local is copied from, or None"""
    i = peel(fn, init)
    if i < 0:
        return None
    n = fn.nodes[i]
    if n['k'] != 'CXXConstructExpr' or len(n.get('c', ())) != 1:
        return None
    src = n['c'][0]
    while src >= 0 and fn.nodes[src]['k'] == 'ImplicitCastExpr' and fn.nodes[src].get('c'):
        src = fn.nodes[src]['c'][0]
    if src < 0 or bare(fn.type(src)).replace('const ', '') != bare(fn.type(i)).replace('const ', ''):
        return None
    s = fn.nodes[src]
    if s['k'] in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        return None
    d = fn.callee(src)
    if d and d['q'] in ('std::move', 'std::forward'):
        return None
    if s['k'] == 'DeclRefExpr' and not (fn.decl(s) or {}).get('gl') and not is_ref(fn, s):
        return None          # of another local: a working copy
    return src


def is_ref(fn, n):
    d = fn.decl(n) or {}
    return fn.typ(d.get('t', -1)).strip().endswith('&')


def changes(fn, ref, types=()):
    """the node that changes the object through this use of it, or None if the use may read it"""
    par = parents(fn)
    i = ref
    while True:
        p = par.get(i)
        if p is None:
            return None
        n = fn.nodes[p]
        k = n['k']
        c = n.get('c', [])
        d = fn.decl(n) if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') else None
        if k in WRAP:
            if k == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue':
                return None
        elif k == 'MemberExpr' and not n.get('arrow'):
            pass
        elif k == 'CXXMemberCallExpr' and n.get('o') == i and d and not d.get('cm') and not n.get('arrow'):
            if unused(fn, p) or d.get('cls') in types:
                return p
            if not fn.type(p).strip().endswith('&') and d['n'] not in ('operator[]', 'at', 'front', 'back'):
                return None
        elif k == 'CXXOperatorCallExpr' and c and c[0] == i and d:
            if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                return p if unused(fn, p) else None
            if n['op'] != '[]':
                return None
        elif k in ('BinaryOperator', 'CompoundAssignOperator') and c and c[0] == i and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            return p if unused(fn, p) else None
        else:
            return None
        i = p


def unused(fn, i):
    par = parents(fn)
    p = par.get(i)
    while p is not None and fn.nodes[p]['k'] in ('ExprWithCleanups', 'ParenExpr'):
        p = par.get(p)
    return p is None or fn.nodes[p]['k'] in ('CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt', 'CaseStmt', 'DefaultStmt', 'SwitchStmt')


def read_after(fn, node, reads):
    """one of the reading uses can come after the node"""
    el, par = {}, parents(fn)
    for b, blk in fn.blocks.items() if isinstance(fn.blocks, dict) else enumerate(fn.blocks):
        for k, e in enumerate(blk.get('el', ())):
            el.setdefault(e, (b, k))

    def place(i):
        while i is not None and i not in el:
            i = par.get(i)
        return el.get(i)
    at = place(node)
    if at is None:
        return True
    rs = [place(r) for r in reads]
    if None in rs:
        return True
    if any(b == at[0] and k > at[1] for b, k in rs):
        return True
    seen, todo = set(), [s for s in fn.blocks[at[0]]['su'] if s >= 0]
    while todo:
        b = todo.pop()
        if b not in seen:
            seen.add(b)
            todo += [s for s in fn.blocks[b]['su'] if s >= 0]
    return any(b in seen for b, k in rs)


def lost_updates(prog, types=(), late=()):
    """(function, node of a change, local, source) and the number of copies looked at; types: classes whose non-const functions
    only answer whether they worked; late: classes of which a change counts as lost when nothing reads the copy after it"""
    n, out = 0, []
    for fn in prog.funcs.values():
        locs = {}
        for x in fn.nodes:
            for v, init in x.get('vars', ()):
                ty = fn.typ(fn.tu.decls[v].get('t', -1)).strip()
                if init is not None and init >= 0 and not ty.endswith(('&', '*')) and not ty.startswith('const '):
                    src = copied_from(fn, init)
                    if src is not None:
                        locs[v] = src
        if not locs:
            continue
        n += len(locs)
        uses = {}
        for i in fn.all_nodes():
            if fn.nodes[i]['k'] == 'DeclRefExpr' and fn.nodes[i].get('d') in locs:
                uses.setdefault(fn.nodes[i]['d'], []).append(i)
            for cp in fn.nodes[i].get('caps', ()):
                uses.setdefault(cp.get('d'), []).append(-1)
        for v, src in locs.items():
            ch = [changes(fn, u, types) if u >= 0 else None for u in uses.get(v, ())]
            if ch and None not in ch:
                out.append((fn, ch[0], fn.tu.decls[v].get('n'), fn.text(src)))
            elif ch and -1 not in uses[v] and any(t in fn.typ(fn.tu.decls[v].get('t', -1)) for t in late):
                reads = [u for u, c in zip(uses[v], ch) if c is None]
                for c in ch:
                    if c is not None and not read_after(fn, c, reads):
                        out.append((fn, c, fn.tu.decls[v].get('n'), fn.text(src)))
    return n, out
