"""Phase analysis: every function is labelled with the callbacks (statement visit, declaration visit, matcher,
preprocessor, construction) from which the call graph reaches it; a use of a per-translation-unit object that is not
guaranteed to exist in one of those phases must be preceded, on every path, by a null test of it (same fact dataflow as
P01). The guarantees themselves are obligations: the parent map exists at every statement dispatch, every front end sets
the AST context before it traverses and registers the preprocessor recorders on every path after creating a context, and
those recorders are created on every path without a precompiled header."""
import re
from .. import apis, flow, nullness, phases
from ..extract import AnalysisBroken
from ..ir import Program
from ..terms import strip_deref

PMAP = 'ClazyContext::parentMap'
ACTX = 'ClazyContext::astContext'


def known_field(lits, q, kind='N'):
    return any(l[0] == kind and isinstance(l[1], tuple) and len(l[1]) == 3 and l[1][0] == 'f' and l[1][2] == q for l in lits)


class Phased(nullness.Nullness):
    """collects, besides dereferences, the facts that hold at the calls of interest"""

    def __init__(self, *a):
        super().__init__(*a)
        self.at = {}
        self.exits = {}
        self.watch = None

    def visit(self, fn, e, n, st):
        if self.collect and self.watch and n['k'] in flow_calls:
            d = fn.decl(n)
            if d and self.watch(fn, e, d):
                self.at.setdefault((fn.key, e), []).append(st)
        return super().visit(fn, e, n, st)


flow_calls = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr')


def returns_or_exits(n, fn):
    """(node or None, state) at every normal exit"""
    out = list(n.rets)
    seen = {e for e, _ in out}
    for b, blk in fn.blocks.items():
        if b in n.reached and fn.exit in blk['su'] and not any(isinstance(e, int) and fn.nodes[e]['k'] == 'ReturnStmt' for e in blk['el']) and not blk.get('nr'):
            for st in list(n.reached[b].values()):
                for s, o in n.run_block(fn, blk, st):
                    if s == fn.exit:
                        out.append((None, o))
    return out


def check(res, thorough):
    if thorough:
        flow.MAXSTATES = 96
    prog = Program()
    ph = phases.Phases(prog)
    n = Phased(prog, apis.nullable_call, phases.field_origin(ph))
    n.watch = lambda fn, e, d: d['n'] == 'VisitStmt' and d.get('cls') == 'CheckBase' or d['n'].startswith('Traverse') and fn.cls != d.get('cls')
    uses = 0
    for fn in prog.funcs.values():
        for i, nd in enumerate(fn.nodes):
            if nd['k'] == 'MemberExpr' and (fn.decl(nd) or {}).get('q') in phases.NULLABLE:
                uses += 1
    for fn, site, ptr, origins, how in n.run():
        if fn.lambda_ and fn.q.startswith('ClazyContext::ClazyContext'):
            continue         # default reporter: only installed by front ends that pass the AST context (checked below)
        for o in sorted({o[0] for o in origins}):
            if 'may be unset during' in o:
                res.report('unavailable-object', fn.name, fn.where(site), '%s: %s' % (how, o))
    res.need('context_object_uses', uses, 90)
    res.need('functions_labelled', sum(1 for f in prog.funcs.values() if ph[f]), 700)
    by = {}
    for f in prog.funcs.values():
        for p in ph[f]:
            by[p] = by.get(p, 0) + 1
    for p, c in by.items():
        res.coverage['functions_in_' + p.replace(' ', '_').replace('-', '_')] = c

    # --- the parent map exists whenever a statement reaches a check
    callers = n._callers
    disp = 0

    def established(key, sts, depth=0):
        if all(known_field(st.lits, PMAP) for st in sts):
            return True
        return False

    for (key, e), sts in sorted(n.at.items()):
        fn = prog.funcs[key]
        d = fn.decl(fn.nodes[e])
        if d['n'] != 'VisitStmt':
            continue
        if fn.cls and 'CheckBase' in prog.bases_of(fn.cls):
            continue
        disp += 1
        if established(key, sts):
            continue
        # a helper: look at the states in which its callers call it
        cs = callers.get(key, set())
        ok = bool(cs)
        for c in cs:
            cf = prog.funcs[c]
            n.at2 = {}
            saved = n.watch, n.at
            n.at = {}
            n.watch = lambda f2, e2, d2, key=key: d2.get('key') == key
            n._req, n.cur = {}, {}
            n.analyse(cf)
            ok = ok and bool(n.at) and all(known_field(st.lits, PMAP) for v in n.at.values() for st in v)
            n.watch, n.at = saved
        if not ok:
            res.report('dispatch-without-parent-map', fn.name, fn.where(e), 'a statement is handed to the checks on a path that has not established the parent map')
    res.need('statement_dispatches', disp, 1)

    # --- recorders created on every path without a precompiled header
    reg = prog.one('ClazyContext::registerPreprocessorCallbacks')
    n._req, n.cur = {}, {}
    n.analyse(reg)
    ex = 0
    for e, st in returns_or_exits(n, reg):
        ex += 1
        if any(l[0] == 'T' and isinstance(l[1], tuple) and 'usingPreCompiledHeaders' in str(l[1][1]) for l in st.lits):
            continue
        for q in flow.PCH_FIELDS:
            if not known_field(st.lits, q):
                res.report('recorder-not-created', reg.name, reg.where(e) if e is not None else 'src/%s:%d' % (reg.file, reg.line),
                           '%s is not created on a path without a precompiled header' % q.split('::')[1])
    res.need('recorder_exits', ex, 1)

    # --- front ends
    sites = 0
    for fn in prog.funcs.values():
        cons = [i for i, nd in enumerate(fn.nodes) if nd['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (fn.callee(i) or {}).get('q') == 'ClazyContext::ClazyContext'
                and len(nd.get('c', [])) > 3]
        if not cons:
            continue
        for i in cons:
            sites += 1
            if not must_follow(prog, fn, i, 'registerPreprocessorCallbacks'):
                res.report('recorders-not-registered', fn.name, fn.where(i), 'a path from the creation of the context to the end of the function does not register the preprocessor recorders')
            if n.is_null_lit(fn, fn.nodes[i]['c'][0]):
                # the AST context must be set before this class traverses
                trav = []
                for g in prog.funcs.values():
                    if g.cls == fn.cls:
                        n._req, n.cur, n.at = {}, {}, {}
                        n.watch = lambda f2, e2, d2: d2['n'].startswith('Traverse')
                        n.analyse(g)
                        for (k, e), sts in n.at.items():
                            trav.append(e)
                            for st in sts:
                                if not known_field(st.lits, ACTX) and not assigned_before(prog, g, e):
                                    res.report('traversal-without-ast-context', g.name, g.where(e), 'the traversal starts on a path that has not set the AST context')
                                    break
                if not trav:
                    raise AnalysisBroken('no traversal found in the class that creates a context without an AST context (%s)' % fn.q)
                if not any(callable_arg(fn, a) for a in fn.nodes[i]['c'][9:]):
                    res.report('no-reporter', fn.name, fn.where(i), 'a context without an AST context needs a warning reporter: the default one reports through the AST context')
    res.need('context_creations', sites, 3)
    res.assumptions += ['The declaration enclosing a statement is dispatched before the statement, so the last-declaration tracker is set during a statement visit.',
                        'Possible nulls that do not come from the shared per-translation-unit context are the subject of P01.']


def callable_arg(fn, a):
    nd = fn.nodes[a]
    return nd['k'] != 'CXXDefaultArgExpr' and ('function<' in fn.type(a) or 'optional<' in fn.type(a))


def assigned_before(prog, fn, e):
    """the AST context is assigned a value on every path to e"""
    blocks = fn.blocks
    at = None
    sets = set()
    for b, blk in blocks.items():
        for x in blk['el']:
            if isinstance(x, dict):
                continue
            if x == e:
                at = b
            nd = fn.nodes[x]
            if nd['k'] == 'BinaryOperator' and nd['op'] == '=' and (fn.decl(fn.nodes[nd['c'][0]]) or {}).get('q') == ACTX:
                sets.add((b, blk['el'].index(x)))
    if at is None:
        return False
    # walk backwards
    seen = set()
    work = [(at, blocks[at]['el'].index(e))]
    while work:
        b, i = work.pop()
        hit = [j for (bb, j) in sets if bb == b and j < i]
        if hit:
            continue
        if b == fn.entry:
            return False
        for p, blk in blocks.items():
            if b in blk['su'] and p not in seen:
                seen.add(p)
                work.append((p, len(blk['el']) + 1))
    return True


def must_follow(prog, fn, node, name):
    """every path from node to the normal exit calls `name` (directly or through a function that always does)"""
    always = always_calls(prog, name)
    blocks = fn.blocks

    def hits(blk, lo):
        for j, x in enumerate(blk['el']):
            if j >= lo and not isinstance(x, dict):
                d = fn.callee(x)
                if d and (d['n'] == name or d.get('key') in always):
                    return True
        return False
    start = [(b, blk['el'].index(x)) for b, blk in blocks.items() for x in blk['el'] if x == node]
    if not start:
        return True
    seen = set()
    work = list(start)
    while work:
        b, lo = work.pop()
        if b == fn.exit:
            return False
        if blocks[b].get('nr') or hits(blocks[b], lo):
            continue
        for s in blocks[b]['su']:
            if s >= 0 and s not in seen:
                seen.add(s)
                work.append((s, 0))
    return True


def always_calls(prog, name):
    memo = prog.__dict__.setdefault('_always', {})
    if name in memo:
        return memo[name]
    memo[name] = out = set()
    changed = True
    cand = [f for f in prog.funcs.values() if any((f.callee(i) or {}).get('n') == name or (f.callee(i) or {}).get('key') in prog.funcs for i in f.all_nodes())]
    while changed:
        changed = False
        for f in cand:
            if f.key in out or not f.blocks or not any((f.callee(i) or {}).get('n') == name or (f.callee(i) or {}).get('key') in out for i in f.all_nodes()):
                continue
            # must pass through
            seen = {f.entry}
            work = [f.entry]
            bad = False
            while work:
                b = work.pop()
                if b == f.exit:
                    bad = True
                    break
                blk = f.blocks[b]
                if blk.get('nr') or any(not isinstance(x, dict) and ((f.callee(x) or {}).get('n') == name or (f.callee(x) or {}).get('key') in out) for x in blk['el']):
                    continue
                for s in blk['su']:
                    if s >= 0 and s not in seen:
                        seen.add(s)
                        work.append(s)
            if not bad:
                out.add(f.key)
                changed = True
    return out
