"""Effect and dependence analysis of everything that outlives a translation unit. Every variable with static storage
duration (namespace scope, class static, function-local static, thread-local) and every field of a process-lifetime
object is enumerated together with every write to it (followed through references, iterators, reference-returning
functions and reference parameters). A violation is: an initialiser or stored value that depends on the current call
(a parameter, `this`, a value computed from either), a counter or flag, an accumulator that the same object's destructor
does not undo, a field of the process-wide check registry written after its construction, or a check/front-end object
that is handed out for more than one translation unit."""
from ..effects import Effects, SYNC_TYPES
from ..extract import AnalysisBroken
from ..ir import Program
from ..terms import term

SCALARS = ('bool', 'int', 'unsigned int', 'long', 'unsigned long', 'char', 'short', 'float', 'double', 'long long', 'unsigned long long', 'unsigned char')


def bare(t):
    return t.replace('const ', '').replace('volatile ', '').strip()


class Slice:
    """backward slice of a value inside a function, down to what it is made of"""

    def __init__(self, prog, eff, process_classes):
        self.prog = prog
        self.eff = eff
        self.pc = process_classes

    def tainted(self, fn, i, skip=None, seen=None):
        """why the value of node i depends on the current call, or None"""
        if seen is None:
            seen = set()
        for j in fn.walk(i):
            if (fn.key, j) in seen:
                continue
            seen.add((fn.key, j))
            n = fn.nodes[j]
            k = n['k']
            if k == 'CXXThisExpr':
                if (fn.cls or '') in self.pc or fn.lambda_ and any(p in fn.q for p in self.pc):
                    continue
                return 'the current object'
            if k == 'LambdaExpr':
                g = self.prog.funcs.get((fn.decl(n.get('fn', -1)) or {}).get('key'))
                for cp in n.get('caps', ()):
                    if cp.get('this') and (fn.cls or '') not in self.pc:
                        return 'the current object'
                    if cp.get('d') is not None and not cp.get('this'):
                        w = self.var(fn, cp['d'], skip, seen)
                        if w:
                            return w
                continue
            if k == 'DeclRefExpr':
                w = self.var(fn, n['d'], skip, seen)
                if w:
                    return w
        return None

    def var(self, fn, v, skip, seen):
        d = fn.tu.decls[v]
        if v in (skip or ()):
            return None
        if d['k'] == 'ParmVar':
            if v in fn.params:
                return "parameter '%s'" % d.get('n')
            return None                       # parameter of a nested lambda
        if d['k'] not in ('Var', 'Binding', 'Decomposition'):
            return None
        if d.get('gl') or d.get('sl'):
            return None                       # an obligation of its own
        if ('v', fn.key, v) in seen:
            return None
        seen.add(('v', fn.key, v))
        ini = fn.local_init(v)
        if ini is not None and ini >= 0:
            w = self.tainted(fn, ini, skip, seen)
            if w:
                return w
        for n in fn.nodes:
            if n is None:
                continue
            if n['k'] == 'CXXForRangeStmt':
                vs = [n.get('var')]
                if n.get('vstmt', -1) >= 0:
                    vs += [b[0] for b in fn.nodes[n['vstmt']].get('bind', ())]
                if v in vs and n.get('range', -1) >= 0:
                    w = self.tainted(fn, n['range'], skip, seen)
                    if w:
                        return w
        for f2, j in self.eff.ref_index.get((id(fn.tu), v), ()):
            for g, site, how in self.eff.writes(f2, j, False, set()):
                for a in self.values_of(g, site):
                    if g.key == fn.key:
                        w = self.tainted(g, a, (skip or ()) + (v,), seen)
                        if w:
                            return w
        return None

    @staticmethod
    def values_of(fn, site):
        """expressions that flow into the object at a write site"""
        n = fn.nodes[site]
        c = n.get('c', [])
        if n['k'] in ('BinaryOperator', 'CompoundAssignOperator'):
            return [c[1]]
        if n['k'] == 'CXXOperatorCallExpr':
            return c[1:]
        return list(c)


def control_deps(fn, block):
    """conditions that decide whether `block` is executed"""
    blocks = fn.blocks

    def reach(s, avoid=None):
        seen, w = set(), [s]
        while w:
            b = w.pop()
            if b in seen or b < 0:
                continue
            seen.add(b)
            w.extend(x for x in blocks[b]['su'])
        return seen
    out = []
    for b, blk in blocks.items():
        if blk.get('tc', -1) >= 0 and len(blk['su']) == 2:
            r = [block in reach(s) if s >= 0 else False for s in blk['su']]
            if r[0] != r[1]:
                out.append(blk['tc'])
    return out


def block_of(fn, i):
    for b, blk in fn.blocks.items():
        if i in [e for e in blk['el'] if not isinstance(e, dict)]:
            return b
    return None


def check(res, thorough):
    prog = Program()
    eff = Effects(prog)
    eff.pointee = True
    # classes with a process-lifetime instance
    process = set()
    for (q, l), g in prog.globals.items():
        t = bare(g['tu'].types[g['t']])
        if t in prog.records and not g['const']:
            process.add(t)
    sl = Slice(prog, eff, process)
    nstat = nwrite = 0
    for (q, l), g in sorted(prog.globals.items()):
        tu = g['tu']
        t = tu.types[g['t']]
        nstat += 1
        name = q.split('::')[-1]
        owner = tu.decls[g['in']]['q'] if g.get('in') is not None and g['in'] >= 0 else 'namespace scope'
        where = 'src/' + ':'.join(l.split(':')[:2])
        if bare(t).startswith(SYNC_TYPES) or bare(t).startswith(('llvm::cl::', 'llvm::Registry<')):
            continue
        # initialiser of a function-local static: runs in the first call only
        if g.get('sl') and g.get('in') is not None and g['in'] >= 0:
            key = tu.decls[g['in']].get('key')
            fns = [f for f in prog.funcs.values() if f.key == key or f.tu is tu and f.line <= int(l.split(':')[1]) and any(x[0] == g['d'] for n in f.nodes if n for x in n.get('vars', ()))]
            for fn in fns:
                if fn.tu is not tu:
                    # same function, other unit: find the static by location
                    ids = [x for n in fn.nodes if n for x in n.get('vars', ()) if fn.tu.decls[x[0]].get('l') == l]
                else:
                    ids = [x for n in fn.nodes if n for x in n.get('vars', ()) if x[0] == g['d']]
                for v, ini in ids:
                    if ini >= 0:
                        w = sl.tainted(fn, ini)
                        if w:
                            res.report('static-initialised-from-call', fn.name, where, "static '%s' keeps for the whole process a value computed from %s of its first call" % (name, w))
        if g['const']:
            continue
        ws = []
        for fn, i in eff.glob_index.get((q, l), ()):
            for w in eff.writes(fn, i):
                if w not in ws:
                    ws.append(w)
        nwrite += len(ws)
        if bare(t) in prog.records:
            continue                     # fields are examined below
        if not ws:
            continue
        if is_registry(prog, eff, ws):
            for v in unbalanced(prog, eff, sl, q, ws):
                res.report('registry-not-restored', v[0].name, v[0].where(v[1]), "'%s' keeps an entry of the object that added it: %s" % (name, v[2]))
            continue
        if bare(t) == 'clang::tooling::TranslationUnitDiagnostics':
            tudiag(res, prog, eff, ws, name)
            continue
        seen = set()
        for fn, site, how in ws:
            if (fn.key, site) in seen:
                continue
            seen.add((fn.key, site))
            if bare(t) in SCALARS or bare(t).endswith('*'):
                res.report('mutable-static', fn.name, fn.where(site), "'%s' (%s, static in %s) is %s here and keeps that value for the next translation unit" % (name, bare(t), owner, how))
                continue
            if fn.q != owner and not fn.lambda_ and owner == 'namespace scope':
                res.report('mutable-static', fn.name, fn.where(site), "'%s' (static) is %s here and keeps that value for the next translation unit" % (name, how))
                continue
            for a in Slice.values_of(fn, site):
                w = sl.tainted(fn, a)
                if w:
                    res.report('mutable-static', fn.name, fn.where(site), "'%s' (static in %s) is %s with a value computed from %s" % (name, owner, how, w))
                    break
            else:
                if not memo_guarded(fn, site, q):
                    res.report('mutable-static', fn.name, fn.where(site), "'%s' (static in %s) is %s on every call: its content depends on how often the function ran" % (name, owner, how))
    res.need('static_objects', nstat, 60)
    res.coverage['writes_to_static_objects'] = nwrite

    # fields of process-lifetime objects
    nf = 0
    for cls in sorted(process):
        r = prog.records[cls]
        for f in r['fields']:
            nf += 1
            fq = cls + '::' + f['n']
            for fn, i in eff.field_index.get(fq, ()):
                for g, site, how in eff.writes(fn, i):
                    if not only_from_ctor(prog, eff, g, cls):
                        res.report('process-object-modified', g.name, g.where(site), "'%s' of the process-wide %s is %s outside its construction" % (f['n'], cls, how))
    res.need('process_objects', len(process), 1)
    res.coverage['process_object_fields'] = nf

    # objects created anew for each translation unit
    made = 0
    for fn in prog.funcs.values():
        rt = fn_type(fn)
        if fn.lambda_ and rt_is_check(prog, fn):
            made += fresh(res, prog, fn, 'a check')
        elif fn.q.endswith('::create') and any('FrontendActionFactory' in b for b in prog.bases_of(fn.cls or '')):
            made += fresh(res, prog, fn, 'the front-end action')
    res.need('per_unit_object_factories', made, 60)
    res.assumptions += ['Environment variables and command-line options do not change while the process runs.',
                        'The accumulated fix-it document of clazy-standalone is shared between translation units by design; it is reset for the compiler plugin.']


def fn_type(fn):
    return fn.key


def rt_is_check(prog, fn):
    for n in fn.nodes:
        if n and n['k'] == 'ReturnStmt' and n.get('c'):
            t = fn.type(n['c'][0])
            t = t.rstrip('* ').strip()
            if t == 'CheckBase' or 'CheckBase' in prog.bases_of(t):
                return fn.file.endswith(('Checks.h', 'checkmanager.cpp', 'checkmanager.h'))
    return False


def fresh(res, prog, fn, what, depth=0):
    for i, n in enumerate(fn.nodes):
        if n and n['k'] == 'ReturnStmt' and n.get('c'):
            if not is_fresh(prog, fn, n['c'][0]):
                res.report('shared-object', fn.name, fn.where(i), '%s is not created anew for each translation unit' % what)
    return 1


def is_fresh(prog, fn, i, depth=0):
    if i < 0 or depth > 10:
        return False
    n = fn.nodes[i]
    k = n['k']
    c = n.get('c', [])
    if k == 'CXXNewExpr' or k == 'CXXNullPtrLiteralExpr':
        return True
    if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and len(c) >= 1:
        return is_fresh(prog, fn, c[0], depth + 1)
    if k == 'ConditionalOperator':
        return is_fresh(prog, fn, c[1], depth + 1) and is_fresh(prog, fn, c[2], depth + 1)
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
        d = fn.decl(n) or {}
        if d.get('n') in ('make_unique', 'make_shared'):
            return True
        if d.get('n') in ('move', 'forward', 'release', 'get') and (c or n.get('o', -1) >= 0):
            return is_fresh(prog, fn, c[0] if c else n['o'], depth + 1)
        g = prog.funcs.get(d.get('key'))
        if g:
            rs = [m['c'][0] for m in g.nodes if m and m['k'] == 'ReturnStmt' and m.get('c')]
            return bool(rs) and all(is_fresh(prog, g, r, depth + 1) for r in rs)
        return False
    if k == 'DeclRefExpr':
        d = fn.decl(n)
        if d and not d.get('sl') and not d.get('gl') and d['k'] == 'Var':
            ini = fn.local_init(n['d'])
            return ini >= 0 and is_fresh(prog, fn, ini, depth + 1)
    return False


def only_from_ctor(prog, eff, fn, cls):
    """can the function run only during the construction of cls?"""
    seen, work = set(), [fn.key]
    short = cls.split('::')[-1]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        f = prog.funcs.get(k)
        if f and f.cls == cls and f.q.split('::')[-1] in (short, '~' + short):
            continue
        if f and f.lambda_:
            # runs where it is created
            own = [g for g in prog.funcs.values() if any(n and n['k'] == 'LambdaExpr' and (g.decl(n.get('fn', -1)) or {}).get('key') == k for n in g.nodes)]
            work += [g.key for g in own]
            continue
        cs = eff.callers.get(k, ())
        if not cs and (not f or f.cls != cls):
            return False
        work += [g.key for g, _ in cs]
    return True


def is_registry(prog, eff, ws):
    """modified only by the constructors and the destructor of one class"""
    cl = {fn.cls for fn, _, _ in ws}
    if len(cl) != 1 or None in cl:
        return False
    c = cl.pop()
    short = c.split('::')[-1]
    return all(only_from_ctor(prog, eff, fn, c) for fn, _, _ in ws) and any(fn.q.split('::')[-1] == '~' + short or True for fn, _, _ in ws) \
        and any(fn.q.split('::')[-1] == short for fn, _, _ in ws)


REMOVERS = {'erase', 'clear', 'pop_back', 'remove', 'erase_if', 'extract', 'resize', 'swap'}


def unbalanced(prog, eff, sl, q, ws):
    adds = [(f, s, h) for f, s, h in ws if '~' not in f.q.split('::')[-1]]
    rem = [(f, s, h) for f, s, h in ws if '~' in f.q.split('::')[-1] and any(r in h for r in REMOVERS)]
    if not adds:
        return []
    if not rem:
        return [(adds[0][0], adds[0][1], 'its destructor does not remove it')]
    out = []
    for f, s, h in rem:
        b = block_of(f, s)
        if b is None:
            continue
        bad = []
        for cond in control_deps(f, b):
            if not mentions_object(f, cond, q):
                bad.append(cond)
        if bad and not any(f2.key == f.key and s2 != s for f2, s2, _ in rem):
            out.append((f, s, "removed only if '%s'" % f.text(bad[0])))
    return out


def mentions_object(fn, i, q, seen=None):
    """does the condition test the object itself (or an iterator into it)?"""
    seen = seen if seen is not None else set()
    for j in fn.walk(i):
        n = fn.nodes[j]
        if n['k'] == 'DeclRefExpr':
            d = fn.decl(n)
            if d and d['q'] == q:
                return True
            if d and n['d'] not in seen and d['k'] == 'Var':
                seen.add(n['d'])
                ini = fn.local_init(n['d'])
                if ini >= 0 and mentions_object(fn, ini, q, seen):
                    return True
    return False


def memo_guarded(fn, site, q):
    """the write only happens while the object is still empty, or replaces all of it"""
    n = fn.nodes[site]
    if n['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and n.get('op') == '=' and term(fn, n['c'][0]) == ('g', q):
        return True
    b = block_of(fn, site)
    if b is None:
        return False
    deps = control_deps(fn, b)
    return any(mentions_object(fn, c, q) for c in deps) or any(tests_static(fn, c) for c in deps)


def tests_static(fn, i):
    """several caches filled together are guarded by one of them"""
    return any(fn.nodes[j]['k'] == 'DeclRefExpr' and (fn.decl(fn.nodes[j]) or {}).get('sl') for j in fn.walk(i))


def tudiag(res, prog, eff, ws, name):
    """the fix-it document: shared between the units of the standalone tool only"""
    ctor = [(f, s, h) for f, s, h in ws if 'clear' in h and f.cls and f.q.split('::')[-1] == f.cls.split('::')[-1]]
    adds = [(f, s, h) for f, s, h in ws if 'push_back' in h or 'emplace_back' in h]
    if not adds:
        raise AnalysisBroken('nothing is recorded in the fix-it document')
    # every other constructor path must be the standalone one
    if not ctor:
        res.report('mutable-static', adds[0][0].name, adds[0][0].where(adds[0][1]), "'%s' is never reset: the file exported for one translation unit contains the diagnostics of those compiled before it" % name)
        return
    for f, s, h in ctor:
        b = block_of(f, s)
        for cond in control_deps(f, b):
            t = f.text(cond)
            par = [j for j in f.walk(cond) if f.nodes[j]['k'] == 'DeclRefExpr' and (f.decl(f.nodes[j]) or {}).get('k') == 'ParmVar' and f.type(j) == 'bool']
            if not par:
                res.report('mutable-static', f.name, f.where(s), "'%s' is reset only if '%s'" % (name, t))
