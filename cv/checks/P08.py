"""Every registered check is made with its own name and class and gets every callback it implements."""
import re
from ..events import Rec, arg
from ..ir import Program
from ..sets import Sets
from ..spec import show
from ..table import OPTION, registered

VISITS = {'VisitStmt': 'Option_VisitsStmts', 'VisitDecl': 'Option_VisitsDecls'}


def overrides(prog, cls):
    """CheckBase functions a class (or a base of it) overrides"""
    out = set()
    for q in [cls] + prog.bases_of(cls):
        r = prog.records.get(q)
        if q == 'CheckBase' or not r:
            continue
        for m in r['methods']:
            for o in m.get('ov', ()):
                out.add((o.split('::')[-1], q))
            if m.get('ov') and not any(o.startswith('CheckBase::') for o in m['ov']):
                out.add((m['n'], q))
    return {n: q for n, q in out}


def callbacks(res, prog, table):
    """what a class overrides is what it is registered for"""
    n = 0
    for e in table:
        ov = overrides(prog, e.cls)
        pps = sorted(x for x in ov if x.startswith('Visit') and x not in VISITS)
        for x, o in sorted(VISITS.items()):
            n += 1
            if x in ov and not e.options & OPTION(prog, o):
                res.report('registration', e.fn.name, e.where, '%s overrides %s but is registered without %s: it never runs' % (e.cls, x, o))
        n += 1
        if pps and not e.options & OPTION(prog, 'Option_PreprocessorCallbacks'):
            res.report('registration', e.fn.name, e.where, '%s overrides %s but is registered without Option_PreprocessorCallbacks: it never runs' % (e.cls, ', '.join(pps)))
        if not ({'registerASTMatchers'} | set(VISITS)) & set(ov) and not pps:
            res.report('registration', e.fn.name, e.where, '%s does not look at anything' % e.cls)
    res.need('registered_callbacks', n, 30)
    return n


def factories(res, prog, table):
    n = 0
    names = {}
    classes = {}
    for e in table:
        n += 1
        if e.name in names:
            res.report('identity', e.fn.name, e.where, 'two checks are registered as %s' % e.name)
        names[e.name] = e
        if e.cls in classes and classes[e.cls] != e.name:
            res.report('identity', e.fn.name, e.where, '%s is registered both as %s and as %s' % (e.cls, classes[e.cls], e.name))
        classes[e.cls] = e.name
        if e.made is None:
            res.report('identity', e.fn.name, e.where, 'the factory of %s does not create a new check on every path' % e.name)
        elif e.made[0] != ('str', e.name):
            res.report('identity', e.fn.name, e.where, 'the factory of %s gives the check another name' % e.name)
    # every check there is can be run
    for q in sorted(prog.derived_from('CheckBase')):
        r = prog.records[q]
        if any(q in prog.bases_of(c) for c in classes) or r.get('abstract'):
            continue
        n += 1
        if q not in classes and any(q + '::' + q.split('::')[-1] == c.split(':void')[0] for c in r.get('ctors', ())):
            res.report('identity', q, 'src/' + r['l'], 'the check %s is not registered' % q)
    # what the constructor is given reaches CheckBase
    done = set()
    for q in sorted(classes):
        for c in [q] + prog.bases_of(q):
            if c in done:
                continue
            done.add(c)
            for fn in prog.by_q.get(c + '::' + c.split('::')[-1], []):
                if not fn.blocks or c == 'CheckBase':
                    continue
                ok = False
                for b in fn.blocks.values():
                    for x in b['el']:
                        if isinstance(x, dict) and 'base' in x and x.get('i', -1) >= 0:
                            base = fn.typ(x['base']) if isinstance(x['base'], int) else x['base']
                            if not any(base.endswith(y) for y in prog.bases_of(c)):
                                continue
                            n += 1
                            args = [fn.nodes[k] for k in fn.nodes[x['i']].get('c', [])]
                            ps = [a.get('d') for a in args]
                            if base.endswith('CheckBase') and len(fn.params) >= 2:
                                ok = len(args) >= 2 and args[0]['k'] == 'DeclRefExpr' and ps[0] == fn.params[0] and args[1]['k'] == 'DeclRefExpr' and ps[1] == fn.params[1]
                                if not ok and not (len(args) >= 2 and any(a['k'] not in ('DeclRefExpr', 'StringLiteral', 'IntegerLiteral') for a in args[:2])):
                                    res.report('identity', fn.name, fn.where(x['i']), 'name or options are not passed on to CheckBase')
                            ok = True
    for fn in prog.find('CheckBase::CheckBase'):
        if len(fn.params) < 2:
            continue
        s = Rec(prog, {})
        for ret, st, _ in s.analyse(fn):
            n += 1
            for k, what in ((0, 'CheckBase::m_name'), (1, 'CheckBase::m_options')):
                if st.heap.get((('this',), what)) != arg(fn, k):
                    res.report('identity', fn.name, fn.where(fn.body), '%s is not what the constructor is given' % what)
    for q, bit in (('CheckBase::canIgnoreIncludes', ('enum', 'CheckBase::Option_CanIgnoreIncludes', 1)), ('CheckBase::name', None)):
        for fn in prog.find(q):
            s = Sets(prog)
            for ret, st, _ in s.analyse(fn):
                n += 1
                if bit is None:
                    if ret != ('fld', ('this',), 'CheckBase::m_name'):
                        res.report('identity', fn.name, fn.where(fn.body), 'the name is not the one the check was made with')
    res.need('checks_made', n, 60)


def forwarders(res, prog):
    """preprocessor callbacks reach the function of the check with the same name and the same arguments"""
    n = 0
    virt = {m['n'] for m in prog.records['CheckBase']['methods'] if m['n'].startswith('Visit') and m['n'] not in VISITS}
    hit = set()
    for m in prog.records['ClazyPreprocessorCallbacks']['methods']:
        if not m.get('ov'):
            continue
        for fn in prog.find('ClazyPreprocessorCallbacks::' + m['n']):
            s = Rec(prog, {v: 'stop' for v in virt})
            for ret, st, _ in s.analyse(fn):
                n += 1
                ev = [e for e in st.events if e[0] in virt]
                where = fn.where(fn.body)
                if [e[0] for e in ev] != ['Visit' + m['n']]:
                    res.report('forwarding', fn.name, where, '%s does not reach the check once as Visit%s' % (m['n'], m['n']), show(st.facts))
                    continue
                e = ev[0]
                hit.add(e[0])
                if e[1] != ('fld', ('this',), 'ClazyPreprocessorCallbacks::check'):
                    res.report('forwarding', fn.name, where, 'the callback goes to something else than the check')
                own = [arg(fn, k) for k in range(len(fn.params))]
                pos = []
                for a in e[2:]:
                    p = [k for k, o in enumerate(own) if a == o or o in a]
                    if not p:
                        res.report('forwarding', fn.name, where, 'an argument of Visit%s is not one of the callback' % m['n'])
                    pos += p[:1]
                # the order of the arguments of the same type is kept
                for x in range(len(pos)):
                    for y in range(x + 1, len(pos)):
                        t = [fn.typ(fn.tu.decls[fn.params[z]].get('t', -1)) for z in (pos[x], pos[y])]
                        if t[0] == t[1] and pos[x] >= pos[y]:
                            res.report('forwarding', fn.name, where, 'arguments of %s are mixed up' % m['n'])
    for v in sorted(virt - hit):
        res.report('forwarding', 'ClazyPreprocessorCallbacks', 'src/' + prog.records['ClazyPreprocessorCallbacks']['l'], '%s is never called' % v)
    for fn in prog.find('CheckBase::enablePreProcessorCallbacks'):
        s = Rec(prog, {'addPPCallbacks': 'stop'})
        for ret, st, _ in s.analyse(fn):
            n += 1
            if not any(e[0] == 'addPPCallbacks' and e[1] == arg(fn, 0) and 'CheckBase::m_preprocessorCallbacks' in str(e[2:]) for e in st.events):
                res.report('forwarding', fn.name, fn.where(fn.body), 'the callbacks of the check are not added to the preprocessor', show(st.facts))
    res.need('forwarding_paths', n, 8)


SUB = {'Stmt': {'*'}, 'Expr': {'*'}, 'Decl': {'*'}, 'CallExpr': {'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CUDAKernelCallExpr', 'UserDefinedLiteral'}, 'CXXConstructExpr': {'CXXTemporaryObjectExpr'},
       'NamedDecl': {'*'}, 'ValueDecl': {'VarDecl', 'FieldDecl', 'FunctionDecl', 'CXXMethodDecl', 'ParmVarDecl'}, 'FunctionDecl': {'CXXMethodDecl', 'CXXConstructorDecl'}, 'VarDecl': {'ParmVarDecl'}, 'RecordDecl': {'CXXRecordDecl'}}


def related(a, b):
    return a == b or any(y in SUB.get(x, ()) or '*' in SUB.get(x, ()) for x, y in ((a, b), (b, a)))


def matchers(res, prog, table):
    """the names a match callback asks for are bound by the matchers of its check, to nodes of that kind"""
    strs = Sets(prog).strings()
    bound, asked, adds = {}, {}, {}

    def text(fn, i):
        n = fn.nodes[i]
        if n['k'] == 'StringLiteral':
            return n['v']
        if n['k'] == 'DeclRefExpr' and fn.decl(n).get('q') in strs:
            return strs[fn.decl(n)['q']]
        for j in n.get('c', []):
            t = text(fn, j)
            if t is not None:
                return t
        return None

    n = 0
    for fn in prog.funcs.values():
        for i, x in enumerate(fn.nodes):
            if not x or x['k'] not in ('CXXMemberCallExpr', 'CallExpr'):
                continue
            d = fn.decl(x) or {}
            if d.get('n') == 'bind' and 'ast_matchers' in d.get('q', ''):
                t = text(fn, x['c'][0]) if x.get('c') else None
                o = fn.nodes[x['o']]
                q = (fn.decl(o) or {}).get('q', '')
                kinds = re.findall(r'Matcher<clang::(\w+)>', q)
                bound.setdefault(fn.file, {}).setdefault(t, set()).add(kinds[-1] if kinds else None)
            if d.get('n') == 'getNodeAs' and 'ast_matchers' in d.get('q', ''):
                t = text(fn, x['c'][0]) if x.get('c') else None
                k = re.search(r'getNodeAs<(?:const )?clang::(\w+)', d.get('key', ''))
                asked.setdefault(fn.file, []).append((fn, i, t, k.group(1) if k else None))
    for f, qs in sorted(asked.items()):
        stem = f.rsplit('.', 1)[0]
        mine = {}
        for g, b in bound.items():
            if g.rsplit('.', 1)[0] == stem:
                for t, ks in b.items():
                    mine.setdefault(t, set()).update(ks)
        if None in mine:
            continue       # a name that is made up at run time
        for fn, i, t, k in qs:
            n += 1
            if t is None:
                continue
            if t not in mine:
                res.report('matchers', fn.name, fn.where(i), 'asks for the node "%s" that no matcher of the check binds' % t)
            elif k and None not in mine[t] and not any(related(k, b) for b in mine[t]):
                res.report('matchers', fn.name, fn.where(i), 'asks for "%s" as %s, which is bound to %s' % (t, k, ', '.join(sorted(mine[t]))))
    for e in table:
        ov = overrides(prog, e.cls)
        if 'registerASTMatchers' not in ov:
            continue
        for fn in prog.find(ov['registerASTMatchers'] + '::registerASTMatchers'):
            s = Rec(prog, {'addMatcher': 'stop', 'addDynamicMatcher': 'stop'})
            for ret, st, _ in s.analyse(fn):
                n += 1
                ev = [x for x in st.events if x[0] in ('addMatcher', 'addDynamicMatcher')]
                if not ev:
                    res.report('matchers', fn.name, fn.where(fn.body), 'a path registers no matcher', show(st.facts))
                for x in ev:
                    if x[1] != arg(fn, 0):
                        res.report('matchers', fn.name, fn.where(fn.body), 'a matcher is added to another finder than the one given')
    res.need('matcher_obligations', n, 4)


def check(res, thorough):
    prog = Program()
    table, _ = registered(prog)
    res.need('registrations', len(table), 50)
    callbacks(res, prog, table)
    factories(res, prog, table)
    forwarders(res, prog)
    matchers(res, prog, table)
