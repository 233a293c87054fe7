"""Abstract interpretation of the front ends and of the construction of the context: for every path, the option bits that
are set and the value in each slot are traced from the command line, the plugin arguments and the environment to the field of the
context that the rest of clazy consults, and compared with the specification."""
from ..events import Rec, always, arg, exhausted, fld, foreach, has_event, is_fld, iterations, same_element
from ..extract import AnalysisBroken
from ..ir import Program
from ..spec import ANY, And, Atom, Exists, Not, Or, Spec, call, decision, elem, eqp, match, show
from .P12 import bit

C = 'ClazyContext::'
FLAGS = {'only-qt': 'ClazyOption_OnlyQt', 'qt-developer': 'ClazyOption_QtDeveloper', 'visit-implicit-code': 'ClazyOption_VisitImplicitCode', 'ignore-included-files': 'ClazyOption_IgnoreIncludedFiles'}
EXPORT = 'ClazyOption_ExportFixes'


def cl_options(prog):
    """name on the command line -> global variable"""
    out = {}
    for (q, l), g in prog.globals.items():
        t = g['tu'].types[g['t']]
        if not t.startswith('llvm::cl::opt<'):
            continue
        r = g['nodes'][g['init']] if g.get('init', -1) >= 0 else None
        first = g['nodes'][r['c'][0]] if r and r.get('c') else None
        while first and first['k'] != 'StringLiteral' and first.get('c'):
            first = g['nodes'][first['c'][0]]
        if first and first['k'] == 'StringLiteral':
            out.setdefault(first['v'], []).append(q)
    return out


def bits(v):
    """names of the enumerators or'ed together, or None if something unknown is among them"""
    if v[0] == 'enum':
        return {v[1].split('::')[-1]} if v[2] else set()
    if v[0] == 'int':
        return set() if v[1] == 0 else None
    if v[0] == 'bor':
        out = set()
        for x in v[1:]:
            b = bits(x)
            if b is None:
                return None
            out |= b
        return out
    return None


def context_ctor(res, prog):
    """what the constructor of the context does with each parameter: role -> parameter index"""
    fns = [f for f in prog.find('ClazyContext::ClazyContext') if len(f.params) > 4]
    if len(fns) != 1:
        raise AnalysisBroken('constructor of the context not found')
    fn = fns[0]
    roles = {}
    n = 0

    class S(Rec):
        def on_new(self, fr, st, i):
            c = fr.fn.nodes[i].get('c')
            if fr.fn.typ(fr.fn.nodes[i].get('at', -1)) == 'llvm::Regex' and c:
                return self.val(fr, st, c[-1])

        def on_call(self, f, i, d, obj, args, st):
            nm = d.get('n')
            if nm in ('make_unique', 'Regex') and ('llvm::Regex' in f.type(i)):
                return ('val', ('regex',) + tuple(args))
            if f.nodes[i]['k'] == 'CXXNewExpr':
                return None
            if d.get('q') == 'FixItExporter::FixItExporter':
                st.event(('exporter',) + tuple(args))
                return ('val', ('exporter',))
            if d.get('key') in self.prog.funcs and d.get('cls') in (None, '') and 'LineFilterEntry' in f.type(i):
                return ('val', ('parsed',) + tuple(args))
            return None

    sp = S(prog, {}, ('CheckManager::checksAsErrors', 'CheckManager::CheckManager', 'clazy::splitString'))
    outs = sp.analyse(fn)
    ps = [arg(fn, k) for k in range(len(fn.params))]
    t = ('this',)

    def final(st, q):
        return st.heap.get((t, C + q))
    for q, make in (('headerFilterRegex', 'regex'), ('ignoreDirsRegex', 'regex'), ('m_lineFilter', 'parsed')):
        srcs = {v[1] for _, st, _ in outs for v in [final(st, q)] if v and v[0] == make and len(v) > 1}
        if not srcs:
            res.report('context', fn.name, fn.where(fn.body), '%s is never set up' % q)
            continue
        if len(srcs) > 1 or next(iter(srcs)) not in ps:
            res.report('context', fn.name, fn.where(fn.body), '%s is not set up from a parameter as it was given' % q)
            continue
        src = next(iter(srcs))
        roles[q] = ps.index(src)
        for _, st, _ in outs:
            n += 1
            v = final(st, q)
            have = v is not None and v[0] == make
            if have and len(v) > 2 and not all(x in (('int', 0), ('none',)) or x[0] == 'enum' and x[2] == 0 for x in v[2:]):
                res.report('context', fn.name, fn.where(fn.body), '%s is set up with flags' % q)
            e = st.facts.get(('empty', src))
            if e is None:
                if not have:
                    res.report('context', fn.name, fn.where(fn.body), '%s is not set up on a path that has not found the filter empty' % q, show(st.facts))
            elif e == have:
                res.report('context', fn.name, fn.where(fn.body), '%s is %s though the filter is %s' % (q, 'set up' if have else 'not set up', 'empty' if e else 'not empty'), show(st.facts))
    for q in ('options', 'm_isClangTidy', 'astContext', 'm_translationUnitPaths', 'm_pp', 'sm', 'lo'):
        vs = {final(st, q) for _, st, _ in outs}
        if len(vs) == 1 and next(iter(vs)) in ps:
            roles[q] = ps.index(next(iter(vs)))
        else:
            res.report('context', fn.name, fn.where(fn.body), '%s is not what the front end passed in' % q)
    for _, st, _ in outs:
        v = final(st, 'extraOptions')
        if not match(call('clazy::splitString', call('getenv', ('str', 'CLAZY_EXTRA_OPTIONS')), ('int', 44)), v or ('none',)):
            res.report('context', fn.name, fn.where(fn.body), 'the extra options are not the comma separated entries of CLAZY_EXTRA_OPTIONS')
        w = final(st, 'm_noWerror')
        if w is None or not match(('nn', call('getenv', ('str', 'CLAZY_NO_WERROR'))), w):
            res.report('context', fn.name, fn.where(fn.body), 'whether -Werror is ignored is not whether CLAZY_NO_WERROR is set')
        if not match(lambda x: x[0] == 'call' and x[1] == 'CheckManager::checksAsErrors', final(st, 'm_checksPromotedToErrors') or ('none',)):
            res.report('context', fn.name, fn.where(fn.body), 'the checks that are errors are not those of the check manager')
    # reporter
    rs = {v for _, st, _ in outs for v in [final(st, 'p_warningReporter')]}
    for v in rs:
        if v and v[0] == 'value_or' and v[1] in ps:
            roles['reporter'] = ps.index(v[1])
    if 'reporter' not in roles:
        for k, p in enumerate(ps):
            if any(v == p for v in rs if v):
                roles['reporter'] = k
    if 'reporter' not in roles:
        res.report('context', fn.name, fn.where(fn.body), 'the reporter that the front end passed in is not used')
    # exporter
    on = bit(EXPORT)
    ctx = Atom('an AST context', ('nn', ps[roles.get('astContext', 0)]))
    names = {e[4] for _, st, _ in outs for e in st.events if e[0] == 'exporter' and len(e) > 4}
    for _, st, _ in outs:
        n += 1
        has = any(e[0] == 'exporter' for e in st.events)
        want = And(on, ctx).ev(st.facts)
        given = [p for p in ps if st.facts.get(('empty', p)) is False and fn.params and 'ilename' in p[1]]
        if has and want is not True:
            res.report('exporter', fn.name, fn.where(fn.body), 'fix-its are exported though that was not asked for', show(st.facts))
        if not has and want is not False:
            nofile = [k for k, tv in st.facts.items() if not tv and k[0] == 'nn' and k[1][:2] == ('call', 'clang::SourceManager::getFileEntryRefForID')]
            if not nofile:
                res.report('exporter', fn.name, fn.where(fn.body), 'fix-its are not exported though the option is set and there is a file to name the export after', show(st.facts))
        if has and not any(k[1] == C + 'exporter' and v[0] in ('new', 'exporter') for k, v in st.heap.items()):
            res.report('exporter', fn.name, fn.where(fn.body), 'the exporter is created but not kept', show(st.facts))
        for e in st.events:
            if e[0] == 'exporter':
                f = e[4]
                if f in ps:
                    roles['exportFile'] = ps.index(f)
                    if st.facts.get(('empty', f)) is True:
                        res.report('exporter', fn.name, fn.where(fn.body), 'fix-its are exported to a file without a name', show(st.facts))
                elif not (f[0] == 'cat' and f[-1] == ('str', '.clazy.yaml') and any(mentions_call(x, 'getFileEntryRefForID') for x in f[1:])):
                    res.report('exporter', fn.name, fn.where(fn.body), 'the default name of the export is not the name of the main file followed by .clazy.yaml', show(st.facts))
                elif not any(k[0] == 'empty' and tv and k[1] in ps for k, tv in st.facts.items()):
                    res.report('exporter', fn.name, fn.where(fn.body), 'the name given for the export is not used', show(st.facts))
    if 'exportFile' not in roles:
        res.report('exporter', fn.name, fn.where(fn.body), 'no file name given by the front end is used for the export')
    res.need('context_construction_paths', n, 4)
    return roles, fn


def mentions_call(v, name):
    if isinstance(v, tuple):
        if len(v) > 1 and v[0] == 'call' and str(v[1]).endswith(name):
            return True
        return any(mentions_call(x, name) for x in v)
    return False


def line_filter(res, prog):
    fns = [f for f in prog.funcs.values() if 'LineFilterEntry' in f.typ(f.o.get('rt', -1)) or f.q.endswith('parseLineFilter')]
    n = 0
    for fn in fns:
        text = arg(fn, 0)
        rec = Rec(prog, {})
        pushed = []

        def on_call(f, i, d, obj, args, st, rec=rec):
            if d.get('n') in ('push_back', 'emplace_back') and d.get('q', '').startswith('std::vector'):
                a = tuple(args)
                ends = tuple(st.heap.get((a[0], 'ClazyContext::LineRange::' + x)) for x in ('start', 'end')) if len(a) == 1 else ()
                if len(ends) == 2 and all(ends):
                    a = (('list',) + ends,)
                st.event(('push', f.type(f.nodes[i]['o']) if f.nodes[i].get('o', -1) >= 0 else '', a, st.heap.get((args[0], 'ClazyContext::LineFilterEntry::fileName')) if args else None))
            return None
        rec.on_call = on_call
        outs = rec.analyse(fn)
        files = lambda v: v[0] == 'call' and v[1] == 'llvm::json::Value::getAsArray' and v[2][0] == 'call' and v[2][1] == 'llvm::json::parse' and v[2][2] == text
        parsed = And(Atom('valid JSON', ('nn', call('llvm::json::parse', text))), Atom('an array', ('nn', files)))
        obj = lambda v: v[0] == 'call' and v[1] == 'llvm::json::Value::getAsObject' and v[2][0] in ('it', 'at') and match(files, v[2][1])
        name = lambda v: v[0] == 'call' and v[1] == 'llvm::json::Object::getString' and match(obj, v[2]) and v[3] == ('str', 'name')
        named = And(Atom('an object', ('nn', obj)), Atom('has a name', ('nn', name)))
        n += foreach(res, 'line-filter', fn, rec, outs, files, parsed, named, lambda e: (lambda v: v[0] == 'push' and 'LineFilterEntry' in v[1] and (v[3] is None or match(name, v[3])),), 'an entry of the line filter is recorded')
        lines = lambda v: v[0] == 'call' and v[1] == 'llvm::json::Object::getArray' and match(obj, v[2]) and v[3] == ('str', 'lines')
        for f, i, e, facts, ev, heap in iterations(rec, files):
            if named.ev(facts) is True and any(match(lines, k[1]) and t for k, t in facts.items() if k[0] == 'nn') and not exhausted(lines, facts):
                res.report('line-filter', fn.name, f.where(i), 'some of the ranges of lines of an entry are not gone through', show(facts))
            for v in ev:
                if v[0] == 'push' and 'LineFilterEntry' in v[1] and not (v[3] is not None and match(name, v[3]) or v[2] and any(match(name, x) for x in v[2][0][1:] if isinstance(x, tuple))):
                    res.report('line-filter', fn.name, f.where(i), 'an entry is recorded under something else than its name', show(facts))
        rng = lambda v: v[0] == 'call' and v[1] == 'llvm::json::Value::getAsArray' and v[2][0] in ('it', 'at') and match(lines, v[2][1])
        num = lambda k: (lambda v: v[0] == 'call' and v[1] == 'llvm::json::Value::getAsInteger' and v[2][0] == 'at' and match(rng, v[2][1]) and v[2][2] == ('int', k) or v[0] == 'call' and v[1] == 'llvm::json::Value::getAsInteger' and v[2][0] == 'call' and str(v[2][1]).endswith(('::front', '::back')[k]) and match(rng, v[2][2]))
        body = And(Atom('a list', ('nn', rng)), Atom('of two', eqp(('int', 2), ('size', rng))), Atom('the first a number', ('nn', num(0))), Atom('the second a number', ('nn', num(1))))
        n += foreach(res, 'line-filter', fn, rec, [], lines, None, body, lambda e: (lambda v: v[0] == 'push' and 'LineRange' in v[1] and len(v[2]) == 1 and v[2][0][0] in ('list', 'ctor') and len(v[2][0]) > 2 and match(num(0), v[2][0][-2]) and match(num(1), v[2][0][-1]),), 'a range of lines is recorded with its two ends')
        seen = [1 for _ in iterations(rec, lines)]
        if not seen:
            res.report('line-filter', fn.name, fn.where(fn.body), 'the ranges of lines of an entry are not gone through')
    res.need('line_filter_paths_and_iterations', n, 4)


def standalone(res, prog, roles, ctor):
    names = cl_options(prog)
    res.need('command_line_options', len(names), 8)
    n = 0
    fn = prog.one('ClazyToolActionFactory::create')

    class S(Spec):
        def on_call(self, f, i, d, obj, args, st):
            if d.get('n') == 'make_unique' and 'ClazyStandaloneASTAction' in f.type(i) or d.get('q') == 'ClazyStandaloneASTAction::ClazyStandaloneASTAction':
                st.event(('make',) + tuple(args))
                return ('val', ('action',))
            return None
    sp = S(prog)
    outs = sp.analyse(fn)
    act = [f for f in prog.find('ClazyStandaloneASTAction::ClazyStandaloneASTAction') if len(f.params) > 3]
    if len(act) != 1:
        raise AnalysisBroken('constructor of the standalone action not found')
    act = act[0]
    ps = [arg(act, k) for k in range(len(act.params))]

    # fields of the action -> what they get from the parameters
    aouts = Spec(prog).analyse(act)
    fields = {}
    for _, st, _ in aouts:
        for (o, q), v in st.heap.items():
            if o == ('this',):
                fields.setdefault(q, []).append((st.facts, v))
    DEFAULT = {}
    plain = {}
    for q, vs in fields.items():
        used = {v for _, v in vs}
        par = [v for v in used if v in ps]
        if len(par) != 1:
            continue
        p = par[0]
        plain[q] = ps.index(p)
        for facts, v in vs:
            n += 1
            if v == p:
                if len(used) > 1 and facts.get(('empty', p)) is not False:
                    res.report('standalone', act.name, act.where(act.body), 'an empty argument hides the default', show(facts))
                continue
            if facts.get(('empty', p)) is not True:
                res.report('standalone', act.name, act.where(act.body), 'the argument %s is replaced though it is not empty' % p[1], show(facts))
            DEFAULT.setdefault(q, set()).add(v)

    # field of the action -> slot of the context
    cons = prog.one('ClazyStandaloneASTAction::CreateASTConsumer')

    class K(Spec):
        def on_call(self, f, i, d, obj, args, st):
            if d.get('q') == 'ClazyContext::ClazyContext':
                st.event(('context',) + tuple(args))
                return ('val', ('ctx',))
            if d.get('q') == 'CheckManager::requestedChecks':
                st.event(('requested',) + tuple(args))
            if d.get('n') in ('factory', 'addCheck', 'enablePreProcessorCallbacks'):
                return ('val', ('void',))
            return None
    couts = K(prog, ('CheckManager::requestedChecks', 'CheckManager::CheckManager', 'clazy::VisitHelper::shouldCheckFile', 'ClazyContext::registerPreprocessorCallbacks')).analyse(cons)
    ctx = {e[1:] for _, st, _ in couts for e in st.events if e[0] == 'context'}
    req = {e[1] for _, st, _ in couts for e in st.events if e[0] == 'requested'}
    if not ctx:
        raise AnalysisBroken('the standalone action creates no context')
    opt = lambda name: names.get(name, ['?'])[0]

    def field_of(name):
        """fields of the action that hold the option"""
        out = set()
        for _, st, _ in outs:
            for e in st.events:
                for k, v in enumerate(e[1:]):
                    if v == ('glob', opt(name)):
                        out |= {q for q, kk in plain.items() if kk == k}
        return out

    def slot(role, v, what, env=None):
        nonlocal n
        for a in ctx:
            n += 1
            if role not in roles or roles[role] >= len(a):
                return
            got = a[roles[role]]
            if not (got[0] == 'fld' and got[1] == ('this',) and got[2] in v):
                res.report('standalone', cons.name, cons.where(cons.body), 'the context does not get %s of the command line' % what)
    for name, role in (('header-filter', 'headerFilterRegex'), ('ignore-dirs', 'ignoreDirsRegex'), ('line-filter', 'm_lineFilter'), ('export-fixes', 'exportFile')):
        if name not in names:
            res.report('standalone', fn.name, fn.where(fn.body), 'there is no option -%s' % name)
            continue
        slot(role, field_of(name), '-' + name)
    for name, env in (('header-filter', 'CLAZY_HEADER_FILTER'), ('ignore-dirs', 'CLAZY_IGNORE_DIRS')):
        for q in field_of(name):
            if not any(mentions_env(v, env) for v in DEFAULT.get(q, ())):
                res.report('standalone', act.name, act.where(act.body), '%s is not the default of -%s' % (env, name))
            for facts, v in fields[q]:
                if v == ('str', '') and not any(k[0] == 'nn' and mentions_env(k, env) and not t for k, t in facts.items()):
                    res.report('standalone', act.name, act.where(act.body), '%s is ignored' % env, show(facts))
    for q in field_of('checks'):
        if DEFAULT.get(q) != {('str', 'level1')}:
            res.report('standalone', act.name, act.where(act.body), 'without -checks, something else than level1 is run')
    fc = field_of('checks')
    for r in req:
        n += 1
        parts = r[1:] if r[0] == 'list' else (r[-1],) if r[0] == 'upd' else (r,)
        if not (len(parts) == 1 and parts[0][0] == 'fld' and parts[0][2] in fc):
            res.report('standalone', cons.name, cons.where(cons.body), 'the checks that are requested are not those of -checks')
    if not req or not fc:
        res.report('standalone', cons.name, cons.where(cons.body), '-checks is not used')
    # the other slots
    CI = arg(cons, 0)
    for a in ctx:
        n += 1
        for role, ok, what in (('options', lambda v: v[0] == 'fld' and v[2] in plain, 'the options'), ('m_translationUnitPaths', lambda v: v[0] == 'fld' and v[2] in plain, 'the paths of the translation units'),
                               ('astContext', call('clang::CompilerInstance::getASTContext', CI), 'the AST of the unit'), ('sm', call('clang::CompilerInstance::getSourceManager', CI), 'the source manager')):
            if role in roles and not match(ok, a[roles[role]]):
                res.report('standalone', cons.name, cons.where(cons.body), 'the context does not get %s' % what)
        of = a[roles['options']][2] if 'options' in roles and a[roles['options']][0] == 'fld' else None
    # bits
    k = plain.get(of)
    for _, st, _ in outs:
        ev = [e for e in st.events if e[0] == 'make']
        if len(ev) != 1 or k is None or k + 1 >= len(ev[0]):
            res.report('standalone', fn.name, fn.where(fn.body), 'the action is not created from the command line', show(st.facts))
            continue
        n += 1
        b = bits(ev[0][k + 1])
        if b is None:
            res.report('standalone', fn.name, fn.where(fn.body), 'cannot tell which options are set', show(st.facts))
            continue
        for name, flag in list(FLAGS.items()) + [('export-fixes', EXPORT)]:
            if name == 'export-fixes':
                t = st.facts.get(('empty', ('glob', opt(name))))
                t = None if t is None else not t
            else:
                t = st.facts.get(('glob', opt(name)))
                for w in ('nz', 'nn'):
                    if t is None:
                        t = st.facts.get((w, ('glob', opt(name))))
            if t is None or t != (flag in b):
                res.report('standalone', fn.name, fn.where(fn.body), '%s is %s though -%s %s' % (flag, 'set' if flag in b else 'not set', name, {True: 'is given', False: 'is not given', None: 'was not looked at'}[t]), show(st.facts))
        if b - set(FLAGS.values()) - {EXPORT}:
            res.report('standalone', fn.name, fn.where(fn.body), 'an option is set that the command line does not have', show(st.facts))
    res.need('standalone_paths', n, 30)


def mentions_env(v, env):
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == 'call' and v[1] in ('getenv', 'secure_getenv', 'std::getenv') and v[2] == ('str', env):
            return True
        return any(mentions_env(x, env) for x in v)
    return False


def plugin(res, prog, roles):
    n = 0
    fn = prog.one('ClazyASTAction::ParseArgs')
    given = arg(fn, 1)

    class S(Spec):
        def on_call(self, f, i, d, obj, args, st):
            if d.get('q') == 'ClazyContext::ClazyContext':
                st.event(('context', self.held(st)) + tuple(args))
                return ('val', ('ctx',))
            if d.get('n') == 'PrintHelp' or d.get('n') == 'printRequestedChecks':
                return ('val', ('void',))
            if d.get('q') == 'CheckManager::requestedChecks':
                st.event(('requested',) + tuple(args))
                return ('val', ('requested',))
            if d.get('n') == 'parseArgument':
                a = [x for x in args if x[0] == 'str']
                return ('val', ('has', ('args',), a[0])) if a else None
            return None

        @staticmethod
        def held(st):
            return None
    sp = S(prog, ('CheckManager::CheckManager', 'ClazyContext::registerPreprocessorCallbacks'))
    outs = sp.analyse(fn)
    for ret, st, _ in outs:
        n += 1
        has = lambda name: next((t for k, t in st.facts.items() if k[0] == 'has' and k[2] == ('str', name)), None)
        ctx = [e for e in st.events if e[0] == 'context']
        if not ctx:
            res.report('plugin', fn.name, fn.where(fn.body), 'a path creates no context', show(st.facts))
            continue
        a = ctx[-1][2:]
        if has('help') is True:
            continue
        if 'options' in roles:
            v = a[roles['options']]
            base = ('fld', ('this',), 'ClazyASTAction::m_options')
            if v[0] == 'bor' and base in v:
                v = ('bor',) + tuple(x for x in v[1:] if x != base) if len(v) > 2 else ('int', 0)
            elif v == base:
                v = ('int', 0)
            b = bits(v if v != ('bor',) else ('int', 0))
            if b is None:
                res.report('plugin', fn.name, fn.where(fn.body), 'cannot tell which options are set', show(st.facts))
            else:
                for name, flag in FLAGS.items():
                    t = has(name)
                    if t is None or t != (flag in b):
                        res.report('plugin', fn.name, fn.where(fn.body), '%s is %s though %s %s' % (flag, 'set' if flag in b else 'not set', name, {True: 'is given', False: 'is not given', None: 'was not looked for'}[t]), show(st.facts))
                env = next((t for k, t in st.facts.items() if k[0] == 'nn' and mentions_env(k, 'CLAZY_EXPORT_FIXES')), None)
                first = next((t for k, t in st.facts.items() if k[0] == 'has' and k[2] == ('str', 'export-fixes')), None)
                asked = True if env or first else None if env is None or first is None else False
                if asked is None:
                    res.report('plugin', fn.name, fn.where(fn.body), 'a path looks at only one of export-fixes and CLAZY_EXPORT_FIXES', show(st.facts))
                if asked is not None and asked != (EXPORT in b) and not (first and EXPORT not in b and twice(st)):
                    res.report('plugin', fn.name, fn.where(fn.body), '%s is %s though export-fixes or CLAZY_EXPORT_FIXES %s given' % (EXPORT, 'set' if EXPORT in b else 'not set', 'is' if asked else 'is not'), show(st.facts))
                if b - set(FLAGS.values()) - {EXPORT}:
                    res.report('plugin', fn.name, fn.where(fn.body), 'an option is set that the plugin does not have', show(st.facts))
        for role, env in (('headerFilterRegex', 'CLAZY_HEADER_FILTER'), ('ignoreDirsRegex', 'CLAZY_IGNORE_DIRS')):
            if role not in roles:
                continue
            v = a[roles[role]]
            unset = next((t for k, t in st.facts.items() if k[0] == 'nn' and mentions_env(k, env)), None)
            if not (mentions_env(v, env) or v == ('str', '') and unset is False):
                res.report('plugin', fn.name, fn.where(fn.body), 'the context does not get the value of %s' % env, show(st.facts))
        if 'm_isClangTidy' in roles and roles['m_isClangTidy'] < len(a) and a[roles['m_isClangTidy']] not in (('c', False), ('none',)) and a[roles['m_isClangTidy']][0] != 'e':
            res.report('plugin', fn.name, fn.where(fn.body), 'the context of the plugin is told to be that of clang-tidy')
        req = [e for e in st.events if e[0] == 'requested']
        if not req or st.heap.get((('this',), 'ClazyASTAction::m_checks')) != ('requested',):
            res.report('plugin', fn.name, fn.where(fn.body), 'a path does not keep the checks that were requested', show(st.facts))
        if not any(k[1] == 'ClazyASTAction::m_context' and v[0] in ('new', 'ctx') for k, v in st.heap.items()):
            res.report('plugin', fn.name, fn.where(fn.body), 'a path does not keep the context', show(st.facts))
    res.need('plugin_paths', n, 8)
    for f in prog.find('parseArgument', required=False):
        which = next((arg(f, k) for k in range(len(f.params)) if 'vector' not in f.typ(f.tu.decls[f.params[k]].get('t', -1))), None)
        lst = next((arg(f, k) for k in range(len(f.params)) if 'vector' in f.typ(f.tu.decls[f.params[k]].get('t', -1))), None)
        if which and lst:
            res.coverage['argument_paths'] = decision(res, 'plugin', prog, f, Atom('the argument was given', ('has', lst, which)), what='the argument is found')


def twice(st):
    return len([1 for k, t in st.facts.items() if k[0] == 'has' and k[2] == ('str', 'export-fixes')]) > 1


def tidy(res, prog, roles):
    n = 0
    fn = prog.one('ClazyCheck::registerPPCallbacks')

    class S(Spec):
        def on_call(self, f, i, d, obj, args, st):
            if d.get('q') == 'ClazyContext::ClazyContext':
                st.event(('context',) + tuple(args))
                return ('val', ('ctx',))
            return None
    for ret, st, _ in S(prog, ('CheckManager::CheckManager', 'ClazyContext::registerPreprocessorCallbacks')).analyse(fn):
        for e in st.events:
            n += 1
            a = e[1:]
            if 'm_isClangTidy' in roles and a[roles['m_isClangTidy']] != ('c', True):
                res.report('clang-tidy', fn.name, fn.where(fn.body), 'the context is not told that it is that of clang-tidy')
            if 'reporter' in roles and not match(is_fld('ClazyCheck::emitDiagnostic'), a[roles['reporter']]):
                res.report('clang-tidy', fn.name, fn.where(fn.body), 'the context does not report through clang-tidy')
            for role in ('headerFilterRegex', 'ignoreDirsRegex', 'm_lineFilter'):
                if role in roles and a[roles[role]] != ('str', ''):
                    res.report('clang-tidy', fn.name, fn.where(fn.body), 'clazy filters by itself under clang-tidy, which has its own filters')
            if 'options' in roles and bits(a[roles['options']]) != set() and a[roles['options']] not in (('int', 0), ('list',)):
                res.report('clang-tidy', fn.name, fn.where(fn.body), 'options are set that nobody asked for')
    res.need('clang_tidy_contexts', n, 1)


def accessors(res, prog):
    n = 0
    for q, flag in (('exportFixesEnabled', EXPORT), ('isQtDeveloper', 'ClazyOption_QtDeveloper'), ('ignoresIncludedFiles', 'ClazyOption_IgnoreIncludedFiles'), ('isVisitImplicitCode', 'ClazyOption_VisitImplicitCode')):
        for fn in prog.find(C + q, required=False):
            n += decision(res, 'accessors', prog, fn, bit(flag, is_fld(C + 'options')), what=q)
    for fn in prog.find(C + 'isOptionSet', required=False):
        n += decision(res, 'accessors', prog, fn, Atom('listed', ('has', is_fld(C + 'extraOptions'), arg(fn, 0))), what='the extra option is set')
    for fn in prog.find(C + 'isQt', required=False):
        macros = lambda v: v[0] == 'fld' and v[2].endswith('::Macros')
        n += decision(res, 'accessors', prog, fn, Exists('macro', macros, Atom('is QT_CORE_LIB', eqp(('str', 'QT_CORE_LIB'), lambda v: v[0] == 'fld' and v[2] == 'first' and match(elem(macros), v[1])))), what='the unit uses Qt')
    for fn in prog.find(C + 'usingPreCompiledHeaders', required=False):
        n += decision(res, 'accessors', prog, fn, Atom('a precompiled header is given', negs=(('empty', lambda v: v[0] == 'fld' and v[2].endswith('::ImplicitPCHInclude')),)), what='a precompiled header is in use')
    res.need('accessor_paths', n, 4)


def distinct_bits(res, prog):
    n = 0
    for q in ('ClazyContext::ClazyOption', 'RegisteredCheck::Option', 'CheckBase::Option'):
        e = prog.enums.get(q)
        if not e:
            continue
        seen = {}
        for name, v in e['cs']:
            v = int(v)
            n += 1
            if v & (v - 1):
                res.report('bits', q, 'src/' + e.get('l', ''), '%s is not a single bit' % name)
            for o, w in seen.items():
                if v & w:
                    res.report('bits', q, 'src/' + e.get('l', ''), '%s and %s share a bit' % (name, o))
            seen[name] = v
    res.need('option_bits', n, 8)


def check(res, thorough):
    prog = Program()
    roles, ctor = context_ctor(res, prog)
    line_filter(res, prog)
    standalone(res, prog, roles, ctor)
    plugin(res, prog, roles)
    tidy(res, prog, roles)
    accessors(res, prog)
    distinct_bits(res, prog)
