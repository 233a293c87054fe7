"""Abstract interpretation of the traversal, from the visitor methods that clang's RecursiveASTVisitor calls and from the
functions that build the consumer: on every path and for every element of the list of checks, a check is called exactly
when the specification says so.  The lists are identified by the registration option under which a check enters them."""
from ..events import Rec, always, arg, arg_of_type, exhausted, fld, foreach, has_event, is_fld, iterations, same_element
from ..ir import Program
from ..spec import ANY, And, Atom, Not, Or, call, decision, eqp, match, show

OPT = 'RegisteredCheck::'
LISTS = {'VisitStmt': OPT + 'Option_VisitsStmts', 'VisitDecl': OPT + 'Option_VisitsDecls', 'typedefs': OPT + 'Option_VisitAllTypeDefs'}
PUSH = ('push_back', 'emplace_back', 'insert', 'emplace', 'push', 'emplace_front')


def bit(name, holder=ANY):
    """(holder & Option) != 0"""
    def pat(v):
        if v[0] == 'nz' and v[1][0] == 'band':
            parts = v[1][1:]
            return any(p[0] == 'enum' and p[1].split('::')[-1] == name.split('::')[-1] for p in parts) and any(match(holder, p) for p in parts)
        return False

    def neg(v):
        return v[0] == 'eq' and any(x == ('int', 0) for x in v[1:]) and any(pat(('nz', x)) for x in v[1:])
    return Atom(name.split('::')[-1], pat, negs=(neg,))


def registration(res, prog):
    """which list a check enters under which option"""
    lists = {}
    n = 0
    for fn in prog.find('clazy::VisitHelper::Visitors::addCheck'):
        rec = Rec(prog, {p: 'stop' for p in PUSH})
        outs = rec.analyse(fn)
        who = arg_of_type(fn, 'CheckBase')
        opts = next((x for x in (arg(fn, k) for k in range(len(fn.params))) if x != who), ANY)
        fields = {e[1][2] for _, st, _ in outs for e in st.events if e[0] in PUSH and e[1] and e[1][0] == 'fld'}
        for q in sorted(fields):
            ev = (lambda v: v[0] in PUSH and v[1][0] == 'fld' and v[1][2] == q and v[2] == who,)
            for role, name in LISTS.items():
                f = bit(name, opts)
                if all(f.ev(st.facts) is not None and f.ev(st.facts) == has_event(st.events, ev) for _, st, _ in outs):
                    lists.setdefault(role, q)
                    n += len(outs)
        for role, name in LISTS.items():
            if role not in lists:
                res.report('registration', fn.name, fn.where(fn.body), 'a check does not enter a list exactly when it was registered with %s' % name.split('::')[-1])
        if len(set(lists.values())) != len(lists):
            res.report('registration', fn.name, fn.where(fn.body), 'checks registered under different options enter the same list')
    res.need('registration_paths', n, 1)
    return lists


def holds_lists(r):
    return any('VisitHelper::Visitors' in r['tu'].types[f['t']] for f in r['fields'])


def visitors(prog):
    """visitor methods of the classes that clang's traversal calls back"""
    out = {'VisitDecl': [], 'VisitStmt': []}
    for f in prog.funcs.values():
        nm = f.q.split('::')[-1]
        r = prog.records.get(f.cls or '')
        if nm in out and r and any('RecursiveASTVisitor' in b for b in r['bases']) and holds_lists(r):
            if len(f.params) == 1 and f.typ(f.tu.decls[f.params[0]].get('t', -1)) == 'clang::%s *' % nm[5:]:
                out[nm].append(f)
    return out


ATOMS = ('Utils::isMainFile',)


def begin(of):
    return call(lambda q: q in ('clang::Decl::getBeginLoc', 'clang::Stmt::getBeginLoc'), of)


def user_code(x):
    loc = begin(x)
    return And(Atom('valid location', ('valid', loc)), Not(Atom('in a system header', call(lambda q: q == 'clang::SourceManager::isInSystemHeader', ANY, loc))))


def ignorable(x, e):
    ctxopt = bit('ClazyOption_IgnoreIncludedFiles', is_fld('ClazyContext::options'))
    main = Atom('in the main file', call('Utils::isMainFile', ANY, begin(x)))
    can = bit('Option_CanIgnoreIncludes', lambda v: v[0] == 'fld' and v[2] == 'CheckBase::m_options' and match(e, v[1]))
    return And(ctxopt, Not(main), can)


def listed(q):
    return lambda v: v[0] == 'fld' and v[2] == q


def el(q):
    return lambda v: v[0] in ('it', 'at') and match(listed(q), v[1])


def visit(res, prog, lists):
    n = 0
    vs = visitors(prog)
    for what in ('VisitDecl', 'VisitStmt'):
        res.need('visitor_methods_' + what, len(vs[what]), 2)
        for fn in vs[what]:
            x = Same(arg(fn, 0))
            rec = Rec(prog, {'CheckBase::' + what: 'stop', 'VisitDeclaration': 'stop', 'addStmt': 'stop'}, ATOMS)
            rec.names.update({'VisitDecl': None, 'VisitStmt': None})
            rec.base = what
            base(rec, what)
            outs = rec.analyse(fn)
            q = lists.get(what)
            usr = user_code(x)
            if q:
                n += foreach(res, 'dispatch', fn, rec, [o for o in outs if what == 'VisitDecl' or o[0] != ('c', False)], listed(q), usr, Not(ignorable(x, el(q))), lambda e: ((what, lambda o: same_element(e, o), x),),
                             '%s of the checks that asked for it' % what)
            if what == 'VisitDecl':
                n += declarations(res, fn, rec, outs, lists, x, usr, q)
            else:
                n += statements(res, fn, rec, outs, x, usr, q)
            # nobody else is called
            known = [listed(v) for v in lists.values()]
            for e in [e for _, st, _ in outs for e in st.events] + [e for t in rec.its for e in t[4]]:
                if e[0] == what and not any(e[1][0] in ('it', 'at') and match(k, e[1][1]) for k in known):
                    res.report('dispatch', fn.name, fn.where(fn.body), '%s is called on something that is not one of the registered checks' % what)
    res.need('dispatch_paths_and_iterations', n, 20)


def base(rec, what):
    old = rec.on_call

    def on_call(fn, i, d, obj, args, st):
        if d.get('q') == 'CheckBase::' + what or d.get('n') == what and d.get('ov') and obj is not None and obj[0] in ('it', 'at'):
            st.event((what, obj) + tuple(args))
            return ('val', ('void',))
        return old(fn, i, d, obj, args, st)
    rec.on_call = on_call


def declarations(res, fn, rec, outs, lists, x, usr, q):
    n = 0
    td = Atom('a typedef or alias', ('isa', lambda t: t == 'TypedefNameDecl', x))
    qt = lists.get('typedefs')
    if qt:
        n += foreach(res, 'typedefs-of-system-headers', fn, rec, outs, listed(qt), And(Not(usr), td), None, lambda e: (('VisitDecl', lambda o: same_element(e, o), x),),
                     'VisitDecl of the checks that asked for all typedefs')
    mgr = is_fld('ClazyContext::accessSpecifierManager')
    n += always(res, 'access-specifiers', fn, outs, Atom('there is an access specifier manager', ('nn', mgr)), (('VisitDeclaration', mgr, x),),
                'the access specifier manager is told of the declaration')
    for ret, st, _ in outs:
        if ret != ('c', True):
            res.report('traversal-goes-on', fn.name, fn.where(fn.body), 'a path ends the whole traversal at this declaration', show(st.facts))
    for f, i, e, facts, ev, heap in iterations(rec, listed(q) if q else ANY):
        if not has_event(ev, (('VisitDecl', ANY, x),)):
            continue
        names = [v for v in ev if v[0] in ('VisitDecl', 'VisitDeclaration')]
        if names and names[0][0] != 'VisitDeclaration' and any(k[0] == 'nn' and match(mgr, k[1]) and t for k, t in facts.items()):
            res.report('access-specifiers', fn.name, f.where(i), 'a check sees the declaration before the access specifier manager does', show(facts))
        now = {k[1]: v for k, v in heap.items()}
        if stripped(now.get('ClazyContext::lastDecl')) != x:
            res.report('last-declaration', fn.name, f.where(i), 'a check sees the declaration before it is recorded as the last one visited', show(facts))
        for rec_, ty, name in (('lastFunctionDecl', 'FunctionDecl', 'function'), ('lastMethodDecl', 'CXXMethodDecl', 'method')):
            is_ = [t for k, t in facts.items() if k[0] == 'isa' and k[1] == ty and stripped(k[2]) == x]
            v = now.get('ClazyContext::' + rec_)
            if True in is_ and stripped(v) != x:
                res.report('last-declaration', fn.name, f.where(i), 'a check sees a %s before it is recorded as the last one visited' % name, show(facts))
            if True not in is_ and v is not None and v != ('null',):
                if stripped(v) == x and not any(k[0] == 'isa' and t and k[1] == 'CXXMethodDecl' for k, t in facts.items()):
                    res.report('last-declaration', fn.name, f.where(i), 'a declaration is recorded as the last %s without being one' % name, show(facts))
    return n


class Same(tuple):
    """a value, whatever it has been cast to"""
    def __new__(cls, v):
        return tuple.__new__(cls, v)

    def __call__(self, v):
        return stripped(v) == tuple(self)


def stripped(v):
    while isinstance(v, tuple) and v and v[0] == 'as':
        v = v[2]
    return v


def statements(res, fn, rec, outs, x, usr, q):
    n = 0
    pm = lambda v: v[0] == 'fld' and v[2] == 'ClazyContext::parentMap'
    err = Atom('unrecoverable errors', call(lambda c: c.endswith('::hasUnrecoverableErrorOccurred'), ANY))
    none = Atom('no parent map', negs=(('nn', pm),))
    for ret, st, _ in outs:
        n += 1
        if ret == ('c', True):
            continue
        ok = And(none, err).ev(st.facts)
        if ok is not True or ret != ('c', False):
            res.report('traversal-goes-on', fn.name, fn.where(fn.body), 'a path ends the whole traversal at this statement though the tree is usable', show(st.facts))
    for f, i, e, facts, ev, heap in iterations(rec, listed(q) if q else ANY):
        if not has_event(ev, (('VisitStmt', ANY, x),)):
            continue
        n += 1
        cur = next((v for k, v in heap.items() if k[1] == 'ClazyContext::parentMap'), None)
        old = Atom('', ('nn', pm)).ev(facts)
        added = has_event(ev, (('addStmt', ANY, x),))
        known = Atom('', call('clang::ParentMap::hasParent', ANY, x)).ev(facts)
        if cur is not None and cur[0] == 'new':
            continue                       # a map built from this statement
        if old is not True or not (added or known):
            res.report('parent-map', fn.name, f.where(i), 'a check sees a statement whose parents are not in the parent map', show(facts))
    return n


def translation_unit(res, prog):
    n = 0
    fns = [f for f in prog.funcs.values() if f.q.split('::')[-1] == 'HandleTranslationUnit' and f.cls in prog.records and holds_lists(prog.records[f.cls])]
    res.need('consumers', len(fns), 1)
    for fn in fns:
        rec = Rec(prog, {'TraverseDecl': 'stop', 'matchAST': 'stop', 'BeginSourceFile': 'stop'}, ('ClazyContext::isQt',))
        outs = rec.analyse(fn)
        ctx = arg(fn, 0)
        run = Not(And(bit('ClazyOption_OnlyQt', is_fld('ClazyContext::options')), Not(Atom('a Qt translation unit', call('ClazyContext::isQt', ANY)))))
        tu = call('clang::ASTContext::getTranslationUnitDecl', ctx)
        n += always(res, 'translation-unit', fn, outs, run, (('TraverseDecl', ANY, tu),), 'the visitor based checks are run')
        n += always(res, 'translation-unit', fn, outs, run, (('matchAST', ANY, ctx),), 'the matcher based checks are run')
    # the flavour for clang-tidy
    for fn in prog.find('ClazyCheck::check'):
        rec = Rec(prog, {'TraverseDecl': 'stop'})
        outs = rec.analyse(fn)
        ctx = lambda v: v[0] == 'fld' and v[2] == 'clang::ast_matchers::MatchFinder::MatchResult::Context'
        runs = Atom('this object runs the checks', is_fld('ClazyCheck::m_shouldRunClazyChecks'))
        n += always(res, 'translation-unit', fn, outs, runs, (('TraverseDecl', ANY, ANY),), 'the visitor based checks are run')
        for ret, st, _ in outs:
            if has_event(st.events, (('TraverseDecl', ...),)) and not any(k[1] == 'ClazyContext::astContext' and match(ctx, v) for k, v in st.heap.items()):
                res.report('translation-unit', fn.name, fn.where(fn.body), 'the checks run without the AST of this translation unit', show(st.facts))
    res.need('translation_unit_paths', n, 4)
    # implicit code
    for fn in prog.find('ClazyASTConsumer::shouldVisitImplicitCode'):
        res.coverage['implicit_code_paths'] = decision(res, 'implicit-code', prog, fn, bit('ClazyOption_VisitImplicitCode', is_fld('ClazyContext::options')), what='visits implicit code')


def created(e):
    """what the factory of a registered check makes"""
    return lambda v: v[0] in ('call', 'new') and any(isinstance(x, tuple) and x[:1] == ('fld',) and x[2] == 'RegisteredCheck::factory' and same_element(e, x[1]) for x in v[1:])


def consumers(res, prog, lists):
    """plugin and standalone tool: the consumer gets every requested check"""
    n = 0
    fns = [f for f in prog.funcs.values() if f.q in ('ClazyASTAction::CreateASTConsumer', 'ClazyStandaloneASTAction::CreateASTConsumer')]
    res.need('consumer_factories', len(fns), 2)
    for fn in fns:
        rec = Rec(prog, {'enablePreProcessorCallbacks': 'stop', 'registerASTMatchers': 'stop', 'ClazyASTConsumer::addCheck': 'stop', 'requestedChecks': None},
                  ('ClazyContext::ClazyContext', 'CheckManager::requestedChecks', 'clazy::VisitHelper::shouldCheckFile', 'ClazyContext::registerPreprocessorCallbacks', 'CheckManager::CheckManager'))
        rec.names['addCheck'] = 'stop'
        outs = rec.analyse(fn)
        cont = lambda v: v[0] == 'fld' and v[2] == 'ClazyASTAction::m_checks' or v[0] == 'call' and v[1] == 'CheckManager::requestedChecks'
        go = And(Atom('the file is to be checked', call('clazy::VisitHelper::shouldCheckFile', ANY)), Not(Atom('no check was requested', ('empty', cont))))
        if fn.cls == 'ClazyASTAction':
            go = go.xs[0]

        def added(e):
            return (('addCheck', ANY, lambda p: p[0] == 'pair' and match(created(e), p[1]) and same_element(e, p[2])),)
        n += foreach(res, 'consumer', fn, rec, outs, cont, go, None, added, 'a requested check is given to the consumer')
        for f, i, e, facts, ev, heap in iterations(rec, cont):
            n += 1
            pp = bit('Option_PreprocessorCallbacks', lambda v: v[0] == 'fld' and v[2] == 'RegisteredCheck::options').ev(facts)
            has = has_event(ev, (('enablePreProcessorCallbacks', created(e), ANY),))
            if pp is None or pp != has:
                res.report('consumer', fn.name, f.where(i), 'preprocessor callbacks are %s though the check %s them' % ('enabled' if has else 'not enabled', {True: 'asked for', False: 'did not ask for', None: 'was not asked whether it wants'}[pp]), show(facts))
            c = [v for k, v in heap.items() if k[1] == 'CheckBase::m_context' and match(created(e), k[0])]
            if not c or c[0] == ('null',):
                res.report('consumer', fn.name, f.where(i), 'a check is used without having been given the context', show(facts))
    res.need('consumer_paths_and_iterations', n, 4)


def consumer_add(res, prog, lists):
    n = 0
    for fn in prog.find('ClazyASTConsumer::addCheck'):
        rec = Rec(prog, {'registerASTMatchers': 'stop', **{p: 'stop' for p in PUSH}})
        outs = rec.analyse(fn)
        p = arg(fn, 0)
        who = fld(p, 'first')
        for role, q in lists.items():
            opts = lambda v: v[0] == 'fld' and v[2] == 'RegisteredCheck::options' and v[1] == fld(p, 'second')
            n += always(res, 'registration', fn, outs, bit(LISTS[role], opts), (lambda v: v[0] in PUSH and v[1][0] == 'fld' and v[1][2] == q and v[2] == who,),
                        'the check enters the list of %s' % role)
        n += always(res, 'matchers', fn, outs, True, (('registerASTMatchers', who, is_fld('ClazyASTConsumer::m_matchFinder')),), 'the matchers of the check are registered')
    res.need('add_check_paths', n, 4)


def tidy(res, prog):
    n = 0
    run = Atom('this object runs the checks', is_fld('ClazyCheck::m_shouldRunClazyChecks'))
    for fn in prog.find('ClazyCheck::registerMatchers'):
        rec = Rec(prog, {'registerASTMatchers': 'stop', 'addMatcher': 'stop', 'addCheck': 'stop', 'emplace_back': 'stop', 'push_back': 'stop'}, ('CheckManager::availableChecks', 'CheckManager::CheckManager'))
        outs = rec.analyse(fn)
        cont = call('CheckManager::availableChecks', ...)
        on = lambda v: v[0] == 'has' and v[1][0] == 'glob' and v[1][1] == 's_enabledChecks' and v[2][0] == 'cat' and v[2][1] == ('str', 'clazy-') and v[2][2][0] == 'fld' and v[2][2][2] == 'RegisteredCheck::name'
        enabled = Atom('its clang-tidy name is enabled', on)
        for what, ev in (('its matchers are registered', lambda e: (('registerASTMatchers', created(e), ANY),)),
                         ('it enters the lists of the visitors', lambda e: (('addCheck', ANY, lambda o: o[0] == 'fld' and o[2] == 'RegisteredCheck::options' and same_element(e, o[1]), created(e)),)),
                         ('it is remembered together with its options', lambda e: ((lambda n_: n_ in ('emplace_back', 'push_back'), is_fld('ClazyCheck::m_allChecks'), created(e), lambda o: o[0] == 'fld' and o[2] == 'RegisteredCheck::options' and same_element(e, o[1])),
                                                                                   (lambda n_: n_ in ('emplace_back', 'push_back'), is_fld('ClazyCheck::m_allChecks'), lambda p: p[0] in ('pair', 'list') and match(created(e), p[1]) and p[2][0] == 'fld' and p[2][2] == 'RegisteredCheck::options')))):
            n += foreach(res, 'clang-tidy', fn, rec, outs, cont, run, enabled, ev, 'of an available check, ' + what)
        n += always(res, 'clang-tidy', fn, outs, run, (('addMatcher', ...),), 'the matcher for the translation unit is registered')
    for fn in prog.find('ClazyCheck::registerPPCallbacks'):
        rec = Rec(prog, {'enablePreProcessorCallbacks': 'stop', 'registerPreprocessorCallbacks': 'stop'}, ('ClazyContext::ClazyContext',))
        outs = rec.analyse(fn)
        cont = is_fld('ClazyCheck::m_allChecks')
        pp = bit('Option_PreprocessorCallbacks', lambda v: v[0] == 'fld' and v[2] == 'second')
        n += foreach(res, 'clang-tidy', fn, rec, outs, cont, run, pp, lambda e: (('enablePreProcessorCallbacks', lambda o: o[0] == 'fld' and o[2] == 'first' and same_element(e, o[1]), ANY),), 'preprocessor callbacks are enabled')
        for f, i, e, facts, ev, heap in iterations(rec, cont):
            n += 1
            c = [v for k, v in heap.items() if k[1] == 'CheckBase::m_context' and k[0][0] == 'fld' and k[0][2] == 'first' and same_element(e, k[0][1])]
            if not c or c[0] == ('null',):
                res.report('clang-tidy', fn.name, f.where(i), 'a check is used without having been given the context', show(facts))
        n += always(res, 'clang-tidy', fn, outs, run, (('registerPreprocessorCallbacks', ...),), 'the preprocessor callbacks of the context are registered')
    for fn in prog.find('ClazyModule::addCheckFactories'):
        rec = Rec(prog, {'registerCheck': 'stop'}, ('CheckManager::availableChecks', 'CheckManager::CheckManager'))
        outs = rec.analyse(fn)
        n += foreach(res, 'clang-tidy', fn, rec, outs, call('CheckManager::availableChecks', ...), None, None,
                     lambda e: (('registerCheck', ANY, ('cat', ('str', 'clazy-'), lambda o: o[0] == 'fld' and o[2] == 'RegisteredCheck::name' and same_element(e, o[1]))),), 'an available check is offered to clang-tidy')
    res.need('clang_tidy_paths_and_iterations', n, 6)


# callback -> (method of the check, parameters that are passed on; None: whatever belongs to the macro definition)
FORWARD = {'MacroExpands': ('VisitMacroExpands', (0, 2, 1)), 'Defined': ('VisitDefined', (0, 2)), 'Ifdef': ('VisitIfdef', (0, 1)), 'Ifndef': ('VisitIfndef', (0, 1)), 'If': ('VisitIf', (0, 1, 2)),
           'Elif': ('VisitElif', (0, 1, 2, 3)), 'Else': ('VisitElse', (0, 1)), 'Endif': ('VisitEndif', (0, 1)), 'MacroDefined': ('VisitMacroDefined', (0,)), 'InclusionDirective': ('VisitInclusionDirective', tuple(range(11)))}


def forwarding(res, prog):
    n = 0
    for name, (to, idx) in FORWARD.items():
        for fn in prog.find('ClazyPreprocessorCallbacks::' + name):
            rec = Rec(prog, {to: 'stop'})
            outs = rec.analyse(fn)
            want = [arg(fn, k) for k in idx]
            if name == 'MacroExpands':
                md = arg(fn, 1)
                want[2] = lambda v: v == ('call', 'clang::MacroDefinition::getMacroInfo', md) or v == md
            for ret, st, _ in outs:
                n += 1
                if not has_event(st.events, ((to, is_fld('ClazyPreprocessorCallbacks::check')) + tuple(want),)):
                    res.report('preprocessor', fn.name, fn.where(fn.body), 'a path does not pass the event on to %s of the check with its own arguments' % to, show(st.facts))
    for fn in prog.find('CheckBase::enablePreProcessorCallbacks'):
        rec = Rec(prog, {'addPPCallbacks': 'stop'})
        n += always(res, 'preprocessor', fn, rec.analyse(fn), True, (('addPPCallbacks', arg(fn, 0), lambda v: match(is_fld('CheckBase::m_preprocessorCallbacks'), v) or v[0] == 'ctor' and match(is_fld('CheckBase::m_preprocessorCallbacks'), v[-1])),), 'the callbacks of the check are installed')
    res.need('forwarding_paths', n, 10)


def files(res, prog):
    for fn in prog.find('clazy::VisitHelper::shouldCheckFile'):
        q = Atom('in the qml cache', ('has', arg(fn, 0), ('str', '.rcc/qmlcache')))
        res.coverage['file_paths'] = decision(res, 'files', prog, fn, Not(q), what='the file is to be checked')


def check(res, thorough):
    prog = Program()
    lists = registration(res, prog)
    visit(res, prog, lists)
    translation_unit(res, prog)
    consumers(res, prog, lists)
    consumer_add(res, prog, lists)
    tidy(res, prog)
    forwarding(res, prog)
    files(res, prog)
