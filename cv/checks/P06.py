"""Abstract interpretation of the reporting path: on every path to the reporter the severity argument is compared with
its specification, a three-valued formula over (check promoted, AST context there, warnings are errors, user turned
errors off); the list of promoted checks and the user's switch are traced to their environment variables."""
from ..decide import mentions
from ..gate import Gate
from ..ir import Program
from ..spec import ANY, And, Atom, Exists, Not, Or, Spec, call, decision, elem, eqp, match, show

M_NAME = ('fld', ('this',), 'CheckBase::m_name')
CTX = ('fld', ('this',), 'CheckBase::m_context')
ERROR, WARNING = 'clang::DiagnosticIDs::Error', 'clang::DiagnosticIDs::Warning'


def check(res, thorough):
    prog = Program()
    g = Gate(prog)
    promoted = Atom('check promoted to error', call('ClazyContext::treatAsError', CTX, M_NAME))
    ast = ('fld', CTX, 'ClazyContext::astContext')
    has = Atom('AST context', ('nn', ast))
    werror = Atom('warnings are errors', call('clang::DiagnosticsEngine::getWarningsAsErrors', call('clang::ASTContext::getDiagnostics', ast)),
                  ('nz', call('clang::DiagnosticsEngine::getWarningsAsErrors', call('clang::ASTContext::getDiagnostics', ast))))
    off = Atom('user turned errors off', call('ClazyContext::userDisabledWError', CTX))
    f = Or(promoted, And(has, werror, Not(off)))
    n = 0
    for entry, fn, node, name, loc, sev, msg, fix, facts, heap in g.obs:
        n += 1
        wh = fn.where(node)
        if sev[0] != 'enum' or sev[1] not in (ERROR, WARNING):
            res.report('severity', entry.name, wh, 'a warning is reported with another severity than warning or error: %s' % (sev,), show(facts))
            continue
        want = f.ev(facts)
        if want is None:
            res.report('severity', entry.name, wh, 'the severity %s is chosen without establishing %s' % (sev[1].split('::')[-1], f), show(facts))
        elif want != (sev[1] == ERROR):
            res.report('severity', entry.name, wh, 'the severity is %s although %s is %s' % (sev[1].split('::')[-1], f, want), show(facts))
    res.need('severity_observations', n, 16)

    fn = prog.one('ClazyContext::treatAsError')
    nm = ('sym', fn.tu.decls[fn.params[0]]['n'])
    lst = ('fld', ('this',), 'ClazyContext::m_checksPromotedToErrors')
    k = decision(res, 'promoted', prog, fn, Atom('in the list of promoted checks', ('has', lst, nm)), what='whether a check is promoted')
    fn = prog.one('ClazyContext::userDisabledWError')
    k += decision(res, 'user-switch', prog, fn, Atom('m_noWerror', ('fld', ('this',), 'ClazyContext::m_noWerror')), what='whether the user turned errors off')
    res.need('predicate_paths', k, 4)

    # where the two fields come from
    ctor = prog.one('ClazyContext::ClazyContext', lambda f: len(f.params) > 3)
    sp = Spec(prog, atoms=[f.q for f in prog.funcs.values() if f.q != 'ClazyContext::ClazyContext'])
    outs = sp.analyse(ctor)
    res.need('constructor_paths', len(outs), 1)
    for ret, st, _ in outs:
        v = st.heap.get((('this',), 'ClazyContext::m_noWerror'))
        ok = v == ('nn', ('call', 'getenv', ('str', 'CLAZY_NO_WERROR'))) or v in (('c', True), ('c', False)) and st.facts.get(('nn', ('call', 'getenv', ('str', 'CLAZY_NO_WERROR')))) == v[1]
        if not ok:
            res.report('user-switch', ctor.name, ctor.where(ctor.body), 'CLAZY_NO_WERROR does not decide whether the user turned errors off: %s' % (v,))
            break
        v = st.heap.get((('this',), 'ClazyContext::m_checksPromotedToErrors'))
        if not v or v[:2] != ('call', 'CheckManager::checksAsErrors'):
            res.report('promoted', ctor.name, ctor.where(ctor.body), 'the promoted checks are not those of CheckManager::checksAsErrors: %s' % (v,))
            break
    promoted_list(res, prog)


def promoted_list(res, prog):
    """the list holds exactly the existing checks named in the environment variable"""
    fn = prog.one('CheckManager::checksAsErrors')
    adds = []

    class S(Spec):
        def on_call(self, f, i, d, obj, args, st):
            if d.get('n') in ('push_back', 'emplace_back', 'insert', 'emplace') and args and d.get('q', '').startswith('std::vector'):
                adds.append((f, i, args[-1], dict(st.facts)))
                st.event(('promoted', args[-1]))
            return None

    sp = S(prog, atoms=('clazy::splitString',))
    outs = sp.analyse(fn)
    env = ('str', 'CLAZY_CHECKS_AS_ERRORS')
    if env not in flat(outs, adds):
        res.report('promoted', fn.name, fn.where(fn.body), 'CLAZY_CHECKS_AS_ERRORS is not what the list of promoted checks is read from')
    reg = ('fld', ANY, 'CheckManager::m_registeredChecks')
    el = elem(reg)

    def exists(v):
        return Exists('registered check', reg, Atom('has that name', eqp(('fld', el, 'RegisteredCheck::name'), v)))
    for f, i, v, facts in adds:
        if v[0] not in ('it', 'at'):
            res.report('promoted', f.name, f.where(i), 'what is promoted is not an element of the list that was given')
        elif exists(v).ev(facts) is not True:
            res.report('promoted', f.name, f.where(i), 'a name is promoted without having asked whether such a check exists', show(facts))
    names = 0
    conts = set()
    for f, i, old, facts, events in sp.iters:
        if old[0] == 'it' and not match(reg, old[1]):
            names += 1
            conts.add((f, i, old[1]))
            t = exists(old).ev(facts)
            if t is None or t and ('promoted', old) not in events:
                res.report('promoted', f.name, f.where(i), 'goes on to the next name although this one %s' % ('exists and has not been promoted' if t else 'has not been looked up'), show(facts))
    for f, i, c in sorted(conts, key=repr):
        for ret, st, _ in outs:
            if any(mentions(k, c) for k in st.facts) and not Exists('name', c, None).exhausted(st.facts):
                res.report('promoted', f.name, f.where(i), 'the list of names is left before its end', show(st.facts))
                break
    res.need('names_looked_up', names, 1)
    if not adds and 'copy_if' not in repr(outs):
        res.report('promoted', fn.name, fn.where(fn.body), 'nothing is ever promoted')
    res.coverage['promotions'] = len(adds)


def flat(outs, adds):
    out = set()

    def rec(v):
        if isinstance(v, tuple):
            if v and v[0] == 'str':
                out.add(v)
            for x in v:
                rec(x)
    for ret, st, _ in outs:
        rec(ret)
        for k in st.facts:
            rec(k)
        for k, v in st.heap.items():
            rec(v)
    for a in adds:
        rec(a[2])
        for k in a[3]:
            rec(k)
    return out
