"""Abstract interpretation of the reporting path: every call of the warning reporter, on every path through CheckBase from
every entry a check can use, must have established that this very location is not suppressed for this check, not in an
ignored file and within the line filter; every path that does not report must have a reason.  The predicates
themselves (ignored files, line filter, duplicate in a macro, per-check file list) are compared, path by path and
iteration by iteration, with their specification as three-valued formulas."""
from ..gate import Gate, REPORTER
from ..ir import Program
from ..spec import ANY, And, Atom, Exists, Not, Or, Spec, call, decision, elem, eqp, match, show

SINKS = ('clang::DiagnosticsEngine::Report', 'clang::tidy::ClangTidyContext::diag', 'clang::tidy::ClangTidyCheck::diag', 'clang::DiagnosticBuilder::DiagnosticBuilder')
NAME = lambda v: v == ('fld', ('this',), 'CheckBase::m_name')


def about(facts, q, *args):
    for k, t in facts.items():
        if k[0] == 'call' and k[1] == q and all(match(a, b) for a, b in zip(args, k[2:])):
            return t
    return None


def gate(res, prog):
    g = Gate(prog)
    res.need('reporter_calls', len(g.direct), 1)
    res.need('entries', len(g.entries), 4)
    seen = set()
    for entry, fn, node, name, loc, sev, msg, fix, facts, heap in g.obs:
        seen.add((fn.key, node))
        wh = fn.where(node)
        if about(facts, 'SuppressionManager::isSuppressed', ANY, NAME, loc) is not False:
            res.report('reported-though-suppressed', entry.name, wh, 'a warning is reported without having asked whether its location is suppressed for this check', show(facts))
        if about(facts, 'ClazyContext::shouldIgnoreFile', ANY, loc) is not False:
            res.report('reported-in-ignored-file', entry.name, wh, 'a warning is reported without having asked whether its file is ignored', show(facts))
        if about(facts, 'ClazyContext::passesLineFilter', ANY, loc) is not True:
            res.report('reported-outside-line-filter', entry.name, wh, 'a warning is reported without having asked the line filter', show(facts))
        if not match(NAME, name):
            res.report('reported-as-other-check', entry.name, wh, 'a warning is reported under another name than the one of the check')
        prim = g.primary(entry)
        if loc == prim:
            mac = about(facts, 'clang::SourceLocation::isMacroID', loc)
            if mac is not False:
                kept = heap.get((('this',), 'CheckBase::m_emittedWarningsInMacro'), ())
                if about(facts, 'CheckBase::warningAlreadyEmitted', ANY, loc) is not False or ('call', 'clang::SourceLocation::getRawEncoding', loc) not in kept:
                    res.report('duplicate-in-macro', entry.name, wh, 'a warning inside a macro is reported without being recorded (or without having looked) as already emitted', show(facts))
    for fn, i in g.direct:
        if (fn.key, i) not in seen:
            res.report('bypasses-gate', fn.name, fn.where(i), 'the reporter is called outside of the functions of CheckBase that filter')
    res.coverage['reporter_observations'] = len(g.obs)
    silent = 0
    for e in g.entries:
        prim = g.primary(e)
        if prim is None:
            res.report('no-location', e.name, e.where(e.body), 'an entry that reports has no location of its own')
            continue
        for ret, st, _ in g.outs[e.key]:
            if ('report', prim) in st.events:
                continue
            silent += 1
            f = st.facts
            ok = (about(f, 'SuppressionManager::isSuppressed', ANY, NAME, prim) is True or about(f, 'ClazyContext::shouldIgnoreFile', ANY, prim) is True
                  or about(f, 'ClazyContext::passesLineFilter', ANY, prim) is False
                  or about(f, 'clang::SourceLocation::isMacroID', prim) is True and about(f, 'CheckBase::warningAlreadyEmitted', ANY, prim) is True)
            if not ok:
                res.report('warning-dropped', e.name, e.where(e.body), 'a path ends without reporting the warning, though it is neither suppressed nor filtered nor a duplicate inside a macro', show(f))
    res.need('silent_paths', silent, 4)
    # nobody else reports
    sinks = 0
    for f in prog.funcs.values():
        for i, n in enumerate(f.nodes):
            d = f.callee(i) if n else None
            if not d or d.get('q') not in SINKS or n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(n.get('c', [])) == 1:
                continue
            sinks += 1
            if f.lambda_ and f.q.startswith(('ClazyContext::ClazyContext', 'ClazyCheck::')) or f.cls == 'FixItExporter' or reached_only_from(g, f, ('ClazyContext::ClazyContext', 'ClazyCheck::', 'FixItExporter::')):
                continue
            res.report('reports-directly', f.name, f.where(i), 'a diagnostic is emitted through %s, past the filters' % d['q'])
    res.need('diagnostic_sinks', sinks, 3)


def reached_only_from(g, f, prefixes, seen=None):
    """a helper of the reporters"""
    seen = seen or set()
    if f.key in seen:
        return True
    seen.add(f.key)
    cs = g.callers.get(f.key, ())
    return bool(cs) and all(g.prog.funcs[c].lambda_ and g.prog.funcs[c].q.startswith(prefixes) or g.prog.funcs[c].q.startswith('FixItExporter::') or
                            not g.prog.funcs[c].lambda_ and not g.prog.funcs[c].q.startswith('CheckBase') and reached_only_from(g, g.prog.funcs[c], prefixes, seen) for c in cs)


class InMain:
    """the expansion location decides; outside of macros it is the location itself"""

    def __init__(self, mac, exp, loc):
        self.mac, self.exp, self.loc = mac, exp, loc

    def ev(self, f):
        v = self.exp.ev(f)
        return self.loc.ev(f) if v is None and self.mac.ev(f) is False else v

    def __str__(self):
        return 'the expansion location is in the main file'


def predicates(res, prog):
    n = 0
    this = ('this',)
    sym = lambda x: ('sym', x)
    F = lambda q: ('fld', this, q)
    # ignored files
    idr, hfr = F('ClazyContext::ignoreDirsRegex'), F('ClazyContext::headerFilterRegex')
    fn = prog.one('ClazyContext::shouldIgnoreFile')
    loc = sym(fn.tu.decls[fn.params[0]]['n'])
    file = call('clang::SourceManager::getFileEntryRefForID', ANY, lambda v: match(('fld', call('clang::SourceManager::getDecomposedExpansionLoc', ANY, loc), 'first'), v)
                or match(call('clang::SourceManager::getFileID', ANY, call('clang::SourceManager::getExpansionLoc', ANY, loc)), v))
    fname = call('clang::FileEntryRef::getName', file)
    found = Atom('the file is known', ('nn', file))
    f = Or(And(Atom('ignore-dirs given', ('nn', idr)), found, Atom('ignore-dirs matches the file', ('match', idr, fname, ...))),
           And(Atom('header filter given', ('nn', hfr)), Not(Atom('main file', call('ClazyContext::isMainFile', this, loc))), found, Not(Atom('header filter matches the file', ('match', hfr, fname, ...)))))
    n += decision(res, 'ignored-files', prog, fn, f, ('ClazyContext::isMainFile',), what='which files are ignored')
    # main file
    for q in ('ClazyContext::isMainFile', 'Utils::isMainFile'):
        for fn in prog.find(q, required=q.startswith('Clazy')):
            loc = sym(fn.tu.decls[fn.params[-1]]['n'])
            main = call('clang::SourceManager::getMainFileID', ANY)
            mac = Atom('in a macro', call('clang::SourceLocation::isMacroID', loc))
            exp = call('clang::SourceManager::getExpansionLoc', ANY, loc)

            def infile(l):
                return lambda v: match(call('clang::SourceManager::isInFileID', ANY, l, main, ...), v) or match(eqp(call('clang::SourceManager::getFileID', ANY, l), main), v) or match(call('clang::SourceManager::isInMainFile', ANY, l), v)
            f = InMain(mac, Atom('expansion in the main file', infile(exp)), Atom('in the main file', infile(loc)))
            n += decision(res, 'main-file', prog, fn, f, what='what the main file is')
    # line filter
    lf = F('ClazyContext::m_lineFilter')
    fn = prog.one('ClazyContext::passesLineFilter')
    loc = sym(fn.tu.decls[fn.params[0]]['n'])
    pl = call('clang::SourceManager::getPresumedLoc', ANY, loc, ...)
    line = call('clang::PresumedLoc::getLine', pl)
    ent = elem(lf)
    ranges = ('fld', ent, 'ClazyContext::LineFilterEntry::lineRanges')
    rng = elem(ranges)
    start, end = ('fld', rng, 'ClazyContext::LineRange::start'), ('fld', rng, 'ClazyContext::LineRange::end')
    inrange = And(Not(Atom('line before start', ('lt', line, start))), Not(Atom('line after end', ('lt', end, line))))
    f = Or(Atom('no line filter', ('empty', lf)), Not(Atom('presumed location valid', ('valid', pl))),
           Exists('entry', lf, And(Atom('file name ends with', ('ends_with', call('clang::PresumedLoc::getFilename', pl), ('fld', ent, 'ClazyContext::LineFilterEntry::fileName'))),
                                   Or(Atom('no ranges', ('empty', ranges)), Exists('range', ranges, inrange)))))
    n += decision(res, 'line-filter', prog, fn, f, what='which lines pass the filter')
    # duplicates inside a macro
    em = F('CheckBase::m_emittedWarningsInMacro')
    fn = prog.one('CheckBase::warningAlreadyEmitted')
    loc = sym(fn.tu.decls[fn.params[0]]['n'])
    P = lambda l: call('clang::SourceManager::getPresumedLoc', ANY, l, ...)
    a, b = P(call('clang::SourceLocation::getFromRawEncoding', elem(em))), P(loc)
    same = Atom('same presumed location', call('Utils::presumedLocationsEqual', a, b), call('Utils::presumedLocationsEqual', b, a))
    n += decision(res, 'macro-duplicates', prog, fn, Exists('emitted warning', em, same), ('Utils::presumedLocationsEqual',), what='what is a duplicate')
    fn = prog.one('Utils::presumedLocationsEqual')
    x, y = (sym(fn.tu.decls[p]['n']) for p in fn.params)
    E = lambda m: Atom('same ' + m[3:].lower(), eqp(call('clang::PresumedLoc::' + m, x), call('clang::PresumedLoc::' + m, y)))
    V = lambda l: Atom('valid', ('valid', l))
    n += decision(res, 'macro-duplicates', prog, fn, And(V(x), V(y), E('getColumn'), E('getLine'), E('getFilename')), what='same presumed location')
    # files a check leaves alone
    ig = F('CheckBase::m_filesToIgnore')
    fn = prog.one('CheckBase::shouldIgnoreFile')
    loc = sym(fn.tu.decls[fn.params[0]]['n'])
    f = And(Not(Atom('nothing to ignore', ('empty', ig))), Or(Not(Atom('valid', ('valid', loc))), Exists('ignored file', ig, Atom('name contains', ('has', call('clang::SourceManager::getFilename', ANY, loc, ...), elem(ig))))))
    n += decision(res, 'check-file-list', prog, fn, f, what='which files a check leaves alone')
    res.need('predicate_paths', n, 35)


def check(res, thorough):
    prog = Program()
    gate(res, prog)
    predicates(res, prog)
    res.assumptions += ['std::function p_warningReporter calls one of the two reporters installed by the front ends (decided by P17)',
                        'a warning inside a macro is only compared with those the same check emitted']
