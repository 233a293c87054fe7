"""Abstract interpretation of the reporting path, end to end: the text, location, level and fix-its that a check passes in
are traced to the reporter and through each reporter to the compiler's diagnostic; format strings given to the
diagnostics engine must be literals, so no text of a check is ever interpreted."""
from ..gate import Gate, REPORTER
from ..ir import Program
from ..spec import ANY, Spec, call, match, show

FORMATS = ('clang::DiagnosticIDs::getCustomDiagID', 'clang::DiagnosticsEngine::getCustomDiagID', 'clang::tidy::ClangTidyContext::diag', 'clang::tidy::ClangTidyCheck::diag')


def params(entry):
    text = fix = None
    for p in entry.params:
        d = entry.tu.decls[p]
        t = entry.typ(d.get('t', -1))
        if 'FixItHint' in t:
            fix = ('sym', d['n'])
        elif 'basic_string' in t or 'StringRef' in t or t.startswith('std::string'):
            text = ('sym', d['n'])
        elif t == 'bool':
            tag = ('sym', d['n'])
    return text, fix, tag


def empty(v):
    return v in (('list',), ('none',)) or v[0] == 'ctor' and len(v) == 2 or v[0] == 'hv' or v[0] == 'var'


def forwarding(res, g):
    n = 0
    for entry, fn, node, name, loc, sev, msg, fix, facts, heap in g.obs:
        if loc != g.primary(entry):
            continue
        n += 1
        text, fixits, tag = params(entry)
        wh = fn.where(node)
        want = {True: ('cat', text, ('call', 'CheckBase::tag', ('this',))), False: text}.get(facts.get(tag))
        if want is None:
            res.report('message', entry.name, wh, 'the message is reported without having asked whether it gets the name of the check appended', show(facts))
        elif msg != want:
            res.report('message', entry.name, wh, 'the message given to the reporter is %s, expected the text of the caller%s' % (text_of(msg), ' followed by the tag' if facts.get(tag) else ''), show(facts))
        if fixits and fix != fixits:
            res.report('fixits', entry.name, wh, 'the fix-its given to the reporter are not those of the caller')
        if not fixits and not empty(fix):
            res.report('fixits', entry.name, wh, 'fix-its are given to the reporter though the caller passed none')
    res.need('messages_traced', n, 32)


def text_of(v):
    if v[0] == 'cat':
        return ' + '.join(text_of(x) for x in v[1:])
    if v[0] in ('sym', 'str'):
        return str(v[1])
    if v[0] == 'call':
        return v[1].split('::')[-1] + '()'
    return v[0]


def lit(v):
    """a literal text, or None"""
    if v[0] == 'str':
        return v[1]
    if v[0] == 'int' and 0 < v[1] < 256:
        return chr(v[1])
    return None


def tag(res, prog):
    fn = prog.one('CheckBase::tag')
    sp = Spec(prog)
    n = 0
    ctx = ('fld', ('this',), 'CheckBase::m_context')
    for ret, st, _ in sp.analyse(fn):
        n += 1
        nn = st.facts.get(('nn', ctx))
        tidy = st.facts.get(('fld', ctx, 'ClazyContext::m_isClangTidy'))
        if ret[0] == '?':
            res.report('tag', fn.name, fn.where(fn.body), 'cannot tell what the tag is')
        elif ret == ('str', ''):
            if nn is not False and tidy is not True:
                res.report('tag', fn.name, fn.where(fn.body), 'the tag is empty though the front end is not clang-tidy', show(st.facts))
        else:
            parts = ret[1:] if ret[0] == 'cat' else (ret,)
            s = ''.join(lit(p) or ('<name>' if p == ('fld', ('this',), 'CheckBase::m_name') else '<?>') for p in parts)
            if s != ' [-Wclazy-<name>]':
                res.report('tag', fn.name, fn.where(fn.body), 'the tag is "%s" instead of the name of the check' % s)
            if tidy is not False:
                res.report('tag', fn.name, fn.where(fn.body), 'clang-tidy, which appends the name itself, gets it twice', show(st.facts))
    res.need('tag_paths', n, 2)


def reporters(res, prog):
    """the lambdas converted to a reporter"""
    found = []
    for f in prog.funcs.values():
        if f.lambda_ and len(f.params) == 5:
            ts = [f.typ(f.tu.decls[p].get('t', -1)) for p in f.params]
            if 'SourceLocation' in ts[1] and 'Level' in ts[2] and 'FixItHint' in ts[4]:
                found.append(f)
    res.need('reporters', len(found), 2)
    for fn in found:
        name, loc, level, text, fixits = (('sym', fn.tu.decls[p]['n'] or 'arg%d' % i) for i, p in enumerate(fn.params))

        class S(Spec):
            def on_call(self, f, i, d, obj, args, st):
                q, nm = d.get('q', ''), d.get('n')
                if q in ('clang::DiagnosticsEngine::Report',):
                    st.event(('diag', args[0], args[1] if len(args) > 1 else None))
                    return ('val', ('builder',))
                if q.startswith('clang::tidy::') and nm == 'diag':
                    st.event(('diag', args[1] if len(args) > 2 else None, ('call', 'getCustomDiagID', ANY, args[3] if len(args) > 3 else None, args[2] if len(args) > 2 else None), args[0]))
                    return ('val', ('builder',))
                if nm == 'operator<<' or nm == 'AddString' or nm == 'AddFixItHint' or nm == 'addFixItHint':
                    a = ([obj] if obj is not None else []) + args
                    if a[0] == ('builder',):
                        st.event(('arg', a[1]))
                        return ('val', ('builder',))
                if f.nodes[i]['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'DiagnosticBuilder' in f.type(i) and args:
                    return ('val', ('builder',))
                return None

        sp = S(prog)
        outs = sp.analyse(fn)
        wh = fn.where(fn.body)
        for ret, st, _ in outs:
            ds = [e for e in st.events if e[0] == 'diag']
            if len(ds) != 1:
                res.report('reporter', fn.name, wh, 'a path emits %d diagnostics for one warning' % len(ds), show(st.facts))
                continue
            d = ds[0]
            if d[1] != loc:
                res.report('reporter', fn.name, wh, 'the diagnostic is emitted at another location than the one of the warning')
            idv = d[2]
            if not (idv and idv[0] == 'call' and idv[1].endswith('getCustomDiagID') and idv[3] == level):
                res.report('reporter', fn.name, wh, 'the diagnostic does not have the level of the warning')
            elif lit(idv[4]) != '%0':
                res.report('reporter', fn.name, wh, 'the diagnostic is not the text of the check: its format is %s' % text_of(idv[4]))
            if len(d) > 3 and d[3] != ('cat', ('str', 'clazy-'), name):
                res.report('reporter', fn.name, wh, 'the diagnostic is not emitted under the name of the check')
            if ('arg', text) not in st.events:
                res.report('reporter', fn.name, wh, 'the text of the warning is not part of the diagnostic', show(st.facts))
            strs = [e for e in st.events if e[0] == 'arg' and e[1] != fixits and not (e[1][0] in ('it', 'at'))]
            if strs and strs[0][1] != text:
                res.report('reporter', fn.name, wh, 'the first argument of the diagnostic is not the text of the warning')
        whole = all(('arg', fixits) in st.events for _, st, _ in outs)
        iters = [x for x in sp.iters if x[2] == ('it', fixits) or x[2][0] in ('int', 'hv')]
        if not whole:
            if not iters:
                res.report('reporter', fn.name, wh, 'the fix-its of the warning are not added to the diagnostic')
            for f, i, old, facts, events in iters:
                el = [v for v in (old, ('at', fixits, old))]
                null = [t for k, t in facts.items() if k[0] == 'call' and k[1].endswith('::isNull') and k[2] in el]
                added = any(('arg', v) in events for v in el)
                if not added and True not in null:
                    res.report('reporter', fn.name, f.where(i), 'a fix-it that is not null is left out of the diagnostic', show(facts))


def formats(res, prog):
    n = 0
    for f in prog.funcs.values():
        for i, nd in enumerate(f.nodes):
            d = f.callee(i) if nd else None
            if d and d.get('q') in FORMATS:
                n += 1
                args = nd.get('c', [])
                idx = 2 if d['q'].endswith('::diag') and len(args) > 2 else 1
                if idx < len(args):
                    a = args[idx]
                    bad = [j for j in f.walk(a) if f.nodes[j]['k'] in ('DeclRefExpr', 'MemberExpr', 'CXXMemberCallExpr') or f.nodes[j]['k'] == 'CXXOperatorCallExpr']
                    bad = [j for j in bad if not (f.decl(f.nodes[j]) or {}).get('const') and (f.decl(f.nodes[j]) or {}).get('k') != 'Function']
                    if bad:
                        res.report('format', f.name, f.where(i), 'a format string is not a literal: %s' % f.text(a)[:80])
    res.need('format_strings', n, 2)


def check(res, thorough):
    prog = Program()
    g = Gate(prog)
    forwarding(res, g)
    tag(res, prog)
    reporters(res, prog)
    formats(res, prog)
    res.assumptions.append('clang renders a diagnostic whose format is %0 as its first argument, verbatim')
