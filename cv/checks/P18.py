"""Abstract interpretation of the exporter of fix-its: on every path of its diagnostics consumer, what is appended to the list of
exported diagnostics, to the notes of the last one and to its replacements is compared with what the diagnostic at hand demands; a
use analysis finds updates that are made to a copy and lost."""
from .. import copies
from ..decide import mentions
from ..events import Rec, always, arg, arg_of_type, exhausted, fld, foreach, has_event
from ..ir import Program
from ..spec import ANY, And, Atom, Not, Or, call, eqp, match, show

X = 'FixItExporter::'
T = 'clang::tooling::'
LIST = ('fld', ANY, T + 'TranslationUnitDiagnostics::Diagnostics')
LEVEL = 'clang::DiagnosticsEngine::'
ADDS = ('push_back', 'emplace_back', 'append', 'insert', 'emplace')
CONSUMES = ('consumeError', 'toString', 'handleErrors', 'handleAllErrors', 'logAllUnhandledErrors', 'cantFail', 'errorToErrorCode', 'operator<<', 'report_fatal_error')
IN = ('fld', ('this',), X + 'Client')


class R(Rec):
    def __init__(self, prog, names):
        super().__init__(prog, names)
        self.info = None

    def on_call(self, fn, i, d, obj, args, st):
        q = d.get('q', '')
        if q == 'clang::Diagnostic::getNumFixItHints':
            return ('val', ('size', ('call', 'clang::Diagnostic::getFixItHints', obj)))
        if q == 'clang::Diagnostic::getFixItHint':
            return ('val', ('at', ('call', 'clang::Diagnostic::getFixItHints', obj), args[0]))
        return super().on_call(fn, i, d, obj, args, st)


def level(fn, name):
    return Atom('level is ' + name, eqp(('enum', LEVEL + name, ANY), arg(fn, 0)))


def check(res, thorough):
    prog = Program()
    n = received(res, prog)
    res.need('paths_of_the_consumer', n, 10)
    n = lifecycle(res, prog)
    res.need('paths_of_its_life', n, 10)
    k, lost = copies.lost_updates(prog, {T + 'Replacements'})
    for fn, i, v, src in lost:
        res.report('lost-update', fn.name, fn.where(i), '%s is a copy of %s: what is done to it here is never read' % (v, src))
    res.need('copies_examined', k, 8)
    res.assumptions += ['tooling::Replacements::add either records the replacement or answers an error',
                        'the check name and message of a diagnostic that has no warning option are taken from the "[-Wname]" at its end; only the usual way of slicing it is compared']


def message_ok(res, fn, node, m, info, facts, heap, what):
    """a DiagnosticMessage made of the text and place of the diagnostic"""
    wh = fn.where(node)
    if not (isinstance(m, tuple) and m[:2] == ('ctor', T + 'DiagnosticMessage')) or len(m) != 5:
        res.report('message', fn.name, wh, '%s is not made of a text, the source manager and a place: %s' % (what, show({m: True})))
        return
    text, sm, loc = m[2:]
    at = ('call', 'clang::Diagnostic::getLocation', info)
    macro = Atom('the place is in a macro', ('call', 'clang::SourceLocation::isMacroID', at), negs=(('call', 'clang::SourceLocation::isFileID', at),)).ev(facts)
    good = ('getFileLoc',)
    if not match(fld(('this',), X + 'SourceMgr'), sm):
        res.report('message', fn.name, wh, '%s is placed with another source manager' % what)
    if loc == at:
        if macro is not False:
            res.report('message', fn.name, wh, '%s is placed at a location in a macro, which is in no file' % what, show(facts))
    elif not (match(('call', 'clang::SourceManager::getFileLoc', ANY, at), loc) or match(('call', 'clang::SourceManager::getExpansionLoc', ANY, at), loc)):
        res.report('message', fn.name, wh, '%s is placed somewhere else than the diagnostic: %s' % (what, show({loc: True})))
    elif not loc[1].endswith(good):
        res.report('message', fn.name, wh, '%s is not placed in the file the macro is used in (%s)' % (what, loc[1]))
    opt = option_empty(facts, info)
    sliced(res, fn, wh, text, opt, what)


def option_empty(facts, info):
    return Atom('', ('empty', lambda v: v[0] == 'call' and v[1].endswith('::getWarningOptionForDiag'))).ev(facts)


def sliced(res, fn, wh, text, opt, what):
    if opt is None:
        return
    if text[0] == 'call' and text[1].endswith('::slice') and len(text) == 5:
        if opt is False:
            res.report('message', fn.name, wh, 'the text of %s is cut although its name is not part of it' % what)
        b, e = text[3:]
        if not (b == ('int', 0) and (match(('b', '-', call('::find_last_of', text[2], ('int', 91), Ellipsis), ('int', 1)), e) or match(('cat', call('::find_last_of', text[2], ('int', 91), Ellipsis), ('int', -1)), e))):
            res.report('message', fn.name, wh, 'the text of %s is not cut before " [" of the name: %s' % (what, show({text: True})))
    elif opt is True and text[0] in ('hv', 'sym', 'str', 'ctor'):
        res.report('message', fn.name, wh, 'the text of %s still has the name of the check in it' % what)


def name_ok(res, fn, node, name, info, facts, what):
    opt = option_empty(facts, info)
    wh = fn.where(node)
    if name[0] == 'call' and name[1].endswith('::getWarningOptionForDiag'):
        if opt is not False:
            res.report('name', fn.name, wh, '%s may have no name' % what, show(facts))
    elif name[0] == 'call' and name[1].endswith('::slice') and len(name) == 5:
        b, e = name[3:]
        if not (match(('cat', call('::find_last_of', name[2], ('int', 91), Ellipsis), ('int', 3)), b) and match(call('::find_last_of', name[2], ('int', 93), Ellipsis), e)):
            res.report('name', fn.name, wh, 'the name of %s is not what is between "[-W" and "]": %s' % (what, show({name: True})))
    elif name[0] in ('str', 'ctor') and not any(mentions(name, x) for x in (info,)):
        res.report('name', fn.name, wh, '%s has a name that does not come from the diagnostic' % what)


def received(res, prog):
    fn = prog.one(X + 'HandleDiagnostic')
    lvl, info = arg(fn, 0), arg(fn, 1)
    names = {k: 'stop' for k in ('HandleDiagnostic', 'add', 'Diag', 'clear', 'pop_back', 'setClient') + ADDS}
    names['FormatDiagnostic'] = 'go'
    names['add'] = ('call', 'added')
    names.update({k: 'go' for k in CONSUMES})
    rec = R(prog, names)
    outs = rec.analyse(fn)
    n = 0
    # 1. everybody else still hears of it
    n += always(res, 'forward', fn, outs, True, [('HandleDiagnostic', ('this',), lvl, info)], 'warnings and errors are counted')
    n += always(res, 'forward', fn, outs, Atom('another client', ('nn', IN)), [('HandleDiagnostic', IN, lvl, info)], 'passing the diagnostic on to the original client')
    # 2. and 4. what is recorded
    warning, note = level(fn, 'Warning'), level(fn, 'Note')
    pushed, noted = 0, 0
    flags = {k for _, st, _ in outs for k in st.heap if k[0] == ('this',)}
    for ret, st, _ in outs:
        n += 1
        wh = fn.where(fn.body)
        w, nt = warning.ev(st.facts), note.ev(st.facts)
        adds = [e for e in st.events if e[0] in ADDS and match(LIST, e[1])]
        back = lambda v: v[0] == 'call' and v[1].endswith('::back') and match(LIST, v[2]) or v[0] == 'back' and match(LIST, v[1])
        notes = [e for e in st.events if e[0] in ADDS and match(('fld', back, T + 'Diagnostic::Notes'), e[1])]
        if any(e[0] in ('clear', 'pop_back') and match(LIST, e[1]) for e in st.events):
            res.report('recorded', fn.name, wh, 'diagnostics are removed from the list', show(st.facts))
        if (adds or notes) and not any(e[0] == 'FormatDiagnostic' and e[1] == info for e in st.events):
            res.report('message', fn.name, wh, 'a diagnostic is recorded without its text', show(st.facts))
        if w is None and adds or w is True and len(adds) != 1 or w is False and adds:
            res.report('recorded', fn.name, wh, 'a path adds %d diagnostics to the list although [level is Warning] is %s' % (len(adds), w), show(st.facts))
        for e in adds:
            v = e[-1]
            pushed += 1
            if v[:2] != ('ctor', T + 'Diagnostic') or len(v) < 5:
                res.report('recorded', fn.name, wh, 'what is added to the list is not made from the diagnostic: %s' % show({v: True}), show(st.facts))
                continue
            if not any(match(('enum', T + 'Diagnostic::Warning', ANY), x) for x in v[2:]):
                res.report('recorded', fn.name, wh, 'a warning is recorded with another level', show(st.facts))
            name_ok(res, fn, fn.body, v[2], info, st.facts, 'the recorded warning')
            m = st.heap.get((v, T + 'Diagnostic::Message')) or next((x for x in v[3:] if x[:2] == ('ctor', T + 'DiagnosticMessage')), None)
            if m is None:
                res.report('message', fn.name, wh, 'a warning is recorded without a message', show(st.facts))
            else:
                message_ok(res, fn, fn.body, m, info, st.facts, st.heap, 'the recorded warning')
        # notes
        if nt is True:
            wanted = [k for k, t in st.facts.items() if k[0] == 'fld' and k[1] == ('this',)]
            flag = [st.facts[k] for k in wanted if k[2] in {x[1] for x in flags}]
            if not flag:
                res.report('notes', fn.name, wh, 'a note is %s without asking whether it belongs to a recorded warning' % ('recorded' if notes else 'not recorded'), show(st.facts))
            elif flag[0] != (len(notes) == 1):
                res.report('notes', fn.name, wh, '%d notes recorded although [follows a recorded warning] is %s' % (len(notes), flag[0]), show(st.facts))
        elif notes:
            res.report('notes', fn.name, wh, 'something that is not a note is recorded as one', show(st.facts))
        for e in notes:
            noted += 1
            if e[0] in ('append', 'insert') and len(e) == 4 and e[2][0] == 'int' and e[2][1] != 1:
                res.report('notes', fn.name, wh, 'the note is recorded %d times' % e[2][1])
            message_ok(res, fn, fn.body, e[-1], info, st.facts, st.heap, 'the note')
        # the flag
        for k in flags:
            v = st.heap.get(k)
            if w is True and v != ('c', True):
                res.report('notes', fn.name, wh, '%s is not set after a warning was recorded: its notes are lost' % k[1].split('::')[-1], show(st.facts))
            if w is False and nt is False and v != ('c', False):
                res.report('notes', fn.name, wh, '%s stays set after a diagnostic that was not recorded: its notes go to another one' % k[1].split('::')[-1], show(st.facts))
            if nt is True and v == ('c', False) and st.facts.get(('fld',) + k):
                res.report('notes', fn.name, wh, '%s is reset by a note: further ones are lost' % k[1].split('::')[-1], show(st.facts))
    res.need('recorded_warnings', pushed, 2)
    res.need('recorded_notes', noted, 2)
    # 3. its fix-its
    hints = ('call', 'clang::Diagnostic::getFixItHints', info)
    k = foreach(res, 'fixits', fn, rec, outs, hints, warning, None, lambda e: [lambda v: v[0] == 'add' and replacement_of(v, e)], 'adding the replacement of a fix-it')
    res.need('fixit_paths', k, 4)
    seen = 0
    for f, i, e, facts, ev, heap in rec.its:
        seen += adds_ok(res, fn, f, i, facts, ev, info)
    for ret, st, _ in outs:
        seen += adds_ok(res, fn, fn, fn.body, st.facts, st.events, info)
        for e in st.events:
            if e[0] == 'add':
                v = [a[-1] for a in st.events if a[0] in ADDS and match(LIST, a[1])]
                m = v and (st.heap.get((v[0], T + 'Diagnostic::Message')))
                if m and e[1][0] == 'at' and e[1][1][0] == 'fld' and e[1][1][1] != m and e[1][1][1] != ('fld', v[0], T + 'Diagnostic::Message'):
                    res.report('fixits', fn.name, fn.where(fn.body), 'the replacement is added to another message than the one that is recorded', show(st.facts))
    res.need('replacements', seen, 4)
    return n


def replacement_of(ev, e):
    """the event adds the replacement of hint e"""
    r = ev[-1]
    return r[0] == 'ctor' and r[1] == T + 'Replacement' and mentions(r, e)


def adds_ok(res, fn, f, i, facts, events, info):
    n = 0
    for e in events:
        if e[0] != 'add' or len(e) != 3:
            continue
        n += 1
        wh = f.where(i)
        r = e[2]
        if r[:2] != ('ctor', T + 'Replacement') or len(r) not in (5, 6):
            res.report('fixits', fn.name, wh, 'what is added is not a replacement made here: %s' % show({r: True}), show(facts))
            continue
        rng, text = r[3], r[4]
        H = 'clang::FixItHint::'
        if rng[0] != 'fld' or rng[2] != H + 'RemoveRange':
            res.report('fixits', fn.name, wh, 'the replacement does not cover the range to remove: %s' % show({rng: True}), show(facts))
            continue
        h = rng[1]
        code = ('fld', h, H + 'CodeToInsert')
        src = ('fld', h, H + 'InsertFromRange')
        empty = Atom('', ('empty', code)).ev(facts)
        valid = Atom('', lambda v: v[0] in ('valid', 'call') and v[-1] == src and (v[0] == 'valid' or v[1].endswith('::isValid')), negs=(call('clang::CharSourceRange::isInvalid', src),)).ev(facts)
        if text == code:
            if empty is True:
                res.report('fixits', fn.name, wh, 'a fix-it that copies text from elsewhere may be exported as a removal', show(facts))
            elif empty is None and valid is not False:
                res.report('fixits', fn.name, wh, 'the text to insert is used without asking whether it is to be copied from elsewhere', show(facts))
        elif text == ('str', ''):
            if empty is not True or valid is not False:
                res.report('fixits', fn.name, wh, 'a fix-it is exported as a removal although [no text to insert] is %s and [text to copy] is %s' % (empty, valid), show(facts))
        elif mentions(text, src):
            if empty is False:
                res.report('fixits', fn.name, wh, 'text is copied from elsewhere although there is text to insert', show(facts))
            if 'getLocForEndOfToken' not in repr(text):
                res.report('fixits', fn.name, wh, 'the copied text lacks its last token', show(facts))
            for end in ('getBegin', 'getEnd'):
                at = ('call', 'clang::CharSourceRange::' + end, src)
                if not mentions(text, at):
                    res.report('fixits', fn.name, wh, 'the copied text does not depend on the %s of the range' % end[3:].lower(), show(facts))
                    continue
                mac = facts.get(('call', 'clang::SourceLocation::isMacroID', at))
                spelled = any(mentions(text, ('call', 'clang::SourceManager::' + s, r[2], at)) for s in ('getSpellingLoc', 'getFileLoc', 'getExpansionLoc'))
                if not spelled and mac is not False:
                    res.report('fixits', fn.name, wh, 'text is read at a location in a macro, which is in no buffer', show(facts))
        else:
            res.report('fixits', fn.name, wh, 'the text of the replacement is not that of the fix-it: %s' % show({text: True}), show(facts))
        # the file it is added to
        if e[1][0] != 'at' or e[1][1][0] != 'fld' or not e[1][1][2].endswith('DiagnosticMessage::Fix'):
            res.report('fixits', fn.name, wh, 'the replacement is not added to the fixes of the message: %s' % show({e[1]: True}), show(facts))
        elif not match(call('::getFilePath', r), e[1][2]):
            res.report('fixits', fn.name, wh, 'the replacement is filed under another file than its own: %s' % show({e[1][2]: True}), show(facts))
        # an error has to be looked after
        failed = [t for k, t in facts.items() if mentions(k, ('call', 'added'))]
        if not failed:
            res.report('error', fn.name, wh, 'whether the replacement could be added is not looked at', show(facts))
        elif failed[0] and not any(x[0] in CONSUMES and mentions(x, ('call', 'added')) for x in events):
            res.report('error', fn.name, wh, 'the error of a replacement that could not be added is not consumed', show(facts))
    return n


def lifecycle(res, prog):
    n = 0
    eng = ANY
    # who it reports to, and what it starts with
    ctors = [f for f in prog.find(X + 'FixItExporter') if f.body >= 0]
    for fn in ctors:
        names = {'takeClient': ('call', 'takeClient'), 'getClient': ('call', 'getClient'), 'setClient': 'stop', 'clear': 'stop', 'push_back': 'stop'}
        standalone = Atom('clazy-standalone', arg(fn, 4) if len(fn.params) > 4 else ANY)
        outs = R(prog, names).analyse(fn)
        n += always(res, 'start', fn, outs, Not(standalone), [('clear', LIST)], 'the list starts empty with every translation unit')
        for ret, st, _ in outs:
            ev = [e[0] for e in st.events]
            wh = fn.where(fn.body)
            if st.heap.get((('this',), X + 'Client')) != ('call', 'getClient'):
                res.report('client', fn.name, wh, 'the client of the diagnostics engine is not remembered', show(st.facts))
            elif 'setClient' in ev and 'getClient' in ev[ev.index('setClient'):]:
                res.report('client', fn.name, wh, 'the client is only asked for once it has been replaced', show(st.facts))
            if st.heap.get((('this',), X + 'Owner')) != ('call', 'takeClient'):
                res.report('client', fn.name, wh, 'the client of the diagnostics engine is not kept alive', show(st.facts))
            if not any(match(('setClient', ANY, ('this',), ('c', False)), e) for e in st.events):
                res.report('client', fn.name, wh, 'the exporter does not listen to the diagnostics engine, or gives itself away to it', show(st.facts))
            f = st.heap.get((('this',), X + 'exportFixes'))
            if f != arg(fn, 3):
                res.report('start', fn.name, wh, 'the name of the file is not the one that was asked for', show(st.facts))
            fl = [v for k, v in st.heap.items() if k[0] == ('this',) and v in (('c', True), ('c', False)) and 'ecord' in k[1]]
            if ('c', True) in fl:
                res.report('notes', fn.name, wh, 'notes are recorded before any warning', show(st.facts))
    for fn in prog.find(X + '~FixItExporter'):
        outs = R(prog, {'setClient': 'stop', 'release': ('nn', ('call', 'release'))}).analyse(fn)
        n += always(res, 'client', fn, outs, Atom('a client', ('nn', IN)), [('setClient', ANY, IN, ANY)], 'giving the diagnostics engine its client back')
    # the file
    fn = prog.one(X + 'Export')
    outs = R(prog, {'operator<<': 'go', 'clear': 'stop', 'pop_back': 'stop'}).analyse(fn)
    some = Not(Atom('the list is empty', ('empty', LIST)))
    unit = lambda v: v[0] == 'glob' or v[0] == 'call' and v[1] == 'getTuDiag'
    n += always(res, 'export', fn, outs, some, [('operator<<', None, ANY, unit), ('operator<<', ANY, unit), ('operator<<', ANY, ANY, unit)], 'writing the list')
    for ret, st, _ in outs:
        for e in st.events:
            if e[0] == 'operator<<' and any(unit(x) for x in e[1:] if isinstance(x, tuple)) and not mentions(e, ('fld', ('this',), X + 'exportFixes')):
                res.report('export', fn.name, fn.where(fn.body), 'the list is not written to the file that was asked for', show({e: True}))
    fn = prog.one(X + 'BeginSourceFile')
    outs = R(prog, {'BeginSourceFile': 'stop'}).analyse(fn)
    n += always(res, 'forward', fn, outs, Atom('another client', ('nn', IN)), [('BeginSourceFile', IN, arg(fn, 0), arg(fn, 1))], 'telling the original client that a file begins')
    for ret, st, _ in outs:
        v = [v for k, v in st.heap.items() if k[1].endswith('::MainSourceFile')]
        entry = [t for k, t in st.facts.items() if k[0] == 'nn' and 'getMainFileID' in repr(k)]
        if not v:
            res.report('export', fn.name, fn.where(fn.body), 'the main file is not recorded', show(st.facts))
        elif entry != [False] and not (mentions(v[0], 'clang::SourceManager::getMainFileID') and mentions(v[0], 'clang::FileEntryRef::getName')):
            res.report('export', fn.name, fn.where(fn.body), 'what is recorded as the main file is not its name: %s' % show({v[0]: True}), show(st.facts))
    for q in ('EndSourceFile',):
        for fn in prog.find(X + q):
            outs = R(prog, {q: 'stop'}).analyse(fn)
            n += always(res, 'forward', fn, outs, Atom('another client', ('nn', IN)), [(q, IN)], 'telling the original client that a file ends')
    # its own diagnostics go to the original client and don't come back
    fn = prog.one(X + 'Diag')
    for ret, st, _ in R(prog, {'setClient': 'stop', 'Report': 'stop'}).analyse(fn):
        n += 1
        ev = [(e[0], e[2] if len(e) > 2 else None) for e in st.events]
        rep = [i for i, e in enumerate(ev) if e[0] == 'Report']
        before = [e[1] for e in ev[:rep[0]] if e[0] == 'setClient'] if rep else []
        after = [e[1] for e in ev[rep[0]:] if e[0] == 'setClient'] if rep else []
        if not rep or arg(fn, 1) not in st.events[[i for i, e in enumerate(st.events) if e[0] == 'Report'][0]]:
            res.report('client', fn.name, fn.where(fn.body), 'the diagnostic is not reported')
        if before[-1:] != [IN]:
            res.report('client', fn.name, fn.where(fn.body), 'the exporter would record its own diagnostic')
        if after[-1:] != [('this',)]:
            res.report('client', fn.name, fn.where(fn.body), 'the exporter does not listen to the diagnostics engine any more after a diagnostic of its own')
        if any(e[0] == 'setClient' and e[-1] != ('c', False) for e in st.events):
            res.report('client', fn.name, fn.where(fn.body), 'the diagnostics engine is given a client that it does not own')
    # written when the context goes away, told when the translation unit is there
    ex = ('fld', ('this',), 'ClazyContext::exporter')
    fn = prog.one('ClazyContext::~ClazyContext')
    outs = R(prog, {'Export': 'stop'}).analyse(fn)
    n += always(res, 'export', fn, outs, Atom('exporting', ('nn', ex)), [('Export', ex)], 'writing the file when the context goes away')
    fn = prog.one('ClazyASTConsumer::HandleTranslationUnit')
    outs = R(prog, {'BeginSourceFile': 'stop', 'TraverseDecl': 'stop', 'matchAST': 'stop'}).analyse(fn)
    cx = ('fld', ('fld', ('this',), 'ClazyASTConsumer::m_context'), 'ClazyContext::exporter')
    n += always(res, 'export', fn, outs, Atom('exporting', ('nn', cx)), [('BeginSourceFile', cx, Ellipsis)], 'telling the exporter the main file')
    # nobody else touches the list
    for f in prog.funcs.values():
        if f.q.startswith(X):
            continue
        for i in f.all_nodes():
            nn = f.nodes[i]
            if nn['k'] == 'MemberExpr' and ((f.decl(nn) or {}).get('q') or '').startswith(T + 'TranslationUnitDiagnostics::'):
                res.report('recorded', f.name, f.where(i), 'the list of exported diagnostics is touched outside the exporter')
            d = f.callee(i)
            if d and d['q'] in ('clang::DiagnosticsEngine::setClient', 'clang::DiagnosticsEngine::takeClient'):
                res.report('client', f.name, f.where(i), 'the client of the diagnostics engine is replaced behind the exporter')
    return n
