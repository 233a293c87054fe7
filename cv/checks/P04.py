"""Abstract interpretation of the suppression manager: the answer of isSuppressed is compared, on every path and in every
iteration, with a three-valued formula over what was recorded for the file and line; what the parser records for a
comment is compared, per comment and on every path, with the recording the comment asks for; every comment token up to
and including the last one is examined, and recorded suppressions are never removed or overwritten."""
from ..decide import mentions
from ..ir import Program
from ..spec import ANY, And, Atom, Exists, Not, Or, Spec, call, decision, elem, eqp, match, show

S = 'SuppressionManager::Suppressions::'
FILES = 'SuppressionManager::m_processedFileIDs'
ADD = ('insert', 'emplace', 'push_back', 'emplace_back', 'try_emplace', 'insert_or_assign')


def strings(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'str':
            acc.add(v[1])
        else:
            for x in v:
                strings(x, acc)
    return acc


def fields(v):
    if isinstance(v, tuple):
        if v and v[0] == 'fld' and len(v) == 3:
            yield v[2]
        for x in v:
            yield from fields(x)


def is_suppressed(res, prog):
    fn = prog.one('SuppressionManager::isSuppressed')
    ps = {fn.typ(fn.tu.decls[p].get('t', -1)): ('sym', fn.tu.decls[p]['n']) for p in fn.params}
    loc = next(v for t, v in ps.items() if 'SourceLocation' in t)
    name = next(v for t, v in ps.items() if 'basic_string' in t)
    exp = call('clang::SourceManager::getExpansionLoc', ANY, loc)
    L = lambda v: v == loc or match(exp, v)
    fid = call('clang::SourceManager::getFileID', ANY, L)
    rec = lambda v: FILES in set(fields(v)) and any_match(fid, v)
    F = lambda n: ('fld', rec, S + n)
    line = lambda v: match(call('clang::SourceManager::getSpellingLineNumber', ANY, L, ...), v) or match(call('clang::SourceManager::getExpansionLineNumber', ANY, L, ...), v)
    wild = ('range', F('checkWildcardsToSkipByLine'), line)
    ranges = F('checkWildcardsRanges')
    rg = elem(ranges)
    C = 'SuppressionManager::CheckBeginAndEnd::'
    rw = ('fld', rg, C + 'checksToSkipWildcard')

    def pair(v):
        return v[0] in ('ctor', 'pair') and len(v) >= 3 and match(line, v[-2]) and v[-1] == name
    f = And(Atom('file known', ('valid', fid)),
            Or(Atom('whole file skipped', F('skipEntireFile')),
               Atom('check excluded for the file', ('has', F('checksToSkip'), name)),
               And(Atom('location valid', ('valid', L)),
                   Or(Atom('line skipped', ('has', F('skipNextLine'), line)),
                      Atom('check excluded on the line', ('has', F('checksToSkipByLine'), pair)),
                      Exists('wildcard on the line', wild, Atom('wildcard matches', ('match', ('fld', elem(wild), 'second'), name, ...))),
                      Exists('range', ranges, And(Not(Atom('before the range', ('lt', line, ('fld', rg, C + 'begin')))), Not(Atom('after the range', ('lt', ('fld', rg, C + 'end'), line))),
                                                  Or(Atom('range for all checks', ('empty', rw)), Exists('wildcard of the range', rw, Atom('wildcard matches', ('match', elem(rw), name, ...))))))))))

    class Q(Spec):
        def on_call(self, f2, i, d, obj, args, st):
            if d.get('q') == 'SuppressionManager::parseFile':
                st.event(('parsed',))
            if d.get('n') in ADD + ('erase', 'clear', 'swap', 'extract', 'merge') and obj is not None and any(x.startswith(S) for x in fields(obj)):
                res.report('query-changes-record', f2.name, f2.where(i), 'asking whether a location is suppressed changes what was recorded')
            return None

    sp = Q(prog, ('SuppressionManager::parseFile',))
    n = decision(res, 'is-suppressed', prog, fn, f, what='whether a location is suppressed', spec=sp)
    outs = sp.analyse(fn)
    for ret, st, _ in outs:
        if any(S in str(k[1]) for k in st.heap):
            res.report('query-changes-record', fn.name, fn.where(fn.body), 'asking whether a location is suppressed changes what was recorded')
        mac = st.facts.get(('call', 'clang::SourceLocation::isMacroID', loc))
        if mac is not False:
            raw = [k for k in st.facts if any_match(call('clang::SourceManager::getFileID', ANY, loc), k) or any_match(call('clang::SourceManager::getSpellingLineNumber', ANY, loc, ...), k)]
            if raw:
                res.report('macro-location', fn.name, fn.where(fn.body), 'a location inside a macro is looked up without going to where the macro is expanded', show(st.facts))
        seen = [t for k, t in st.facts.items() if k[0] == 'has' and FILES in set(fields(k[1])) and not any(x.startswith(S) for x in fields(k))]
        if any(k for k in st.facts if any(x.startswith(S) for x in fields(k))) and True not in seen and ('parsed',) not in st.events:
            res.report('unparsed-file', fn.name, fn.where(fn.body), 'what is recorded for a file is consulted though the file may not have been parsed', show(st.facts))
    res.need('query_paths', n, 5)


def any_match(p, v):
    if match(p, v):
        return True
    return isinstance(v, tuple) and any(any_match(p, x) for x in v)


class Parse(Spec):
    def __init__(self, prog, res):
        super().__init__(prog, ('parseDisabledChecks', 'splitDisabledChecksText', 'clazy::splitString'))
        self.res = res
        self.obs = []
        self.per_comment = []
        self.main = self.entry = None

    def on_call(self, fn, i, d, obj, args, st):
        nm, q = d.get('n'), d.get('q', '')
        if q.startswith('std::regex_search') or q.startswith('std::regex_match'):
            lit = next((x for x in map(self.regex_text, args[1:]) if x), None)
            subj = next((a for a in args if any_match(lambda v: isinstance(v, tuple) and v[:2] == ('call', 'clang::Lexer::getSpelling'), a)), ('none',))
            self.havoc_after(self.frame, st, i, d, obj)
            return ('val', ('re', lit, self.comment(subj)))
        if obj is not None and nm in ADD and any(x.startswith(S) for x in fields(obj)):
            fld = next(x for x in fields(obj) if x.startswith(S))[len(S):]
            o = ('add', fld, tuple(args))
            st.event(o)
            self.obs.append((fn, i, o, dict(st.facts)))
            return ('val', ('void',))
        if (nm in ('copy', 'move') or nm == 'operator()' and q.startswith(('std::ranges::__copy', 'std::ranges::__move'))) and q.startswith('std::') and len(args) > 1:
            to = [a for a in args if isinstance(a, tuple) and a[0] == 'call' and str(a[1]).endswith('inserter') and any(x.startswith(S) for x in fields(a))]
            if len(to) == 1:
                fld = next(x for x in fields(to[0]) if x.startswith(S))[len(S):]
                o = ('add', fld, tuple(a for a in args if a != to[0]))
                st.event(o)
                self.obs.append((fn, i, o, dict(st.facts)))
                return ('val', ('void',))
        if obj is not None and nm in ('erase', 'clear', 'pop_back', 'swap', 'extract') and (any(x.startswith(S) for x in fields(obj)) or FILES in set(fields(obj))):
            self.res.report('record-lost', fn.name, fn.where(i), 'a recorded suppression is removed')
        if obj is not None and self.is_stack(fn, i) and nm in ('push', 'emplace', 'pop', 'push_back', 'emplace_back', 'pop_back'):
            e = ('close',) if nm.startswith('pop') else ('open', tuple(args))
            st.event(e)
            if e[0] == 'open':
                self.obs.append((fn, i, e, dict(st.facts)))
            # from here on, nothing is known about what is on it
            k = int(obj[1].split()[1].strip('>')) + 1 if obj[0] == 'sym' and str(obj[1]).startswith('<ranges') else 1
            self.mutate(self.frame, st, fn.nodes[i].get('o', -1), ('sym', '<ranges %d>' % min(k, 4)))
            return ('val', ('void',))
        return None

    def is_stack(self, fn, i):
        t = fn.type(fn.nodes[i].get('o', -1)).replace('const ', '')
        return t.startswith(('std::stack<', 'std::vector<', 'std::deque<')) and 'pair' in t

    def call(self, fr, st, i):
        self.frame = fr
        return super().call(fr, st, i)

    def regex_text(self, v):
        """the pattern behind a regular expression object"""
        if v[0] != 'glob':
            return next((x for x in strings(v) if len(x) > 3), None) if v[0] in ('ctor', 'str', 'upd') else None
        if not hasattr(self, '_rx'):
            self._rx = {}
            for f in self.prog.funcs.values():
                if not f.where(f.body).startswith('src/SuppressionManager'):
                    continue
                for j, n in enumerate(f.nodes):
                    if n and n['k'] == 'DeclRefExpr' and 'basic_regex' in f.type(j):
                        d = f.tu.decls[n['d']]
                        k = f.local_init(n['d'])
                        if k is not None and k >= 0:
                            self._rx[d.get('q') or d['n']] = self._rx[d['n']] = next((f.nodes[m].get('v') for m in f.walk(k) if f.nodes[m]['k'] == 'StringLiteral'), None)
            for (q, l), g in self.prog.globals.items():
                for n in g.get('nodes') or ():
                    if n and n['k'] == 'StringLiteral':
                        self._rx.setdefault(q, n.get('v'))
        return self._rx.get(v[1])

    @staticmethod
    def comment(v):
        """the comment a value was computed from"""
        if isinstance(v, tuple):
            if v[:2] == ('call', 'clang::Lexer::getSpelling'):
                return v
            for x in v:
                r = Parse.comment(x)
                if r:
                    return r
        return None

    def on_iter(self, fn, i, old, facts, st):
        super().on_iter(fn, i, old, facts, st)

    def on_back(self, fr, st, b, head):
        self.backs.append((fr.fn, b, head, dict(st.facts), st.events, dict(st.heap)))
        if fr.fn is self.entry and self.main == head:
            st.event(('again', head))
            st.events = tuple(e for e in st.events if e[0] not in ('open', 'close'))
            rg = lambda v: isinstance(v, tuple) and v[0] == 'sym' and str(v[1]).startswith('<ranges')
            for k, v in fr.env.items():
                if rg(v):
                    fr.env[k] = ('sym', '<ranges 0>')
            for k in [k for k in st.facts if any_match(rg, k)]:
                del st.facts[k]


def main_loop(fn):
    """the loop over the tokens: the outermost one"""
    back = [(s - b, s) for b, blk in fn.blocks.items() for s in blk['su'] if s >= b]
    return max(back, default=(0, None))[1]


def parse_file(res, prog):
    fn = prog.one('SuppressionManager::parseFile')
    sp = Parse(prog, res)
    sp.backs = []
    main = sp.main = main_loop(fn)
    sp.entry = fn
    outs = sp.analyse(fn)
    res.need('parse_paths', len(outs), 3)
    res.need('recording_sites', len({(f.key, i) for f, i, _, _ in sp.obs}), 1)
    comments = [(b, f, e, h) for (g, b, head, f, e, h) in sp.backs if g is fn and head == main and any('clang::tok::comment' in repr(k) for k in f)]
    comments += [(None, st.facts, st.events, st.heap) for ret, st, _ in outs if any('clang::tok::comment' in repr(k) for k in st.facts) and ('again', main) not in st.events]
    res.need('comment_paths', len(comments), 5)
    where = fn.where(fn.body)
    rep = lambda rule, what, facts: res.report(rule, fn.name, where, what, show(facts))

    line0 = lambda v: isinstance(v, tuple) and v[:2] == ('call', 'clang::SourceManager::getSpellingLineNumber') and any_match(lambda x: isinstance(x, tuple) and x[:2] == ('call', 'clang::Token::getLocation'), v)
    line1 = lambda v: isinstance(v, tuple) and v[0] == 'cat' and len(v) == 3 and line0(v[1]) and v[2] == ('int', 1)

    def mentions_text(t, exclude=()):
        def pat(k):
            s = strings(k)
            return t in s and not any(x in s for x in exclude)
        return pat

    def regex(facts, tag):
        for k, t in facts.items():
            if k[0] == 're' and k[1] and k[1].startswith(tag):
                return t
        return None
    has = lambda facts, t: next((v for k, v in facts.items() if k[0] == 'has' and len(k) >= 3 and k[2] == ('str', t)), None)
    nextline = lambda facts: next((v for k, v in facts.items() if k[0] != 'has' and any('NEXTLINE' in x for x in strings(k)) or k[0] == 'has' and k[2] == ('str', 'NOLINTNEXTLINE')), None)
    ALL, CUR, NEXT = 'clazy:excludeall=', 'clazy:exclude=', 'clazy:exclude-next-line='
    kinds = {}
    is_list = lambda v: isinstance(v, tuple) and v[0] == 'call' and v[1].endswith('splitString') and ('int', 44) in v
    is_entry = lambda v: isinstance(v, tuple) and v[0] == 'it' and is_list(v[1])
    # the list itself, or from its beginning to its end
    all_of = lambda args: any(is_list(a) for a in args) or any(is_entry(a) and b == ('end', a[1]) for a, b in zip(args, args[1:]))
    for g, i, old, f, ev in sp.iters:
        tags = [t for t in (ALL, CUR, NEXT) if regex(f, t)]
        if tags and is_entry(old) and not any(e[0] == 'add' and e[1] in ('checksToSkip', 'checksToSkipByLine') and any_match(lambda v: v == old, e[2]) for e in ev):
            res.report('comment-ignored', g.name, g.where(i), tags[0][:-1] + ': an entry of the list is passed over', show(f))
    for b, f, ev, heap in comments:
        is_c = next(t for k, t in f.items() if 'clang::tok::comment' in repr(k))
        adds = [e for e in ev if e[0] in ('add', 'open', 'close') and not (e[0] == 'add' and e[1] == '')]
        skipset = any(k[1] == S + 'skipEntireFile' and v == ('c', True) for k, v in heap.items())
        if not is_c:
            if adds:
                rep('records-without-comment', 'something is recorded for a token that is not a comment', f)
            continue
        by = {}
        for e in adds:
            by.setdefault(e[1] if e[0] == 'add' else e[0], []).append(e)
        # clazy: comments
        tag, skip = has(f, 'clazy:'), has(f, 'clazy:skip')
        if tag is None and skip is None:
            rep('comment-ignored', 'a comment has been dealt with without looking for clazy: in it', f)
        elif tag is not False:
            if skip is None:
                rep('comment-ignored', 'a clazy: comment has been dealt with without looking for clazy:skip in it', f)
            elif skip and not skipset:
                rep('comment-ignored', 'clazy:skip does not make the file skipped', f)
            elif not skip:
                ra, rc, rn = regex(f, ALL), regex(f, CUR), regex(f, NEXT)
                kinds['clazy'] = kinds.get('clazy', 0) + 1
                for said, fld, text in ((ra, 'checksToSkip', ALL), (rc, 'checksToSkipByLine', CUR), (rn, 'checksToSkipByLine', NEXT)):
                    if said and not (said is rc and text == CUR and ra) and not (text == NEXT and (ra or rc)):
                        # all at once, or one by one to the end of the list
                        whole = any(all_of(e[2]) for e in by.get(fld, ()))
                        if not whole and not any(k[0] == 'eq' and t and any(a[0] == 'end' and is_list(a[1]) for a in k[1:]) for k, t in f.items()):
                            rep('comment-ignored', text[:-1] + ' does not record what it lists', f)
                if ra is not True and rc is None or ra is not True and rc is not True and rn is None:
                    rep('comment-ignored', 'a clazy: comment has been dealt with without looking for all the forms of clazy:exclude in it', f)
        if skipset and skip is not True:
            rep('file-skipped', 'the whole file is skipped though the comment does not say clazy:skip', f)
        # NOLINT comments
        nl = has(f, 'NOLINT')
        anynl = any('NOLINT' in x for k in f for x in strings(k))
        if not anynl:
            rep('comment-ignored', 'a comment has been dealt with without looking for NOLINT in it', f)
        begin, end = has(f, 'NOLINTBEGIN'), has(f, 'NOLINTEND')
        if nl is not False and not (skipset and nl is None):
            kinds['nolint'] = kinds.get('nolint', 0) + 1
            if begin:
                if not by.get('open'):
                    rep('comment-ignored', 'NOLINTBEGIN does not open a range', f)
            elif end:
                if by.get('checkWildcardsRanges') and not by.get('close'):
                    rep('wrong-record', 'a range stays open after its NOLINTEND', f)
                empty = lambda what: [t for k, t in f.items() if k[0] == 'empty' and what(k[1])]
                given = empty(lambda v: v[0] == 'fld' and v[2] == 'second' and any_match(lambda x: isinstance(x, tuple) and x[0] == 'sym' and str(x[1]).startswith('<ranges'), v))
                ours = empty(lambda v: any_match(lambda x: isinstance(x, tuple) and x[:2] == ('call', 'splitDisabledChecksText'), v))
                if by.get('close') and not by.get('checkWildcardsRanges') and not (False in given and True in ours):
                    rep('comment-ignored', 'a range of NOLINTBEGIN and NOLINTEND that concerns our checks is not recorded', f)
                if not by.get('close') and not by.get('checkWildcardsRanges') and any(k[0] == 'eq' and t and any_match(lambda x: x == ('str', 'NOLINTEND'), k) for k, t in f.items()):
                    rep('comment-ignored', 'a range is not closed by its NOLINTEND', f)
            elif nl:
                dis = [(k, t) for k, t in f.items() if k[0] == 'empty' and any_match(lambda v: isinstance(v, tuple) and v[:2] == ('call', 'parseDisabledChecks'), k)]
                alls = any(t for k, t in dis if k[1][:2] == ('call', 'parseDisabledChecks'))
                if alls and not by.get('skipNextLine'):
                    rep('comment-ignored', 'NOLINT without a list of checks does not skip its line', f)
        for e in by.get('skipNextLine', ()):
            kinds['line'] = kinds.get('line', 0) + 1
    res.coverage['comment_kinds'] = sum(kinds.values())
    def pdc(tag):
        """the list in parentheses right after the tag"""
        return lambda v: isinstance(v, tuple) and v[:2] == ('call', 'parseDisabledChecks') and v[-1][0] == 'cat' and sum(x[1] for x in v[-1][1:] if x[0] == 'int') == len(tag) and any_match(lambda x: x == ('str', tag), v[-1])
    # each recording site
    for f2, i, o, facts in sp.obs:
        wh = f2.where(i)

        def bad(rule, what):
            res.report(rule, f2.name, wh, what, show(facts))
        if o[0] == 'open':
            v = o[1][0] if len(o[1]) == 1 else o[1]
            if has(facts, 'NOLINTBEGIN') is not True or not any(line0(x) for x in sub(v)) or any(line1(x) for x in sub(v)):
                bad('wrong-record', 'a range is opened without a NOLINTBEGIN comment, or not at its line')
            continue
        fld, args = o[1], o[2]
        a = list(sub(args))
        lines = [x for x in a if line0(x) or line1(x)]
        lines = [x for x in lines if not any(y is not x and mentions(y, x) and line1(y) for y in lines)]
        if fld == 'skipEntireFile':
            continue
        if fld in ('skipNextLine', 'checkWildcardsToSkipByLine'):
            nx = nextline(facts)
            if has(facts, 'NOLINT') is not True and nx is not True:
                bad('wrong-record', 'a line is skipped without a NOLINT comment')
            if has(facts, 'NOLINTBEGIN') is not False or has(facts, 'NOLINTEND') is not False:
                bad('wrong-record', 'a line is skipped by a comment that may be NOLINTBEGIN or NOLINTEND')
            if nx is None or not lines or any((line1(x)) != nx for x in lines):
                bad('wrong-line', 'NOLINT and NOLINTNEXTLINE do not skip their own and the next line, respectively')
            if fld == 'skipNextLine' and not any(k[0] == 'empty' and t and k[1][:2] == ('call', 'parseDisabledChecks') for k, t in facts.items()):
                bad('wrong-record', 'a line is skipped for all checks though the comment may list some')
            if fld != 'skipNextLine' and not any_match(lambda v: isinstance(v, tuple) and v[:2] == ('call', 'splitDisabledChecksText'), args):
                bad('wrong-record', 'what is recorded for the line is not the list of checks in the comment')
        elif fld in ('checksToSkip', 'checksToSkipByLine'):
            which = [t for t in (ALL, CUR, NEXT) if regex(facts, t)]
            want = {'checksToSkip': (ALL,), 'checksToSkipByLine': (CUR, NEXT)}[fld]
            if len(which) != 1 or which[0] not in want:
                bad('wrong-record', 'recorded as %s by a comment that does not say so' % fld)
                continue
            if has(facts, 'clazy:') is not True or has(facts, 'clazy:skip') not in (False,):
                pass
            if fld == 'checksToSkipByLine':
                if len(lines) != 1 or line1(lines[0]) != (which[0] == NEXT):
                    bad('wrong-line', '%s does not apply to the %s line' % (which[0], 'next' if which[0] == NEXT else 'same'))
            if not any_match(lambda v: isinstance(v, tuple) and v[0] == 'call' and v[1].endswith('splitString') and ('int', 44) in v, args):
                bad('wrong-record', 'what is recorded is not the comma separated list of the comment')
        elif fld == 'checkWildcardsRanges':
            if has(facts, 'NOLINTEND') is not True:
                bad('wrong-record', 'a range is recorded without a NOLINTEND comment')
            top = lambda v: isinstance(v, tuple) and any_match(lambda x: isinstance(x, tuple) and x[0] == 'sym' and str(x[1]).startswith('<ranges'), v)
            first = lambda v: isinstance(v, tuple) and v[0] == 'fld' and v[2] == 'first' and top(v)
            shape = [x for x in sub(args) if x[0] in ('list', 'ctor') and len(x) >= 4 and any(y == z for y in x for z in lines)]
            for x in shape:
                if not (first(x[-2]) and line0(x[-1])):
                    bad('wrong-line', 'the lines of a range are not those of its NOLINTBEGIN and NOLINTEND')
            if not any(k[0] == 'eq' and t and any(any_match(lambda v: isinstance(v, tuple) and v[0] == 'fld' and v[2] == 'second' and top(v), x) for x in k[1:]) and any(any_match(pdc('NOLINTEND'), x) for x in k[1:]) for k, t in facts.items()):
                bad('wrong-record', 'a range is recorded though NOLINTEND may list other checks than its NOLINTBEGIN')
            given = [t for k, t in facts.items() if k[0] == 'empty' and k[1][0] == 'fld' and k[1][2] == 'second' and top(k[1])]
            ours = [t for k, t in facts.items() if k[0] == 'empty' and any_match(lambda v: isinstance(v, tuple) and v[:2] == ('call', 'splitDisabledChecksText'), k)]
            if True not in given and False not in ours:
                bad('wrong-record', 'a range for checks of other tools only is recorded as one for all checks')
    # each entry of a list
    n = 0
    for g, i, old, facts, ev in sp.iters:
        what = next((w for w in ('splitDisabledChecksText', 'clazy::splitString') if old[0] == 'it' and old[1][:2] == ('call', w)), None)
        if not what:
            continue
        n += 1
        if not any(e[0] == 'add' and mentions(e, old) for e in ev):
            res.report('list-entry', g.name, g.where(i), 'an entry of the list of checks in a comment is not recorded', show(facts))
        if what == 'clazy::splitString' and old[1][-1] != ('int', 44):
            res.report('list-entry', g.name, g.where(i), 'the list of checks in a comment is not split at commas')
    res.coverage['list_entries'] = n
    # which forms exist at all
    forms = {k[1] for _, f, _, _ in comments for k in f if k[0] == 're' and k[1]}
    for t in (ALL, CUR, NEXT):
        if not any(x.startswith(t) for x in forms):
            res.report('comment-ignored', fn.name, where, 'no comment is searched for %s' % t)


def sub(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from sub(x)


def all_tokens(res, prog):
    """the last token (a comment at the end of the file) is examined as well"""
    fn = prog.one('SuppressionManager::parseFile')
    sp = Parse(prog, res)
    sp.backs = []
    sp.main, sp.entry = main_loop(fn), fn
    seen = {True: 0, False: 0}
    for ret, st, _ in sp.analyse(fn):
        last = [(k, t) for k, t in st.facts.items() if k[0] == 'call' and k[1].endswith('LexFromRawLexer')]
        kind = [k for k in st.facts if 'clang::tok::comment' in repr(k)]
        if last and last[-1][1] and not kind:
            res.report('last-token', fn.name, fn.where(fn.body), 'parsing ends without having looked at the last token', show(st.facts))
        if last:
            seen[last[-1][1]] += 1
    res.coverage['paths_to_end_of_file'] = seen[True]
    lits = {nd.get('v') for f in [fn] for nd in f.nodes if nd and nd['k'] == 'CXXBoolLiteralExpr'}
    retain = [i for i, nd in enumerate(fn.nodes) if nd and (fn.callee(i) or {}).get('n') == 'SetCommentRetentionState']
    if not retain:
        res.report('comments-dropped', fn.name, fn.where(fn.body), 'the lexer is not told to keep comments')


def globs(res, prog):
    """a list entry: clazy-<glob> or *, anchored at both ends"""
    fn = prog.one('splitDisabledChecksText')

    class G(Spec):
        def on_call(self, f, i, d, obj, args, st):
            if d.get('n') in ('push_back', 'emplace_back') and 'vector' in d.get('q', '') and 'Regex' in d.get('q', '') + f.type(f.nodes[i].get('o', -1)):
                st.event(('pattern', args[0]))
                return ('val', ('void',))
            if d.get('n') == 'consume_front' and args and args[0][0] == 'str':
                return ('val', ('prefix', args[0][1]))
            return None

    sp = G(prog, ('createRegexFromGlob', 'clazy::splitString'))
    sp.analyse(fn)
    n = 0
    for f, i, old, facts, ev in sp.iters:
        if old[0] != 'it' and old[0] != 'hv':
            continue
        n += 1
        if old[0] == 'it' and old[1][:2] == ('call', 'clazy::splitString') and old[1][-1] != ('int', 44):
            res.report('list-entry', fn.name, f.where(i), 'the list of checks in a comment is not split at commas')
        pre = facts.get(('prefix', 'clazy-'))
        star = next((t for k, t in facts.items() if k[0] == 'eq' and ('str', '*') in k[1:]), None)
        pushed = any(e[0] == 'pattern' for e in ev)
        if pre is None and star is not True:
            res.report('list-entry', fn.name, f.where(i), 'an entry of a NOLINT list has been dealt with without looking for the clazy- prefix', show(facts))
        elif (pre or star) and not pushed:
            res.report('list-entry', fn.name, f.where(i), 'an entry of a NOLINT list that names clazy checks is dropped', show(facts))
        elif not pre and star is not True and pushed:
            res.report('list-entry', fn.name, f.where(i), 'an entry of a NOLINT list that is not about clazy is recorded', show(facts))
        elif not pre and star is None:
            res.report('list-entry', fn.name, f.where(i), 'an entry of a NOLINT list is dropped without comparing it to *', show(facts))
    res.need('list_entry_paths', n, 1)

    fn = prog.one('createRegexFromGlob')

    class B(Spec):
        def on_call(self, f, i, d, obj, args, st):
            if d.get('n') in ('push_back', 'append') and 'basic_string' in d.get('q', '') and args:
                st.event(('out', args[0]))
                return ('val', ('void',))
            if f.nodes[i]['k'] == 'CXXOperatorCallExpr' and f.nodes[i]['op'] == '+=' and 'basic_string' in d.get('q', ''):
                st.event(('out', args[-1]))
                return ('val', ('void',))
            return None

    sp = B(prog)
    outs = sp.analyse(fn)
    n = 0
    for f, i, old, facts, ev in sp.iters:
        if old[0] != 'it':
            continue
        n += 1
        out = [e[1] for e in ev if e[0] == 'out']
        star = next((t for k, t in facts.items() if k[0] == 'eq' and ('int', 42) in k[1:]), None)
        meta = next((t for k, t in facts.items() if k[0] == 'has'), None)
        if old not in out:
            res.report('glob', fn.name, f.where(i), 'a character of a glob is left out of its pattern', show(facts))
        if star and ('int', 46) not in out:
            res.report('glob', fn.name, f.where(i), '* does not match anything', show(facts))
        if star is not True and meta is not False and ('int', 92) not in out:
            res.report('glob', fn.name, f.where(i), 'a character with a meaning in regular expressions is not escaped', show(facts))
    res.need('glob_paths', n, 2)
    first = last = False
    for ret, st, _ in outs:
        if ('int', 36) not in [e[1] for e in st.events if e[0] == 'out'] and '$' not in repr(ret):
            res.report('glob', fn.name, fn.where(fn.body), 'the pattern of a glob is not anchored at its end')
    starts = any(nd and nd['k'] == 'StringLiteral' and nd.get('v', '').startswith('^') for nd in fn.nodes) or any(nd and nd['k'] == 'CharacterLiteral' and nd.get('v') == '94' for nd in fn.nodes)
    if not starts:
        res.report('glob', fn.name, fn.where(fn.body), 'the pattern of a glob is not anchored at its start')


def list_text(res, prog):
    """the list of checks is what is between the parentheses"""
    fn = prog.one('parseDisabledChecks')
    sp = Spec(prog)
    n = 0
    ps = [('sym', fn.tu.decls[p]['n']) for p in fn.params]
    for ret, st, _ in sp.analyse(fn):
        if ret[0] != 'call' or not ret[1].endswith(('::substr', '::slice')) or ret[2] != ps[0]:
            continue
        n += 1
        par = [k[2] for k, t in st.facts.items() if k[0] == 'has' and t and k[1] == ps[0] and k[2] == ('int', 41)]
        lo, hi = lin(ret[3]), lin(ret[4]) if len(ret) > 4 else None
        close = {('find', ps[0], ('int', 41), ps[1]): 1}
        want_lo = {ps[1]: 1, 1: 1}
        want_hi = {('find', ps[0], ('int', 41), ps[1]): 1, ps[1]: -1, 1: -1} if ret[1].endswith('substr') else close
        if lo is None or hi is None:
            continue
        if lo != want_lo or hi != want_hi:
            res.report('list-text', fn.name, fn.where(fn.body), 'the list of checks of a comment is not the text between its parentheses', show(st.facts))
        if not par:
            res.report('list-text', fn.name, fn.where(fn.body), 'the list of checks is cut out of a comment without a closing parenthesis', show(st.facts))
    res.coverage['list_texts'] = n


def lin(v, k=1, acc=None):
    """a sum as {term: factor}; 1 stands for the constant"""
    top = acc is None
    acc = {} if top else acc
    if v[0] == 'int':
        acc[1] = acc.get(1, 0) + k * v[1]
    elif v[0] == 'cat':
        for x in v[1:]:
            lin(x, k, acc)
    elif v[0] == 'b' and v[1] == '-':
        lin(v[2], k, acc)
        lin(v[3], -k, acc)
    elif v[0] in ('sym', 'find', 'call', 'fld', 'size', 'it', 'end'):
        acc[v] = acc.get(v, 0) + k
    else:
        acc[v] = acc.get(v, 0) + k
    return {t: c for t, c in acc.items() if c} if top else None


def containers(res, prog):
    """several suppressions may share a line: nothing keyed by line alone may keep only one"""
    r = prog.records.get('SuppressionManager::Suppressions')
    if not r:
        from ..extract import AnalysisBroken
        raise AnalysisBroken('record SuppressionManager::Suppressions not found')
    n = 0
    for f in r['fields']:
        t = r['tu'].types[f['t']] if isinstance(f, dict) and isinstance(f.get('t'), int) else str(f)
        n += 1
        if t.startswith(('std::map<', 'std::unordered_map<')) and 'Regex' in t and 'vector' not in t and 'set<' not in t:
            res.report('record-lost', 'SuppressionManager::Suppressions', 'src/SuppressionManager.h', 'only one suppression per line can be recorded in a %s' % t.split('<')[0])
    res.need('record_fields', n, 2)


def check(res, thorough):
    prog = Program()
    is_suppressed(res, prog)
    parse_file(res, prog)
    all_tokens(res, prog)
    globs(res, prog)
    list_text(res, prog)
    containers(res, prog)
    res.assumptions.append('std::regex and llvm::Regex match what their patterns say; the text of a comment is what the lexer spells')
