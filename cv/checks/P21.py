"""Abstract interpretation of what clazy learns from the preprocessor: which list a marker or section goes to, what is answered
about a method from these lists, and which facts (Qt version, keywords, includes, namespace ranges) are kept.  Every path of the
functions concerned is compared with the specification; which list is which is taken from the answers, not from its name."""
from .. import copies
from ..decide import mentions
from ..events import Rec, always, arg, arg_of_type, exhausted, fld, has_event, iterations, same_element
from ..ir import Program
from ..spec import ANY, And, Atom, Exists, Not, Or, call, decision, eqp, index_of, match, show

A = 'AccessSpecifierManager::'
CB = 'AccessSpecifierPreprocessorCallbacks::'
P = 'PreProcessorVisitor::'
ADDS = ('push_back', 'emplace_back', 'insert', 'emplace', 'append')
ROLE = {'Q_SIGNAL': 'Signal', 'Q_SLOT': 'Slot', 'Q_INVOKABLE': 'Invokable', 'Q_SCRIPTABLE': 'Scriptable'}
SECTION = {'signals': 'Signal', 'Q_SIGNALS': 'Signal', 'slots': 'Slot', 'Q_SLOTS': 'Slot'}
VALUE = {'None': 0, 'Unknown': 1, 'Slot': 2, 'Signal': 3, 'Invokable': 4}


def check(res, thorough):
    prog = Program()
    n, roles = answered(res, prog)
    res.need('paths_answering_the_role_of_a_method', n, 6)
    n, sections = recorded(res, prog, roles)
    res.need('paths_of_an_expansion', n, 8)
    n = attributed(res, prog, sections)
    res.need('paths_attributing_sections', n, 4)
    n = ordered(res, prog)
    res.need('paths_of_the_order', n, 3)
    n = version(res, prog)
    res.need('paths_of_the_qt_version', n, 8)
    n = includes(res, prog)
    res.need('paths_of_includes', n, 5)
    n = namespaces(res, prog)
    res.need('paths_of_namespace_ranges', n, 6)
    res.assumptions += ['the preprocessor reports every expansion and every #include once, in source order',
                        'clang::Lexer::findNextToken answers the token after the one given']


def raw(v):
    """the location behind its encoding"""
    while v[0] == 'call' and v[1].split('::')[-1] in ('getRawEncoding', 'getFromRawEncoding', 'getHashValue') and len(v) == 3:
        v = v[2]
    return v


def begin_of(v):
    return v[0] == 'call' and v[1].split('::')[-1] in ('getBeginLoc', 'getBegin', 'getOuterLocStart', 'getInnerLocStart', 'getSourceRange')


def list_elems(facts):
    """lists one of whose elements equals something on this path: (list, other side, fact, truth)"""
    for k, t in facts.items():
        if k[0] == 'eq':
            for a, b in (k[1:], (k[2], k[1])):
                a = raw(a)
                if a[0] in ('it', 'at') and not (b[0] == 'end'):
                    yield a[1], raw(b), k, t
        elif k[0] == 'has' and begin_of(raw(k[2])):
            yield k[1], raw(k[2]), k, t


class Held:
    """the place is in the list, be it searched by a loop or an algorithm"""

    def __init__(self, cont, place):
        self.cont, self.place = cont, place
        self.ex = Exists('marked place', lambda v: v == cont, Atom('the method begins there', lambda v: v[0] == 'eq' and any(raw(x)[0] in ('it', 'at') and raw(x)[1] == cont and place(raw(y)) for x, y in (v[1:], (v[2], v[1])))))

    def ev(self, f):
        for k, t in f.items():
            if k[0] == 'has' and k[1] == self.cont and self.place(raw(k[2])):
                return t
        return self.ex.ev(f)

    def __str__(self):
        return 'the method begins at a marked place'


def answered(res, prog):
    """what is said about a method"""
    fn = prog.one(A + 'qtAccessSpecifierType')
    m = arg(fn, 0)
    sp = Rec(prog, {})
    outs = sp.analyse(fn)
    canon = ('call', 'clang::CXXMethodDecl::getCanonicalDecl', m)
    begin = lambda x: lambda v: v[0] == 'call' and v[1].endswith('::getBeginLoc') and v[2] == x
    parent = ('call', lambda q: q.endswith('::getParent'), lambda v: v in (canon, m))
    unknown = Or(Not(Atom('there is a method', ('nn', m))), Atom('it begins in a macro', ('call', 'clang::SourceLocation::isMacroID', lambda v: begin(m)(v) or begin(canon)(v))))
    foreign = Or(Not(Atom('it has a class', ('nn', parent))), Atom('its class is a specialisation', ('isa', 'ClassTemplateSpecializationDecl', parent)),
                 Atom('it is an instantiation', ('call', lambda q: q.endswith('::isTemplateInstantiation'), lambda v: v in (canon, m))))
    # which list means what
    roles = {}
    for ret, st, _ in outs:
        if ret[0] == 'enum' and ret[1].split('_')[-1] in ('Signal', 'Slot', 'Invokable'):
            for c, other, k, t in list_elems(st.facts):
                if t:
                    roles.setdefault(ret[1].split('_')[-1], set()).add(c)
    lists = {}
    for r in ('Signal', 'Slot', 'Invokable'):
        cs = roles.get(r, set())
        if len(cs) != 1:
            res.report('role', fn.name, fn.where(fn.body), 'no one list of places makes a method a %s (%d do)' % (r.lower(), len(cs)))
        else:
            lists[r] = next(iter(cs))
    if len(set(lists.values())) < len(lists):
        res.report('role', fn.name, fn.where(fn.body), 'one list of places stands for two roles')
    n = 0
    if len(lists) == 3:
        sections = set()
        for ret, st, _ in outs:
            n += 1
            wh, f = fn.where(fn.body), st.facts
            first = Atom('', ('call', lambda q: q.endswith('::isCanonicalDecl'), m)).ev(f)
            place = begin(m) if first else begin(canon)
            ex = {r: Held(c, place) for r, c in lists.items()}
            val = ret[1].split('_')[-1] if ret[0] == 'enum' else None
            want = None
            u = unknown.ev(f)
            if u is None:
                res.report('role', fn.name, wh, 'a role is answered without establishing %s' % unknown, show(f))
                continue
            if u:
                want = 'Unknown'
            else:
                g = foreign.ev(f)
                if g is None:
                    res.report('role', fn.name, wh, 'a role is answered without establishing %s' % foreign, show(f))
                    continue
                if g:
                    want = 'None'
                else:
                    e = {r: ex[r].ev(f) for r in ex}
                    if e['Signal']:
                        want = 'Signal'
                    elif e['Slot'] and e['Signal'] is False:
                        want = 'Slot'
                    elif e['Invokable'] and e['Signal'] is False and e['Slot'] is False:
                        want = 'Invokable'
                    elif all(x is False for x in e.values()):
                        want = 'section'
                    else:
                        res.report('role', fn.name, wh, 'a method is said to be %s before all lists of markers that come first have been gone through' % (val or 'of its section'), show(f))
                        continue
            if want != 'section':
                if val != want:
                    res.report('role', fn.name, wh, 'a method that is %s is said to be %s' % (want, val or show({ret: True})), show(f))
                continue
            # the last section before it
            has = next(((k[1], t) for k, t in f.items() if k[0] == 'has' and match(parent, k[2])), None)
            if has is None:
                has = next(((k[1][1], not t) for k, t in f.items() if k[0] == 'eq' and k[1][0] == 'find'), None)
            if has is not None:
                sections.add(has[0])
            if has is not None and not has[1]:
                if val != 'None':
                    res.report('role', fn.name, wh, 'a method of a class without sections is said to be %s' % val, show(f))
                continue
            if val is not None:
                ub = [k for k, t in f.items() if t and k[0] == 'eq' and any(bound(x) for x in k[1:])] + [k for k, t in f.items() if t and k[0] == 'empty']
                if val != 'None' or not ub:
                    res.report('role', fn.name, wh, 'a method is said to be %s without looking for the section it is in' % val, show(f))
                continue
            b = ret[1] if ret[0] == 'fld' else ret
            if not match(('fld', ANY, lambda q: str(q).endswith('::qtAccessSpecifier')), ret):
                res.report('role', fn.name, wh, 'the role of a method is not that of the section before it: %s' % show({ret: True}), show(f))
                continue
            if bound(b) or b[0] == 'cat' and bound(b[1]):
                c = b if bound(b) else b[1]
                if b[0] != 'cat' or b[2:] != (('int', -1),):
                    res.report('role', fn.name, wh, 'the section taken is not the one before the place of the method', show(f))
                if not c[1].endswith('upper_bound') and not c[1].endswith('lower_bound'):
                    res.report('role', fn.name, wh, 'the section is not looked for by place', show(f))
                if not any(mentions_if(x, place) for x in c[2:]):
                    res.report('role', fn.name, wh, 'the section is looked for at another place than where the method is declared: %s' % show({c: True}), show(f))
                if not mentions_if(c, lambda v: match(parent, v)):
                    res.report('role', fn.name, wh, 'the section is looked for in another class', show(f))
                if not any(not t and k[0] == 'eq' and c in k[1:] and any(x != c and x[0] in ('it', 'begin', 'int') for x in k[1:]) for k, t in f.items()):
                    res.report('role', fn.name, wh, 'the section before the first is looked at', show(f))
    # scriptable
    fs = prog.one(A + 'isScriptable')
    m = arg(fs, 0)
    o2 = Rec(prog, {}).analyse(fs)
    cs = {c for ret, st, _ in o2 if ret != ('c', False) for c, o, k, t in list_elems(st.facts) if t}
    if len(cs) != 1:
        res.report('role', fs.name, fs.where(fs.body), 'no one list of places makes a method scriptable (%d do)' % len(cs))
    else:
        c = lists['Scriptable'] = next(iter(cs))
        if c in [lists[k] for k in lists if k != 'Scriptable']:
            res.report('role', fs.name, fs.where(fs.body), 'the list of scriptable methods is that of another role')
        canon2 = ('call', 'clang::CXXMethodDecl::getCanonicalDecl', m)
        at = lambda v: v[0] == 'call' and v[1].endswith('::getBeginLoc') and v[2] in (m, canon2)
        n += decision(res, 'role', prog, fs, And(Atom('there is a method', ('nn', m)), Not(Atom('it begins in a macro', ('call', 'clang::SourceLocation::isMacroID', at))),
                      Held(c, at)), what='whether a method is scriptable')
    # the words
    ft = prog.one(A + 'qtAccessSpecifierTypeStr')
    for ret, st, _ in Rec(prog, {}).analyse(ft):
        n += 1
        hit = {k[1][1].split('_')[-1] if k[1][0] == 'enum' else k[2][1].split('_')[-1] for k, t in st.facts.items() if t and k[0] == 'eq' and 'enum' in (k[1][0], k[2][0])}
        no = {x[1].split('_')[-1] for k, t in st.facts.items() if not t and k[0] == 'eq' for x in k[1:] if x[0] == 'enum'}
        for h in hit or set(VALUE) - no:
            want = h.lower() if h in ('Slot', 'Signal', 'Invokable') else ''
            if ret != ('str', want) and not (want == '' and ret[0] in ('ctor',) and len(ret) == 2):
                res.report('role', ft.name, ft.where(ft.body), 'the word for %s is %s' % (h, show({ret: True})), show(st.facts))
    return n, lists


def bound(v):
    return v[0] == 'call' and v[1].split('::')[-1] in ('upper_bound', 'lower_bound', 'find_if', 'partition_point')


def mentions_if(v, pred):
    if not isinstance(v, tuple):
        return False
    if v and isinstance(v[0], str) and pred(v):
        return True
    return any(mentions_if(x, pred) for x in v)


def opaque_places(c):
    """helpers that work out a place or a text stay opaque: what they are given and where their result goes is compared"""
    t = c.typ(c.o.get('rt', -1)) or ''
    return not ('SourceLocation' in t or 'string' in t or 'StringRef' in t)


def name_facts(facts):
    """(the macro's name on this path or None, names it is not)"""
    yes, no = None, set()
    for k, t in facts.items():
        if k[0] == 'eq':
            for a, b in (k[1:], (k[2], k[1])):
                if a[0] == 'str' and mentions_if(b, lambda v: v[0] == 'call' and v[1].endswith('getIdentifierInfo')):
                    if t:
                        yes = a[1]
                    else:
                        no.add(a[1])
    return yes, no


def recorded(res, prog, roles):
    """what an expansion adds to which list"""
    fn = prog.one(CB + 'MacroExpands')
    rng = arg(fn, 2)
    rec = Rec(prog, {a: 'stop' for a in ADDS}, inline=opaque_places)
    outs = rec.analyse(fn)
    at = lambda v: v[0] == 'call' and v[1].endswith('::getBegin') and v[2] == rng or match(call('::getLocation', arg(fn, 0)), v)
    inmacro = Atom('the expansion is in a macro', ('call', 'clang::SourceLocation::isMacroID', at), negs=(('call', 'clang::SourceLocation::isFileID', at),))
    n = 0
    known, sections = set(), set()
    for ret, st, _ in outs:
        n += 1
        wh = fn.where(fn.body)
        name, no = name_facts(st.facts)
        adds = [e for e in st.events if e[0] in ADDS]
        if any(k[0] == 'nn' and not t for k, t in st.facts.items()) and name is None:
            if adds:
                res.report('recorded', fn.name, wh, 'something is recorded for a macro without a name', show(st.facts))
            continue
        if name not in ROLE and name not in SECTION:
            if adds:
                res.report('recorded', fn.name, wh, 'something is recorded for the macro %s' % (name or 'of any other name'), show(st.facts))
            elif name is None and (set(ROLE) | set(SECTION)) - no:
                res.report('recorded', fn.name, wh, 'the expansion of %s is not recorded' % ', '.join(sorted((set(ROLE) | set(SECTION)) - no)), show(st.facts))
            continue
        known.add(name)
        im = inmacro.ev(st.facts)
        if im is None:
            res.report('recorded', fn.name, wh, 'the expansion of %s is %s without establishing %s' % (name, 'recorded' if adds else 'not recorded', inmacro), show(st.facts))
            continue
        if im:
            if adds:
                res.report('recorded', fn.name, wh, 'an expansion of %s within another macro is recorded' % name, show(st.facts))
            continue
        if name in SECTION:
            if len(adds) != 1:
                res.report('recorded', fn.name, wh, 'the expansion of %s adds %d sections' % (name, len(adds)), show(st.facts))
                continue
            v = adds[0][-1]
            if adds[0][1][0] == 'fld':
                sections.add(adds[0][1][2])
            vals = [v] if v[0] not in ('list', 'ctor') else v[1:]
            vals = list(adds[0][2:]) if len(adds[0]) > 3 and v[0] not in ('list', 'ctor') else vals
            if not any(x[0] == 'enum' and x[1].split('_')[-1] == SECTION[name] for x in vals):
                res.report('recorded', fn.name, wh, 'the section that %s begins is recorded as %s' % (name, show({v: True})), show(st.facts))
            if not any(isinstance(x, tuple) and at(x) for x in vals):
                res.report('recorded', fn.name, wh, 'the section that %s begins is recorded at another place' % name, show(st.facts))
            if adds[0][1] in roles.values():
                res.report('recorded', fn.name, wh, 'the section that %s begins goes to a list of methods' % name, show(st.facts))
            continue
        ok = True
        for e in adds:
            if e[1] != onthis(roles.get(ROLE[name])):
                res.report('recorded', fn.name, wh, 'the place of %s goes to another list than the one of %s methods: %s' % (name, ROLE[name].lower(), show({e[1]: True})), show(st.facts))
                ok = False
                continue
            loc = raw(e[-1])
            if at(loc) or not mentions_if(loc, at):
                res.report('recorded', fn.name, wh, 'what is recorded for %s is not the place after it: %s' % (name, show({loc: True})), show(st.facts))
        if ok and len(adds) > 1:
            res.report('recorded', fn.name, wh, 'the expansion of %s is recorded twice' % name, show(st.facts))
        if not adds:
            # nothing follows it
            if not any(k[0] == 'valid' and not t and mentions_if(k, at) for k, t in st.facts.items()) and not any(k[0] == 'call' and k[1].endswith('isInvalid') and t for k, t in st.facts.items()) \
                    and not any(k[0] == 'nn' and not t and mentions_if(k, at) for k, t in st.facts.items()):
                res.report('recorded', fn.name, wh, 'the expansion of %s is not recorded' % name, show(st.facts))
    for m in sorted((set(ROLE) | set(SECTION)) - known):
        res.report('recorded', fn.name, fn.where(fn.body), 'no path records the expansion of %s' % m)
    return n, sections


def onthis(v):
    """the same field, seen from the object itself"""
    return ('fld', ('this',), v[2]) if v and v[0] == 'fld' else v


class Maybe:
    """a condition that need not be looked at: counts as holding unless it is known not to"""

    def __init__(self, a):
        self.a = a

    def ev(self, f):
        return self.a.ev(f) is not False

    def __str__(self):
        return str(self.a)


def attributed(res, prog, sections):
    """sections gathered by the preprocessor and access specifiers go to the list of the class they are in"""
    fn = prog.one(A + 'VisitDeclaration')
    d = arg(fn, 0)
    record = ('as', 'CXXRecordDecl', d)
    names = {a: 'stop' for a in ADDS}
    names['erase'] = ('erased',)
    rec = Rec(prog, names, atoms={'clazy::isQObject', A + 'classDefinitionForLoc'})
    outs = rec.analyse(fn)
    wh = fn.where(fn.body)
    isrec = Atom('it is a class', ('isa', 'CXXRecordDecl', d))
    qobj = Atom('it is a QObject', ('call', lambda q: q.endswith('isQObject'), record, Ellipsis))
    flags = lambda f: [t for k, t in f.items() if k[0] == 'fld' and k[1] == ('this',)]
    mine = lambda v: v[0] == 'at' and v[2] == record and v[1][0] == 'fld'
    n = 0
    inclass = lambda f: {(k, x[3]): t for k, t in f.items() if k[0] == 'eq' and record in k[1:] for x in k[1:] if x[0] == 'call' and x[1].endswith('classDefinitionForLoc') and len(x) == 4}
    decls = lambda v: v[0] == 'call' and v[1].endswith('::decls') and v[2] == record
    gathered = lambda v: v[0] == 'fld' and v[2] in sections
    for ret, st, _ in outs:
        n += 1
        ins = [e for e in st.events if e[0] in ADDS]
        era = [e for e in st.events if e[0] == 'erase']
        r, q = isrec.ev(st.facts), qobj.ev(st.facts)
        want = None
        if r is False:
            want = False
        elif r and q:
            want = True
        elif r and q is False:
            fl = flags(st.facts)
            want = False if False in fl or not fl else True
        elif r and q is None and len(flags(st.facts)) > 1 and False not in flags(st.facts):
            want = True         # whatever it is
        if r and q is False:
            if want and len(fl) < 2:
                res.report('attributed', fn.name, wh, 'a class that is no QObject is gone into without both switches for it', show(st.facts))
        if want is None:
            res.report('attributed', fn.name, wh, 'a path ends without establishing that the class is a QObject', show(st.facts))
            continue
        if not want:
            if ins or era:
                res.report('attributed', fn.name, wh, 'sections are attributed to what is no QObject', show(st.facts))
            continue
        if not any(t and k[0] == 'eq' and any(x[0] == 'end' and decls(x[1]) for x in k[1:]) for k, t in st.facts.items()):
            res.report('attributed', fn.name, wh, 'a path ends without having gone through the access specifiers of the class', show(st.facts))
        if not any(mentions_if(k, gathered) for k in st.facts) and not any(mentions_if(e, gathered) for e in st.events):
            res.report('attributed', fn.name, wh, 'a path ends without having gone through the sections that the preprocessor gathered', show(st.facts))
        for e in ins:
            if not mine(e[1]):
                res.report('attributed', fn.name, wh, 'a section is added to another list than that of its class: %s' % show({e[1]: True}), show(st.facts))
            item = e[-1]
            if len(e) > 3 and bound(e[2]):
                if not (e[2][2] == ('it', e[1]) and e[2][3] == ('end', e[1])):
                    res.report('attributed', fn.name, wh, 'the place for a section is looked for in part of the list', show(st.facts))
                if item not in e[2][4:] and item[0] != 'void':
                    res.report('attributed', fn.name, wh, 'a section is put at the place of another', show(st.facts))
            elif len(e) <= 3 or e[2][0] in ('it', 'end', 'int'):
                res.report('attributed', fn.name, wh, 'a section is not put at its place in the order', show(st.facts))
        for (k, loc), t in inclass(st.facts).items():
            if not match(('fld', ANY, 'ClazyAccessSpecifier::loc'), loc):
                continue
            el = loc[1]
            gotten = [e for e in ins if e[-1] == el]
            gone = [e for e in era if el in e[2:]]
            if t and (not gotten or not gone):
                res.report('attributed', fn.name, wh, 'a section within the class is %s' % ('not added to its list' if not gotten else 'left for another class too'), show(st.facts))
            if not t and el[0] == 'it' and (gotten or gone) and not any(t2 for (k2, l2), t2 in inclass(st.facts).items() if l2 == loc):
                res.report('attributed', fn.name, wh, 'a section outside the class is %s' % ('added to its list' if gotten else 'dropped'), show(st.facts))
        if era and not ins:
            res.report('attributed', fn.name, wh, 'a section is dropped', show(st.facts))
        for e in ins:
            if e[-1][0] == 'it' and mentions_if(e[-1], gathered) and not any(t for (k, loc), t in inclass(st.facts).items() if loc[:2] == ('fld', e[-1])) and len(rec.its) and not any(t for f, i, old, facts, ev, heap in rec.its for (k, loc), t in inclass(facts).items() if loc[:2] == ('fld', e[-1])):
                res.report('attributed', fn.name, wh, 'a section is taken without establishing that it is within the class', show(st.facts))
    for f, i, old, facts, ev, heap in rec.its:
        for (k, loc), t in inclass(facts).items():
            if t and loc[0] == 'fld' and loc[1] == old and not any(e[0] == 'erase' and old in e[2:] for e in ev):
                res.report('attributed', fn.name, f.where(i), 'a section within the class is left for another class too', show(facts))
            if t and loc[0] == 'fld' and loc[1] == old and not any(e[0] in ADDS and e[-1] == old for e in ev):
                res.report('attributed', fn.name, f.where(i), 'a section within the class is not added to its list', show(facts))
        if old[0] == 'cat' and mentions(old, ('erased',)):
            res.report('attributed', fn.name, f.where(i), 'the section after one that was taken is skipped', show(facts))
        for (k, loc), t in inclass(facts).items():
            if loc[0] == 'fld' and loc[1] == old and not t and any(e[0] in ADDS + ('erase',) and old in e[1:] for e in ev):
                res.report('attributed', fn.name, f.where(i), 'a section outside the class is taken', show(facts))
    k = 0
    for f, i, e, facts, ev, heap in iterations(rec, decls):
        k += 1
        spec = Atom('', ('isa', 'AccessSpecDecl', e)).ev(facts)
        own = Atom('', lambda v: v[0] == 'eq' and any(match(call('::getDeclContext', Ellipsis), x) or match(call('::getLexicalDeclContext', Ellipsis), x) for x in v[1:])).ev(facts)
        put = [x for x in ev if x[0] in ADDS and mentions(x[-1], e)]
        if spec is None:
            res.report('attributed', fn.name, f.where(i), 'a member of the class is passed over without establishing that it is an access specifier', show(facts))
        elif spec and own is not False and len(put) != 1:
            res.report('attributed', fn.name, f.where(i), 'an access specifier of the class is added %d times' % len(put), show(facts))
        elif not spec and put:
            res.report('attributed', fn.name, f.where(i), 'a member that is no access specifier is added', show(facts))
        for x in put:
            v = x[-1]
            parts = v[1:] if v[0] == 'list' else v[2:] if v[0] == 'ctor' else ()
            if parts and not (any(p[0] == 'enum' and p[1].endswith('_None') for p in parts) and any(match(call('::getAccess', Ellipsis), p) for p in parts) and any(begin_of(p) or match(call('::getAccessSpecifierLoc', Ellipsis), p) or match(call('::getLocation', Ellipsis), p) for p in parts if p[0] == 'call')):
                res.report('attributed', fn.name, f.where(i), 'an access specifier is not added as a place, its access and no Qt role: %s' % show({v: True}), show(facts))
    if not k:
        res.report('attributed', fn.name, wh, 'the access specifiers of the class are not gone through')
    n += k
    # the class a place is in
    fn = prog.one(A + 'classDefinitionForLoc')
    loc = arg(fn, 0)
    first = lambda v: v[0] == 'fld' and v[2] == 'first' and v[1][0] in ('it', 'at')
    bg = lambda v: v[0] == 'call' and v[1].split('::')[-1] in ('getBeginLoc', 'getOuterLocStart', 'getBegin') and mentions_if(v, first)
    en = lambda v: v[0] == 'call' and v[1].split('::')[-1] in ('getEndLoc', 'getEnd') and mentions_if(v, first)
    for ret, st, _ in Rec(prog, {}).analyse(fn):
        n += 1
        if ret == ('null',):
            continue
        after = Atom('', ('lt', bg, loc)).ev(st.facts) or Atom('', ('call', ANY, ANY, bg, loc)).ev(st.facts) or Atom('', ('lt', loc, bg)).ev(st.facts) is False
        before = Atom('', ('lt', loc, en)).ev(st.facts) or Atom('', ('call', ANY, ANY, loc, en)).ev(st.facts) or Atom('', ('lt', en, loc)).ev(st.facts) is False
        whole = any(t and k[0] == 'call' and k[1].endswith(('fullyContains', 'contains')) for k, t in st.facts.items())
        if not whole and not (after and before):
            res.report('attributed', fn.name, fn.where(fn.body), 'a class is answered for a place that is not known to lie between its begin and its end', show(st.facts))
    return n


def ordered(res, prog):
    """sections are ordered by where they are in the file; in one place, what a macro expands to comes before the macro"""
    n, k = 0, 0
    for fn in prog.funcs.values():
        if not fn.file.endswith('AccessSpecifierManager.cpp') or len(fn.params) < 2 or fn.typ(fn.o.get('rt', -1)) != 'bool':
            continue
        if any('ClazyAccessSpecifier' not in fn.typ(fn.tu.decls[p].get('t', -1)) for p in fn.params[:2]):
            continue
        k += 1
        a, b = ('fld', arg(fn, 0), 'ClazyAccessSpecifier::loc'), ('fld', arg(fn, 1), 'ClazyAccessSpecifier::loc')
        ma, mb = (Atom('', ('call', 'clang::SourceLocation::isMacroID', x), negs=(('call', 'clang::SourceLocation::isFileID', x),)) for x in (a, b))

        def at(x, m):
            return lambda v: v == x and m is False or match(call('::getFileLoc', ANY, x), v)
        for ret, st, _ in Rec(prog, {}).analyse(fn):
            n += 1
            wh = fn.where(fn.body)
            fa, fb = ma.ev(st.facts), mb.ev(st.facts)
            pa, pb = at(a, fa), at(b, fb)
            eq = Atom('', eqp(pa, pb)).ev(st.facts)
            if match(('lt', pa, pb), ret) or match(call('::isBeforeInTranslationUnit', ANY, pa, pb), ret) or match(call('::isBeforeInSLocAddrSpace', ANY, pa, pb), ret):
                if eq is not False and not (fa is False and fb is False):
                    res.report('order', fn.name, wh, 'what a macro expands to is not put before the macro in the same place', show(st.facts))
            elif ret in (('c', True), ('c', False)):
                less = Atom('', ('lt', pa, pb)).ev(st.facts)
                want = less if less is not None else fa if eq else None
                if want is None or want != ret[1]:
                    res.report('order', fn.name, wh, 'the order of two sections is not that of their places', show(st.facts))
            elif ret == ('call', 'clang::SourceLocation::isMacroID', a):
                if eq is not True:
                    res.report('order', fn.name, wh, 'the order of two sections is not that of their places', show(st.facts))
            elif ret == ('not', ('call', 'clang::SourceLocation::isMacroID', b)) and eq and False:
                pass
            else:
                res.report('order', fn.name, wh, 'the order of two sections is not that of their places: %s' % show({ret: True}), show(st.facts))
    res.need('comparisons_of_sections', k, 1)
    return n


def getter(prog, q):
    """the field a getter answers"""
    fn = prog.one(P + q)
    vals = {ret for ret, st, _ in Rec(prog, {}).analyse(fn)}
    v = next(iter(vals)) if len(vals) == 1 else None
    return (fn, v[2]) if v and v[0] == 'fld' and v[1] == ('this',) else (fn, None)


def linear(v):
    """{term: coefficient} of a sum of multiples"""
    if v[0] == 'int':
        return {None: v[1]}
    if v[0] in ('cat',) or v[0] == 'b' and v[1] == '+':
        out = {}
        for x in v[1:] if v[0] == 'cat' else v[2:]:
            for t, c in linear(x).items():
                out[t] = out.get(t, 0) + c
        return out
    if v[0] == 'b' and v[1] == '*':
        a, b = linear(v[2]), linear(v[3])
        for x, y in ((a, b), (b, a)):
            if set(x) == {None}:
                return {t: c * x[None] for t, c in y.items()}
    return {v: 1}


def version(res, prog):
    """the Qt version and the keywords switch"""
    fn = prog.one(P + 'MacroExpands')
    defn = arg(fn, 1)
    gv, fv = getter(prog, 'qtVersion')
    gk, fk = getter(prog, 'isQT_NO_KEYWORDS')
    for g, f in ((gv, fv), (gk, fk)):
        if f is None:
            res.report('version', g.name, g.where(g.body), 'it does not answer what is kept')
    if fv is None or fk is None:
        return 100
    names = {a: 'stop' for a in ADDS + ('setEnd', 'setBegin')}
    rec = Rec(prog, names, inline=opaque_places)
    outs = rec.analyse(fn)
    wh = fn.where(fn.body)
    part = {}
    V = {'QT_VERSION_MAJOR': 10000, 'QT_VERSION_MINOR': 100, 'QT_VERSION_PATCH': 1}
    n = 0
    for ret, st, _ in outs:
        name, no = name_facts(st.facts)
        sets = {k[1] for k in st.heap if k[0] == ('this',)} - {fv, fk}
        if name in V:
            if len(sets) == 1:
                part.setdefault(name, set()).update(sets)
    for m in V:
        if len(part.get(m, ())) != 1:
            res.report('version', fn.name, wh, '%s sets %d parts of the version' % (m, len(part.get(m, ()))))
    if any(len(part.get(m, ())) != 1 for m in V):
        return 100
    part = {m: next(iter(s)) for m, s in part.items()}
    if len(set(part.values())) != 3:
        res.report('version', fn.name, wh, 'two of QT_VERSION_MAJOR, QT_VERSION_MINOR and QT_VERSION_PATCH set the same part of the version')
        return 100
    for ret, st, _ in outs:
        n += 1
        name, no = name_facts(st.facts)
        h = {k[1]: v for k, v in st.heap.items() if k[0] == ('this',)}
        known = Atom('', eqp(('fld', ('this',), fv), ('int', -1))).ev(st.facts)
        # keywords
        kw = h.get(fk)
        already = st.facts.get(('fld', ('this',), fk))
        if name == 'QT_NO_KEYWORDS':
            if kw != ('c', True) and already is not True:
                res.report('keywords', fn.name, wh, 'QT_NO_KEYWORDS goes unnoticed', show(st.facts))
        elif kw is not None and kw != ('fld', ('this',), fk):
            res.report('keywords', fn.name, wh, 'the expansion of %s switches the keywords' % (name or 'another macro'), show(st.facts))
        # version
        touched = [m for m in V if part[m] in h]
        if name not in V:
            if touched or fv in h and h[fv] != ('fld', ('this',), fv):
                res.report('version', fn.name, wh, 'the version changes with the expansion of %s' % (name or 'another macro'), show(st.facts))
            if name is None and known is not False and set(V) - no and not any(k[0] == 'nn' and not t for k, t in st.facts.items()):
                res.report('version', fn.name, wh, 'the expansion of %s goes unnoticed' % ', '.join(sorted(set(V) - no)), show(st.facts))
            continue
        if known is False:
            if touched or fv in h:
                res.report('version', fn.name, wh, 'the version changes after it is known', show(st.facts))
            continue
        if known is None:
            res.report('version', fn.name, wh, 'the version changes without establishing that it is not known yet', show(st.facts))
            continue
        if touched != [name]:
            res.report('version', fn.name, wh, '%s sets %s' % (name, ', '.join(touched) or 'nothing'), show(st.facts))
            continue
        pv = {m: h.get(part[m], ('fld', ('this',), part[m])) for m in V}
        if pv[name] != ('int', -1) and not mentions(pv[name], defn):
            res.report('version', fn.name, wh, 'the part set for %s is not taken from the definition of the macro: %s' % (name, show({pv[name]: True})), show(st.facts))
        if pv[name] == ('int', -1) and not any(k[0] == 'empty' and t for k, t in st.facts.items()):
            res.report('version', fn.name, wh, 'the part set for %s is not known although the macro has a definition' % name, show(st.facts))
        missing = {m: True if pv[m] == ('int', -1) else Atom('', eqp(pv[m], ('int', -1))).ev(st.facts) for m in V}
        got = h.get(fv)
        if any(missing.values()):
            if got not in (('int', -1), None, ('fld', ('this',), fv)):
                res.report('version', fn.name, wh, 'a version is answered before all of its parts are known', show(st.facts))
        elif None in missing.values():
            res.report('version', fn.name, wh, 'the version is worked out without establishing that all of its parts are known', show(st.facts))
        else:
            want = {}
            for m, c in V.items():
                want[pv[m]] = want.get(pv[m], 0) + c
            if got is None or linear(got) != want:
                res.report('version', fn.name, wh, 'the version is not major * 10000 + minor * 100 + patch: %s' % (show({got: True}) if got else 'it is not worked out'), show(st.facts))
    # where the parts start from
    r = prog.records.get('PreProcessorVisitor')
    for f in (r or {}).get('fields', ()):
        if f.get('q') in list(part.values()) + [fv] and f.get('init') not in (None, '-1', -1):
            res.report('version', 'PreProcessorVisitor', 'src/PreProcessorVisitor.h', '%s does not start out as unknown (%s)' % (f.get('q'), f.get('init')))
    # the command line
    fn = [f for f in prog.find(P + 'PreProcessorVisitor') if f.body is not None]
    for f in fn:
        if len(f.params) != 1 or 'Preprocessor' not in f.typ(f.tu.decls[f.params[0]].get('t', -1)):
            continue
        for ret, st, _ in Rec(prog, {}, atoms={'clazy::isPredefined'}).analyse(f):
            n += 1
            v = next((v for k, v in st.heap.items() if k[1] == fk), None)
            t = Atom('', ('call', lambda q: q.endswith('isPredefined'), ANY, ('str', 'QT_NO_KEYWORDS'))).ev(st.facts)
            if not (v is not None and match(('call', lambda q: q.endswith('isPredefined'), ANY, ('str', 'QT_NO_KEYWORDS')), v) or v == ('c', True) and t or t is False and v in (None, ('c', False))):
                res.report('keywords', f.name, f.where(f.body), 'QT_NO_KEYWORDS on the command line goes unnoticed', show(st.facts))
    for f in prog.find('clazy::isPredefined'):
        macros, what = (lambda v: match(fld(arg(f, 0), lambda q: q.endswith('::Macros')), v)), arg(f, 1)
        first = lambda v: match(fld(lambda o: o[0] in ('it', 'at') and macros(o[1]), 'first'), v)
        second = lambda v: match(fld(lambda o: o[0] in ('it', 'at') and macros(o[1]), 'second'), v)
        sp = Rec(prog, {})
        outs = sp.analyse(f)
        compared = set()
        for facts in [st.facts for ret, st, _ in outs] + [i[3] for i in sp.its]:
            for k, t in facts.items():
                if k[0] == 'eq' and any(mentions(x, what) for x in k[1:]):
                    compared.update(x for x in k[1:] if not mentions(x, what))
        if not compared:
            res.report('keywords', f.name, f.where(f.body), 'the macros of the command line are not compared with the name asked for')
        for x in compared:
            if first(x):
                res.report('keywords', f.name, f.where(f.body), 'a macro that is given a value on the command line (-DNAME=1) goes unnoticed: its definition is compared as a whole')
        for ret, st, _ in outs:
            n += 1
            und = next((t for k, t in st.facts.items() if second(k)), None)
            if second(ret) or ret == ('c', True) and und is not False:
                res.report('keywords', f.name, f.where(f.body), 'a macro is said to be predefined without establishing that it is not undefined (-U)', show(st.facts))
            if ret == ('c', False) and und is not True and not exhausted(macros, st.facts):
                res.report('keywords', f.name, f.where(f.body), 'a macro is said not to be predefined before all were looked at', show(st.facts))
    return n


def includes(res, prog):
    fn = prog.one(P + 'InclusionDirective')
    name = arg_of_type(fn, 'StringRef')
    angled = arg(fn, 3)
    rng = arg_of_type(fn, 'CharSourceRange')
    rec = Rec(prog, {a: 'stop' for a in ADDS})
    outs = rec.analyse(fn)
    wh = fn.where(fn.body)
    primary = Atom('the file being read is the primary one', call('::isInPrimaryFile', ANY))
    n = 0
    infos = set()
    for ret, st, _ in outs:
        n += 1
        adds = [e for e in st.events if e[0] in ADDS]
        p = primary.ev(st.facts)
        if p is None or p != bool(adds) or len(adds) > 1:
            res.report('include', fn.name, wh, 'an #include is %s although [%s] is %s' % ('recorded' if adds else 'not recorded', primary, p), show(st.facts))
        for e in adds:
            infos.add(e[1])
            v = e[2:] if len(e) > 3 else e[2][1:] if e[2][0] == 'list' else e[2][2:]
            if len(v) != 3:
                continue
            for x, w, what in zip(v, (name, angled, rng), ('its name', 'whether it is in angle brackets', 'its place')):
                if x != w and not (mentions(x, w) and x[0] == 'call'):
                    res.report('include', fn.name, wh, 'an #include is recorded with %s instead of %s' % (show({x: True}), what), show(st.facts))
    if len(infos) != 1:
        res.report('include', fn.name, wh, 'the #includes are recorded in %d lists' % len(infos))
        return 100
    c = next(iter(infos))
    fn = prog.one(P + 'hasInclude')
    el = lambda q: lambda v: v[0] == 'fld' and v[2] == 'PreProcessorVisitor::IncludeInfo::' + q and v[1][0] in ('it', 'at') and v[1][1] == c
    body = And(Atom('it has this name', eqp(el('fileName'), arg(fn, 0))), Atom('it has these brackets', eqp(el('IsAngled'), arg(fn, 1))))
    n += decision(res, 'include', prog, fn, Exists('#include', lambda v: v == c, body), what='whether a file is included')
    fn = prog.one(P + 'endOfIncludeSection')
    for ret, st, _ in Rec(prog, {}, atoms={'clazy::endsWith'}).analyse(fn):
        n += 1
        if ret == ('ctor', 'clang::SourceLocation') or ret[0] in ('ctor',) and len(ret) == 2:
            if not exhausted(lambda v: mentions(v, c), st.facts) and not any(t and mentions(k, c) for k, t in st.facts.items()):
                res.report('include', fn.name, fn.where(fn.body), 'no place is answered although there are #includes', show(st.facts))
        elif not (mentions(ret, c) and match(call('::getEnd', fld(ANY, 'PreProcessorVisitor::IncludeInfo::filenameRange')), ret)):
            res.report('include', fn.name, fn.where(fn.body), 'the place answered is not the end of an #include: %s' % show({ret: True}), show(st.facts))
        elif mentions_if(ret, lambda v: v[0] == 'call' and v[1].split('::')[-1] in ('front',)) or mentions_if(ret, lambda v: v[0] == 'at' and v[2] == ('int', 0)) or mentions_if(ret, lambda v: v[0] == 'it' and v[1] == c):
            res.report('include', fn.name, fn.where(fn.body), 'the place answered is the end of the first #include', show(st.facts))
        else:
            moc = next((t for k, t in st.facts.items() if mentions_if(k, lambda v: v == ('str', '.moc'))), None)
            if moc is not False:
                res.report('include', fn.name, fn.where(fn.body), 'the place answered may be that of the .moc file, which is included at the end', show(st.facts))
    return n


def namespaces(res, prog):
    fn = prog.one(P + 'MacroExpands')
    rng = arg(fn, 2)
    rec = Rec(prog, {a: 'stop' for a in ADDS + ('setEnd', 'setBegin')}, inline=opaque_places)
    begin = lambda v: v[0] == 'call' and v[1].endswith('::getBegin') and v[2] == rng
    maps = set()
    n = 0
    wh = fn.where(fn.body)
    for ret, st, _ in rec.analyse(fn):
        n += 1
        name, no = name_facts(st.facts)
        adds = [e for e in st.events if e[0] in ADDS]
        ends = [e for e in st.events if e[0] in ('setEnd', 'setBegin')]
        lists = lambda v: v[0] == 'at' and v[1][0] == 'fld' and mentions_if(v[2], lambda x: match(call('::getFileID', ANY, begin), x))
        if name == 'QT_BEGIN_NAMESPACE':
            ok = len(adds) == 1 and not ends and lists(adds[0][1])
            if ok:
                maps.add(adds[0][1][1])
                v = adds[0][-1] if len(adds[0]) == 3 else ('ctor', '') + adds[0][2:]
                parts = v[2:] if v[0] == 'ctor' else v[1:]
                ok = len(parts) == 2 and begin(parts[0]) and parts[1][0] in ('ctor', 'list', 'init') and len(parts[1]) <= 2
            if not ok:
                res.report('namespace', fn.name, wh, 'QT_BEGIN_NAMESPACE does not begin a range of its file there', show(st.facts))
        elif name == 'QT_END_NAMESPACE':
            if adds:
                res.report('namespace', fn.name, wh, 'QT_END_NAMESPACE begins a range', show(st.facts))
            emp = next((t for k, t in st.facts.items() if k[0] == 'empty' and lists(k[1])), None)
            if ends:
                e = ends[0]
                o = e[1]
                last = o[0] == 'at' and lists(o[1]) and match(('b', '-', ('size', o[1]), ('int', 1)), o[2]) or o[0] == 'call' and o[1].endswith('::back') and lists(o[2]) or o[0] == 'at' and lists(o[1]) and match(('cat', ('size', o[1]), ('int', -1)), o[2]) or o[0] == 'back'
                if e[0] != 'setEnd' or len(ends) != 1 or not last or not begin(e[2]):
                    res.report('namespace', fn.name, wh, 'QT_END_NAMESPACE does not end the last range of its file there: %s' % show({e: True}), show(st.facts))
                if emp is not False:
                    res.report('namespace', fn.name, wh, 'QT_END_NAMESPACE ends a range that may not be there', show(st.facts))
            elif emp is not True and not any(k[0] == 'valid' and not t and mentions_if(k, lists) for k, t in st.facts.items()):
                res.report('namespace', fn.name, wh, 'QT_END_NAMESPACE goes unnoticed', show(st.facts))
        elif [e for e in adds + ends if not lists(e[1])] == [] and (adds or ends):
            res.report('namespace', fn.name, wh, 'the expansion of %s changes the ranges' % (name or 'another macro'), show(st.facts))
        elif name is None and {'QT_BEGIN_NAMESPACE', 'QT_END_NAMESPACE'} - no and not any(k[0] == 'nn' and not t for k, t in st.facts.items()):
            res.report('namespace', fn.name, wh, 'the expansion of %s goes unnoticed' % ', '.join(sorted({'QT_BEGIN_NAMESPACE', 'QT_END_NAMESPACE'} - no)), show(st.facts))
    k, lost = copies.lost_updates(prog, {'clang::SourceRange'}, ('SourceRange',))
    for f, i, v, src in lost:
        if f.file.endswith(('PreProcessorVisitor.cpp', 'PreProcessorVisitor.h')):
            res.report('namespace', f.name, f.where(i), '%s is a copy of %s: what is done to it here is never read' % (v, src))
    fn = prog.one(P + 'isBetweenQtNamespaceMacros')
    loc = arg(fn, 0)
    m = Atom('', ('call', 'clang::SourceLocation::isMacroID', loc))
    for macro in (False, True):
        there = (lambda v: match(call('::getExpansionLoc', ANY, loc), v)) if macro else (lambda v: v == loc or match(call('::getExpansionLoc', ANY, loc), v) or match(call('::getFileLoc', ANY, loc), v))
        cont = lambda v: v[0] == 'at' and v[1][0] == 'fld' and (not maps or v[1] in maps) and mentions_if(v[2], lambda x: match(call('::getFileID', ANY, there), x))
        el = lambda v: v[0] in ('it', 'at') and cont(v[1])
        b = lambda v: match(call('::getBegin', el), v)
        e = lambda v: match(call('::getEnd', el), v)
        bef = lambda q: q.endswith(('::isBeforeInSLocAddrSpace', '::isBeforeInTranslationUnit'))
        body = And(Maybe(Atom('it begins', ('valid', b))), Maybe(Atom('it ends', ('valid', e))), Atom('it begins before', ('call', bef, ANY, b, there), ('lt', b, there)), Atom('it ends after', ('call', bef, ANY, there, e), ('lt', there, e)))
        f = And(Maybe(Atom('the place is valid', ('valid', loc))), Exists('range', cont, body))
        sp = Rec(prog, {})
        outs = [o for o in sp.analyse(fn) if m.ev(o[1].facts) in (macro, None)]
        sp.analyse = lambda *a, o=outs: o
        its = [i for i in sp.iters if m.ev(i[3]) in (macro, None)]
        sp.iters = its
        sub = [o for o in outs if m.ev(o[1].facts) is None]
        n += decision(res, 'namespace', prog, fn, f, what='whether a place is in the Qt namespace', spec=sp)
    return n
