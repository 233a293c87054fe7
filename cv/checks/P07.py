"""Which checks run, as a term: the union of what the level, the list and the environment name, sorted, without what is switched
off.  The value of every path of the check manager is brought into that form, whichever loops and algorithms build it."""
from ..events import arg, arg_of_type, exhausted, iterations, same_element
from ..extract import AnalysisBroken
from ..ir import Program
from ..sets import Sets, cat, parts
from ..spec import ANY, And, Atom, Exists, Not, Or, Spec, decision, eqp, match, show

M = 'CheckManager::'
LEVEL = 'RegisteredCheck::level'
NAME = 'RegisteredCheck::name'
REG = ('fld', ('this',), M + 'm_registeredChecks')
NAMES = [('str', 'level0'), ('str', 'level1'), ('str', 'level2')]


def num(v):
    return v[1] if v[0] == 'int' else v[2] if v[0] == 'enum' else None


def grow(tag):
    """primitive that returns (tag, first argument) and adds to the list of names that are switched off"""
    def f(s, fr, st, i, obj, args, nodes):
        lists = [k for k, x in enumerate(nodes) if 'vector' in fr.fn.type(x)]
        what = tuple(a for k, a in enumerate(args) if k not in lists)
        if lists:
            s.put(fr, st, i, nodes[lists[0]], ('append', ('off', tag) + what), lambda old: cat(old, ('off', tag) + what))
        return (tag,) + what
    return f


def level(s, fr, st, i, obj, args, nodes):
    return ('level', args[0]) if args else None


def minus(s, fr, st, i, obj, args, nodes):
    s.put(fr, st, i, nodes[0], ('minus', args[1]), lambda old: ('minus', old, args[1]))
    return ('void',)


def find(s, fr, st, i, obj, args, nodes):
    return ('find', args[0], args[1])


def starts(s, fr, st, i, obj, args, nodes):
    return ('starts', args[0], args[1])


def split(s, fr, st, i, obj, args, nodes):
    return ('split',) + tuple(args)


def take(s, fr, st, i, obj, args, nodes):
    """takes an argument out of the list of arguments; what it is to do is checked in takes()"""
    lst = next((k for k, x in enumerate(nodes) if 'vector' in fr.fn.type(x)), None)
    if lst is None or len(args) != 2:
        return None
    key = ('has', args[lst], args[1 - lst])
    f2, s2 = fr.copy(), st.copy()
    s2.facts[key] = True
    fr.vals[i], f2.vals[i] = ('c', False), ('c', True)
    st.facts[key] = False
    s2.event(('erase', args[lst], args[1 - lst]))
    s.assign(f2, s2, nodes[lst], ('without', args[lst], args[1 - lst]))
    return [(fr, st), (f2, s2)]


PRIMS = {M + 'checksForCommaSeparatedString': grow('named'), M + 'requestedChecksThroughEnv': grow('env'), M + 'checksForLevel': level, M + 'availableChecks': level, M + 'removeChecksFromList': minus,
         M + 'checkForName': find, 'clazy::startsWith': starts, 'clazy::splitString': split}


def prims(*without):
    return {k: v for k, v in PRIMS.items() if k not in without}


def pred_is(res, rule, fn, p, formula, what):
    n = 0
    for facts, t in p[1]:
        n += 1
        want = formula.ev(dict(facts))
        if want is None or want != t:
            res.report(rule, fn.name, fn.where(fn.body), '%s: answers %s %s' % (what, t, 'without looking at ' + str(formula) if want is None else 'although %s is %s' % (formula, want)), show(dict(facts)))
    return n


def by_level(lv):
    return Not(Atom('its level is above', ('lt', lambda v: v == lv or num(v) is not None and num(v) == num(lv), lambda v: v[0] == 'fld' and v[2] == LEVEL and v[1][0] == 'it')))


# ---- the selections
def selections(res, prog):
    n = 0
    for q in ('checksForLevel', 'availableChecks'):
        for fn in prog.find(M + q, required=False):
            lv = arg(fn, 0)
            s = Sets(prog, prims=prims(M + q))
            for ret, st, _ in s.analyse(fn):
                n += 1
                v = s.resolve(ret, st.facts)
                if v in (('level', lv),):
                    pass
                elif v == ('list',):
                    out = [k for k, t in st.facts.items() if k[0] == 'lt' and (not t and num(k[1]) == -1 and k[2] == lv or t and num(k[1]) == 2 and k[2] == lv or t and k[1] == lv and num(k[2]) in (0,) or not t and k[1] == lv and num(k[2]) == 3)]
                    if not out:
                        res.report('level', fn.name, fn.where(fn.body), 'no check is selected for a level that exists', show(st.facts))
                elif v[0] == 'where' and v[1] == REG:
                    n += pred_is(res, 'level', fn, v[2], by_level(lv), 'a registered check is selected by its level')
                else:
                    res.report('level', fn.name, fn.where(fn.body), 'what is selected is not a part of the registered checks', show(st.facts))
    for fn in prog.find(M + 'removeChecksFromList', required=False):
        lst, names = arg_of_type(fn, 'RegisteredCheck'), arg_of_type(fn, 'basic_string')
        s = Sets(prog, prims=prims(M + 'removeChecksFromList'))
        own = lambda v: v[0] == 'fld' and v[2] == NAME and v[1][0] == 'it'
        outs = s.analyse(fn)
        seen = 0
        for f, i, e, facts, ev, heap in iterations(s, names):
            seen += 1
            ok = False
            for x in ev:
                if x[0] == 'keep':
                    n += pred_is(res, 'switched-off', fn, x[2], Not(Atom('it has the name', eqp(e, own))), 'a check stays in the list')
                    ok = True
            for f2, i2, it, facts2, ev2, _ in s.its:
                # elements are gone through by hand, those with the name are erased
                acc = it[1] if it[0] == 'it' else None
                if acc is None or acc == names or acc[0] != 'acc' or not exhausted(acc, facts):
                    continue
                ok = True
                n += 1
                same = Atom('it has the name', eqp(lambda v: v == e, own)).ev(facts2)
                gone = any(x[0] == 'drop' and x[2] == it for x in ev2)
                if same is None or same != gone:
                    res.report('switched-off', fn.name, f2.where(i2), 'an element is %s though its name is %s' % ('erased' if gone else 'kept', 'the same' if same else 'not looked at' if same is None else 'another'), show(facts2))
            if not ok:
                res.report('switched-off', fn.name, f.where(i), 'a name does not lead to a removal', show(facts))
        for ret, st, env in outs:
            n += 1
            p = next((x for k, x in enumerate(fn.params) if arg(fn, k) == lst), None)
            v = env.get(p)
            if v is not None and v[0] == 'where' and v[1] == lst:
                n += pred_is(res, 'switched-off', fn, v[2], Not(Atom('its name is listed', ('has', names, own))), 'a check stays in the list')
            elif not seen or not exhausted(names, st.facts):
                res.report('switched-off', fn.name, fn.where(fn.body), 'not all names are removed', show(st.facts))
    for fn in prog.find(M + 'checkForName', required=False):
        lst, name = arg_of_type(fn, 'RegisteredCheck'), arg_of_type(fn, 'basic_string')
        lst, name = arg(fn, 0), arg(fn, 1)
        s = Spec(prog)
        hit = Atom('has the name', eqp(name, lambda v: v[0] == 'fld' and v[2] == NAME and v[1] == ('it', lst)))
        for ret, st, _ in s.analyse(fn):
            n += 1
            if ret == ('it', lst) and not exhausted(lst, st.facts):
                if hit.ev(st.facts) is not True:
                    res.report('lookup', fn.name, fn.where(fn.body), 'a check is found by something else than its name', show(st.facts))
            elif ret in (('end', lst), ('it', lst)):
                if not exhausted(lst, st.facts):
                    res.report('lookup', fn.name, fn.where(fn.body), 'a check is not found although not all were looked at', show(st.facts))
            elif ret[:2] != ('find', lst):
                res.report('lookup', fn.name, fn.where(fn.body), 'what is found is not an element of the list', show(st.facts))
        for f, i, old, facts, _ in s.iters:
            n += 1
            if hit.ev(facts) is not False:
                res.report('lookup', fn.name, f.where(i), 'goes on to the next check without having compared the name', show(facts))
    for fn in prog.find('clazy::sort_and_remove_dups', required=False):
        if 'RegisteredCheck' not in fn.typ(fn.tu.decls[fn.params[0]].get('t', -1)):
            continue
        c = arg(fn, 0)
        s = Sets(prog)
        for ret, st, env in s.analyse(fn):
            n += 1
            v = env.get(fn.params[0])
            if v != ('unique', ('sort', c, arg(fn, 1))):
                res.report('duplicates', fn.name, fn.where(fn.body), 'the list is not sorted and then freed of duplicates')
    for q, f1, neg in (('checkLessThan', 'lt', False), ('RegisteredCheck::operator==', 'eq', False)):
        for fn in prog.find(q, required=False):
            a = arg(fn, 0)
            b = arg(fn, 1) if len(fn.params) > 1 else ('this',)
            name = lambda x: ('fld', x, NAME)
            if f1 == 'lt':
                n += decision(res, 'duplicates', prog, fn, Atom('the name comes first', ('lt', name(a), name(b))), what=q)
            else:
                n += decision(res, 'duplicates', prog, fn, Atom('the names are the same', eqp(name(a), name(b))), what=q)
    res.need('selection_paths', n, 8)


# ---- one entry of a list
def entries(res, prog):
    n = 0
    for fn in prog.find(M + 'checksForCommaSeparatedString', required=False):
        if len(fn.params) < 2:
            continue
        text, off = arg(fn, 0), arg(fn, 1)
        s = Sets(prog, prims=prims(M + 'checksForCommaSeparatedString'), atoms=(M + 'checkNameForFixIt',))
        outs = s.analyse(fn)
        names = ('split', text, ('int', 44))
        seen = 0
        each = {}       # list of a level -> its elements are added one by one
        for f, i, old, facts, ev, heap in s.its:
            if old[0] == 'it' and old[1][0] == 'level':
                adds = [x for x in ev if x[0] in ('add', 'append', 'keep', 'minus', 'erase')]
                each[old[1]] = each.get(old[1], True) and len(adds) == 1 and adds[0][0] == 'add' and adds[0][2] == old
                if any(x[0] != 'add' or x[2] != old for x in adds):
                    res.report('entry', fn.name, f.where(i), 'something else is selected or switched off', show(facts, 12))
        for f, i, e, facts, ev, heap in iterations(s, names):
            seen += 1
            for k, t in facts.items():
                for x in k[1:] if t and k[0] == 'eq' else ():
                    if x[0] == 'end' and each.get(x[1]):
                        ev = tuple(ev) + (('append', None, x[1]),)
            n += 1
            where = f.where(i)
            rep = lambda what: res.report('entry', fn.name, where, what, show(facts, 12))
            fix = lambda v: v[0] == 'call' and v[1] == M + 'checkNameForFixIt' and v[-1] == e
            R = Atom('it is the name of a check', ('has', REG, e))
            F = Atom('it is the name of a fix-it', ('has', REG, fix))
            dup = any(t and k[0] == 'has' and k[1] != REG and k[2] == e for k, t in facts.items())
            size = And(Atom('starts with level', ('starts', e, ('str', 'level'))), Atom('one more character', eqp(('size', e), ('int', 6))))
            last = lambda v: mentions_back(v, e)
            inrange = And(Atom('at least 0', ('lt', lambda v: num(v) == -1, last), negs=(('lt', last, lambda v: num(v) == 0 or v == ('int', 48)),)),
                          Atom('at most 2', ('lt', last, lambda v: num(v) == 3 or v == ('int', 51)), negs=(('lt', lambda v: num(v) == 2 or v == ('int', 50), last),)))
            no = Atom('starts with no-', ('starts', e, ('str', 'no-')))
            rest = ('substr', e, ('int', 3))
            isrest = lambda v: v == rest or v[0] == 'call' and str(v[1]).endswith('::substr') and v[2:] == (e, ('int', 3))
            known = Atom('the rest is the name of a check', ('has', REG, isrest))
            added = [x for x in ev if x[0] == 'add' and x[2] == ('find', REG, e)]
            fixed = [x for x in ev if x[0] == 'add' and x[2][0] == 'find' and x[2][1] == REG and fix(x[2][2])]
            levels = [x for x in ev if x[0] == 'append' and x[2][0] == 'level']
            gone = [x for x in ev if x[0] == 'add' and isrest(x[2])]
            other = [x for x in ev if x not in added + fixed + levels + gone and x[0] in ('add', 'append', 'keep', 'minus', 'erase')]
            if other:
                rep('something else is selected or switched off')
            r, fx, lv, nn, kn = R.ev(facts), F.ev(facts), size.ev(facts), no.ev(facts), known.ev(facts)
            if added and r is not True:
                rep('a check is selected that is not registered')
            if fixed and fx is not True:
                rep('the check of a fix-it is selected that is not registered')
            if gone and not (nn and kn):
                rep('something is switched off without being no-<check>')
            if levels and (lv is not True or not last(levels[0][2][1])):
                rep('a level is selected though the entry is not that of a level')
            if dup:
                continue
            if not added:
                if r is not False:
                    rep('an entry that is the name of a registered check does not select it')
                elif not fixed:
                    if fx is not False:
                        rep('an entry that is the name of a fix-it does not select its check')
                    elif not levels:
                        if lv and inrange.ev(facts) is not False or lv is None:
                            rep('the entry of a level does not select it')
                        elif not gone and lv is False:
                            if not (nn is False or nn and kn is False):
                                rep('no-<check> does not switch the check off')
        if not seen:
            res.report('entry', fn.name, fn.where(fn.body), 'the entries between the commas are not gone through')
        for ret, st, env in outs:
            n += 1
            if not exhausted(names, st.facts):
                res.report('entry', fn.name, fn.where(fn.body), 'not all entries are gone through', show(st.facts))
    for fn in prog.find(M + 'checkNameForFixIt', required=False):
        name = arg(fn, 0)
        s = Spec(prog)
        fname = lambda v: v[0] == 'fld' and v[2] == 'RegisteredFixIt::name'
        hit = Atom('has the name', eqp(name, fname))
        empty = Atom('no name', ('empty', name))
        for ret, st, _ in s.analyse(fn):
            n += 1
            if ret in (('list',), ('str', '')):
                if not (empty.ev(st.facts) or exhausted(lambda v: v == REG or v[0] == 'fld' and 'ixit' in v[2], st.facts)):
                    res.report('fix-it', fn.name, fn.where(fn.body), 'no check is found though not all were looked at', show(st.facts))
            elif hit.ev(st.facts) is not True and not any(k[0] == 'has' and t and k[2] == name for k, t in st.facts.items()):
                res.report('fix-it', fn.name, fn.where(fn.body), 'a check is named whose fix-it has another name', show(st.facts))
    res.need('entry_paths_and_iterations', n, 1)


def mentions_back(v, e):
    """about the last character of e"""
    if not isinstance(v, tuple):
        return False
    if v[0] == 'call' and str(v[1]).endswith('::back') and v[2:] == (e,):
        return True
    if v[0] == 'at' and v[1] == e and (v[2] == ('int', 5) or v[2][0] in ('b', 'cat') and ('size', e) in v[2]):
        return True
    return any(mentions_back(x, e) for x in v)


def takes(res, prog):
    """functions that take a text out of a list of texts and say whether it was there"""
    out = []
    n = 0
    for fn in list(prog.funcs.values()):
        ts = [fn.typ(fn.tu.decls[p].get('t', -1)) for p in fn.params]
        if not fn.file.endswith('checkmanager.cpp') or len(ts) != 2 or fn.lambda_ or ':bool (' not in fn.key or not any('vector<std::basic_string' in x.replace('string>', 'basic_string') and '&' in x and not x.startswith('const') for x in ts):
            continue
        lst = next(k for k, x in enumerate(ts) if 'vector' in x)
        c, x = arg(fn, lst), arg(fn, 1 - lst)
        s = Sets(prog)
        for ret, st, env in s.analyse(fn):
            n += 1
            v = env.get(fn.params[lst])
            has = next((t for k, t in st.facts.items() if k == ('has', c, x)), None)
            if has is None:
                eq = any(t and k[0] == 'eq' and x in k[1:] and any(y[0] == 'it' for y in k[1:]) for k, t in st.facts.items())
                has = True if eq else False if exhausted(c, st.facts) else None
            if ret[0] == 'has' or ret[0] == 'not':
                continue
            if has is None or ret != ('c', has) or (v == ('without', c, x)) != has:
                res.report('taking', fn.name, fn.where(fn.body), 'an argument is %s and the answer is %s though it is %s' % ('taken out' if v != c else 'left', ret[-1], 'there' if has else 'not there' if has is False else 'not looked for'), show(st.facts))
        for f, i, e, facts, ev, heap in iterations(s, c):
            n += 1
            if Atom('is the argument', eqp(x, lambda y: same_element(e, y))).ev(facts) is not False:
                res.report('taking', fn.name, f.where(i), 'goes on to the next argument without having compared it', show(facts))
        out.append(fn.q)
    return out, n


# ---- the whole
def norm(v):
    """parts of the result, the names taken out of each, and whether it was sorted and freed of duplicates"""
    if v[0] == 'cat':
        out = []
        for x in v[1:]:
            p, _ = norm(x)
            out += p
        return out, False
    if v[0] == 'minus':
        p, s = norm(v[1])
        return [(t, m + (v[2],)) for t, m in p], s
    if v[0] == 'unique' and v[1][0] == 'sort':
        p, _ = norm(v[1][1])
        return p, True
    if v == ('list',):
        return [], True
    return [(v, ())], False


def nothing(v, facts):
    """whether a list is empty, from the facts of the path"""
    p = set(parts(v))
    if not p:
        return True
    known = {}
    for k, t in facts.items():
        if k[0] == 'empty':
            for x in [k[1]]:
                q = set(parts(x))
                if t:
                    for y in q:
                        known[y] = True
                elif q <= p:
                    return False
    return True if all(known.get(x) for x in p) else None


def impossible(facts):
    full = [set(parts(k[1])) for k, t in facts.items() if k[0] == 'empty' and not t]
    return any(f <= set(parts(k[1])) for f in full for k, t in facts.items() if k[0] == 'empty' and t)


def whole(res, prog):
    n = 0
    fn = prog.one(M + 'requestedChecks')
    a = arg(fn, 0)
    tk, n = takes(res, prog)
    s = Sets(prog, prims=dict(prims(), **{q: take for q in tk}))
    for ret, st, env in s.analyse(fn):
        n += 1
        facts = st.facts
        rep = lambda what: res.report('selection', fn.name, fn.where(fn.body), what, show(facts, 12))
        v = s.resolve(ret, facts)
        facts = s.resolve_facts(facts)
        if impossible(facts):
            continue
        comps, sorted_ = norm(v)
        if comps and nothing(v, facts) and not sorted_:
            comps = []
        taken = [k for k, x in enumerate(NAMES) if any(e[0] == 'erase' and e[2] == x for e in st.events)]
        given = [k for k, x in enumerate(NAMES) if any(t and (k2[0] == 'has' and k2[2] == x or k2[0] == 'eq' and x in k2[1:] and any(y[0] == 'it' for y in k2[1:])) for k2, t in facts.items())]
        absent = [k for k, x in enumerate(NAMES) if any(not t and k2[0] == 'has' and k2[2] == x for k2, t in facts.items())]
        size = lambda v: v[0] == 'size' and root(v[1]) == a
        many = Atom('more than one more argument', ('lt', ('int', 1), size), negs=(('lt', size, ('int', 2)),)).ev(facts)
        one = Atom('one more argument', eqp(('int', 1), size)).ev(facts)
        none = next((t for k, t in facts.items() if k[0] == 'empty' and root(k[1]) == a), None)
        if many is None and (one or none):
            many = False
        if one is None and none:
            one = False
        if one is None and many is False and none is False:
            one = True
        if set(taken) != set(given):
            rep('a level that is given is not taken out of the arguments, or one that is not given is')
            continue
        if not taken and set(absent) != {0, 1, 2}:
            rep('not all levels are looked for')
            continue
        named = [c for c in all_terms(v, facts, st.events) if c[0] == 'named']
        if not comps:
            if many:
                continue
            calls = [e for e in st.events if e[0] == 'append' and e[2][:2] == ('off', 'named')]
            if one and calls and nothing(('named',) + calls[0][2][2:], facts) and any(t and k[0] == 'empty' and ('off',) == k[1][:1] for k, t in facts.items()):
                continue
            rep('nothing is selected though the arguments are as they should be')
            continue
        if many is not False:
            rep('more than one list of checks is accepted')
        if one is None:
            rep('it was not looked at whether a list of checks was given')
        kinds = {}
        for c, m in comps:
            kinds.setdefault(c[0], []).append((c, m))
        want = {'env'}
        if one:
            want.add('named')
            for c, _ in kinds.get('named', ()):
                if not (len(c) == 2 and (c[1][0] == 'at' and root(c[1][1]) == a and c[1][2] == ('int', 0) or c[1][0] == 'call' and str(c[1][1]).endswith(('::front', '::back')) and root(c[1][2]) == a)):
                    rep('the list that is looked up is not the one that was given')
        for k in want - set(kinds):
            rep('the checks %s are not part of what is selected' % ('of the list that was given' if k == 'named' else 'of the environment'))
        if set(kinds) - want - {'level'}:
            rep('something else is selected')
        before = cat(kinds['named'][0][0], kinds['env'][0][0]) if one and 'named' in kinds and 'env' in kinds else kinds['env'][0][0] if 'env' in kinds else ('list',)
        lv = {num(c[1]) for c, _ in kinds.get('level', ())}
        lv.discard(-1)
        if taken:
            if lv != {max(taken)}:
                rep('the level that was given is not the one that is selected')
        else:
            e = nothing(before, facts)
            if e is None:
                rep('it was not looked at whether anything was selected')
            elif e and lv != {1}:
                rep('the default, level1, is not selected though nothing was asked for')
            elif not e and lv:
                rep('a level is selected that was not asked for')
        offs = {('off', 'env')} | ({('off', 'named', kinds['named'][0][0][1])} if one and 'named' in kinds else set())
        for c, m in comps:
            if not any(set(parts(x)) >= offs for x in m):
                rep('checks of %s stay although they are switched off' % {'named': 'the list', 'env': 'the environment', 'level': 'the level'}.get(c[0], c[0]))
        if not sorted_:
            rep('the checks are not sorted and freed of duplicates once all are there')
    res.need('request_paths', n, 6)
    for fn in prog.find(M + 'requestedChecksThroughEnv', required=False):
        off = arg(fn, 0) if fn.params else None
        s = Sets(prog, prims=prims(M + 'requestedChecksThroughEnv'))
        n = 0
        for ret, st, env in s.analyse(fn):
            n += 1
            facts = st.facts
            rep = lambda what: res.report('environment', fn.name, fn.where(fn.body), what, show(facts, 12))
            set_ = next((t for k, t in facts.items() if k[0] == 'nn' and is_env(k[1], 'CLAZY_CHECKS')), None)
            cached = next((not t for k, t in facts.items() if k[0] == 'empty' and k[1][0] == 'static'), None)
            v = ret
            offv = env.get(fn.params[0]) if fn.params else None
            if v[0] == 'static' or v == ('list',):
                if not cached and set_ is not False:
                    rep('CLAZY_CHECKS is not looked at')
            elif v[0] in ('level', 'named'):
                if not set_:
                    rep('checks are selected though CLAZY_CHECKS is not set')
                every = next((t for k, t in facts.items() if k[0] == 'eq' and ('str', 'all_checks') in k[1:]), None)
                if every is None:
                    rep('all_checks was not looked for')
                elif every and not (v[0] == 'level' and num(v[1]) == 2):
                    rep('all_checks does not select all levels')
                elif not every and not (v[0] == 'named' and is_env(v[1], 'CLAZY_CHECKS')):
                    rep('the checks that CLAZY_CHECKS lists are not what is selected')
                elif v[0] == 'named' and not any(x[:2] == ('off', 'named') for x in parts(offv or ('list',))):
                    rep('what CLAZY_CHECKS switches off is lost')
            else:
                rep('what is selected is not what CLAZY_CHECKS says')
            if (v[0] == 'static' and cached) and not any(x[0] == 'static' for x in parts(offv or ('list',))):
                rep('what CLAZY_CHECKS switches off is lost')
            if offv is not None and off not in parts(offv):
                rep('what was switched off before is forgotten')
        res.need('environment_paths', n, 2)


def all_terms(v, facts, events):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(x)
            for y in x:
                go(y)
    go(v)
    return out


def root(v):
    while v[0] in ('without', 'where', 'acc', 'upd') and len(v) > 1 and isinstance(v[1], tuple):
        v = v[1]
    return v


def is_env(v, name):
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == 'call' and v[1] in ('getenv', 'std::getenv') and v[2] == ('str', name):
            return True
        return any(is_env(x, name) for x in v)
    return False


def registration(res, prog):
    n = 0
    for fn in prog.find(M + 'registerCheck', required=False):
        s = Sets(prog)
        for ret, st, env in s.analyse(fn):
            n += 1
            if st.heap.get((('this',), M + 'm_registeredChecks')) != cat(REG, ('one', arg(fn, 0))):
                res.report('registration', fn.name, fn.where(fn.body), 'a check is not added to the registered ones', show(st.facts))
    res.need('registration_paths', n, 1)


def check(res, thorough):
    prog = Program()
    selections(res, prog)
    entries(res, prog)
    whole(res, prog)
    registration(res, prog)
