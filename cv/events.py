"""Events against formulas: which calls a function makes on each of its paths, and whether it makes them exactly when the
specification says so."""
from .spec import ANY, Exists, Spec, index_of, match, show


class Rec(Spec):
    """records calls; names: method/function name -> 'stop' (opaque, value void) or 'go' (also looked into)"""

    def __init__(self, prog, names, atoms=(), keep=None, inline=None):
        super().__init__(prog, atoms, keep, inline)
        self.names = names
        self.its = []          # (fn, node, element, facts, events, heap)

    def on_call(self, fn, i, d, obj, args, st):
        how = self.names.get(d.get('n')) or self.names.get(d.get('q'))
        if how is None:
            return None
        st.event((d['n'], obj) + tuple(args))
        return ('val', ('void',)) if how == 'stop' else ('val', how) if isinstance(how, tuple) else None

    def on_iter(self, fn, i, old, facts, st):
        t = (fn, i, old, facts, st.events, dict(st.heap))
        if t not in self.its:
            self.its.append(t)


def fld(o, q):
    return ('fld', o, q)


def is_fld(q, o=ANY):
    return lambda v: v[0] == 'fld' and v[2] == q and match(o, v[1])


def arg(fn, idx):
    return ('sym', fn.tu.decls[fn.params[idx]].get('n') or 'arg%d' % idx)


def arg_of_type(fn, *sub):
    """the parameter whose type mentions one of the texts"""
    for p in fn.params:
        d = fn.tu.decls[p]
        if any(s in fn.typ(d.get('t', -1)) for s in sub):
            return ('sym', d.get('n') or 'arg%d' % fn.params.index(p))
    return None


def iterations(rec, cont):
    """iterations over a container: (fn, node, elements of it that are looked at, facts, events, heap)"""
    for fn, i, old, facts, ev, heap in rec.its:
        c = index_of(cont, old, facts)
        if c is not None:
            yield fn, i, old if old[0] == 'it' else ('at', c, old), facts, ev, heap


def exhausted(cont, facts):
    return Exists('', cont, None).exhausted(facts)


def same_element(e, v):
    """v is the element e (an iterator, or an index into the container)"""
    return v == e or e[0] == 'at' and v[0] == 'at' and v[1] == e[1] or e[0] == 'it' and v[0] == 'it' and v[1] == e[1]


def has_event(events, pat):
    return any(match(p, e) for e in events for p in pat)


def always(res, rule, fn, outs, formula, pats, what, where=None):
    """on each path: one of the events occurs iff the formula holds (True: always)"""
    n = 0
    for ret, st, _ in outs:
        n += 1
        want = True if formula is True else formula.ev(st.facts)
        has = has_event(st.events, pats)
        wh = where or fn.where(fn.body)
        if want is None:
            res.report(rule, fn.name, wh, '%s: a path %s without establishing %s' % (what, 'does' if has else 'does not', formula), show(st.facts))
        elif want != has:
            res.report(rule, fn.name, wh, '%s: a path %s although %s is %s' % (what, 'does' if has else 'does not', formula, want), show(st.facts))
    return n


def foreach(res, rule, fn, rec, outs, cont, guard, body, event, what):
    """for every element of the container the event occurs iff guard and body; no element is left out.
    event(e): patterns of the event for element e"""
    n = 0
    seen = set()
    for f, i, e, facts, ev, heap in iterations(rec, cont):
        n += 1
        seen.add(i)
        if e[0] == 'at' and e[2][0] == 'int' and e[2][1] > 0 and not any(o == ('int', 0) for g, j, o, _, _, _ in rec.its if g is f and j == i):
            res.report(rule, fn.name, f.where(i), '%s: the first of them is left out' % what)
        has = has_event(ev, event(e))
        g = True if guard is None else guard.ev(facts)
        b = True if body is None else body.ev(facts)
        want = False if g is False or b is False else None if g is None or b is None else True
        name = ' and '.join(str(x) for x in (guard, body) if x is not None) or 'always'
        if want is None:
            res.report(rule, fn.name, f.where(i), '%s: %s without establishing %s' % (what, 'done' if has else 'not done', name), show(facts))
        elif want != has:
            res.report(rule, fn.name, f.where(i), '%s: %s although [%s] is %s' % (what, 'done' if has else 'not done', name, want), show(facts))
    for ret, st, _ in outs:
        n += 1
        g = True if guard is None else guard.ev(st.facts)
        ex = exhausted(cont, st.facts)
        if g is not False and not ex:
            res.report(rule, fn.name, fn.where(fn.body), '%s: a path ends without having gone through all of them%s' % (what, '' if guard is None else ', though %s is %s' % (guard, g)), show(st.facts))
    return n
