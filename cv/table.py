"""The registration table, as the code builds it: which names are registered with which class, level, options and fix-its."""
from .extract import AnalysisBroken
from .sets import Sets


class Entry:
    pass


def OPTION(prog, name):
    v = enum_values(prog, 'RegisteredCheck::Option')
    if name not in v:
        raise AnalysisBroken('RegisteredCheck::%s not found' % name)
    return v[name]


def enum_values(prog, q):
    e = prog.enums.get(q)
    if not e:
        raise AnalysisBroken('enum %s not found' % q)
    return {n: int(v) for n, v in e['cs']}


class Table(Sets):
    """registerCheck and registerFixIt are recorded together with the place they are called from"""

    def __init__(self, prog):
        super().__init__(prog, {})
        self.places = {}
        self.made = {}

    def on_new(self, fr, st, i):
        n = fr.fn.nodes[i]
        t = fr.fn.type(i).replace(' *', '').replace('const ', '').strip()
        c = fr.fn.nodes[n['c'][0]] if n.get('c') else None
        args = tuple(self.val(fr, st, x) for x in (c or {}).get('c', ()))
        return ('new', t, args)

    def on_call(self, fn, i, d, obj, args, st):
        if d.get('q') in ('CheckManager::registerCheck', 'CheckManager::registerFixIt'):
            if d['n'] == 'registerCheck' and args and args[0][0] != 'list':
                # built field by field
                fs = [st.heap.get((args[0], 'RegisteredCheck::' + n)) for n in ('name', 'level', 'factory', 'options')]
                if None not in fs:
                    args = [('list', *fs)] + list(args[1:])
            ev = (d['n'],) + tuple(args)
            st.event(ev)
            self.places[ev] = (fn, i)
            return ('val', ('void',))
        return super().on_call(fn, i, d, obj, args, st)


def registered(prog):
    """([Entry(name, level, options, cls, made=(name, options) or None, fn, where)], [(id, fix, check, fn, where)])"""
    fn = prog.one('CheckManager::registerChecks')
    s = Table(prog)
    outs = s.analyse(fn)
    if len(outs) != 1:
        raise AnalysisBroken('the registration of the checks depends on something')
    checks, fixes = [], []
    for ev in outs[0][1].events:
        f, i = s.places[ev]
        if ev[0] == 'registerCheck':
            v = ev[1]
            if v[0] != 'list' or len(v) != 5 or v[1][0] != 'str' or v[3][0] != 'lambda':
                raise AnalysisBroken('registration %r is not understood' % (v,))
            e = Entry()
            e.name, e.level, e.fn, e.where = v[1][1], num(v[2]), f, f.where(i)
            e.options = num(v[4])
            if e.options is None or e.level is None:
                raise AnalysisBroken('level or options of %s are not known' % e.name)
            lam = prog.funcs.get(v[3][1])
            cl = s.closures.get(v[3][1], ({}, None))
            env = dict(cl[0])
            rets = {r for r, _, _ in s.analyse(lam, env, cl[1] or ('this',))} if lam else set()
            e.cls = e.made = None
            if len(rets) == 1:
                r = rets.pop()
                if r[0] == 'new':
                    e.cls, e.made = r[1], r[2]
            if e.cls is None:
                raise AnalysisBroken('what the factory of %s creates is not known' % e.name)
            checks.append(e)
        elif ev[0] == 'registerFixIt':
            fixes.append((num(ev[1]), ev[2][1] if ev[2][0] == 'str' else None, ev[3][1] if ev[3][0] == 'str' else None, f, f.where(i)))
    return checks, fixes


def num(v):
    if v[0] == 'int':
        return v[1]
    if v[0] == 'enum':
        return v[2]
    if v[0] in ('bor', 'b|', 'or'):
        xs = [num(x) for x in v[1:]]
        if None in xs:
            return None
        r = 0
        for x in xs:
            r |= x
        return r
    if v[0] == 'b' and v[1] == '|':
        xs = [num(x) for x in v[2:]]
        return None if None in xs else xs[0] | xs[1]
    return None
