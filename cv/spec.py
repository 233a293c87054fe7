"""Specifications for decision functions: a three-valued formula over the elementary conditions of the code, compared
with what every path of the function answers (cv.decide).  A path that answers without having looked at what the formula
depends on is as wrong as one that answers the opposite."""
from .decide import Interp, mentions

ANY = object()


class Var:
    def __init__(self, pred):
        self.pred = pred


def match(p, v):
    """structural match of a value against a pattern; ANY matches everything, a callable is asked, a str in function
    position may be a suffix starting with '::'"""
    if p is ANY:
        return True
    if callable(p):
        return bool(p(v))
    if isinstance(p, tuple):
        if not isinstance(v, tuple):
            return False
        if p and p[-1] is Ellipsis:
            return len(v) >= len(p) - 1 and all(match(a, b) for a, b in zip(p[:-1], v))
        return len(p) == len(v) and all(match(a, b) for a, b in zip(p, v))
    if isinstance(p, str) and isinstance(v, str) and p.startswith('::'):
        return v.endswith(p) or v == p[2:]
    return p == v


def eqp(a, b):
    """pattern of an equality, whichever way round"""
    return lambda v: v[0] == 'eq' and (match(a, v[1]) and match(b, v[2]) or match(a, v[2]) and match(b, v[1]))


def call(q, *a):
    return ('call', q) + a


class Atom:
    """pattern(s) of a condition; negs: patterns that mean the opposite"""

    def __init__(self, name, *pats, negs=()):
        self.name, self.pats, self.negs = name, pats, negs

    def ev(self, facts):
        for k, t in facts.items():
            if any(match(p, k) for p in self.pats):
                return t
            if any(match(p, k) for p in self.negs):
                return not t
        return None

    def __str__(self):
        return self.name


class Not:
    def __init__(self, a):
        self.a = a

    def ev(self, f):
        v = self.a.ev(f)
        return None if v is None else not v

    def __str__(self):
        return 'not (%s)' % self.a


class And:
    def __init__(self, *xs):
        self.xs = xs

    def ev(self, f):
        vs = [x.ev(f) for x in self.xs]
        return False if False in vs else None if None in vs else True

    def __str__(self):
        return '(' + ' and '.join(map(str, self.xs)) + ')'


class Or:
    def __init__(self, *xs):
        self.xs = xs

    def ev(self, f):
        vs = [x.ev(f) for x in self.xs]
        return True if True in vs else None if None in vs else False

    def __str__(self):
        return '(' + ' or '.join(map(str, self.xs)) + ')'


class Exists:
    """some element of the container satisfies the body.  elem: container pattern; the body's atoms are about any
    element; true on a path that found such an element, false once the container is exhausted (every iteration that went
    on is checked separately, see Spec.iterations)"""

    def __init__(self, name, cont, body):
        self.name, self.cont, self.body = name, cont, body

    def exhausted(self, facts):
        for k, t in facts.items():
            if k[0] == 'eq' and t and (k[1][0] == 'it' and k[2] == ('end', k[1][1]) and match(self.cont, k[1][1]) or k[2][0] == 'it' and k[1] == ('end', k[2][1]) and match(self.cont, k[2][1])):
                return True
            if k[0] == 'lt' and not t and k[2][0] == 'size' and (k[1][0] != 'cat' and k[1] != ('int', 1)) and match(self.cont, k[2][1]):
                return True
            if k[0] == 'eq' and t and any(a[0] == 'size' and b[0] in ('int', 'hv') and match(self.cont, a[1]) for a, b in (k[1:], (k[2], k[1]))):
                return True
            if k[0] == 'empty' and t and match(self.cont, k[1]):
                return True
        return False

    def ev(self, facts):
        b = self.body.ev(facts)
        if b:
            return True
        if self.exhausted(facts):
            return False
        return None

    def __str__(self):
        return 'some %s: %s' % (self.name, self.body)


def elem(cont):
    """pattern of an element of the container"""
    return lambda v: v[0] == 'it' and match(cont, v[1]) or v[0] == 'at' and match(cont, v[1])


def exists_in(f):
    if isinstance(f, Exists):
        yield f
        yield from exists_in(f.body)
    for x in getattr(f, 'xs', ()):
        yield from exists_in(x)
    if isinstance(f, Not):
        yield from exists_in(f.a)


def index_of(cont, old, facts):
    """the container (matching cont) that old, a loop variable, goes through, or None"""
    if old[0] == 'it':
        return old[1] if match(cont, old[1]) else None
    sizes = [k[2][1] for k, t in facts.items() if k[0] == 'lt' and t and k[1] == old and k[2][0] == 'size']
    for c in sizes:
        if match(cont, c):
            return c
    if sizes:
        return None
    for k, t in facts.items():
        if k[0] == 'eq' and not t and old in k[1:]:
            x = k[1] if k[2] == old else k[2]
            if x[0] == 'size' and match(cont, x[1]):
                return x[1]
        if k[0] == 'empty' and not t and old == ('int', 0) and match(cont, k[1]):
            return k[1]
    return None


class Spec(Interp):
    """atoms: functions of the repository that stay elementary conditions; all others are looked into"""

    def __init__(self, prog, atoms=(), keep=None, inline=None):
        super().__init__(prog)
        self.atoms = set(atoms)
        self.keep = keep
        self.inline = inline
        self.iters = []

    def want_inline(self, callee):
        if callee.q in self.atoms:
            return False
        return self.inline(callee) if self.inline else True

    def keep_fact(self, key):
        return self.keep(key) if self.keep else True

    def on_iter(self, fn, i, old, facts, st):
        self.iters.append((fn, i, old, facts, st.events))


def show(facts, n=6):
    def sh(v):
        if isinstance(v, tuple):
            if v[0] == 'fld':
                return sh(v[1]) + '.' + str(v[2]).split('::')[-1]
            if v[0] in ('sym',):
                return str(v[1])
            if v[0] == 'call':
                return str(v[1]).split('::')[-1] + '(' + ', '.join(sh(x) for x in v[2:]) + ')'
            if v[0] in ('c', 'int', 'str'):
                return repr(v[1])
            if v[0] == 'hv':
                return '<%s>' % v[3]
            if v[0] in ('enum', 'glob'):
                return str(v[1]).split('::')[-1]
            return str(v[0]) + '(' + ', '.join(sh(x) for x in v[1:]) + ')'
        return str(v)
    out = []
    for k, t in facts.items():
        s = sh(k)
        out.append(('' if t else 'not ') + (s if len(s) < 160 else s[:157] + '...'))
    return out


def decision(res, rule, prog, fn, formula, atoms=(), keep=None, inline=None, what='', env=None, spec=None):
    """every path of fn answers what the formula says; returns the number of paths"""
    sp = spec or Spec(prog, atoms, keep, inline)
    outs = sp.analyse(fn, env)
    n = 0
    for ret, st, _ in outs:
        for t, f2, s2 in sp.split(_Fr(fn), st, ret):
            n += 1
            want = formula.ev(s2.facts)
            if want is None:
                res.report(rule, fn.name, fn.where(fn.body), '%s: a path answers %s without establishing %s' % (what, t, formula), show(s2.facts))
            elif want != t:
                res.report(rule, fn.name, fn.where(fn.body), '%s: a path answers %s although %s is %s on it' % (what, t, formula, want), show(s2.facts))
    for ex in exists_in(formula):
        for f, i, old, facts, _ in sp.iters:
            if index_of(ex.cont, old, facts) is None:
                continue
            n += 1
            v = ex.body.ev(facts)
            if v is None:
                res.report(rule, f.name, f.where(i), '%s: goes on to the next %s without establishing %s' % (what, ex.name, ex.body), show(facts))
            elif v:
                res.report(rule, f.name, f.where(i), '%s: goes on to the next %s although %s holds for this one' % (what, ex.name, ex.body), show(facts))
    return n


class _Fr:
    def __init__(self, fn):
        self.fn = fn

    def copy(self):
        return self
