"""Canonical value terms for expressions (access paths over resolved declarations)."""

CAST_FNS = {'llvm::dyn_cast', 'llvm::cast', 'llvm::dyn_cast_or_null', 'llvm::cast_or_null', 'llvm::dyn_cast_if_present', 'llvm::cast_if_present'}
CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')
EXPL_CASTS = ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr')


def term(fn, i, depth=0):
    """hashable term for node i or None when the expression is not a stable value"""
    if i is None or i < 0 or depth > 20:
        return None
    memo = fn.__dict__.setdefault('_terms', {})
    if i in memo:
        return memo[i]
    memo[i] = None
    memo[i] = r = _term(fn, i, depth)
    return r


def _args(fn, ids, depth):
    out = []
    for j in ids:
        t = term(fn, j, depth + 1)
        if t is None:
            return None
        out.append(t)
    return tuple(out)


def _term(fn, i, depth):
    n = fn.nodes[i]
    k = n['k']
    c = n.get('c', [])
    if k == 'DeclRefExpr':
        d = fn.decl(n)
        if d is None:
            return None
        if d['k'] in ('Var', 'ParmVar', 'Binding', 'Decomposition', 'ImplicitParam') and not d.get('gl') and not d.get('sl'):
            return ('v', n['d'])
        if d['k'] == 'EnumConstant':
            return ('enum', d['q'])
        return ('g', d['q'])
    if k == 'CXXThisExpr':
        return ('this',)
    if k == 'MemberExpr':
        b = term(fn, c[0], depth + 1) if c else None
        if b is None:
            return None
        return ('f', strip_deref(b), (fn.decl(n) or {}).get('q'))
    if k == 'CXXMemberCallExpr':
        o = term(fn, n.get('o', -1), depth + 1)
        a = _args(fn, c, depth)
        d = fn.decl(n)
        if o is None or a is None or d is None:
            return None
        return ('m', d['q'], strip_deref(o)) + (tuple(d.get('ta', ())),) + a
    if k == 'CallExpr':
        d = fn.decl(n)
        a = _args(fn, c, depth)
        if d is None or a is None:
            return None
        return ('c', d['q'], tuple(d.get('ta', ())[:1] if d['q'].startswith('llvm::') else d.get('ta', ()))) + a
    if k == 'CXXOperatorCallExpr':
        a = _args(fn, c, depth)
        if a is None:
            return None
        if n['op'] in ('->',):
            return ('ptr', a[0])
        if n['op'] == '*' and len(a) == 1:
            return ('deref', ('ptr', a[0]))
        return ('o', n['op']) + a
    if k == 'UnaryOperator':
        b = term(fn, c[0], depth + 1)
        if b is None:
            return None
        if n['op'] == '*':
            return ('deref', b)
        if n['op'] == '&':
            return ('addr', b)
        if '++' in n['op'] or '--' in n['op']:
            return None
        return ('u', n['op'], b)
    if k == 'BinaryOperator':
        if n['op'] == '=':
            return term(fn, c[0], depth + 1)
        if n['op'] == ',':
            return term(fn, c[1], depth + 1)
        a = _args(fn, c, depth)
        return None if a is None else ('b', n['op']) + a
    if k in ('IntegerLiteral', 'StringLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr'):
        return ('lit', n.get('v'))
    if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
        return ('null',)
    if k == 'ImplicitCastExpr' and c:
        b = term(fn, c[0], depth + 1)
        if b is None:
            return None
        if n.get('ck') == 'PointerToBoolean':
            return ('nn', b)
        return b
    if k in EXPL_CASTS and c:
        return term(fn, c[0], depth + 1)
    if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        if len(c) == 1:
            return term(fn, c[0], depth + 1)
        a = _args(fn, c, depth)
        return None if a is None else ('ctor', (fn.decl(n) or {}).get('cls')) + a
    if k == 'ArraySubscriptExpr':
        a = _args(fn, c, depth)
        return None if a is None else ('o', '[]') + a
    if k == 'ConditionalOperator':
        a = _args(fn, c, depth)
        return None if a is None else ('?',) + a
    return None


def strip_deref(t):
    """object designated either by a pointer or by the object itself: (*p).x and p->x are one path"""
    while t and t[0] in ('deref', 'ptr'):
        t = t[1]
    return t


def mentions(t, var):
    if not isinstance(t, tuple):
        return False
    if t == var:
        return True
    return any(mentions(x, var) for x in t[1:])
