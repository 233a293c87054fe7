"""Index and kind preconditions: client of the path-sensitive fact dataflow.  Obligations
  size    an element is accessed by position in something that must have more elements than that
  kind    an accessor that is only defined for one kind of the object
  isa     a cast that is only defined for one class of the object
  iter    the result of a search is dereferenced
Sizes and positions are compared in a zone domain (differences of two quantities bounded by a constant, closed under
transitivity), filled from the comparisons that hold on every path to the site, from the definitions and the mutations of
locals and from what the language guarantees.  A function that relies on its parameters passes the obligation to every caller."""
import re
from .flow import EXPL_CASTS, Flow, State, contradicts, is_ptr_type, bare
from .terms import CAST_FNS, mentions, strip_deref, term

SIZES = {'getNumArgs': 'arg', 'getNumParams': 'param', 'param_size': 'param', 'size': 'elem', 'length': 'elem',
         'getLength': 'elem', 'getNumElements': 'elem', 'getNumTemplateArgs': 'targ', 'getNumInits': 'init'}
INDEXED = {'getArg': 'arg', 'getParamDecl': 'param', 'getParamType': 'param', 'getInit': 'init', 'getTemplateArg': 'targ'}
VIEWS = {'parameters': 'param', 'arguments': 'arg', 'getArgs': 'arg', 'getParamTypes': 'param', 'inits': 'init', 'param_types': 'param', 'children': 'child'}
BEGINS = {'begin': 'elem', 'cbegin': 'elem', 'child_begin': 'child', 'arg_begin': 'arg', 'param_begin': 'param', 'param_type_begin': 'param'}
ONE_CHILD = re.compile(r'clang::((Implicit|CStyle|CXXStatic|CXXFunctional|CXXDynamic|CXXReinterpret|CXXConst)?CastExpr|CXXNamedCastExpr|UnaryOperator|BinaryOperator|MaterializeTemporaryExpr|CXXBindTemporaryExpr|ExprWithCleanups|ParenExpr|ForStmt|IfStmt|WhileStmt|DoStmt|CallExpr|CXXMemberCallExpr|CXXOperatorCallExpr)\b')
EMPTY_IF_FALSE = {'param_empty': 'param'}
BINARY = re.compile(r'OO_(Equal|EqualEqual|ExclaimEqual|Less|Greater|LessEqual|GreaterEqual|LessLess|GreaterGreater|PlusEqual|MinusEqual|StarEqual|SlashEqual|'
                    r'Percent|PercentEqual|LessLessEqual|GreaterGreaterEqual|AmpAmp|PipePipe|Pipe|PipeEqual|Caret|CaretEqual|Comma|ArrowStar|Spaceship)$')
CONT = re.compile(r'^(std::(__cxx11::)?(vector|basic_string|basic_string_view|deque|array|list|span|initializer_list)<|llvm::(SmallVector|ArrayRef|MutableArrayRef|StringRef|SmallString)|'
                  r'clang::TemplateArgumentList|clang::DynTypedNodeList)')
STRING = re.compile(r'^(std::(__cxx11::)?basic_string(_view)?<|llvm::StringRef|llvm::SmallString)')
UNSIGNED = re.compile(r'^(const )?(unsigned( int| long| char| short| long long)?|std::size_t|size_t|.*::size_type)$')
INTS = re.compile(r'^(const )?((unsigned|signed) ?)?(int|long|short|long long|unsigned|size_t)?$')
FINDS = re.compile(r'::(find|rfind|find_first_of|find_first_not_of|find_last_of|find_last_not_of)$')
SEARCHES = re.compile(r'^std::ranges::__(find|find_if|find_if_not|find_end|find_first_of|search|adjacent_find|lower_bound|upper_bound|max_element|min_element)_fn::operator\(\)$|^std::(ranges::)?(find|find_if|find_if_not|find_end|find_first_of|search|adjacent_find|lower_bound|upper_bound|max_element|min_element)$|'
                      r'^clazy::(find|find_if).*|^llvm::(find|find_if)$|^std::.*(map|set|multimap)<.*>::(find|lower_bound|upper_bound)$|^llvm::.*Map.*::find$')
ENDS = ('end', 'cend', 'rend', 'crend')
READERS = re.compile(r'^std::(ranges::)?_*(find|any_of|all_of|none_of|count|for_each|search|equal|mismatch|lower_bound|upper_bound|binary_search|accumulate|copy|transform|max|min|adjacent|is_sorted|distance|size|empty|begin|end|cbegin|cend)|'
                     r'^clazy::(any_of|all_of|find|count|contains|append)|^llvm::(any_of|all_of|none_of|find|is_contained|count|enumerate|zip)')
ZERO = ('lit', '0')
NPOS = re.compile(r'::npos$')


def lit_int(t):
    if t and t[0] == 'lit':
        try:
            return int(str(t[1]), 0)
        except ValueError:
            return None
    if t and t[0] == 'u' and t[1] == '-':
        v = lit_int(t[2])
        return None if v is None else -v
    return None


def size_of(key):
    """node of the zone that stands for the number of elements"""
    kind, obj = key
    while kind == 'elem' and obj and obj[0] == 'm' and len(obj) == 4 and not obj[3] and obj[1].endswith(('::operator basic_string_view', '::operator StringRef', '::operator std::string_view')):
        obj = obj[2]            # a view of the whole text
    if kind == 'elem' and obj and obj[0] == 'lit':
        return ('lit', str(len(str(obj[1]).encode())))
    return ('size', kind, obj)


class Zone:
    """differences bounded by constants: le[(x, y)] = c means x - y <= c"""

    def __init__(self):
        self.le = {}
        self.nodes = {ZERO}
        self.ne = []          # x - y != c
        self.later = []       # guard (node, k): node >= k makes the constraint valid

    def add(self, x, y, c):
        if x == y:
            return
        self.nodes.add(x)
        self.nodes.add(y)
        if c < self.le.get((x, y), 1 << 60):
            self.le[(x, y)] = c

    def close(self):
        le = self.le
        ns = list(self.nodes)
        while True:
            for k in ns:
                into = [(a, le[(a, k)]) for a in ns if (a, k) in le]
                outof = [(b, le[(k, b)]) for b in ns if (k, b) in le]
                for a, x in into:
                    for b, y in outof:
                        if a != b and x + y < le.get((a, b), 1 << 60):
                            le[(a, b)] = x + y
            ch = False
            for x, y, c in self.ne:
                # x - y <= c and != c
                if le.get((x, y)) == c:
                    le[(x, y)] = c - 1
                    ch = True
                if le.get((y, x)) == -c:
                    le[(y, x)] = -c - 1
                    ch = True
            rest = []
            for g, k, x, y, c in self.later:
                if self.get(ZERO, g) <= -k:
                    if c < self.get(x, y):
                        self.nodes |= {x, y}
                        ns = list(self.nodes)
                        le[(x, y)] = c
                        ch = True
                else:
                    rest.append((g, k, x, y, c))
            self.later = rest
            if not ch:
                return

    def get(self, x, y):
        if x == y:
            return 0
        return self.le.get((x, y), 1 << 60)


class Bounds(Flow):
    def __init__(self, prog, exceptions=()):
        super().__init__(prog)
        self.exceptions = exceptions    # (function, text of the access, reason)
        self.excepted = {}
        self.req2 = {}        # function key -> {requirement: (site, why)}
        self.true_le = {}     # function key -> {(x, y): c} over the parameters when it answers true / non-null
        self.ne_le = {}       # the same when it answers a non-empty text
        self.true_lits = {}   # function key -> literals about the parameters that hold when it answers true / non-null
        self.sites = set()
        self.found = {}
        self.tty = {}         # (function, canonical term) -> type
        self._zone = {}       # caches of the function being analysed
        self._cms, self._cmd, self._cmf = {}, {}, None
        self._muts = {}

    # ------------------------------------------------------------ terms
    def vtype(self, fn, v):
        return fn.typ(fn.tu.decls[v].get('t', -1)).strip()

    def alias(self, fn, t):
        """the local stands for what it was initialised with"""
        ty = self.vtype(fn, t[1])
        if ty.endswith('&') or is_ptr_type(ty):
            return True
        b = ty.replace('const ', '').strip()
        return b in ('clang::QualType', 'bool') or INTS.match(b) or 'ArrayRef<' in b or 'StringRef' in b or 'string_view' in b or ty.startswith('const ') or b.startswith('clang::')

    def canon(self, fn, t, st):
        if self._cmf != fn.key:
            self._cms.clear()
            self._zone.clear()
            self._cmd.clear()
            self._cmf = fn.key
        d = st.defs
        got = self._cmd.get(id(d))
        if got is None or got[0] is not d:
            # dictionaries with the same definitions share their translations
            got = self._cmd[id(d)] = (d, self._cms.setdefault(frozenset(d.items()), {}))
        memo = got[1]
        r = memo.get(t)
        return r if r is not None else self._canon(fn, t, st, memo, ())

    def _canon(self, fn, t, st, memo, active):
        if not isinstance(t, tuple) or not t:
            return t
        if t in memo:
            return memo[t]
        r = t
        k = t[0]
        if k == 'v':
            d = st.defs.get(t)
            if d and len(d) == 1 and t not in active:
                (o,) = d
                if o >= 0 and self.alias(fn, t):
                    to = term(fn, o)
                    if to is not None and to != t and not mentions(to, t):
                        r = self._canon(fn, to, st, memo, active + (t,))
        elif k == 'c' and t[1] in CAST_FNS and len(t) == 4:
            r = self._canon(fn, t[3], st, memo, active)
        elif k in ('deref', 'ptr', 'addr'):
            r = self._canon(fn, t[1], st, memo, active)
        elif k in ('lit', 'enum', 'g', 'this', 'null'):
            return t
        elif k == 'le':
            r = ('le', self._canon(fn, t[1], st, memo, active), self._canon(fn, t[2], st, memo, active), t[3])
        else:
            r = tuple(self._canon(fn, x, st, memo, active) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in
                      ('v', 'm', 'c', 'f', 'o', 'b', 'u', 'deref', 'ptr', 'addr', 'ctor', 'empty', 'nn', '?', 'size') else x for x in t)
        memo[t] = r
        return r

    def canon_or(self, fn, a, st):
        t = term(fn, a)
        if t is None:
            return None
        t = self.canon(fn, t, st)
        self.tty.setdefault((fn.key, t), bare(fn.type(a)))
        return t

    def size_key(self, t):
        """(kind, object) when the canonical term is the number of elements of something"""
        if not t:
            return None
        if t[0] == 'size':
            return t[1], t[2]
        if t[0] == 'm' and len(t) == 4:
            k = SIZES.get(t[1].rsplit('::', 1)[-1])
            if k:
                o = t[2]
                if k == 'elem' and o[0] == 'm' and o[1].rsplit('::', 1)[-1] in VIEWS:
                    return (VIEWS[o[1].rsplit('::', 1)[-1]], o[2])
                return (k, o)
        if t[0] == 'c' and t[1] == 'std::distance' and len(t) == 5:
            b = self.begin_of(t[3])
            if b and b == self.end_of(t[4]):
                return b
        if t[0] == 'c' and len(t) == 4 and (t[1] in ('std::size', 'strlen', 'std::strlen', 'std::ssize') or t[1].endswith('ranges::size')):
            return ('elem', t[3])
        return None

    def begin_of(self, t):
        if t[0] == 'm' and len(t) == 4:
            k = BEGINS.get(t[1].rsplit('::', 1)[-1])
            if k:
                return self.elements_t(strip_deref(t[2])) if k == 'elem' else (k, t[2])
        return None

    def end_of(self, t):
        if t[0] == 'm' and len(t) == 4 and t[1].endswith('end'):
            return self.begin_of(('m', t[1][:-3] + 'begin') + t[2:])
        return None

    def elements_t(self, t):
        if t[0] == 'm' and t[1].rsplit('::', 1)[-1] in VIEWS:
            return (VIEWS[t[1].rsplit('::', 1)[-1]], t[2])
        return ('elem', t)

    def lin(self, t):
        """canonical term -> (node, constant)"""
        c = lit_int(t)
        if c is not None:
            return ZERO, c
        k = self.size_key(t)
        if k:
            s = size_of(k)
            if s[0] == 'lit':
                return ZERO, int(s[1])
            return s, 0
        if t[0] == 'b' and t[1] in ('+', '-') and len(t) == 4:
            x, y = t[2], t[3]
            (bx, cx), (by, cy) = self.lin(x), self.lin(y)
            if by == ZERO:
                return bx, cx + (cy if t[1] == '+' else -cy)
            if bx == ZERO and t[1] == '+':
                return by, cx + cy
        return t, 0

    # ------------------------------------------------------------ the zone of a state
    def zone(self, fn, st):
        lits = [(v, self.canon(fn, t, st)) for v, t in st.lits]
        k = st.key()
        if k in self._zone:
            return self._zone[k]
        z = Zone()
        for (v, t), (_, t0) in zip(lits, st.lits):
            if v not in 'TF':
                continue
            if t0[0] != 'b' or len(t0) != 4:
                t0 = t
            if t[0] == 'le':
                z.nodes |= {t[1], t[2]}
                if v == 'T':
                    z.add(t[1], t[2], t[3])
            elif t[0] == 'empty':
                self.empty(z, size_of(self.elements_t(strip_deref(t[1]))), v == 'T')
            elif t[0] == 'm' and len(t) == 4 and t[1].rsplit('::', 1)[-1] in EMPTY_IF_FALSE:
                self.empty(z, size_of((EMPTY_IF_FALSE[t[1].rsplit('::', 1)[-1]], t[2])), v == 'T')
            elif t[0] == 'b' and len(t) == 4 and t[1] in ('<', '=='):
                (x, c), (y, d) = self.lin(t[2]), self.lin(t[3])
                for p, q in ((t[2], t[3]), (t[3], t[2])):
                    b = self.begin_of(p)
                    if b and t[1] == '==' and b == self.end_of(q):
                        self.empty(z, size_of(b), v == 'T')
                    if t[1] == '==' and v == 'T' and p == ZERO and q[0] == 'm' and q[1].endswith('::compare') and len(q) in (5, 7):
                        # the text or the part of it that is compared is the other one: it is at least as long
                        w = size_of(('elem', q[-1]))
                        z.add(ZERO if w[0] == 'lit' else w, size_of(('elem', q[2])), -int(w[1]) if w[0] == 'lit' else 0)
                if t[1] == '<' and v == 'T':
                    # x + c < y + d; wrong when y + d has wrapped below zero
                    self.put(z, (y, d), x, y, d - c - 1, self.signed(fn, t0[3]))
                elif t[1] == '<':
                    self.put(z, (x, c), y, x, c - d, self.signed(fn, t0[2]))
                elif v == 'T':
                    self.put(z, (x, c), y, x, c - d, self.signed(fn, t0[2]))
                    self.put(z, (y, d), x, y, d - c, self.signed(fn, t0[3]))
                else:
                    z.ne.append((x, y, d - c))
                    z.nodes |= {x, y}
                    self.upto(fn, z, st, x, c, y, d)
            elif v == 'T' and t[0] in ('m', 'c', 'o'):
                self.prefix(z, t)
        self.axioms(fn, z, st, lits)
        z.close()
        self._zone[k] = z
        return z

    def signed(self, fn, t):
        """computed in a signed type: the value cannot wrap below zero"""
        while t[0] == 'b' and t[1] in '+-' and len(t) == 4:
            t = t[2]
        return t[0] == 'v' and INTS.match(self.vtype(fn, t[1]).replace('const ', '').rstrip('&').strip()) and not UNSIGNED.match(self.vtype(fn, t[1]).rstrip('&').strip())

    def put(self, z, guard, x, y, c, signed=False):
        g, d = guard
        if d < 0 and g != ZERO and not signed:
            z.later.append((g, -d, x, y, c))
            z.nodes |= {x, y}
        else:
            z.add(x, y, c)

    def empty(self, z, s, yes):
        if s[0] == 'lit':
            return
        z.add(ZERO, s, 0 if yes else -1)
        if yes:
            z.add(s, ZERO, 0)

    def prefix(self, z, t):
        """the text starts or ends with something: it is at least as long"""
        n = t[1].rsplit('::', 1)[-1]
        if n in ('starts_with', 'ends_with', 'startswith', 'endswith', 'contains') and t[0] == 'm' and len(t) == 5:
            o, a = t[2], t[4]
        elif n in ('contains',) and t[0] == 'c' and len(t) == 5 and t[1] == 'clazy::contains':
            o, a = t[3], t[4]
        elif t[0] == 'o' and t[1] == '==' and len(t) == 4:
            for o, a in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == 'lit' and lit_int(a) is None:
                    z.add(ZERO, size_of(('elem', o)), -len(str(a[1]).encode()))
            return
        else:
            return
        if n == 'contains' and not (a[0] == 'lit' and lit_int(a) is None):
            return
        s = size_of(('elem', a))
        z.add(ZERO if s[0] == 'lit' else s, size_of(('elem', o)), -int(s[1]) if s[0] == 'lit' else 0)

    def upto(self, fn, z, st, x, c, y, d):
        """i != n where i only counts upwards one by one from zero and n is a number of elements: i < n"""
        for (i, ci), (n, cn) in (((x, c), (y, d)), ((y, d), (x, c))):
            if i[0] == 'v' and n[0] == 'size' and ci == cn == 0:
                m = self.mutations(fn).get(i[1])
                if m and m[1] == ['++'] and self.from_zero(fn, m[0]):
                    z.add(i, n, -1)

    def from_zero(self, fn, init):
        t = term(fn, init) if init >= 0 else None
        return t is not None and lit_int(t) == 0

    def axioms(self, fn, z, st, lits):
        seen = set()
        todo = set(z.nodes)
        while todo:
            x = todo.pop()
            if x in seen or x == ZERO:
                continue
            seen.add(x)
            before = set(z.nodes)
            if x[0] == 'size':
                z.add(ZERO, x, -self.least(fn, x, st, lits))
                self.related_sizes(fn, z, x, lits)
            elif x[0] == 'v':
                ty = self.vtype(fn, x[1]).rstrip('&').strip()
                if UNSIGNED.match(ty):
                    z.add(ZERO, x, 0)
                if INTS.match(ty.replace('const ', '')):
                    self.moving(fn, z, st, x)
            elif x[0] == 'm' and FINDS.search(x[1]) and len(x) >= 5:
                found = any(v == 'F' and t[0] == 'b' and t[1] == '==' and x in (t[2], t[3]) and self.npos(t[3] if t[2] == x else t[2]) for v, t in lits) or \
                    any(v == 'T' and t[0] == 'b' and t[1] == '<' and t[2] == x for v, t in lits)
                if found:
                    s = size_of(('elem', x[2]))
                    a = x[4]
                    n = x[1].rsplit('::', 1)[-1]
                    if n in ('find', 'rfind'):
                        w = size_of(('elem', a)) if a[0] == 'lit' and lit_int(a) is None else None
                        z.add(x, s, -int(w[1]) if w else 0)
                    else:
                        z.add(x, s, -1)
                    z.add(ZERO, x, 0)
            elif x[0] == 'c' and x[1] == 'std::min' and len(x) == 5:
                for a in x[3:]:
                    n, c = self.lin(a)
                    z.add(x, n, c)
            elif x[0] == 'c' and x[1] == 'std::max' and len(x) == 5:
                for a in x[3:]:
                    n, c = self.lin(a)
                    z.add(n, x, -c)
            elif x[0] == 'b' and x[1] == '-' and len(x) == 4:
                pass
            todo |= z.nodes - before

    def npos(self, t):
        return lit_int(t) == -1 or t[0] == 'g' and NPOS.search(t[1] or '')

    def least(self, fn, x, st, lits):
        """least numbers of elements the language guarantees"""
        kind, obj = x[1], x[2]
        if kind == 'arg':
            ty = self.tty.get((fn.key, obj), '')
            lo = 1 if 'CXXOperatorCallExpr' in ty else 0
            for v, t in lits:
                if v == 'T' and t[0] == 'b' and t[1] == '==' and lo:
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if a[0] == 'm' and a[1].endswith('::getOperator') and a[2] == obj and b[0] == 'enum' and BINARY.search(b[1]):
                            lo = 2
                if v == 'T' and t[0] == 'm' and t[2] == obj and t[1].endswith(('::isAssignmentOp', '::isComparisonOp', '::isInfixBinaryOp')):
                    lo = 2
                if v == 'T' and t[0] == 'm' and t[1].rsplit('::', 1)[-1] in ('isCopyConstructor', 'isMoveConstructor', 'isCopyOrMoveConstructor') and t[2][0] == 'm' and \
                        t[2][1].endswith('::getConstructor') and t[2][2] == obj:
                    lo = max(lo, 1)
            return lo
        if kind == 'elem' and obj[0] in 'mc' and obj[1].endswith('::getParents'):
            return 1        # every node below the translation unit has a parent
        if kind == 'child' and ONE_CHILD.search(self.tty.get((fn.key, obj), '')):
            return 1
        if kind == 'param':
            for v, t in lits:
                if v == 'T' and t[0] == 'm' and t[2] == obj and t[1].rsplit('::', 1)[-1] in \
                        ('isCopyConstructor', 'isMoveConstructor', 'isCopyOrMoveConstructor', 'isCopyAssignmentOperator', 'isMoveAssignmentOperator', 'isConvertingConstructor'):
                    return 1
        return 0

    def related_sizes(self, fn, z, x, lits):
        kind, obj = x[1], x[2]
        if kind == 'param' and obj[0] == 'm' and obj[1].endswith('::getConstructor'):
            # a construction carries an expression for every parameter of the constructor, default arguments included
            z.add(x, ('size', 'arg', obj[2]), 0)
        if kind == 'param' and obj[0] == 'm' and obj[1] == 'clang::CallExpr::getDirectCallee':
            # only a call with dependent arguments lacks its default arguments: if there are parameters there is an argument
            z.later.append((x, 1, ZERO, ('size', 'arg', obj[2]), -1))
            z.nodes |= {x, ('size', 'arg', obj[2])}
            if any(v == 'T' and t[0] == 'm' and t[2] == obj and t[1].endswith('::isTemplateInstantiation') for v, t in lits):
                # overloads of a function template are only resolved once no argument is dependent
                z.add(x, ('size', 'arg', obj[2]), 0)
        if kind == 'child' and re.search(r'CXXConstructExpr|CXXTemporaryObjectExpr', self.tty.get((fn.key, obj), '')):
            z.add(x, ('size', 'arg', obj), 0)
            z.add(('size', 'arg', obj), x, 0)
        if kind == 'arg':
            z.nodes.add(('size', 'param', ('m', 'clang::CallExpr::getDirectCallee', obj, ())))

    def mutations(self, fn):
        """int local -> (initialiser, kinds of later changes)"""
        m = self._muts.get(fn.key)
        if m is None:
            m = {}
            for n in fn.nodes:
                for v, i in n.get('vars', ()):
                    m.setdefault(v, [i, []])[0] = i
            for n in fn.nodes:
                c = n.get('c', [])
                if not c or c[0] < 0:
                    continue
                k = n['k']
                op = None
                if k == 'UnaryOperator' and ('++' in n['op'] or '--' in n['op']):
                    op = n['op'].replace('post', '').replace('pre', '').strip()
                    op = '++' if '++' in op else '--'
                elif k == 'UnaryOperator' and n['op'] == '&':
                    op = '&'
                elif k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    op = n['op']
                if op:
                    t = term(fn, c[0])
                    if t and t[0] == 'v':
                        m.setdefault(t[1], [-1, []])[1].append(op)
                if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr'):
                    d = fn.decl(n)
                    for idx, a in enumerate(c):
                        if d and idx < len(d.get('ps', [])):
                            pt = fn.typ(d['ps'][idx][1])
                            if pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('&&'):
                                t = term(fn, a)
                                if t and t[0] == 'v':
                                    m.setdefault(t[1], [-1, []])[1].append('&')
            self._muts[fn.key] = m
        return m

    def counters(self, fn):
        """loop variable -> counters of the rounds of its range-for: [(counter, range)]"""
        m = fn.__dict__.get('_counters')
        if m is None:
            m = {}
            loops = [i for i in range(len(fn.nodes)) if fn.nodes[i]['k'] == 'CXXForRangeStmt']
            muts = self.mutations(fn) if loops else {}
            for i in loops:
                n = fn.nodes[i]
                body = n.get('body', -1)
                var = next((v for j in (n.get('vstmt', -1),) if j >= 0 for v, _ in fn.nodes[j].get('vars', ())), None)
                if body < 0 or var is None:
                    continue
                inner = set(fn.walk(body))
                nested = {x for j in inner if fn.nodes[j]['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') for x in fn.walk(j)}
                for v, (init, ops) in muts.items():
                    if ops == ['++'] and self.from_zero(fn, init) and init not in inner:
                        inc = [j for j in inner if fn.nodes[j]['k'] == 'UnaryOperator' and '++' in fn.nodes[j]['op'] and term(fn, fn.nodes[j]['c'][0]) == ('v', v)]
                        around = [x for x in loops if x != i and i in set(fn.walk(x)) and not any(fn.nodes[j].get('vars') and any(w == v for w, _ in fn.nodes[j]['vars']) for j in fn.walk(x))]
                        if len(inc) == 1 and inc[0] not in nested and not around and n.get('range', -1) >= 0:
                            m.setdefault(var, []).append((v, n['range']))
            fn.__dict__['_counters'] = m
        return m

    def moving(self, fn, z, st, x):
        """a local that only ever decreases stays at or below its initial value, one that only increases at or above"""
        m = self.mutations(fn).get(x[1])
        if not m or m[0] < 0 or not m[1]:
            return
        t = term(fn, m[0])
        if t is None or any(mentions(t, ('v', v)) for v in self.vars_changed(fn)):
            return
        n, c = self.lin(self.canon(fn, t, st))
        if all(o == '++' or o == '+=' for o in m[1]):
            z.add(n, x, -c)
        elif all(o == '--' for o in m[1]) and not UNSIGNED.match(self.vtype(fn, x[1])):
            z.add(x, n, c)
        elif all(o == '--' for o in m[1]):
            z.add(x, n, c)

    # ------------------------------------------------------------ proofs
    def below(self, fn, idx, key, st, extra):
        """idx + extra < number of elements?"""
        s = size_of(key)
        st = self.with_nodes(fn, st, idx, s)
        z = self.zone(fn, st)
        n, c = self.lin(idx)
        sn, sc = (ZERO, int(s[1])) if s[0] == 'lit' else (s, 0)
        if n == ZERO and c < 0:
            return False
        if c < 0 and z.get(ZERO, n) > c:
            return False                  # may wrap below zero
        if z.get(n, sn) <= sc - c - 1 - extra:
            return True
        if n[0] == 'b' and n[1] == '-' and len(n) == 4:
            (a, ca), (b, cb) = self.lin(n[2]), self.lin(n[3])
            # a - b with b <= a, and b at least lb
            if z.get(b, a) <= ca - cb:
                lb = max(-z.get(ZERO, b), 0) if z.get(ZERO, b) < 1 << 60 else 0
                if b[0] == 'size' or lb > 0 or b[0] == 'v':
                    return z.get(a, sn) <= sc - (ca - lb - cb + c) - 1 - extra
        return False

    def with_nodes(self, fn, st, *ts):
        """make sure the axioms of these quantities are in the zone"""
        new = set()
        for t in ts:
            n, _ = self.lin(t)
            for x in ([n] if n[0] != 'b' else [n] + [self.lin(y)[0] for y in n[2:4]]):
                if x != ZERO and x[0] != 'lit':
                    new.add(('T', ('le', x, x, 0)))
        return Probe(st, frozenset(new))

    # ------------------------------------------------------------ obligations
    def rooted(self, fn, t):
        """the term with parameters by position, or None if it depends on anything else"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'v':
            return ('P', fn.params.index(t[1])) if t[1] in fn.params else None
        if t[0] == 'this':
            return t
        out = []
        for x in t:
            if isinstance(x, tuple):
                y = self.rooted(fn, x)
                if y is None:
                    return None
                out.append(y)
            else:
                out.append(x)
        return tuple(out)

    def subst(self, t, args, this):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'P':
            return args[t[1]] if t[1] < len(args) else None
        if t[0] == 'this':
            return this
        out = []
        for x in t:
            if isinstance(x, tuple):
                y = self.subst(x, args, this)
                if y is None and x:
                    return None
                out.append(y)
            else:
                out.append(x)
        return tuple(out)

    def need(self, fn, site, ob, st, how):
        """ob: ('size', (kind, object), index, slack) | ('kind', object, accessor, enumerator) | ('isa', type, object)"""
        if self.collect:
            self.sites.add((fn.key, site, ob[0]))
        if self.holds(fn, ob, st):
            return
        for x in self.exceptions:
            if fn.name.endswith(x[0]) and how == x[1]:
                self.excepted[x] = True
                return
        r = self.rooted(fn, ob)
        # (a requirement that a recursive call makes ever longer stays where it is)
        if r is not None and depth(r) <= MAX_DEPTH and (has_p(r) or has_this(r)) and self.closed(fn):
            self._req.setdefault(r, (site, how))
            return
        if self.collect:
            self.cur.setdefault((site, ob[0]), (fn, site, how))

    def holds(self, fn, ob, st):
        if ob[0] == 'size':
            return self.below(fn, ob[2], ob[1], st, ob[3])
        self.zone(fn, st)
        lits = [(v, self.canon(fn, t, st)) for v, t in st.lits] if ob[0] != 'isa' else ()
        if ob[0] == 'kind':
            for v, t in lits:
                if v == 'T' and t[0] == 'b' and t[1] == '==':
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if a[0] == 'm' and a[1].endswith('::' + ob[2]) and a[2] == ob[1] and b[0] == 'enum' and b[1].endswith('::' + ob[3]):
                            return True
            return False
        if ob[0] == 'isa':
            return self.is_a(fn, ob[1], ob[2], st)
        return False

    def is_a(self, fn, ty, o, st):
        # cast facts are recorded before canonicalisation strips the casts
        from .flow import GETAS
        for l in st.lits:
            t = l[1]
            if t[0] == 'c' and len(t) == 4 and t[2] and t[2][0] == ty and self.canon(fn, t[3], st) == o:
                if l[0] == 'N' and t[1] in CAST_FNS or l[0] == 'T' and t[1].startswith('llvm::isa'):
                    return True
            if l[0] == 'N' and t[0] == 'm' and t[1].endswith('::getAs') and len(t) >= 4 and t[3] and t[3][0] == ty and self.same_type(self.canon(fn, t[2], st), o):
                return True
            if l[0] == 'T' and t[0] == 'm' and t[1].rsplit('::', 1)[-1] in GETAS.get(ty, ()) and self.same_type(self.canon(fn, t[2], st), o):
                return True
        return False

    def same_type(self, a, b):
        from .flow import strip_smart
        return strip_smart(a) == strip_smart(b)

    def container(self, fn, o):
        return bool(CONT.match(bare(fn.type(o)).rstrip('*').strip()))

    def elements(self, fn, o, st):
        t = self.canon_or(fn, o, st)
        return None if t is None else self.elements_t(t)

    def unknown(self, fn, site, how):
        if self.collect:
            self.sites.add((fn.key, site, 'size'))
            self.cur.setdefault((site, 'size'), (fn, site, how + ' of something that is not a stable value'))

    def visit(self, fn, e, n, st):
        k = n['k']
        c = n.get('c', [])
        d = fn.decl(n) if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr') else None
        if k == 'CXXMemberCallExpr' and d:
            o = n.get('o', -1)
            nm = d['n']
            cls = (d.get('cls') or '')
            if nm in INDEXED and o >= 0 and cls.startswith('clang::') and c:
                self.index(fn, e, INDEXED[nm], o, c[0], st, fn.text(e))
            elif o >= 0 and nm in ('front', 'back', 'pop_back', 'pop_front', 'drop_front', 'drop_back') and self.container(fn, o):
                if not c:
                    self.index(fn, e, None, o, -1, st, fn.text(e), at=0)
            elif o >= 0 and nm in ('at', 'get') and self.container(fn, o) and c:
                self.index(fn, e, None, o, c[0], st, fn.text(e))
            elif o >= 0 and nm in ('substr', 'erase', 'insert', 'replace', 'compare') and re.match(r'^std::(__cxx11::)?basic_string', bare(fn.type(o))) and c and UNSIGNED.match(fn.type(c[0])):
                self.index(fn, e, None, o, c[0], st, fn.text(e), -1)      # may be one past the last
            elif o >= 0 and nm == 'getAsType' and cls.endswith('TemplateArgument'):
                t = self.canon_or(fn, o, st)
                if t is None:
                    self.unknown(fn, e, fn.text(e))
                else:
                    self.need(fn, e, ('kind', t, 'getKind', 'Type'), st, fn.text(e) + ' of an argument that may not be a type')
            elif o >= 0 and nm == 'castAs' and d.get('ta'):
                self.is_type(fn, e, o, d['ta'][0], st)
            elif o >= 0 and nm == 'getAsIntegral' and cls.endswith('TemplateArgument'):
                t = self.canon_or(fn, o, st)
                if t is not None:
                    self.need(fn, e, ('kind', t, 'getKind', 'Integral'), st, fn.text(e) + ' of an argument that may not be a number')
        elif k == 'CXXOperatorCallExpr' and n['op'] == '[]' and len(c) == 2 and self.container(fn, c[0]):
            isstr = bool(re.match(r'^std::(__cxx11::)?basic_string<', bare(fn.type(c[0]))))
            self.index(fn, e, None, c[0], c[1], st, fn.text(e), -1 if isstr else 0)
        elif k == 'CallExpr' and d and d['q'] == 'llvm::cast' and c and not d.get('up'):
            self.is_type(fn, e, c[0], (d.get('ta') or [''])[0], st)
        self.deref_iter(fn, e, n, st)
        if d and d.get('key') in self.req2:
            nodes = self.ptr_args(fn, e)
            args = [self.canon_or(fn, a, st) for a in nodes]
            this = self.canon_or(fn, n['o'], st) if n.get('o', -1) >= 0 else ('this',)
            for r, (site, how) in sorted(self.req2[d['key']].items(), key=repr):
                ob = self.subst(r, args, this)
                g = self.prog.funcs[d['key']]
                why = '%s, which %s relies on (%s)' % (how.split(', which ')[0], d['q'], g.where(site))
                if ob is None or None in flat(ob):
                    self.unknown(fn, e, why)
                else:
                    self.need(fn, e, ob, st, why)
        return st

    def deref_iter(self, fn, e, n, st):
        k, c = n['k'], n.get('c', [])
        if not (k == 'CXXOperatorCallExpr' and n['op'] in ('*', '->') and len(c) == 1 or k == 'UnaryOperator' and n['op'] == '*'):
            return
        t = term(fn, c[0])
        x, t0 = c[0], t
        for _ in range(6):
            xn = fn.nodes[x]
            if xn['k'] == 'ImplicitCastExpr' or xn['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'MaterializeTemporaryExpr') and len(xn.get('c', ())) == 1:
                x = xn['c'][0]
            elif xn['k'] == 'DeclRefExpr':
                d = st.defs.get(term(fn, x))
                if not d or len(d) != 1 or min(d) < 0:
                    return
                (x,) = d
            else:
                break
        up = 0
        while fn.nodes[x]['k'] == 'CXXOperatorCallExpr' and fn.nodes[x]['op'] == '++' and len(fn.nodes[x]['c']) == 1:
            x, up = fn.nodes[x]['c'][0], up + 1
            while fn.nodes[x]['k'] in ('ImplicitCastExpr', 'MaterializeTemporaryExpr'):
                x = fn.nodes[x]['c'][0]
        xn = fn.nodes[x]
        if xn['k'] == 'CXXMemberCallExpr' and xn.get('o', -1) >= 0 and BEGINS.get((fn.decl(xn) or {}).get('n')):
            kind = BEGINS[fn.decl(xn)['n']]
            self.index(fn, e, None if kind == 'elem' else kind, xn['o'], -1, st, fn.text(e), at=up)
            return
        d = fn.callee(x)
        if up or not d or not SEARCHES.search(d['q']):
            return
        if self.collect:
            self.sites.add((fn.key, e, 'iter'))
        o = fn.nodes[x].get('o', -1)
        if o >= 0 and fn.nodes[o]['k'] == 'MemberExpr' and ('T', ('inserted', (fn.decl(fn.nodes[o]) or {}).get('q'))) in st.lits:
            return
        if t0 is None:
            t0 = ('?',)
        w = self.canon(fn, t0, st)
        for v, l in st.lits:
            l = self.canon(fn, l, st)
            if v == 'F' and l[0] in 'bo' and l[1] == '==' and len(l) == 4:
                for a, b in ((l[2], l[3]), (l[3], l[2])):
                    if w == a and b[0] in ('m', 'c') and b[1].rsplit('::', 1)[-1] in ENDS:
                        return
        if self.collect:
            self.cur.setdefault((e, 'iter'), (fn, e, '%s: %s may have found nothing' % (fn.text(e), fn.text(x))))

    def index(self, fn, e, kind, o, i, st, how, extra=0, at=None):
        """i: node of the position, or with at the position itself"""
        t = self.canon_or(fn, o, st)
        key = None if t is None else (kind, t) if kind else self.elements_t(t)
        idx = ('lit', str(at)) if at is not None else self.canon_or(fn, i, st)
        if key is None or idx is None:
            self.unknown(fn, e, how)
            return
        self.need(fn, e, ('size', key, idx, extra), st, how)

    def is_type(self, fn, e, x, ty, st):
        t = self.canon_or(fn, x, st)
        if t is None:
            self.unknown(fn, e, fn.text(e))
            return
        self.need(fn, e, ('isa', ty, t), st, fn.text(e))

    # ------------------------------------------------------------ transfer
    def assign(self, st, var, origin):
        if self.begin_of(var):
            return st           # a temporary iterator is moved, not the object
        return self.stale(super().assign(st, var, origin), var)

    def stale(self, st, var):
        """locals defined in terms of var no longer stand for their definition"""
        old = [v for v, d in st.defs.items() if v != var and len(d) == 1 and min(d) >= 0 and mentions(term(self._fn, min(d)), var)]
        if not old:
            return st
        defs = dict(st.defs)
        for v in old:
            defs[v] = frozenset([-9])
        return State(st.lits, defs)

    def vars_changed(self, fn):
        """locals whose value or contents may change after their definition"""
        m = fn.__dict__.get('_changed')
        if m is None:
            m = {v for v, x in self.mutations(fn).items() if x[1]}
            for n in fn.nodes:
                c = n.get('c', [])
                t = None
                if n['k'] == 'CXXMemberCallExpr' and n.get('o', -1) >= 0 and not n.get('arrow') and not (fn.decl(n) or {}).get('cm') and \
                        (fn.decl(n) or {}).get('n') not in ('get', 'begin', 'end', 'front', 'back', 'at', 'data', 'value'):
                    t = term(fn, n['o'])
                elif n['k'] == 'CXXOperatorCallExpr' and c and (n['op'] in ('++', '--') or n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=', '<=>')):
                    t = term(fn, c[0])
                if t and t[0] == 'v':
                    m.add(t[1])
            fn.__dict__['_changed'] = m
        return m

    def element(self, fn, e, st):
        n = fn.nodes[e]
        k = n['k']
        d = fn.decl(n) if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') else None
        if d and READERS.search(d['q'] or '') or k == 'CXXOperatorCallExpr' and n['op'] == '()' and d and READERS.search((d.get('cls') or '')):
            return self.visit(fn, e, n, st)
        keep = set()
        if d and n.get('o', -1) >= 0 and d['n'] in ('push_back', 'emplace_back', 'append', 'insert', 'push_front'):
            keep = self.lower(fn, term(fn, n['o']), st, 1 if d['n'].endswith(('_back', '_front')) else 0)
        elif k == 'CXXOperatorCallExpr' and n['op'] == '+=' and CONT.match(bare(fn.type(n['c'][0]))):
            keep = self.lower(fn, term(fn, n['c'][0]), st, 1 if fn.nodes[n['c'][1]]['k'] == 'CharacterLiteral' else 0)
        if k == 'UnaryOperator' and ('++' in n['op'] or '--' in n['op']):
            keep = self.stepped(fn, term(fn, n['c'][0]), '++' in n['op'], st)
        self._fn = fn
        st = super().element(fn, e, st)
        if k == 'CXXMemberCallExpr' and d and not d.get('cm') and n.get('o', -1) >= 0 and not n.get('arrow') and \
                d['n'] not in ('get', 'begin', 'end', 'front', 'back', 'at', 'data', 'value'):
            t = term(fn, n['o'])
            if t and t[0] in ('v', 'f'):
                st = self.stale(st, t)
        if k == 'DeclStmt':
            for v, i in n['vars']:
                for cnt, rng in self.counters(fn).get(v, ()):
                    t = self.canon_or(fn, rng, st)
                    if t is not None:
                        keep.add(('T', ('le', ('v', cnt), size_of(self.elements_t(t)), -1)))
            for v, i in n['vars']:
                if i >= 0 and CONT.match(bare(self.vtype(fn, v))):
                    m = self.literal_size(fn, i)
                    if m:
                        keep.add(('T', ('le', ZERO, ('size', 'elem', ('v', v)), -m)))
                    keep |= self.built(fn, ('v', v), i, st)
        elif k == 'CXXOperatorCallExpr' and n['op'] == '=' and STRING.match(bare(fn.type(n['c'][0]))):
            t = term(fn, n['c'][0])
            if t is not None:
                keep |= self.built(fn, t, n['c'][1], st)
        if d and d.get('key') in self.prog.funcs and (n['k'] != 'CXXMemberCallExpr' or self.own(fn, n)):
            keep |= {('T', ('inserted', f)) for f in self.inserts(d['key'])}
        return st.with_lits(frozenset(keep))

    def stepped(self, fn, v, up, st):
        """upper bounds of a local after it was counted up or down"""
        out = set()
        if not v or v[0] != 'v' or not INTS.match(self.vtype(fn, v[1]).replace('const ', '').rstrip('&').strip()):
            return out
        z = self.zone(fn, self.with_nodes(fn, st, v))
        n, c0 = self.lin(self.canon(fn, v, st))
        for s in z.nodes:
            if s[0] == 'size' and not mentions(s, v):
                ub = z.get(n, s) + c0 + (1 if up else -1)
                if ub <= 0:
                    out.add(('T', ('le', v, s, max(ub, -4))))
        if not up:
            m = self.mutations(fn).get(v[1])
            if m and m[0] >= 0 and m[1] and all(o == '--' for o in m[1]):
                t = term(fn, m[0])
                if t is not None and not any(mentions(t, ('v', w)) for w in self.vars_changed(fn)):
                    x, c = self.lin(self.canon(fn, t, st))
                    out.add(('T', ('le', v, x, c - 1)))
        return out

    def own(self, fn, n):
        return n.get('o', -1) < 0 or fn.nodes[n['o']]['k'] == 'CXXThisExpr' or term(fn, n['o']) == ('this',)

    def inserts(self, key):
        """containers (data members) that have an entry for what they are asked for on every path through the function"""
        m = self.__dict__.setdefault('_ins', {})
        if key in m:
            return m[key]
        m[key] = set()
        f = self.prog.funcs[key]
        blocks = f.blocks
        if not blocks:
            return m[key]
        per = {}
        for b in blocks.values():
            for e in b['el']:
                if isinstance(e, dict):
                    continue
                n = f.nodes[e]
                o = None
                if n['k'] == 'CXXOperatorCallExpr' and n['op'] == '[]':
                    o = n['c'][0]
                elif n['k'] == 'CXXMemberCallExpr' and (f.decl(n) or {}).get('n') in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
                    o = n.get('o', -1)
                if o is not None and o >= 0 and f.nodes[o]['k'] == 'MemberExpr':
                    per.setdefault((f.decl(f.nodes[o]) or {}).get('q'), set()).add(b['id'])
        for fld, where in per.items():
            seen, work = set(), [f.entry]
            while work:
                b = work.pop()
                if b in seen or b in where or b < 0:
                    continue
                seen.add(b)
                if not blocks[b].get('nr'):
                    work += blocks[b]['su']
            if f.exit not in seen:
                m[key].add(fld)
        return m[key]

    def built(self, fn, var, i, st):
        """text built from a pointer and a length"""
        n = fn.nodes[i]
        while n['k'] in ('ImplicitCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') + EXPL_CASTS and n.get('c'):
            n = fn.nodes[n['c'][0]]
        c = n.get('c', [])
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and STRING.match(bare(fn.type(n))) and len(c) >= 2 and '*' in fn.type(c[0]) and UNSIGNED.match(fn.type(c[1])):
            t = self.canon_or(fn, c[1], st)
            if t is not None and not mentions(t, var):
                x, k = self.lin(t)
                s = size_of(('elem', var))
                return {('T', ('le', x, s, -k)), ('T', ('le', s, x, k))}
        return set()

    def lower(self, fn, t, st, plus):
        if t is None:
            return set()
        t = self.canon(fn, t, st)
        s = size_of(self.elements_t(strip_deref(t)))
        lo = -self.zone(fn, self.with_nodes(fn, st, s)).get(ZERO, s)
        if lo < -(1 << 50):
            lo = 0
        if lo + plus <= 0:
            return set()
        return {('T', ('le', ZERO, s, -min(lo + plus, 4)))}

    def literal_size(self, fn, i):
        n = fn.nodes[i]
        c = n.get('c', [])
        if n['k'] == 'StringLiteral':
            return len((n.get('v') or '').encode())
        if n['k'] == 'InitListExpr':
            return len(c)
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'CXXStdInitializerListExpr', 'ExprWithCleanups') + EXPL_CASTS and c:
            return self.literal_size(fn, c[0]) if c[0] >= 0 else 0
        return 0

    def merge(self, fn, states):
        m = super().merge(fn, states)
        defs = {k: v for k, v in m.defs.items() if all(k in s.defs for s in states) or is_ptr_type(self.vtype(fn, k[1]) if k[0] == 'v' else '*')}
        # differences are joined, not intersected
        les = {(t[1], t[2]) for s in states for v, t in s.lits if t[0] == 'le' and v == 'T' and t[1] != t[2]}
        out = set()
        for x, y in les:
            c = max(self.distance(fn, x, y, s) for s in states)
            if c < 1 << 50:
                out.add(('T', ('le', x, y, c)))
        return State(frozenset(l for l in m.lits if l[1][0] != 'le') | out, defs)

    def distance(self, fn, x, y, st):
        """bound on x - y"""
        (nx, cx), (ny, cy) = self.lin(self.canon(fn, x, st)), self.lin(size_lit(self.canon(fn, y, st)))
        return self.zone(fn, st).get(nx, ny) + cx - cy

    # ------------------------------------------------------------ conditions
    def run_block(self, fn, b, st):
        out = super().run_block(fn, b, st)
        if b.get('tk') != 'SwitchStmt' or b.get('tc', -1) < 0:
            return out
        t = term(fn, b['tc'])
        if t is None:
            return out
        vals = {}
        for s in b['su']:
            if s >= 0 and fn.blocks[s].get('lbl', -1) >= 0:
                n = fn.nodes[fn.blocks[s]['lbl']]
                if n['k'] == 'CaseStmt' and n.get('c'):
                    v = term(fn, n['c'][0])
                    if v is not None:
                        vals[s] = v
        res = []
        for s, o in out:
            if s in vals:
                f = {self.cmp_term('==', t, vals[s])}
            elif s >= 0:
                f = {self.cmp_term('!=', t, v) for v in vals.values()}
            else:
                f = set()
            if not contradicts(o.lits | f, f):
                res.append((s, o.with_lits(frozenset(f))))
        return res

    def call_true(self, fn, i, st, nonempty):
        out = super().call_true(fn, i, st, nonempty)
        n = fn.nodes[i]
        d = fn.callee(i) if n['k'] not in ('DeclRefExpr',) else None
        if d and nonempty and d.get('key') in self.ne_le:
            args = [self.canon_or(fn, a, st) for a in self.ptr_args(fn, i)]
            this = self.canon_or(fn, n['o'], st) if n.get('o', -1) >= 0 else ('this',)
            self.le_facts(out, self.ne_le[d['key']], args, this)
        if d and not nonempty and (d.get('key') in self.true_lits or d.get('key') in self.true_le):
            args = [self.canon_or(fn, a, st) for a in self.ptr_args(fn, i)]
            this = self.canon_or(fn, n['o'], st) if n.get('o', -1) >= 0 else ('this',)
            for v, t in self.true_lits.get(d['key'], ()):
                s = self.subst(t, args, this)
                if s is not None and None not in flat(s):
                    out.add((v, s))
            self.le_facts(out, self.true_le.get(d['key'], {}), args, this)
        return out

    def le_facts(self, out, les, args, this):
        for (x, y), c in les.items():
            x, y = self.subst(x, args, this), self.subst(y, args, this)
            if x is not None and y is not None and None not in flat(x) and None not in flat(y):
                (x, cx), (y, cy) = self.lin(size_lit(x)), self.lin(size_lit(y))
                out.add(('T', ('le', x, y, c - cx + cy)))

    # ------------------------------------------------------------ whole program
    def run(self):
        fns = self.prog.funcs
        callers = {}
        for f in fns.values():
            for i in f.all_nodes():
                g = f.callee(i)
                if g and g.get('key') in fns:
                    callers.setdefault(g['key'], set()).add(f.key)
        self.callers = callers
        work = list(fns)
        inw = set(work)
        count = {}
        while work:
            k = work.pop(0)
            inw.discard(k)
            count[k] = count.get(k, 0) + 1
            if count[k] > 20:
                continue
            f = fns[k]
            self._req = {}
            self.cur = {}
            self.analyse(f)
            self.found[k] = list(self.cur.values())
            if self.summarise(f):
                for c in list(callers.get(k, ())) + [k]:
                    if c not in inw:
                        inw.add(c)
                        work.append(c)
        self.steps = sum(count.values())
        out = [r for v in self.found.values() for r in v]
        return out

    def closed(self, f):
        """every call of the function is in the program"""
        return not f.o.get('virt') and not f.lambda_ and bool(self.callers.get(f.key, set()) - {f.key})

    def summarise(self, f):
        ch = False
        if set(self._req) != set(self.req2.get(f.key, {})):
            self.req2[f.key] = dict(self._req)
            if not self._req:
                del self.req2[f.key]
            ch = True
        rt = f.typ(f.o['rt'])
        if rt == 'bool' or is_ptr_type(rt) or rt == 'clang::QualType':
            must, mle = None, None
            for e, st in self.rets:
                c = f.nodes[e].get('c', [])
                if not c or c[0] < 0 or self.is_false(f, c[0]):
                    continue
                lits = self.facts(f, c[0], True, st) if rt == 'bool' else self.imply(f, c[0], True, st)
                if contradicts(st.lits | lits, lits):
                    continue
                s2 = st.with_lits(frozenset(lits))
                s = set()
                for v, t in s2.lits:
                    t = self.canon(f, t, s2)
                    if v in 'TF' and t[0] in 'mb':
                        r = self.rooted(f, t)
                        if r is not None and has_p(r):
                            s.add((v, r))
                le = self.rooted_le(f, s2)
                must = s if must is None else must & s
                mle = le if mle is None else {k: max(v, le[k]) for k, v in mle.items() if k in le}
            new = frozenset(must or ())
            if new != self.true_lits.get(f.key, frozenset()):
                self.true_lits[f.key] = new
                ch = True
            if (mle or {}) != self.true_le.get(f.key, {}):
                self.true_le[f.key] = mle or {}
                ch = True
        elif STRING.match(bare(rt)):
            mle = None
            for e, st in self.rets:
                c = f.nodes[e].get('c', [])
                if not c or c[0] < 0 or self.is_empty_str(f, c[0]):
                    continue
                le = self.rooted_le(f, st.with_lits(frozenset(self.call_true(f, c[0], st, True))))
                mle = le if mle is None else {k: max(v, le[k]) for k, v in mle.items() if k in le}
            if (mle or {}) != self.ne_le.get(f.key, {}):
                self.ne_le[f.key] = mle or {}
                ch = True
        return ch

    def rooted_le(self, f, st):
        le = {}
        for (x, y), b in self.zone(f, st).le.items():
            rx, ry = self.rooted(f, x), self.rooted(f, y)
            if rx is not None and ry is not None and (has_p(rx) or has_p(ry)) and not (x == ZERO and b >= 0 or b >= 1 << 50):
                le[(rx, ry)] = b
        return le


class Probe:
    """a state together with quantities the zone must know about"""
    def __init__(self, st, extra):
        self.lits = st.lits | extra
        self.defs = st.defs
        self._k = (st.key(), extra)

    def key(self):
        return self._k


def size_lit(t):
    if t[0] == 'size':
        return size_of((t[1], t[2]))
    return t


def flat(t):
    if isinstance(t, tuple):
        for x in t:
            yield from flat(x) if isinstance(x, tuple) else (x,)
    else:
        yield t


MAX_DEPTH = 10


def depth(t):
    return 1 + max((depth(x) for x in t if isinstance(x, tuple)), default=0) if isinstance(t, tuple) else 0


def mentions_p(t):
    if isinstance(t, tuple) and t:
        if t[0] == 'P':
            yield t[1]
        else:
            for x in t:
                yield from mentions_p(x)


def has_this(t):
    return isinstance(t, tuple) and bool(t) and (t[0] == 'this' or any(has_this(x) for x in t))


def has_p(t):
    return next(iter(mentions_p(t)), None) is not None
