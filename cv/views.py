"""Lifetimes of views: which storage do the references, pointers, iterators and string/array views of a function refer
to, and is that storage still there (and still laid out the same way) when they are used?

Tokens of a view
  ('temp', node)            an object that is gone at the end of the full-expression
  ('st', term, kind)        the storage designated by a term: a local, a parameter taken by value, a data member ...
  ('param', i)              whatever parameter i (reference, pointer or view) refers to; ('this',) the object itself
  ('dead', why)             storage that has been destroyed or rearranged
"""
import re
from .terms import term
from .effects import std_name

CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')
CTORS = ('CXXConstructExpr', 'CXXTemporaryObjectExpr')
CASTS = ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr')
VIEW = re.compile(r'llvm::StringRef|llvm::StringLiteral|basic_string_view|ArrayRef<|[iI]terator|llvm::Twine|std::span<|function_ref<|\*(const)?$|match_results')
STRONG = ('unique_ptr<', 'shared_ptr<')
OWNER = re.compile(r'^(std::(__cxx11::)?(basic_string|vector|set|map|multimap|multiset|unordered_\w+|list|deque|optional|unique_ptr|shared_ptr|array|pair|tuple|stack|queue|basic_\w*stringstream|initializer_list)<'
                   r'|llvm::(Small\w+|DenseMap|DenseSet|StringMap|StringSet|SetVector|MapVector|Expected|ErrorOr|json::\w+|APSInt|APInt|raw_string_ostream|formatv_object)|clang::DynTypedNodeList|clang::CustomizableOptional)')
# containers by how insertion and removal affect views of their elements
CONTIG = re.compile(r'^(std::(__cxx11::)?(basic_string|vector|deque)<|llvm::(Small\w+|DenseMap|DenseSet|StringMap|SetVector|MapVector))')
HASHED = re.compile(r'^std::unordered_')
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'append', 'resize', 'reserve', 'try_emplace', 'insert_or_assign', 'push_front', 'emplace_front', 'operator+=', 'replace',
        'shrink_to_fit', 'rehash', 'merge', 'insert_range', 'append_range'}
SHRINK = {'erase', 'pop_back', 'pop_front', 'pop', 'remove', 'remove_if', 'extract'}
RESET = {'clear', 'assign', 'swap', 'operator=', 'reset', 'release', 'emplace'}


def bare(t):
    t = t.strip()
    while True:
        u = t
        if t.startswith('const '):
            t = t[6:]
        t = t.rstrip('&').strip()
        if t.endswith(' const'):
            t = t[:-6]
        if u == t:
            return t


def is_ref(t):
    return t.endswith('&')


def is_owner(t):
    return bool(OWNER.match(bare(t)))


VIEWREC = set()           # classes of the program that have such a member


def is_view(t):
    """a value of this type refers to storage it does not own (containers of such values included)"""
    b = bare(t)
    if OWNER.match(b):
        inner = b[b.find('<') + 1:] if '<' in b else ''
        inner = re.sub(r'(std::allocator|std::less|std::hash|std::equal_to|std::char_traits|std::default_delete)<.*', '', inner)
        return bool(re.search(r'llvm::StringRef|basic_string_view|Twine|const char \*|ArrayRef<', inner)) or any(x in inner for x in VIEWREC)
    return bool(VIEW.search(b)) or b in VIEWREC


def is_raw_ptr(t):
    return bare(t).endswith('*') or bare(t).endswith('*const')


class Views:
    def __init__(self, prog):
        self.prog = prog
        self.ret = {}         # function key -> tokens its result may carry (params, this)
        self.inv = {}         # function key -> {term of container: how}
        self.keeps = {}       # function key -> params stored in the object
        self.sites = set()
        VIEWREC.clear()
        for q, r in prog.records.items():
            if any(re.match(r'(const )?(llvm::StringRef|std::basic_string_view|llvm::ArrayRef|std::span)', str(r['tu'].types[f['t']])) for f in r.get('fields', ())):
                VIEWREC.add(q)
        self.found = []
        self.collect = False

    # ------------------------------------------------------------------ terms
    def canon(self, fn, t, depth=0):
        """resolve references to what they are bound to"""
        if t is None or depth > 8:
            return t
        if t[0] == 'v':
            d = fn.tu.decls[t[1]]
            ty = fn.typ(d.get('t', -1)) if d.get('t') is not None else ''
            if d['k'] == 'Var' and is_ref(ty):
                r = term(fn, self.bound_to(fn, fn.local_init(t[1])))
                if r is not None and r != t:
                    return self.canon(fn, r, depth + 1)
            return t
        if t[0] == 'f':
            return ('f', self.canon(fn, t[1], depth + 1)) + t[2:]
        return t

    def bound_to(self, fn, i, depth=0):
        if i is None or i < 0 or depth > 6:
            return -1
        n = fn.nodes[i]
        if n['k'] in CALLS and (fn.decl(n) or {}).get('q') in ('std::as_const', 'std::move', 'std::forward') and n.get('c'):
            return self.bound_to(fn, n['c'][0], depth + 1)
        if n['k'] in CASTS and n.get('c'):
            return self.bound_to(fn, n['c'][0], depth + 1)
        return i

    def par_idx(self, fn, d):
        return fn.params.index(d) if d in fn.params else -1

    # ------------------------------------------------------------------ where does an object live
    def stor(self, fn, i, st, kind='ref', depth=0):
        if i is None or i < 0 or depth > 25:
            return frozenset()
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        S = lambda j: self.stor(fn, j, st, kind, depth + 1)
        V = lambda j: self.val(fn, j, st, depth + 1)
        if k == 'DeclRefExpr':
            d = fn.decl(n)
            if d is None or d.get('gl') or d.get('sl') or d['k'] not in ('Var', 'ParmVar', 'Binding', 'Decomposition'):
                return frozenset()
            t = fn.typ(d['t']) if d.get('t') is not None else ''
            if is_ref(t):
                if d['k'] == 'ParmVar':
                    p = self.par_idx(fn, n['d'])
                    return frozenset([('param', p, kind)]) if p >= 0 else frozenset()
                if d['k'] == 'Var':
                    ct = self.canon(fn, ('v', n['d']))
                    r = st.get(n['d'], frozenset())
                    if r:
                        return r
                    return frozenset([('st', ct, kind)]) if ct is not None and ct != ('v', n['d']) and ct[0] == 'f' else r
                return frozenset()
            if d['k'] == 'Binding':
                return st.get(n['d'], frozenset())
            if n['d'] not in self.own_locals(fn):
                return frozenset()         # captured by a lambda
            return frozenset([('st', ('v', n['d']), kind)])
        if k == 'CXXThisExpr':
            return frozenset([('this',)])
        if k == 'MemberExpr':
            d = fn.decl(n) or {}
            if d.get('ref') or d.get('k') == 'Var':
                return frozenset()
            b = fn.nodes[c[0]] if c else None
            if b is None:
                return frozenset()
            if n.get('arrow'):
                if b['k'] == 'CXXThisExpr':
                    return frozenset([('st', ('f', ('this',), d.get('q')), kind), ('this',)])
                if b['k'] == 'CXXOperatorCallExpr':
                    return S(c[0])
                t = term(fn, i)
                r = self.root(t) if t is not None else None
                if r is not None and (r[0] == 'this' or r[0] == 'v' and t[1] == r and is_raw_ptr(self.vtype(fn, r[1]))):
                    return V(c[0]) | frozenset([('st', self.canon(fn, t), kind)])
                return V(c[0])
            return S(c[0])
        if k == 'UnaryOperator' and n['op'] == '*':
            return V(c[0])
        if k == 'ArraySubscriptExpr' and c:
            return S(c[0]) if fn.type(c[0]).endswith(']') else V(c[0])
        if k in CASTS:
            t = fn.type(i)
            if k != 'ImplicitCastExpr' and c and not is_view(t) and fn.nodes[c[0]]['k'] not in CTORS and self.lvalue(fn, c[0]) and bare(t) == bare(fn.type(c[0])):
                return S(c[0])
            return S(c[0]) if c else frozenset()
        if k == 'ConditionalOperator' and len(c) == 3:
            return S(c[1]) | S(c[2])
        if k == 'BinaryOperator' and c:
            if n['op'] in ('=', ','):
                return S(c[0] if n['op'] == '=' else c[1])
            return frozenset()
        if k in CTORS or k in ('InitListExpr', 'LambdaExpr'):
            return frozenset([('temp', i)])
        if k in CALLS:
            return self.call(fn, i, n, c, st, kind, depth, True)
        return frozenset()

    def lvalue(self, fn, i):
        n = fn.nodes[i]
        if n['k'] in CALLS:
            d = fn.decl(n) or {}
            return is_ref(fn.typ(d.get('rt', -1)))
        return n['k'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr') or n['k'] == 'UnaryOperator' and n['op'] == '*'

    def own_locals(self, fn):
        s = fn.__dict__.get('_ownl')
        if s is None:
            s = set(fn.params)
            for n in fn.nodes:
                for v in n.get('vars', ()):
                    s.add(v[0])
                for b in n.get('bind', ()):
                    s.add(b[0])
                if n['k'] == 'CXXForRangeStmt':
                    s.add(n.get('var'))
            fn.__dict__['_ownl'] = s
        return s

    # ------------------------------------------------------------------ what does a view refer to
    def val(self, fn, i, st, depth=0):
        if i is None or i < 0 or depth > 25:
            return frozenset()
        n = fn.nodes[i]
        k = n['k']
        c = n.get('c', [])
        S = lambda j, kind='ref': self.stor(fn, j, st, kind, depth + 1)
        V = lambda j: self.val(fn, j, st, depth + 1)
        if k == 'DeclRefExpr':
            d = fn.decl(n)
            if d is None or d.get('gl') or d.get('sl'):
                return frozenset()
            t = fn.typ(d['t']) if d.get('t') is not None else ''
            if t.endswith(']'):
                return S(i)
            if n['d'] in st:
                if is_ref(t) and is_view(t):
                    return frozenset()     # a reference to a view: the view itself is elsewhere
                return st[n['d']]
            if d['k'] == 'ParmVar' and not is_ref(t):
                p = self.par_idx(fn, n['d'])
                return frozenset([('param', p)]) if p >= 0 else frozenset()
            return frozenset()
        if k == 'MemberExpr':
            b = fn.nodes[c[0]] if c else None
            if fn.type(i).endswith(']'):
                return S(i)
            if b is not None and not n.get('arrow') and b['k'] == 'DeclRefExpr':
                return V(c[0])
            return frozenset()
        if k == 'UnaryOperator':
            if n['op'] == '&':
                return S(c[0])
            if '++' in n['op'] or '--' in n['op']:
                return V(c[0])
            return frozenset()
        if k in CASTS and c:
            return self.any(fn, c[0], st, depth)
        if k == 'ConditionalOperator' and len(c) == 3:
            return self.any(fn, c[1], st, depth) | self.any(fn, c[2], st, depth)
        if k == 'BinaryOperator':
            if n['op'] in ('+', '-') and is_raw_ptr(fn.type(i)):
                return V(c[0]) | V(c[1])
            if n['op'] == '=':
                return V(c[1])
            if n['op'] == ',':
                return V(c[1])
            return frozenset()
        if k in CTORS:
            if not is_view(fn.type(i)):
                return frozenset()
            out = frozenset()
            for j in c:
                if j >= 0:
                    out |= self.any(fn, j, st, depth, 'it' if 'terator' in fn.type(i) else 'ref')
            return out
        if k == 'InitListExpr':
            out = frozenset()
            for j in c:
                if j >= 0 and is_view(fn.type(j)):
                    out |= V(j)
            return out
        if k in CALLS:
            return self.call(fn, i, n, c, st, 'ref', depth, False)
        return frozenset()

    def any(self, fn, i, st, depth, kind='ref'):
        """the value of i used to make a view: a view is followed, an owner designates its storage"""
        t = fn.type(i)
        if fn.nodes[i]['k'] == 'StringLiteral':
            return frozenset()
        if is_view(t) and not (is_owner(t) and not is_view(t)):
            return self.val(fn, i, st, depth + 1)
        if is_owner(t) or fn.nodes[i]['k'] == 'LambdaExpr':
            return self.stor(fn, i, st, kind, depth + 1)
        return frozenset()

    def call(self, fn, i, n, c, st, kind, depth, wantstor):
        """tokens of the result of a call; wantstor: of the object it designates rather than of its value"""
        d = fn.decl(n) or {}
        q = d.get('q', '')
        t = fn.type(i)
        rt = fn.typ(d.get('rt', -1))
        ref = is_ref(rt)
        S = lambda j, kd=kind: self.stor(fn, j, st, kd, depth + 1)
        V = lambda j: self.val(fn, j, st, depth + 1)
        isit = 'terator' in t
        kd = 'it' if isit else kind
        if not d:
            return frozenset()
        repo = self.prog.funcs.get(d.get('key'))
        if n['k'] == 'CXXMemberCallExpr':
            o = n.get('o', -1)
            args = c
        elif n['k'] == 'CXXOperatorCallExpr' and d.get('cls') and not d.get('static'):
            o = c[0] if c else -1
            args = c[1:]
            if '_fn::operator()' in q:
                o = -1         # std::ranges algorithms are function objects
        else:
            o = -1
            args = c
        if wantstor and not ref and not (n['k'] == 'CXXOperatorCallExpr' and n['op'] == '->'):
            if is_view(t) and not is_owner(t):
                return frozenset([('temp', i)])
            return frozenset([('temp', i)])
        if repo is not None:
            out = frozenset()
            for tok in self.ret.get(repo.key, ()):
                if tok[0] == 'param' and tok[1] < len(args):
                    a = args[tok[1]]
                    pt = fn.typ(d['ps'][tok[1]][1])
                    if is_ref(pt) and not (is_view(pt) and not is_owner(pt)):
                        out |= S(a)
                    else:
                        out |= self.any(fn, a, st, depth, kd)
                elif tok[0] == 'this' and o >= 0:
                    on = fn.nodes[o]
                    if n.get('arrow'):
                        if on['k'] != 'CXXThisExpr':
                            out |= S(o) if on['k'] == 'CXXOperatorCallExpr' else V(o)
                    else:
                        out |= S(o)
                elif tok[0] == 'st' and tok[1][0] == 'f' and tok[1][1] == ('this',) and o >= 0 and fn.nodes[o]['k'] == 'CXXThisExpr':
                    out |= frozenset([('st', tok[1], kd)])
            return out
        std = q.startswith(('std::', 'llvm::', '__gnu_cxx::', 'clang::DynTypedNodeList', 'clang::CustomizableOptional'))
        if not std:
            return frozenset()
        if o >= 0:
            ot = fn.type(o)
            if n.get('arrow') and n['k'] == 'CXXMemberCallExpr':
                on = fn.nodes[o]
                if on['k'] == 'CXXThisExpr':
                    return frozenset()
                base = S(o, kd) if on['k'] == 'CXXOperatorCallExpr' else V(o) if is_owner(ot) else frozenset()
                return base if is_owner(ot.rstrip('* ')) or is_owner(ot) or on['k'] == 'CXXOperatorCallExpr' and is_owner(ot) else frozenset()
            if n['k'] == 'CXXOperatorCallExpr' and n['op'] in ('=', '+=', '<<'):
                return S(o, kd) if ref else frozenset()
            if is_owner(ot):
                nm = d.get('n')
                if not wantstor and not isit and ref and is_view(t):
                    # an element that is itself a view (or a pointer) is read: what it refers to is what was put in
                    return V(o) if is_view(ot) else frozenset()
                if not wantstor and is_view(ot) and is_view(t) and not isit and nm not in ('begin', 'end', 'data'):
                    return V(o)
                if wantstor or is_view(t):
                    if nm in ('release', 'extract'):
                        return frozenset()
                    if nm in ('get',) and is_raw_ptr(t) and not wantstor:
                        return S(o, kd)
                    return S(o, kd)
                return frozenset()
            if is_view(ot):
                if wantstor:
                    return V(o)
                if is_view(t):
                    if n['k'] == 'CXXOperatorCallExpr' and n['op'] in ('*', '[]', '->') and not isit:
                        return V(o) if n['op'] == '->' else frozenset()
                    if n['k'] == 'CXXOperatorCallExpr' and n['op'] not in ('++', '--', '+', '-', '+=', '-='):
                        return frozenset()
                    return V(o)
            return frozenset()
        nm = std_name(q)
        if nm in ('move', 'forward', 'as_const', 'addressof', 'min', 'max', 'get', 'exchange', 'any_cast') and args:
            out = frozenset()
            for a in args[:2 if nm in ('min', 'max') else 1]:
                out |= S(a) if wantstor else self.any(fn, a, st, depth, kd)
            return out
        if is_view(t) or wantstor:
            out = frozenset()
            if nm in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'next', 'prev', 'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'remove_if', 'remove',
                      'unique', 'search', 'max_element', 'min_element', 'adjacent_find', 'partition', 'operator+', 'make_range', 'drop_begin', 'reverse', 'split', 'StringRef', 'Twine',
                      'getSingleStringRef', 'join', 'str', 'ltrim', 'rtrim', 'trim', 'make_pair', 'tie', 'ArrayRef', 'make_array_ref', 'make_filter_range', 'map_range', 'enumerate', 'zip'):
                for a in args:
                    if fn.nodes[a]['k'] != 'LambdaExpr':
                        out |= self.any(fn, a, st, depth, 'it' if isit else kd)
            return out
        return frozenset()

    # ------------------------------------------------------------------ direct structural changes of containers
    def mutation(self, fn, i, n):
        """[(term of the container, its type, how, iterator variable erased or None)]"""
        k = n['k']
        c = n.get('c', [])
        out = []
        if k == 'CXXMemberCallExpr':
            d = fn.decl(n) or {}
            o = n.get('o', -1)
            if o < 0 or d.get('cm'):
                return self.mut_call(fn, n, c)
            ot = fn.type(o)
            if n.get('arrow') and not (fn.nodes[o]['k'] == 'CXXOperatorCallExpr'):
                return self.mut_call(fn, n, c)
            nm = d.get('n')
            if is_owner(ot) and nm in GROW | SHRINK | RESET and (d.get('q') or '').startswith(('std::', 'llvm::')):
                t = self.canon(fn, term(fn, o))
                how = 'grow' if nm in GROW else 'shrink' if nm in SHRINK else 'reset'
                ev = None
                if nm == 'erase' and len(c) >= 1:
                    ev = [fn.nodes[x].get('d') for x in fn.walk(c[0]) if fn.nodes[x]['k'] == 'DeclRefExpr' and 'terator' in fn.type(x)]
                    ev = ev[0] if len(ev) == 1 and len(c) == 1 else None
                if t is not None:
                    out.append((t, bare(ot), how, ev, nm))
            return out + self.mut_call(fn, n, c)
        if k == 'CXXOperatorCallExpr' and c:
            d = fn.decl(n) or {}
            ot = fn.type(c[0])
            if is_owner(ot):
                if n['op'] in ('=', '+='):
                    t = self.canon(fn, term(fn, c[0]))
                    if t is not None:
                        out.append((t, bare(ot), 'reset' if n['op'] == '=' else 'grow', None, 'operator' + n['op']))
                elif n['op'] == '[]' and 'map<' in bare(ot).split('<')[0] + '<' and not d.get('cm'):
                    t = self.canon(fn, term(fn, c[0]))
                    if t is not None:
                        out.append((t, bare(ot), 'grow', None, 'operator[]'))
            return out + self.mut_call(fn, n, c)
        if k == 'CallExpr' or k in CTORS:
            d = fn.decl(n) or {}
            if d.get('q') == 'std::move' or d.get('q') == 'std::swap':
                return out
            if d.get('q') in ('std::back_inserter', 'std::inserter', 'std::front_inserter') and c:
                t = self.canon(fn, term(fn, c[0]))
                if t is not None:
                    out.append((t, bare(fn.type(c[0])), 'grow', None, std_name(d['q'])))
            if d.get('q') in ('std::erase', 'std::erase_if') and c:
                t = self.canon(fn, term(fn, c[0]))
                if t is not None:
                    out.append((t, bare(fn.type(c[0])), 'shrink', None, std_name(d['q'])))
            return out + self.mut_call(fn, n, c)
        return out

    def mut_call(self, fn, n, c):
        d = fn.decl(n) or {}
        g = self.prog.funcs.get(d.get('key'))
        if g is None:
            return []
        out = []
        isthis = n.get('o', -1) >= 0 and fn.nodes[n['o']]['k'] == 'CXXThisExpr'
        args = c[1:] if n['k'] == 'CXXOperatorCallExpr' and d.get('cls') else c
        for t, (ty, how, nm) in self.inv.get(g.key, {}).items():
            if t[0] == 'param' and t[1] < len(args):
                x = args[t[1]]
                if fn.nodes[x]['k'] == 'UnaryOperator' and fn.nodes[x]['op'] == '&':
                    x = fn.nodes[x]['c'][0]
                tt = self.canon(fn, term(fn, x))
                if tt is not None:
                    out.append((tt, ty, how, None, '%s() (%s)' % (d.get('n'), nm)))
            elif t[0] == 'f' and isthis:
                out.append((t, ty, how, None, '%s() (%s)' % (d.get('n'), nm)))
        return out

    def summarise_inv(self):
        ch = True
        cnt = 0
        while ch and cnt < 12:
            ch = False
            cnt += 1
            for f in self.prog.funcs.values():
                cur = self.inv.setdefault(f.key, {})
                for i, n in enumerate(f.nodes):
                    if n is None or n['k'] not in CALLS + CTORS:
                        continue
                    for t, ty, how, ev, nm in self.mutation(f, i, n):
                        key = None
                        if t[0] == 'v' and t[1] in f.params and is_ref(f.typ(f.tu.decls[t[1]].get('t', -1))):
                            key = ('param', f.params.index(t[1]))
                        elif t[0] == 'f' and t[1] == ('this',) and len(t) == 3:
                            key = t
                        if key is not None and key not in cur:
                            cur[key] = (ty, how, nm.split('(')[0] + ' at ' + f.where(i))
                            ch = True
        for k in [k for k, v in self.inv.items() if not v]:
            del self.inv[k]

    # ------------------------------------------------------------------ dataflow
    def kill(self, st, t, ty, how, ev, nm, fn, i, defining=None):
        out = None
        for v, toks in st.items():
            if v == defining:
                continue
            if t[0] == 'v' and v == t[1] and how != 'scope':
                continue
            new = set()
            for tok in toks:
                if tok[0] == 'st' and (tok[1] == t or how == 'scope' and self.rooted(fn, tok[1], t)) or tok[0] == 'param' and len(tok) > 2 and t == ('v', fn.params[tok[1]]):
                    dead = False
                    if how != 'scope' and is_ref(self.vtype(fn, v)) and self.canon(fn, ('v', v)) == t:
                        new.add(tok)        # another name of the container itself
                        continue
                    if how in ('scope', 'reset'):
                        dead = True
                    elif how == 'grow':
                        dead = bool(CONTIG.match(ty)) or bool(HASHED.match(ty)) and tok[2] == 'it'
                    elif how == 'shrink':
                        if CONTIG.match(ty):
                            dead = nm not in ('pop_back', 'pop')
                        else:
                            dead = ev is None and tok[2] == 'it' or ev == v
                    if dead:
                        tok = ('dead', 'the end of its scope' if how == 'scope' else '%s at %s' % (nm, fn.where(i)))
                new.add(tok)
            if frozenset(new) != toks:
                out = dict(out or st)
                out[v] = frozenset(new)
        return out or st

    def rooted(self, fn, t, root):
        if is_raw_ptr(self.vtype(fn, root[1])) and t != root:
            return False
        while t is not None:
            if t == root:
                return True
            if t[0] != 'f':
                return False
            t = t[1]
        return False

    def is_view_var(self, fn, v):
        d = fn.tu.decls[v]
        t = fn.typ(d['t']) if d.get('t') is not None else ''
        return is_ref(t) or is_view(t)

    def report(self, rule, fn, i, what):
        if self.collect:
            self.found.append((rule, fn, i, what))

    def define(self, fn, v, e, st, e2=None, init=False):
        """tokens of variable v made from expression e"""
        d = fn.tu.decls[v]
        t = fn.typ(d['t']) if d.get('t') is not None else ''
        if self.collect:
            self.sites.add((fn.key, e))
        if is_ref(t):
            toks = self.stor(fn, e, st)
            if ('temp', e) in toks or self.prvalue(fn, e):
                return self.val(fn, e, st) - {x for x in self.val(fn, e, st) if x[0] == 'temp'} if is_view(t) else frozenset()
        else:
            toks = self.any(fn, e, st, 0)
        for tok in toks:
            if tok[0] == 'temp':
                self.report('dangling', fn, e, '%s is left referring to the temporary %s' % (d.get('n') or 'the range of the loop', fn.text(tok[1])[:80]))
        return frozenset(x for x in toks if x[0] != 'temp')

    def prvalue(self, fn, e):
        n = fn.nodes[e]
        if n['k'] in CTORS or n['k'] in ('InitListExpr', 'LambdaExpr'):
            return True
        if n['k'] in CALLS:
            d = fn.decl(n) or {}
            return not is_ref(fn.typ(d.get('rt', -1)))
        if n['k'] == 'ConditionalOperator':
            return any(self.prvalue(fn, x) for x in n['c'][1:])
        return False

    def element(self, fn, e, st, lhs):
        n = fn.nodes[e]
        k = n['k']
        c = n.get('c', [])
        if k == 'DeclRefExpr':
            v = n.get('d')
            if v in st and e not in lhs:
                for tok in st[v]:
                    if tok[0] == 'dead':
                        self.report('stale-view', fn, e, '%s is used after %s' % (self.nm(fn, v), tok[1]))
                        break
            return st
        if k == 'LambdaExpr':
            for cp in n.get('caps', ()):
                v = cp.get('d')
                if v in st:
                    for tok in st[v]:
                        if tok[0] == 'dead':
                            self.report('stale-view', fn, e, '%s is used after %s' % (self.nm(fn, v), tok[1]))
            return st
        if k == 'DeclStmt':
            for v in n.get('vars', ()):
                if v[1] >= 0 and self.is_view_var(fn, v[0]):
                    st = dict(st)
                    st[v[0]] = self.define(fn, v[0], v[1], st, init=True)
                    for b in n.get('bind', ()):
                        st[b[0]] = st[v[0]]
                elif v[0] in st:
                    st = dict(st)
                    del st[v[0]]
            return st
        for m in self.mutation(fn, e, n) if k in CALLS + CTORS else ():
            st = self.kill(st, *m, fn, e)
        if k == 'BinaryOperator' and n['op'] == '=' or k == 'CXXOperatorCallExpr' and n['op'] == '=' and len(c) == 2:
            l = fn.nodes[c[0]]
            if l['k'] == 'DeclRefExpr' and is_view(fn.type(c[0])) and not is_ref(self.vtype(fn, l['d'])) and l['d'] in self.own_locals(fn):
                st = dict(st)
                st[l['d']] = self.define(fn, l['d'], c[1], st)
            elif is_view(fn.type(c[0])):
                self.store(fn, e, c[1], st, fn.text(c[0]), l['k'] == 'DeclRefExpr' and is_ref(self.vtype(fn, l['d'])) or self.escapes(fn, c[0]))
            return st
        if k == 'CXXMemberCallExpr':
            d = fn.decl(n) or {}
            o = n.get('o', -1)
            if o >= 0 and d.get('n') in ('push_back', 'emplace_back', 'insert', 'emplace', 'push', 'try_emplace', 'append') and is_owner(fn.type(o)) and is_view(fn.type(o)):
                on = fn.nodes[o]
                toks = frozenset()
                for a in c:
                    if 'terator' not in fn.type(a) and is_view(fn.type(a)) or is_owner(fn.type(a)) and d['n'] in ('emplace_back', 'emplace'):
                        toks |= self.store(fn, e, a, st, fn.text(o), self.escapes(fn, o))
                if on['k'] == 'DeclRefExpr' and on['d'] in self.own_locals(fn) and not is_ref(self.vtype(fn, on['d'])):
                    st = dict(st)
                    st[on['d']] = st.get(on['d'], frozenset()) | frozenset(x for x in toks if x[0] != 'temp')
        if k in CALLS or k in CTORS:
            d = fn.decl(n) or {}
            kp = self.keeps.get(d.get('key'))
            if kp:
                args = c[1:] if k == 'CXXOperatorCallExpr' and d.get('cls') else c
                for p in kp:
                    if p < len(args) and (k not in CTORS or e in self.decl_inits(fn)):
                        for tok in (self.stor(fn, args[p], st) if is_ref(fn.typ(d['ps'][p][1])) else self.any(fn, args[p], st, 0)):
                            if tok[0] == 'temp':
                                self.report('dangling', fn, e, 'the object keeps referring to the temporary %s' % fn.text(tok[1])[:80])
            if k == 'CallExpr' and d.get('q') in ('std::regex_match', 'std::regex_search') and len(c) >= 2:
                m = fn.nodes[c[1]]
                if m['k'] == 'DeclRefExpr' and 'match_results' in fn.type(c[1]):
                    st = dict(st)
                    st[m['d']] = self.any(fn, c[0], st, 0, 'it')
        return st

    def decl_inits(self, fn):
        s = fn.__dict__.get('_dinits')
        if s is None:
            s = {v[1] for n in fn.nodes for v in n.get('vars', ())}
            fn.__dict__['_dinits'] = s
        return s

    def vtype(self, fn, v):
        d = fn.tu.decls[v]
        return fn.typ(d['t']) if d.get('t') is not None else ''

    def nm(self, fn, v):
        n = fn.tu.decls[v].get('n') or ''
        return 'the iterator of the loop' if n.startswith('__') else n

    def escapes(self, fn, i):
        """does the object i designates outlive the function?"""
        t = self.canon(fn, term(fn, i))
        while t is not None and t[0] == 'f':
            t = t[1]
        if t is None:
            return False
        if t[0] == 'v':
            d = fn.tu.decls[t[1]]
            return d['k'] == 'ParmVar' and is_ref(fn.typ(d['t']))
        return t[0] in ('this', 'g')

    def store(self, fn, e, a, st, where, escapes):
        if self.collect:
            self.sites.add((fn.key, e))
        toks = self.any(fn, a, st, 0)
        for tok in toks:
            if tok[0] == 'temp':
                self.report('dangling', fn, e, '%s is left referring to the temporary %s' % (where[:60], fn.text(tok[1])[:80]))
            elif tok[0] == 'st' and escapes and self.is_local(fn, tok[1]):
                self.report('dangling', fn, e, '%s outlives %s, which it refers to' % (where[:60], self.nm(fn, self.root(tok[1])[1])))
            elif tok[0] == 'param' and escapes and self.lent(fn, tok[1]):
                self.report('dangling', fn, e, '%s keeps %s, which the library lends for the call' % (where[:60], self.nm(fn, fn.params[tok[1]])))
        return toks

    def lent(self, fn, p):
        """a view that a library passes to a callback: good until the callback returns"""
        if p >= len(fn.params) or not any((fn.tu.decls[x].get('q') or '').startswith(('clang::', 'llvm::')) for x in fn.o.get('ov', ())):
            return False
        return bool(re.match(r'(const )?(llvm::StringRef|std::basic_string_view|llvm::ArrayRef|llvm::Twine|const char \*)', fn.typ(fn.tu.decls[fn.params[p]]['t'])))

    def root(self, t):
        while t[0] == 'f':
            t = t[1]
        return t

    def is_local(self, fn, t):
        r = self.root(t)
        if r[0] != 'v':
            return False
        ty = self.vtype(fn, r[1])
        return not is_ref(ty) and not (t != r and is_raw_ptr(ty))

    def lhs_nodes(self, fn):
        s = fn.__dict__.get('_lhs')
        if s is None:
            s = set()
            for n in fn.nodes:
                if n and (n['k'] == 'BinaryOperator' and n['op'] == '=' or n['k'] == 'CXXOperatorCallExpr' and n['op'] == '='):
                    s.add(n['c'][0])
                elif n and n['k'] == 'CallExpr' and (fn.decl(n) or {}).get('q') in ('std::regex_match', 'std::regex_search') and len(n['c']) > 1:
                    s.add(n['c'][1])
                elif n and n['k'] == 'CXXMemberCallExpr' and (fn.decl(n) or {}).get('n') in ('clear', 'assign'):
                    s.add(n['o'])
            fn.__dict__['_lhs'] = s
        return s

    def run_block(self, fn, b, st):
        lhs = self.lhs_nodes(fn)
        for e in b['el']:
            if isinstance(e, dict):
                if 'dtor' in e:
                    st = self.kill(st, ('v', e['dtor']), '', 'scope', None, '', fn, 0)
                    if e['dtor'] in st:
                        st = dict(st)
                        del st[e['dtor']]
                elif 'f' in e and e.get('i', -1) >= 0:
                    fd = fn.tu.decls[e['f']]
                    t = fn.typ(fd['t'])
                    if is_ref(t) or is_view(t):
                        toks = self.stor(fn, e['i'], st) if is_ref(t) else self.any(fn, e['i'], st, 0)
                        for tok in toks:
                            if tok[0] == 'temp' or tok[0] == 'st' and self.is_local(fn, tok[1]):
                                self.report('dangling', fn, e['i'], 'member %s outlives %s, which it refers to' % (fd['n'], fn.text(tok[1])[:60] if tok[0] == 'temp' else 'a parameter taken by value'))
                            elif tok[0] == 'param':
                                self.keeps.setdefault(fn.key, set()).add(tok[1])
                continue
            n = fn.nodes[e]
            if n['k'] == 'ReturnStmt':
                self.ret_stmt(fn, e, n, st)
            st = self.element(fn, e, st, lhs)
        return st

    def ret_stmt(self, fn, e, n, st):
        c = n.get('c', [])
        if not c or c[0] < 0:
            return
        rt = fn.typ(fn.o['rt'])
        if not (is_ref(rt) or is_view(rt)):
            return
        if self.collect:
            self.sites.add((fn.key, e))
        toks = self.stor(fn, c[0], st) if is_ref(rt) else self.any(fn, c[0], st, 0)
        cur = self.ret.setdefault(fn.key, set())
        for tok in toks:
            if tok[0] == 'temp':
                self.report('dangling', fn, e, 'the result refers to the temporary %s' % fn.text(tok[1])[:80])
            elif tok[0] == 'st' and self.is_local(fn, tok[1]):
                self.report('dangling', fn, e, 'the result refers to %s, which does not outlive the call' % self.nm(fn, self.root(tok[1])[1]))
            elif tok[0] == 'dead':
                self.report('stale-view', fn, e, 'the result is used after %s' % tok[1])
            elif tok not in cur and tok[0] in ('param', 'this', 'st'):
                cur.add(tok)
                self.changed = True

    def merge(self, a, b):
        if a == b:
            return a
        out = dict(a)
        for v, t in b.items():
            out[v] = out.get(v, frozenset()) | t
        return out

    def analyse(self, fn):
        blocks = fn.blocks
        if not blocks:
            return
        ins = {fn.entry: {}}
        work = [fn.entry]
        cnt = {}
        col, self.collect = self.collect, False
        while work:
            b = work.pop(0)
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > 40:
                continue
            out = self.run_block(fn, blocks[b], ins[b])
            for s in blocks[b]['su']:
                if s < 0:
                    continue
                new = out if s not in ins else self.merge(ins[s], out)
                if s not in ins or new != ins[s]:
                    ins[s] = new
                    if s not in work:
                        work.append(s)
        self.collect = col
        if col:
            for b, st in ins.items():
                self.run_block(fn, blocks[b], st)

    def run(self):
        self.summarise_inv()
        for _ in range(6):
            self.changed = False
            for f in self.prog.funcs.values():
                rt = f.typ(f.o['rt'])
                if is_ref(rt) or is_view(rt) or f.o.get('ctor'):
                    self.analyse(f)
            if not self.changed:
                break
        self.collect = True
        for f in self.prog.funcs.values():
            self.analyse(f)
        return self.found
