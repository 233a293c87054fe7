"""When can a function run?  Phases are seeded at the framework callbacks and propagated over the call graph."""
S, D, M, P, C, O = 'statement visit', 'declaration visit', 'matcher callback', 'preprocessor callback', 'construction', 'translation-unit callback'
PP_VIRTUALS = {'VisitMacroExpands', 'VisitMacroDefined', 'VisitDefined', 'VisitIfdef', 'VisitIfndef', 'VisitIf', 'VisitElif', 'VisitElse', 'VisitEndif', 'VisitInclusionDirective',
               'enablePreProcessorCallbacks', 'registerASTMatchers'}


class Phases:
    def __init__(self, prog):
        self.prog = prog
        funcs = prog.funcs
        edges = {}                     # callee -> callers
        roots = {}
        lam_owner = {}
        overriders = {}
        for f in funcs.values():
            for o in f.o.get('ov', ()):
                overriders.setdefault(o, set()).add(f.key)
        # transitively
        made_in = {}                   # class -> functions constructing it
        for f in funcs.values():
            for i, n in enumerate(f.nodes):
                d = f.callee(i)
                if n['k'] == 'LambdaExpr' and n.get('fn') is not None:
                    k = n['fn']
                    if k in funcs:
                        edges.setdefault(k, set()).add(f.key)
                if not d:
                    continue
                if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and d.get('cls'):
                    made_in.setdefault(d['cls'], set()).add(f.key)
                if d.get('key') in funcs:
                    edges.setdefault(d['key'], set()).add(f.key)
        self.edges = edges
        ph = {k: set() for k in funcs}
        for f in funcs.values():
            cls = f.cls or ''
            bases = prog.bases_of(cls) if cls else []
            nm = f.q.rsplit('::', 1)[-1]
            if 'CheckBase' in bases:
                if nm == 'VisitStmt' and f.o.get('ov'):
                    ph[f.key].add(S)
                elif nm == 'VisitDecl' and f.o.get('ov'):
                    ph[f.key].add(D)
                elif nm in PP_VIRTUALS and f.o.get('ov'):
                    ph[f.key].add(P)
            if f.o.get('ov') and any(b.endswith('PPCallbacks') for b in bases):
                ph[f.key].add(P)
            if nm == 'run' and f.o.get('ov') and any('MatchCallback' in b or 'ClazyAstMatcherCallback' in b for b in bases):
                ph[f.key].add(M)
            if cls and nm == cls.rsplit('::', 1)[-1].split('<')[0]:
                if 'CheckBase' in bases:
                    ph[f.key].add(C)
        # visitor classes run where they are created
        for f in funcs.values():
            cls = f.cls or ''
            if cls and any('RecursiveASTVisitor' in b for b in prog.bases_of(cls)):
                for k in made_in.get(cls, ()):
                    edges.setdefault(f.key, set()).add(k)
        # whatever no phase reaches is driven by the front end itself
        for f in funcs.values():
            if not edges.get(f.key) and not ph[f.key] or f.q in ('clazy::VisitHelper::VisitDecl', 'clazy::VisitHelper::VisitStmt'):
                ph[f.key].add(O)
        changed = True
        while changed:
            changed = False
            for k in funcs:
                for c in edges.get(k, ()):
                    new = ph.get(c, set()) - ph[k]
                    if new:
                        ph[k] |= new
                        changed = True
        self.of = ph

    def __getitem__(self, f):
        return self.of.get(f.key, set())


AVAILABLE = {
    S: {'ClazyContext::parentMap', 'ClazyContext::astContext', 'ClazyContext::lastDecl'},
    D: {'ClazyContext::astContext'},
    M: {'ClazyContext::astContext'},
    P: set(),
    C: set(),
    O: {'ClazyContext::astContext'},
}
NULLABLE = {'ClazyContext::' + x for x in ('accessSpecifierManager', 'preprocessorVisitor', 'parentMap', 'lastDecl', 'lastFunctionDecl', 'lastMethodDecl', 'exporter', 'astContext')}


def field_origin(phases):
    def nf(fn, i, d):
        if d and d['q'] in NULLABLE:
            ps = phases[fn]
            bad = sorted(p for p in ps if d['q'] not in AVAILABLE[p])
            if bad:
                return '%s, which may be unset during a %s' % (d['q'].split('::')[1], bad[0])
            if not ps:
                return None
        return None
    return nf
