"""How a warning travels from a check to the reporter: observations shared by P05, P06 and P17.  The functions of
CheckBase from which the reporter is reached are interpreted path by path (cv.decide); every call of the reporter is an
observation of its five arguments and of the conditions established before it."""
from .extract import AnalysisBroken
from .spec import Spec, match, ANY

REPORTER = 'ClazyContext::p_warningReporter'
ATOMS = {'SuppressionManager::isSuppressed', 'ClazyContext::shouldIgnoreFile', 'ClazyContext::passesLineFilter', 'CheckBase::warningAlreadyEmitted',
         'CheckBase::shouldIgnoreFile', 'CheckBase::manualFixitAlreadyQueued', 'ClazyContext::treatAsError', 'ClazyContext::userDisabledWError', 'CheckBase::tag'}


def is_reporter_call(fn, n):
    """call of the std::function member: the member node, else None"""
    if n['k'] != 'CXXOperatorCallExpr' or n.get('op') != '()':
        return None
    for j in fn.walk(n['c'][0]):
        d = fn.decl(fn.nodes[j]) or {}
        if fn.nodes[j]['k'] == 'MemberExpr' and d.get('q') == REPORTER:
            return j
    return None


class Gate:
    def __init__(self, prog):
        self.prog = prog
        self.direct = []
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                if n and n['k'] == 'CXXOperatorCallExpr' and is_reporter_call(f, n) is not None:
                    self.direct.append((f, i))
        if not self.direct:
            raise AnalysisBroken('no call of the warning reporter found')
        callers = {}
        for f in prog.funcs.values():
            for i, n in enumerate(f.nodes):
                d = f.callee(i) if n else None
                if d and d.get('key') in prog.funcs:
                    callers.setdefault(d['key'], set()).add(f.key)
                if n and n['k'] == 'LambdaExpr':
                    k = (f.decl(n.get('fn', -1)) or {}).get('key')
                    if k in prog.funcs:
                        callers.setdefault(k, set()).add(f.key)
        self.callers = callers
        # the cluster: methods of CheckBase (and what only they use) from which the reporter is reached
        cluster = {f.key for f, _ in self.direct}
        work = list(cluster)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                cf = prog.funcs[c]
                if c not in cluster and (cf.cls == 'CheckBase' or cf.file.startswith('checkbase.')):
                    cluster.add(c)
                    work.append(c)
        self.cluster = cluster
        # entered from outside, or offered to the checks
        self.entries = sorted((prog.funcs[k] for k in cluster
                               if any(c not in cluster for c in callers.get(k, ())) or prog.funcs[k].q == 'CheckBase::emitWarning'), key=lambda f: f.key)
        self.obs = []          # (entry, fn, node, name, loc, severity, message, fixits, facts, heap)
        self.outs = {}
        for e in self.entries:
            self.run(e)

    def keep(self, key):
        s = repr(key)
        return any(a.split('::')[1] in s for a in ATOMS) or any(x in s for x in ('isMacroID', "'valid'", 'getWarningsAsErrors', 'astContext', 'm_noWerror', 'printWarningTag', "('sym', 'bool")) or key[0] == 'sym'

    def run(self, entry):
        g = self

        class G(Spec):
            def on_call(self, fn, i, d, obj, args, st):
                n = fn.nodes[i]
                if n['k'] == 'CXXOperatorCallExpr' and n['op'] == '()' and (obj or args and args[0]):
                    o = obj if obj is not None else args[0]
                    if o[0] == 'fld' and o[2] == REPORTER:
                        a = args if obj is not None else args[1:]
                        st.event(('report', a[1]))
                        heap = dict(st.heap)
                        t = (entry, fn, i) + tuple(a[:5]) + (dict(st.facts), heap)
                        if t not in g.obs:
                            g.obs.append(t)
                        return ('val', ('void',))
                return None

        sp = G(self.prog, ATOMS, self.keep, lambda c: True)
        outs = sp.analyse(entry)
        self.outs[entry.key] = outs

    def primary(self, entry):
        """the location the caller of an entry asked for"""
        tu = entry.tu
        for p in entry.params:
            d = tu.decls[p]
            t = entry.typ(d.get('t', -1))
            if t == 'clang::SourceLocation' or t == 'const clang::SourceLocation &':
                return ('sym', d['n'])
        for p in entry.params:
            d = tu.decls[p]
            t = entry.typ(d.get('t', -1))
            if t.endswith(('clang::Decl *', 'clang::Stmt *')):
                return ('call', t.replace('const ', '').replace(' *', '') + '::getBeginLoc', ('sym', d['n']))
        return None
