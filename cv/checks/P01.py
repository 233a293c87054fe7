"""Whole-program null analysis: path-sensitive fact dataflow over every function's control-flow graph with
interprocedural summaries (may return null / dereferences a parameter unchecked / proves a parameter non-null).
Every member access, member call, dereference, cast argument and argument passed to a dereferencing function is an
obligation; it is discharged when no possibly-null origin reaches it on a feasible path."""
import re
from .. import apis, nullness, flow
from ..ir import Program

# class of the function, origin of the null, why it cannot happen
EXCEPTIONS = [
    (r'^FullyQualifiedMocTypes$', r'getTypeSourceInfo', 'only parameters of implicit methods have no type source info, and those are never in a signal or slot section'),
    (r'^OldStyleConnect$', r'a null value', 'the sender method is assigned whenever the number of SIGNAL/SLOT macros is one, and an early return precedes the use otherwise'),
    (r'^AssertWithSideEffects$', r'getMethodDecl', 'only reached in an aggressiveness level that nothing enables'),
]


def check(res, thorough):
    if thorough:
        flow.MAXSTATES = 96
    prog = Program()
    n = nullness.Nullness(prog, apis.nullable_call, None)
    used = set()
    for fn, site, ptr, origins, how in n.run():
        for o in sorted({o[0] for o in origins}):
            cls = (fn.cls or fn.q.rsplit('::', 1)[0]).split('::')[-1] if not fn.lambda_ else fn.q
            ex = [i for i, (c, r, _) in enumerate(EXCEPTIONS) if re.search(c, cls) and re.search(r, o)]
            if ex:
                used.add(ex[0])
                continue
            res.report('null-dereference', fn.name, fn.where(site), '%s: %s' % (how, o))
    res.need('functions', len(prog.funcs), 800)
    res.need('obligations', len(n.sites), 2500)
    res.coverage['function_analyses'] = n.steps
    res.coverage['functions_that_may_return_null'] = len(n.ret_null)
    res.coverage['functions_requiring_non_null_arguments'] = sum(1 for v in n.req.values() if v)
    res.coverage['exceptions'] = ['%s / %s: %s' % EXCEPTIONS[i] for i in sorted(used)]
    res.assumptions += ['The list of Clang/LLVM accessors that may return null (cv/apis.py) follows their documented contracts; accessors outside it are taken to return non-null.',
                        'Data members are not tracked across functions; see P03 for the shared context.']
