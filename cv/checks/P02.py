"""Every access by position, every read of the first or last element, every cast without a test, every accessor that is only
defined for one kind of its object and every use of a search result is proved to be within its precondition.  The proof is a
flow-sensitive dataflow over clang's control flow graph: comparisons, emptiness tests, definitions and mutations that hold on
every path to the access fill a zone domain (differences of quantities bounded by constants, closed under transitivity), to
which the guarantees of the syntax tree are added (an operator call has its operands, a constructor call an argument per
parameter, ...).  A precondition over the parameters of a function is passed on to every call of it; what a predicate or a
lookup function guarantees when it answers yes, or with something that is not empty, is computed from its body."""
from .. import bounds
from ..ir import Program

EXCEPTIONS = [
    ('ModernizeOverloadedConnects::checkConnectArg', 'callExpr->getArg(0)',
     'pmfFromConnect only answers for a call expression when the call is of qOverload()() or QOverload<>::of() with exactly one argument'),
    ('FunctionArgsByValue::processFunction', 'fdecl->getParamDecl(i)', 'the redeclarations of a C++ function have the same parameters'),
    ('getBestDynamicClassType', 'cast<CXXRecordDecl>(D)', 'the object of a member call in C++: every class is a CXXRecordDecl'),
    ('clazy::childAt', '*it', 'asked for a position that is not negative, and moved at most once per child'),
    ('RuleOfThree::VisitDecl', 'hasList[i]', 'numImplemented is the number of entries of hasList: one is added per member that is counted'),
    ('FixItExporter::HandleDiagnostic', 'getTuDiag().Diagnostics.back()', 'm_recordNotes is only set right after a diagnostic was appended, and nothing removes one'),
]


def check(res, thorough):
    prog = Program()
    b = bounds.Bounds(prog, EXCEPTIONS)
    found = b.run()
    for fn, site, how in found:
        res.report('precondition', fn.name, fn.where(site), how)
    res.need('obligations', len(b.sites), 200)
    kinds = {}
    for _, _, k in b.sites:
        kinds[k] = kinds.get(k, 0) + 1
    for k in sorted(kinds):
        res.coverage['obligations_' + k] = kinds[k]
    res.need('functions', len(prog.funcs), 800)
    res.coverage['analyses'] = b.steps
    res.coverage['requirements_passed_to_callers'] = sum(len(r) for r in b.req2.values())
    res.coverage['predicates_with_guarantees'] = sum(1 for m in (b.true_le, b.ne_le, b.true_lits) for v in m.values() if v)
    res.assumptions += ['%s in %s: %s' % (x[1], x[0], x[2]) for x in EXCEPTIONS]
    res.assumptions.append('the nodes of the syntax tree have the operands clang documents for them')
