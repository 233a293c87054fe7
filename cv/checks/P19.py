"""Lifetime analysis of views: for every reference, pointer, iterator, string view or array view that a function makes,
the storage it refers to is computed (following conversions, accessors, containers of views and calls); a violation is a
view kept or returned beyond the temporary or local it refers to, or used after its container was rearranged."""
from .. import views
from ..ir import Program


def check(res, thorough):
    prog = Program()
    v = views.Views(prog)
    for rule, fn, i, what in v.run():
        res.report(rule, fn.name, fn.where(i), what)
    res.need('functions', len(prog.funcs), 800)
    res.need('views_made', len(v.sites), 600)
    res.coverage['functions_returning_part_of_an_argument'] = sum(1 for x in v.ret.values() if x)
    res.coverage['functions_rearranging_a_container'] = len(v.inv)
