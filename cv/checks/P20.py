"""Termination analysis: for every loop, every way round it (all paths through the body, with what the conditions on the
way say about the next test) must move a value the loop's condition depends on towards its end; every cycle of the call
graph must pass on something smaller or keep a list of what was visited."""
from .. import progress
from ..ir import Program


def check(res, thorough):
    prog = Program()
    p = progress.Progress(prog)
    for rule, fn, where, what in p.run():
        res.report(rule, fn.name, where, what)
    res.need('functions', len(prog.funcs), 800)
    res.need('loops', p.loops, 40)
    res.need('recursive_calls', p.rec_sites, 40)
    res.coverage['states'] = p.states
