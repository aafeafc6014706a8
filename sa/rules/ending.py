"""P31: every loop of the library ends."""
import facts, loops
from facts import REPO


def check_P31(rep):
    rep.rule("For every loop (strongly connected part of a function's flow graph) of the library: no cycle through its exits leaves everything unchanged that the exit conditions read, found by following the conditions back to variables that outlive one repetition, to parts of objects and to the references that name them; "
             "a counter moves towards its bound, its type can hold the bound, and an unsigned counter is not expected to fall below zero. Loops whose end depends on other threads (atomics, waits, queues) are counted apart.")
    P = facts.full()
    for fn in P.funcs.values():
        if not fn.blocks or not fn.file.startswith(REPO): continue
        rep.count("functions", 1)
        loops.check(rep, P, fn); loops.counters(rep, P, fn)
    rep.need("functions", 300); rep.need("loops", 80); rep.need("loop counters", 15)
    rep.assume("iteration through standard library algorithms and range-for loops over unmodified containers ends; what another thread is waited for happens (P02, P14)")
