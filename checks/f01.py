"""F01: numbering of the finite-element functions and removal at the ends."""
from checks.fem_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    hs = enum(ctx, [2, 3, 4, 5, 7] if ctx.thorough else [2, 3, 5], [1, 2, 3, 7] if ctx.thorough else [1, 2, 5])
    viol = []
    cases = enum_cases(ctx, hs, lambda h, t: ["add %d" % x for x in ctx.rng.sample(range(0, 49, 4), 2)])
    # families that do not exist, too few nodes
    bad = []
    for i, (f, n) in enumerate([(f, n) for f in (0, 1, 2, 6, 7, 10, 11, 12, -1, 99, 102) for n in (2, 4)] + [(f, n) for f in (3, 4, 5, 8, 9, 100, 101) for n in (1, 0, -1)]):
        bad.append(["seed 1", "new d %d %d 1 0 1 0 0 4 8" % (f, n)])
    # the orders and element numbers used in practice
    cases += high(ctx, 300 if ctx.thorough else 60, lambda toks: ["add %d" % x for x in ctx.rng.sample(range(0, 161, 4), 2)])
    v, ev = ctx.conform(exe, cases + bad, "FEMTrace", judge("num"), label="configurations", chunk=800)
    viol += v
    v, ev2 = ctx.conform(exe, sim_cases(ctx, sim(ctx, 2000 if ctx.thorough else 250, 10, range(2, 7)), {"add"}), "FEMTrace", judge("num"), label="random refinements", chunk=800)
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "new" and x["r"] == "ok" and len(x["o"]["idx"]) > 1:
                x["o"]["idx"][1][0] += 1
                return True
        demo(ctx, ev, ["num"], corrupt)
    return viol
