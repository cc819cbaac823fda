"""F04: functions are nodal and as smooth across boundaries as the family promises."""
from checks.fem_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    viol = []
    hs = enum(ctx, [2, 3, 4, 5, 7] if ctx.thorough else [2, 3, 5], [1, 2, 4])
    cases = enum_cases(ctx, hs, lambda h, t: ["bnd"])
    cases += sim_cases(ctx, sim(ctx, 2000 if ctx.thorough else 200, 10, range(2, 7)), {"add", "bnd"})
    cases += high(ctx, 300 if ctx.thorough else 60, lambda toks: ["bnd"])
    v, ev = ctx.conform(exe, cases, "FEMTrace", judge("nodal"), label="boundary values", chunk=500)
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "bnd" and len(x["left"]) > 2 and x["left"][1][0]:
                x["left"][1][0][0][1] = 99
                return True
        demo(ctx, ev, ["nodal"], corrupt)
    return viol
