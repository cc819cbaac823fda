"""E02: density and Fock bookkeeping."""
from checks.scf_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    hs = histories(ctx, 2500 if ctx.thorough else 400, 12)
    cs = cases(ctx, hs, BOOK)
    viol, ev = ctx.conform(exe, cs, "ScfTrace", judge("book"), label="block bookkeeping", chunk=400)
    if not viol:
        def corrupt(x):
            if x.get("e") == "final" and x["Pb"]:
                x["Pb"][0][0] += 1
                return True
        demo(ctx, ev, ["book"], corrupt)
    return viol
