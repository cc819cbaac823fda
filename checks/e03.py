"""E03: block-wise diagonalisation and orthogonalisation."""
from checks.scf_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    hs = histories(ctx, 2500 if ctx.thorough else 300, 10)
    cs = cases(ctx, hs, ["eig", "eig", "sinv"])
    viol, ev = ctx.conform(exe, cs, "ScfTrace", judge("eig"), label="blocked eigenproblems", chunk=400)
    if not viol:
        def corrupt(x):
            if x.get("e") == "eig" and len(x["got"]) > 1 and x["got"][0] != x["got"][-1]:
                x["got"][0], x["got"][-1] = x["got"][-1], x["got"][0]
                return True
        demo(ctx, ev, ["eig"], corrupt)
    return viol
