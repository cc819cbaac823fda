"""B01: symmetry blocks partition the basis and labels follow the blocks."""
from checks.twod_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    hs = histories(ctx, 4000 if ctx.thorough else 500, 4)
    cs = cases(ctx, hs, {"midx"})
    cs = [c + ["sym %d" % s for s in (0, 1, 2, 3, 4, -1)] for c in cs]
    viol, ev = ctx.conform(exe, cs, "TwoDTrace", judge("block"), label="symmetry settings", chunk=400)
    if not viol:
        def corrupt(x):
            if x.get("e") == "sym" and x["s"] == 1 and len(x["lab"]) > 1:
                x["lab"][0], x["lab"][1] = x["lab"][1], x["lab"][0]
                return True
        demo(ctx, ev, ["block"], corrupt)
    return viol
