"""B02: element-local and boundary-stripped indexing."""
from checks.twod_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    hs = histories(ctx, 3000 if ctx.thorough else 350, 4)
    cs = cases(ctx, hs, {"d2r"})
    cs = [c + ["idx %d" % m for m in (0, 1, -2)] + ["pad %d" % i] + ["d2r %d" % (i * 5 + k) for k in range(2)] for i, c in enumerate(cs)]
    viol, ev = ctx.conform(exe, cs, "TwoDTrace", judge("index"), label="index maps", chunk=150)
    if not viol:
        def corrupt(x):
            if x.get("e") == "pad" and x["ex"]:
                x["ex"][0] += 1
                return True
        demo(ctx, ev, ["index"], corrupt)
    return viol
