"""Y02: one-electron operators couple only the channels their symmetry allows."""
from checks.twod_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    hs = histories(ctx, 2500 if ctx.thorough else 260, 3)
    cs = cases(ctx, hs, {"op"})
    for i, c in enumerate(cs):
        k = c[1].split()[1]
        names = OPS if k == "at" else OPS[:6]
        c += ["op %s %s" % (n, ["0.7", "-1.3", "0"][i % 3] if n == "Bz" else "0") for n in names]
    viol, ev = ctx.conform(exe, cs, "TwoDTrace", judge("couple"), label="operators", chunk=400)
    if not viol:
        def corrupt(x):
            if x.get("e") == "op" and x["op"] == "overlap":
                x["nz"] = x["nz"][1:]
                return True
        demo(ctx, ev, ["couple"], corrupt)
    return viol
