"""C01: open/closed discipline of checkpoint files."""
from checks.ckpt_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    viol = []
    # every transition of the bounded model: one handle on one file, failing fetches of every kind of mismatch
    c = consts([1, 2], ["A"], ["n1"], ["g/x"], ["dmat", "dsc", "str"] if not ctx.thorough else ["dmat", "dstd", "int", "str", "bool"], 1, ["abas"])
    cases, n = graph(ctx, c, 7)
    ctx.extra["transition_tests"] = len(cases)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("state"), label="transition cover")
    viol += v
    cases = walks(ctx, 2000 if ctx.thorough else 250, 40)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("state"), label="random walks, all kinds")
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "op" and x["o"]["op"] == "read":
                x["open"] = not x["open"]
                return True
        demo(ctx, ev, ("state",), corrupt)
    return viol
