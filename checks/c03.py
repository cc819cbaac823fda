"""C03: access modes and misuse."""
from checks.ckpt_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    viol = []
    c = consts([1, 2], ["A"], ["n1"], [], ["dmat", "int"], 2, ["abas"] if ctx.thorough else [])
    cases, n = graph(ctx, c, 9)
    ctx.extra["transition_tests"] = len(cases)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("mode"), label="one file: transition cover")
    viol += v
    c = consts([1, 2], ["A", "B"], ["n1"], [], ["int"], 2, [])
    cases, n = graph(ctx, c, 9, limit=20000 if ctx.thorough else 4000)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("mode"), label="two files: transition cover")
    viol += v
    cases = walks(ctx, 2000 if ctx.thorough else 250, 40)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("mode"), label="random walks, all kinds")
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "op" and x["o"]["op"] == "write" and x["r"] == "err":
                x["r"] = "ok"
                return True
        demo(ctx, ev, ("mode",), corrupt)
    return viol
