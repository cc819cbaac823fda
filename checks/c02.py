"""C02: typed last-write-wins store with exact round trips."""
from checks.ckpt_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    viol = []
    # every ordered pair (stored kind/token, fetched kind): transition cover with all kinds on one name, one write handle
    c = consts([1], ["A"], ["n1"], [], ALLK, 99, [])
    cases, n = graph(ctx, c, 5)
    ctx.extra["transition_tests"] = len(cases)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("data"), label="kind x kind transition cover")
    viol += v
    # histories over several names, handles and files
    c2 = consts([1, 2], ["A"], ["n1", "n2"], [], ["dmat", "hstd", "str"], 2, [])
    cases, n = graph(ctx, c2, 9, limit=20000 if ctx.thorough else 4000)
    v, _ = ctx.conform(exe, cases, "CheckpointTrace", judge("data"), label="two names, two handles: transition cover")
    viol += v
    cases = walks(ctx, 3000 if ctx.thorough else 300, 50)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("data"), label="random walks, all kinds")
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "op" and x["o"]["op"] == "read" and x["r"] == "ok" and x["v"] == 1 and x["o"]["k"] not in ("bool",):
                x["v"] = 2
                return True
        demo(ctx, ev, ("data",), corrupt)
    ctx.assumptions.append("lossy narrowing between precisions and reinterpretation between integer kinds are left unspecified; strings hold no NUL character")
    return viol
