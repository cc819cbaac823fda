"""T02: exchange reordering of two-electron integral blocks."""
from vp import core
from vp.core import cfg_text

GC = {"NMax": 1}


def check(ctx):
    exe = core.build("teiperm", ["teiperm.cpp"], core.LIBHELFEM, float128=True, stubs=True, libs=("-lopenblas", "-lquadmath"))
    ctx.model_check("TeiPerm", cfg_text(spec="PSpec", constants={"NMax": 4 if ctx.thorough else 3}, invariants=["ThreeTimes", "NothingLost"]))
    hs, _ = ctx.generate("TeiPermGen", cfg_text(spec="GSpec", constants=dict(GC, Depth=12), action_constraint="EmitEnd"), simulate=800 if ctx.thorough else 80, depth=14)
    cs = [[" ".join(str(x) for x in o) for o in h] for h in hs]
    big = 3 if ctx.thorough else 2
    for t in "dlq":
        cs.append(["%s %d %d %d %d %d %d 5" % (t, i, j, k, l, i * j, k * l) for i in range(1, big + 1) for j in range(1, big + 1) for k in range(1, big + 1) for l in range(1, big + 1)])
    viol, ev = ctx.conform(exe, cs, "TeiPermTrace", GC, label="blocks", chunk=100)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("r") == "ok" and x["rows"] > 1 and x["cols"] > 1:
                        x["out"][0][0] += 1
                        return [c]
        ctx.bind_demo("TeiPermTrace", ev, constants=GC, mutate=mut)
    return viol
