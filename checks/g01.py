"""G01: generated grids span exactly the requested interval."""
from vp import core
from vp.core import cfg_text, Sub

ORDER = ["model", "n", "ig", "z", "n0", "ig0", "z0", "Z", "Zl", "Zr", "R", "rn", "rh"]
SRCS = core.LIBHELFEM + core.QC + core.COMMON


def check(ctx):
    exe = core.build("grid", ["grid.cpp"], core.LIBHELFEM + ["src/atomic/basis.cpp"], float128=True, stubs=True, libs=("-lopenblas", "-lquadmath"))
    ctx.model_check("Grid", cfg_text(spec="Spec", constants={"Params": Sub("SmallParams")}, invariants=["Increasing", "StartsAtZero", "SpansAll", "Count", "HasNucleus"]))
    num = 40000 if ctx.thorough else 5000
    hs, r = ctx.generate("GridGen", cfg_text(spec="GenSpec", constants={"Params": "{}"}, action_constraint="Emit"), simulate=num // 50, depth=51)
    seen, cases = set(), []
    for h in hs:
        c = "grid %s %s %d %s" % (h["via"], h["conf"], h["k"], " ".join(str(h["p"][x]) for x in ORDER))
        if c not in seen:
            seen.add(c)
            cases.append([c])
    viol, ev = ctx.conform(exe, cases, "GridTrace", {"Params": "{}"}, label="grids", chunk=1000)
    n = sum(1 for c in ev for x in c if x.get("r") == "err")
    ctx.extra["refused"] = n
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("r") == "ok" and x["via"] == "get" and x["p"]["ig"] == 1 and len(x["m"]) > 3:
                        x["m"][1] += 7
                        return [c]
        ctx.bind_demo("GridTrace", ev, constants={"Params": "{}"}, mutate=mut)
    return viol
