"""N01: numerical-orbital radial bases and their one- and two-electron matrices."""
from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS
from checks.twoe_common import SADATOM


def harness():
    return core.build("nao", ["nao.cpp"], SRCS + SADATOM, libs=core.ALL_LIBS, float128=True, stubs=True)


def check(ctx):
    exe = harness()
    ctx.model_check("Nao", cfg_text(spec="MSpec", invariants=["Symmetric", "Definite", "Reciprocal", "SelfCancel", "Primitives", "Grounded"]))
    hs, _ = ctx.generate("NaoGen", cfg_text(spec="GSpec", constants={"Depth": 24}, action_constraint="EmitEnd"), simulate=500 if ctx.thorough else 80, depth=26)
    cs = [[" ".join(map(str, o)) for o in h] for h in hs]
    viol, ev = ctx.conform(exe, cs, "NaoTrace", label="numerical orbitals", chunk=20)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "two" and x["r"] == "ok":
                        x["m"][0][0] += 2000
                        return [c]
        ctx.bind_demo("NaoTrace", ev, mutate=mut)
    return viol
