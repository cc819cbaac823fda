"""M02: observables of spherically averaged and tabulated atoms."""
from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS
from checks.twoe_common import SADATOM


def harness():
    return core.build("atomobs", ["atomobs.cpp"], SRCS + SADATOM, libs=core.ALL_LIBS, float128=True, stubs=True)


def check(ctx):
    exe = harness()
    ctx.model_check("AtomObs", cfg_text(spec="MSpec", invariants=["Positive", "Spins", "Vanishes", "AllInside", "Screens", "Poisson", "SwapTwice", "Weizsacker"]))
    hs, _ = ctx.generate("AtomObsGen", cfg_text(spec="GSpec", constants={"Depth": 24}, action_constraint="EmitEnd"), simulate=800 if ctx.thorough else 150, depth=26)
    cs = [[" ".join(map(str, o)) for o in h] for h in hs]
    viol, ev = ctx.conform(exe, cs, "AtomObsTrace", label="atomic observables", chunk=40)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("o") == "hart" and x["r"] == "ok":
                        x["c"][1] += 40
                        return [c]
        ctx.bind_demo("AtomObsTrace", ev, mutate=mut)
    return viol
