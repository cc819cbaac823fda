"""M01: nuclear models, tabulated model potentials and confinement potentials."""
from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS
from checks.twoe_common import SADATOM


def harness():
    return core.build("modelpot", ["modelpot.cpp"], SRCS + SADATOM, libs=core.ALL_LIBS, float128=True, stubs=True)


def check(ctx):
    exe = harness()
    ctx.model_check("ModelPot", cfg_text(spec="MSpec", invariants=["Bounded", "Rising", "Edge", "Order", "ShiftLaws", "KinkInside"]))
    hs, _ = ctx.generate("ModelPotGen", cfg_text(spec="GSpec", constants={"Depth": 14}, action_constraint="EmitEnd"), simulate=400 if ctx.thorough else 90, depth=16)
    cs = [[" ".join(map(str, o)) for o in h] for h in hs]
    rng = ctx.rng
    for ic in range(5):
        for k in range(40 if ctx.thorough else 8):
            R = rng.choice([2, 3])
            cs.append(["conf %d %d %d %d %d %d %d %d" % (ic, rng.randint(1, 2 if ic == 4 else 3), rng.choice([-2, -1, 1, 2, 3]), rng.randint(1, 4), rng.randrange(2 * R), R, rng.randrange(6), rng.randint(2, 4))])
    viol, ev = ctx.conform(exe, cs, "ModelPotTrace", label="model potentials", chunk=60)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "conf" and x["ic"] == 1 and x["r"] == "ok":
                        x["v"] += 40
                        return [c]
        ctx.bind_demo("ModelPotTrace", ev, mutate=mut)
    return viol
