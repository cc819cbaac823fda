"""T04: two-electron operators do not depend on how space is divided into elements; factors stand for the tables."""
from vp.core import cfg_text
from checks.f07 import harness, case


def check(ctx):
    exe = harness()
    ctx.model_check("XTwo", cfg_text(spec="M2Spec", invariants=["OnlyAtomic", "Counted", "Smaller"], properties=["OnlyGrows"]))
    hs, _ = ctx.generate("XTwoGen", cfg_text(spec="GSpec", constants={"Depth": 9}, action_constraint="EmitEnd"), simulate=1500 if ctx.thorough else 160, depth=11)
    cs = [case(h, k, True) for k, h in enumerate(hs)]
    viol, ev = ctx.conform(exe, cs, "XTwoTrace", label="two-electron operators in two bases", chunk=20)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "two" and x["o"] in ("J", "K"):
                        x["err"] = 10 ** 7
                        return [c]
        ctx.bind_demo("XTwoTrace", ev, mutate=mut)
    return viol
