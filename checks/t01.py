"""T01: two-electron operators follow the preparation history."""
from checks.twoe_common import *


def check(ctx):
    exe = harness()
    ctx.model_check("TwoE", cfg_text(spec="LSpec", constants={"Screened": tlaset(LABELS[:4])}, invariants=["MostRecent"], properties=["Independent"]))
    hs, _ = ctx.generate("TwoEGen", cfg_text(spec="GSpec", constants=dict(GC, Depth=22), action_constraint="EmitEnd"), simulate=1500 if ctx.thorough else 120, depth=24)
    cs = [[" ".join(str(x) for x in o) for o in h] for h in hs]
    cs.sort(key=lambda c: c[0])
    viol, ev = ctx.conform(exe, cs, "TwoETrace", dict(GC, Judge=tlaset(["history"])), label="preparation histories", chunk=200, per_case_timeout=120.0)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "use" and x["op"] == "R" and x["like"]:
                        x["like"] = ["yukA"] if x["like"] != ["yukA"] else ["erfcA"]
                        return [c]
        ctx.bind_demo("TwoETrace", ev, constants=dict(GC, Judge=tlaset(["history"])), mutate=mut)
    return viol
