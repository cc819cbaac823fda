"""F06: values, derivatives and radial functions of a basis agree with each other."""
from checks.fem_common import *


def case(ctx, h, k):
    out = ["seed %d" % (ctx.seed * 1000 + k)]
    for o in h:
        if isinstance(o, dict):
            out += newcmd(ctx, o["c"], o["b"], ["rand", "grade" if max(o["b"]) <= 48 else "rand", "int"][k % 3])
        else:
            out.append(" ".join(str(int(x)) if isinstance(x, bool) else str(x) for x in o))
    return out


def check(ctx):
    exe = harness()
    ctx.model_check("Eval", cfg_text(spec="MSpec", constants={"Cfgs": Sub("EvalCfgs"), "Toks": "{0, 1, 2}"},
                                     invariants=["TableNeedsValues", "Downward"], properties=["TableGrows"]))
    ctx.model_check("Eval", cfg_text(spec="MSpec", constants={"Cfgs": Sub("OneCfg"), "Toks": "{0, 1, 2}"}, invariants=["Calculus"]))
    hs, _ = ctx.generate("EvalGen", cfg_text(spec="GSpec", constants={"Cfgs": "{}", "Toks": "{}", "Depth": 16}, action_constraint="EmitEnd"),
                         simulate=6000 if ctx.thorough else 700, depth=18)
    cases = [case(ctx, h, k) for k, h in enumerate(hs)]
    viol, ev = ctx.conform(exe, cases, "EvalTrace", constants={"Cfgs": "{}", "Toks": "{}", "Tol": 1000}, label="evaluations", chunk=100)
    if not viol:
        def mut(e):
            for cs in e:
                for x in cs:
                    if x.get("e") == "rad" and x["r"] == "ok":
                        x["dev"] = 2000000000
                        return [cs]
        ctx.bind_demo("EvalTrace", ev, constants={"Cfgs": "{}", "Toks": "{}", "Tol": 1000}, mutate=mut)
    return viol
