from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS
from checks.twoe_common import SADATOM


def harness():
    return core.build("oracle", ["oracle.cpp"], SRCS + SADATOM, libs=core.ALL_LIBS, float128=True, stubs=True)


def case(h, k):
    out = []
    fine = any(not isinstance(o, dict) and o[0] == "two" and o[1] == "E" for o in h)
    for o in h:
        if isinstance(o, dict):
            x = ["mk", o["k"], o["fam"], o["nn"], int(o["zd"]), o["rm"], o["rh"]] + o["chg"] + [len(o["grid"])] + o["grid"] + [len(o["ch"])] + [v for c in o["ch"] for v in c]
            out.append(" ".join(map(str, x + (["fine"] if fine else []))))
        else:
            out.append(" ".join(map(str, o)))
    return out


def run(ctx, mode, depth, n, field, label, chunk):
    exe = harness()
    ctx.model_check("Integrals", cfg_text(spec="MSpec", invariants=["SumRule", "Traceless", "Sane", "Bounded"]))
    hs, _ = ctx.generate("IntegralsGen", cfg_text(spec="GSpec", constants={"Depth": depth, "Mode": '"%s"' % mode}, action_constraint="EmitEnd"), simulate=n, depth=depth + 2)
    cs = [case(h, k) for k, h in enumerate(hs)]
    viol, ev = ctx.conform(exe, cs, "IntegralsTrace", label=label, chunk=chunk)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == field:
                        x["err"] = 2000000000
                        return [c]
        ctx.bind_demo("IntegralsTrace", ev, mutate=mut)
    return viol
