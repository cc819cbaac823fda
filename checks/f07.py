"""F07: overlaps and projections between two bases."""
from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS
from checks.twoe_common import SADATOM


def harness():
    return core.build("xbasis", ["xbasis.cpp"], SRCS + SADATOM, libs=core.ALL_LIBS, float128=True, stubs=True)


def case(h, k, legendre=False):
    out = ["R %s" % ["1", "7.3", "0.37", "2.6"][k % 4]]
    for o in h:
        if isinstance(o, dict):
            x = ["mk", o["k"], o["fam"], o["nn"], int(o["zd"]), len(o["grid"])] + o["grid"] + [len(o["ch"])] + [v for c in o["ch"] for v in c]
            if o["k"] == "dia" and k % 3 == 2 and not legendre:
                x.append("nolegendre")
            out.append(" ".join(map(str, x)))
        else:
            out.append(" ".join(map(str, o)))
    return out


def check(ctx):
    exe = harness()
    ctx.model_check("XBasis", cfg_text(spec="MSpec", invariants=["Reflexive", "Transitive", "Smaller", "Mutual"]))
    hs, _ = ctx.generate("XBasisGen", cfg_text(spec="GSpec", constants={"Depth": 14}, action_constraint="EmitEnd"), simulate=2000 if ctx.thorough else 250, depth=16)
    cs = [case(h, k) for k, h in enumerate(hs)]
    viol, ev = ctx.conform(exe, cs, "XBasisTrace", label="two bases", chunk=40)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "tri":
                        x["err"] = 10 ** 6
                        return [c]
        ctx.bind_demo("XBasisTrace", ev, mutate=mut)
    return viol
