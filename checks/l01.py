"""L01: element lookups and the domains of the tabulated models."""
from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS

EC = {"MaxZ": 0}


def check(ctx):
    exe = core.build("elements", ["elements.cpp"], SRCS, libs=core.ALL_LIBS, float128=True, stubs=True)
    ctx.model_check("Elements", cfg_text(spec="ESpec", constants={"MaxZ": 118}, invariants=["MadelungOrder", "Distinct", "RoundTrip", "Holds", "Additive"]))
    hs, _ = ctx.generate("ElementsGen", cfg_text(spec="GSpec", constants=dict(EC, Depth=100), action_constraint="EmitEnd"), simulate=200 if ctx.thorough else 30, depth=102)
    hx = lambda s: "".join("%02x" % ord(c) for c in s) or "-"
    cs = [[" ".join([o[0]] + ([hx(o[1])] if o[0] == "z" else [str(x) for x in o[1:]])) for o in h] for h in hs]
    # every number, every word of up to two letters (three in the thorough run), every pair of tabulated atoms
    import string
    L = string.ascii_lowercase
    words = [x for x in L] + [x + y for x in L for y in L] + ([x + y + z for x in L for y in L for z in L] if ctx.thorough else [])
    pick = lambda w: [w, w.upper(), w.capitalize(), w[0] + w[1:].upper()][ctx.rng.randrange(4)]
    cs += [["z " + hx(pick(w)) for w in words[i::8]] + ["z " + hx(w.capitalize()) for w in words[i::8] if len(w) < 3] for i in range(8)]
    cs.append(["sym %d" % z for z in range(119)] + ["z " + hx(str(z)) for z in range(125)])
    cs.append(["gsz %d" % z for z in range(-3, 125)] + ["sap %d" % z for z in range(-3, 125)])
    cs.append(["orbs %d %d" % (z, 0) for z in range(121)] + ["orbs %d %d" % (0, z) for z in range(121)] + ["orbs %d %d" % (ctx.rng.randrange(120), ctx.rng.randrange(120)) for _ in range(200)])
    cs.append(["adb %d %d" % (z, l) for z in range(-2, 7) for l in range(-2, 7)])
    viol, ev = ctx.conform(exe, cs, "ElementsTrace", EC, label="element and table lookups")
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "z" and x["r"] == "ok":
                        x["z"] += 1
                        return [c]
        ctx.bind_demo("ElementsTrace", ev, constants=EC, mutate=mut)
    return viol
