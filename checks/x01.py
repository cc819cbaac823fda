"""X01: functional names and classification."""
from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS


def tok(t):
    return "%s:%s" % (t[0], ("".join("%02x" % ord(c) for c in t[1]) or "-") if t[0] == "lit" else t[1])


def check(ctx):
    exe = core.build("xc", ["xc.cpp"], SRCS, libs=core.ALL_LIBS, float128=True, stubs=True)
    ctx.model_check("XC", cfg_text(spec="MSpec", invariants=["SpellingFree", "SingleHasNoCorrelation", "JunkRefused", "OneKind"]))
    hs, _ = ctx.generate("XCGen", cfg_text(spec="GSpec", constants={"Depth": 120}, action_constraint="EmitEnd"), simulate=60 if ctx.thorough else 6, depth=122)
    cs = []
    for h in hs:
        c = []
        for parts in h:
            c.append("spec " + " ".join(tok(t) for t in parts))
            c.append("find " + tok(parts[0]))
        c += ["params" + "".join(" %d" % ctx.rng.randrange(-4000, 4000) for _ in range(n)) for n in list(range(6)) + [ctx.rng.randrange(1, 9) for _ in range(6)]]
        cs.append(c)
    step = 120
    for k in range(0, 960, step):         # every functional of the library: classification and every spelling
        c = ["class %d %d idx" % (k, k + step)]
        for i in range(k, min(k + step, 700)):
            for s in (("num", "num0", "name", "upper", "mixed", "xc", "XC") if ctx.thorough else (("num", "name", "upper"), ("num", "mixed", "XC"))[i % 2]):
                c.append("spec %s:%d" % (s, i))
        cs.append(c)
    cs.append(["class -1 1001 id"])       # every number: known and unknown ones
    viol, ev = ctx.conform(exe, cs, "XCTrace", label="functionals")
    ctx.extra["functionals"] = sum(1 for c in ev for x in c if x.get("e") == "class" and x["r"] == "ok")
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "class" and x.get("exx", 0) > 0:
                        x["exx"] += 10
                        return [c]
        ctx.bind_demo("XCTrace", ev, mutate=mut)
    return viol
