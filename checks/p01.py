"""P01: command-line parser."""
from vp import core
from vp.core import cfg_text, Sub

GC = {"Pool": "{}", "MaxArgs": 0}


def hx(s):
    return s.encode().hex() or "-"


def check(ctx):
    exe = core.build("cmd", ["cmd.cpp"], [])
    ctx.model_check("Cmdline", cfg_text(spec="CSpec", constants={"Pool": Sub("SmallPool"), "MaxArgs": 5 if ctx.thorough else 4},
                                        invariants=["SpellingFree", "RestIsSubsequence", "DefaultsKept", "RequiredEnforced"]))
    hs, _ = ctx.generate("CmdlineGen", cfg_text(spec="GSpec", constants=dict(GC, Depth=8), action_constraint="EmitEnd"), simulate=6000 if ctx.thorough else 900, depth=10)
    cs = []
    for h in hs:
        d = h[0]["d"]
        cmds = ["decl " + " ".join("%s %s %s %d" % (n, o["ty"], o["short"] or "-", o["need"]) for n, o in sorted(d.items()))]
        for o in h[1:]:
            cmds.append(o["op"] + "".join(" " + hx(x) for x in o["a"]))
        toks = [x for o in h[1:] for x in o["a"] if x and '"' not in x]
        ctx.rng.shuffle(toks)
        for k in (0, 3):
            t = toks[k:k + 3]
            if t:
                style = ctx.rng.randrange(5)
                enc = [('"%s"' % x.replace("\\", "\\\\") if " " in x or ctx.rng.randrange(3) == 0 else x.replace("\\", "\\\\").replace(" ", "\\ ")) for x in t]
                line = "prog " + " ".join(enc)
                if style == 3:
                    line += ' "open'
                if style == 4 and ctx.rng.randrange(2):
                    line += " x\\"
                cmds.append("split " + hx(line))
        cmds.append("check " + " ".join(hx(x) for x in ["--help"] if ctx.rng.randrange(2)))
        cs.append(cmds)
    cs.append(["decl a int - 0", "split -"])
    viol, ev = ctx.conform(exe, cs, "CmdlineTrace", GC, label="command lines")
    ctx.extra["accepted"] = sum(1 for c in ev for x in c if x.get("ok"))
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "parse" and x["ok"] and x["rest"]:
                        x["rest"].pop()
                        return [c]
        ctx.bind_demo("CmdlineTrace", ev, constants=GC, mutate=mut)
    return viol
