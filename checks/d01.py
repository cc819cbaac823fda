"""D01: exchange-correlation potentials are the derivatives of the energy."""
from checks.dft_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    hs, r = ctx.generate("DftGridGen", cfg_text(spec="GSpec", constants={"Depth": 9}, action_constraint="EmitEnd"), simulate=200 if ctx.thorough else 26, depth=11)
    cs = []
    for i, h in enumerate(hs):
        k, conf, rad = h[0][1], h[0][2], h[0][3]
        if k == "sa":
            conf %= 3
        elif k != "pm" and rad == 3 and not ctx.thorough:
            rad = 2
        c = ["new %s %d %d" % (k, conf, rad)]
        for o in h[1:]:
            _, x, px, cc, pc, sd, m, t = o
            c.append("eval %s %s %d %s %d" % (fn(x, px), fn(cc, pc), sd + 10 * ctx.seed, m, t))
        cs.append(c)
    rng = ctx.rng
    for k in ("sa", "at", "di", "pm"):
        for conf in range({"at": 7, "sa": 3, "di": 8, "pm": 8}[k]):
            for rad in range(10):
                if rad > 3 and not ctx.thorough and (k in ("at", "di") and (conf + rad) % 8 or k == "pm" and (conf + rad) % 4):
                    continue
                if not ctx.thorough and k in ("at", "di") and rad < 4 and (rad == 3 or rad != conf % 3):
                    continue
                if not ctx.thorough and k == "pm" and rad == 3 and conf % 2:
                    continue
                c = ["new %s %d %d" % (k, conf, rad)]
                fs = FUN + (LAP if k != "di" else [])
                if not ctx.thorough and k in ("at", "di"):
                    fs = [fs[i] for i in sorted(rng.sample(range(len(fs)), 3 if rad < 4 else 1))]
                if not ctx.thorough and rad > 3 and k not in ("at", "di"):
                    fs = rng.sample(fs, 4)
                for x, cc in fs:
                    for law in ("grad", "spin", "add", "beta"):
                        c.append("%s %d %d %d" % (law, x, cc, rng.randrange(1 << 16)))
                cs.append(c)
    viol, ev = ctx.conform(exe, cs, "DftGridTrace", {"Judge": tlaset(["potential"])}, label="potentials and histories", chunk=200, per_case_timeout=200.0)
    if not viol:
        def corrupt(x):
            if x.get("e") == "grad" and x["x"] == 1:
                x["err"] = 2000000
                return True
        demo(ctx, ev, "potential", corrupt)
    return viol
