"""D02: the quadrature grids integrate the density they are given, and agree with one another."""
from checks.dft_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    rng, cs = ctx.rng, []
    n = 4 if ctx.thorough else 1
    sd = lambda: rng.randrange(1 << 16)
    for k in ("sa", "at", "di", "pm"):
        for conf in range({"at": 7, "sa": 3, "di": 8, "pm": 8}[k]):
            for rad in range(10):
                if rad > 3 and not ctx.thorough and (k in ("at", "di") and (conf + rad) % 8 or k == "pm" and (conf + rad) % 4):
                    continue
                if not ctx.thorough and k in ("at", "di") and rad == 3:
                    continue
                c = ["new %s %d %d" % (k, conf, rad)]
                for _ in range(n):
                    c.append("count %d %d %d" % (rng.choice([(202, 231), (101, 231), (497, 0), (0, 231)]) + (sd(),)))
                    c.append("count %d %d %d" % (rng.choice([(1, 7), (101, 130), (0, 12)]) + (sd(),)))
                    c.append("vw 0 0 %d" % sd())
                    if rad in (2, 3, 7, 9) and k != "di":
                        c.append("gea 0 0 %d" % sd())
                    if k == "sa":
                        c.append("dirac 1 0 %d" % sd())
                    if k == "pm":
                        for x, cc in FUN if ctx.thorough else rng.sample(FUN, 2):
                            c.append("pure %d %d %d %d" % (x, cc, sd(), conf not in (2, 3, 5, 7)))
                            c.append("pure %d %d %d 0" % (x, cc, sd()))
                cs.append(c)
    fs = FUN + LAP
    for LM in range(3):
        for rad in (0, 1, 2, 5, 8) if LM < 2 or ctx.thorough else (0, 1, 4):
            c = []
            for x, cc in fs if ctx.thorough else rng.sample(fs, 4 if LM < 2 else 2):
                c.append("sphere %d %d %d %d %d" % (x, cc, sd(), LM, rad))
            cs.append(["new at 0 0"] + c)
    viol, ev = ctx.conform(exe, cs, "DftGridTrace", {"Judge": tlaset(["grid"])}, label="quadrature laws", chunk=200, per_case_timeout=200.0)
    if not viol:
        def corrupt(x):
            if x.get("e") == "count":
                x["n"] = 9000000
                return True
        demo(ctx, ev, "grid", corrupt)
    return viol
