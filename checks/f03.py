"""F03: points are located in an element that contains them; coordinate maps are increasing and mutually inverse."""
from checks.fem_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    viol = []
    cases = sim_cases(ctx, sim(ctx, 3000 if ctx.thorough else 400, 16, [2, 3]), {"add", "find", "map"})
    # every point of the token axis on grids of every size, before and after a refinement
    for i in range(400 if ctx.thorough else 120):
        n = 1 + i % 12
        toks = nels(n, ctx.rng)
        c = {"fam": [4, 3, 5][i % 3], "nn": 2, "fl": 0, "dl": 0, "fr": 0, "dr": 0}
        pts = [t for t in range(0, 49) if toks[0] <= t <= toks[-1]]
        cases.append(["seed %d" % i] + newcmd(ctx, c, toks, MODES[i % 3]) + ["find %d" % t for t in pts] + ["map %d" % e for e in range(n + 2)] +
                     ["add %d" % ctx.rng.choice(range(0, 49, 4))] + ["find %d" % t for t in pts[::3]])
    # many elements, nearly coinciding boundaries
    for i in range(100 if ctx.thorough else 24):
        n = ctx.rng.choice([13, 16, 17, 23, 31, 32, 33, 40])
        toks = sorted(ctx.rng.sample(range(0, 161, 4), n + 1))
        c = {"fam": [4, 3, 5][i % 3], "nn": 2, "fl": 0, "dl": 0, "fr": 0, "dr": 0}
        cases.append(["seed %d" % i] + newcmd(ctx, c, toks, ["rand", "close", "neg"][i % 3]) + ["find %d" % t for t in range(toks[0], toks[-1] + 1)] + ["map %d all" % e for e in range(0, n + 2)])
    v, ev = ctx.conform(exe, cases, "FEMTrace", judge("locate"), label="points and maps", chunk=1200)
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "find" and x["t"] % 4 == 2:
                x["el"] += 1
                return True
        demo(ctx, ev[-5:], ["locate"], corrupt)
    return viol
