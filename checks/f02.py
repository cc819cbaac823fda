"""F02: refinement depends only on the final set of boundaries."""
from checks.fem_common import *
import itertools


def check(ctx):
    exe = harness()
    design(ctx)
    viol = []
    cases = sim_cases(ctx, sim(ctx, 3000 if ctx.thorough else 500, 14, range(2, 6)), {"add"})
    # every insertion order (with repetitions) of three boundaries into small starting grids
    i = 0
    for start in ([0, 16], [0, 8, 16], [4, 20]):
        for order in itertools.product([0, 4, 8, 12, 24], repeat=3):
            fams = (4, 5) if not ctx.thorough else (3, 4, 5, 8, 9, 100, 101)
            for f in fams:
                c = {"fam": f, "nn": 2 + i % 3, "fl": i & 1, "dl": (i >> 1) & 1, "fr": (i >> 2) & 1, "dr": (i >> 3) & 1}
                cases.append(["seed %d" % (i % 31)] + newcmd(ctx, c, start, MODES[i % 3]) + ["add %d" % t for t in order])
                i += 1
    # boundaries that nearly coincide are still distinct; many elements
    for i in range(200 if ctx.thorough else 60):
        c = {"fam": [4, 3, 5, 100][i % 4], "nn": 2 + i % 3, "fl": i & 1, "dl": 0, "fr": (i >> 1) & 1, "dr": 0}
        big = i % 3 == 0
        ts = ctx.rng.sample(range(0, 161 if big else 49, 4), 24 if big else 8)
        cases.append(["seed %d" % i] + newcmd(ctx, c, sorted(ts[:2]), "rand" if big else "close") + ["add %d" % t for t in ts[2:] + ts[:3]])
    v, ev = ctx.conform(exe, cases, "FEMTrace", judge("refine"), label="insertion histories", chunk=800)
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "add":
                x["o"]["bv"] = x["o"]["bv"][:-1]
                return True
        demo(ctx, ev, ["refine"], corrupt)
    return viol
