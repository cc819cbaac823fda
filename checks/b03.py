"""B03: generated channel lists."""
from checks.twod_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    n = 9 if ctx.thorough else 6
    cs = [["chan ang %d %d" % (l, m)] for l in range(n) for m in range(n + 2)]
    # diatomic lists: every sequence of lmax per |m| (length 1..4, lmax 0..4)
    k = 4 if ctx.thorough else 3
    seqs = [[]]
    for _ in range(k):
        seqs = [s + [x] for s in seqs for x in range(0, 5)] + seqs
        seqs = [list(t) for t in sorted({tuple(s) for s in seqs})]
    cs += [["chan lm " + " ".join(map(str, s))] for s in seqs if s]
    cs += [["chan lm " + " ".join(str(ctx.rng.randrange(0, 9)) for _ in range(ctx.rng.randrange(1, 7)))] for _ in range(200)]
    cs = [sum(cs[i:i + 10], []) for i in range(0, len(cs), 10)]
    viol, ev = ctx.conform(exe, cs, "TwoDTrace", judge("chan"), label="channel lists", chunk=150)
    if not viol:
        def corrupt(x):
            if x.get("e") == "chan" and len(x["m"]) > 1 and x["m"][-1]:
                x["m"][-1] = -x["m"][-1]
                return True
        demo(ctx, ev, ["chan"], corrupt)
    return viol
