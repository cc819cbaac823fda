"""F05: global matrices are the sum of the element contributions."""
from checks.fem_common import *

OPS = ["overlap", "kinetic", "kinetic_l", "b0b1", "b2b2", "fe11", "fe01", "auto", "autobp", "panels", "rint", "kinks", "rkinks"]
RADIAL = ["nuclear", "r0r0"]


def check(ctx):
    exe = harness()
    design(ctx)
    viol = []
    # exact arithmetic: integer-valued evaluators
    hs = enum(ctx, [2, 3, 4], [1, 2, 3, 5] if ctx.thorough else [1, 3])
    if not ctx.thorough:
        hs = ctx.rng.sample(hs, 350)
    cases = enum_cases(ctx, hs, lambda h, t: ["asm %d %d" % (ctx.rng.randrange(50), k) for k in (0, 1, 2, 3)], modes=["int"])
    # many elements
    for i in range(60 if ctx.thorough else 16):
        n = 6 + i % 9
        cases.append(["seed %d" % i] + newcmd(ctx, {"fam": [4, 5, 3, 8][i % 4], "nn": 2, "fl": i & 1, "dl": (i >> 1) & 1, "fr": (i >> 2) & 1, "dr": (i >> 3) & 1}, sorted(ctx.rng.sample(range(0, 81, 4), n + 1)), "int") + ["asm %d %d" % (ctx.rng.randrange(50), i % 4)])
    cases += sim_cases(ctx, sim(ctx, 800 if ctx.thorough else 80, 8, [2, 3]), {"add", "asm"}, modes=["int"])
    v, ev = ctx.conform(exe, cases, "FEMTrace", judge("asm"), label="integer assembly", chunk=60)
    viol += v
    # the operators of the radial basis
    real = []
    for i in range(1500 if ctx.thorough else 260):
        fam = [3, 4, 5, 8, 9, 4, 5][i % 7]
        nn = ctx.rng.choice([2, 3, 4, 5] if fam in (3, 4) else [2, 3])
        toks = [0] + sorted(ctx.rng.sample(range(4, 33 if i % 5 else 81, 4), ctx.rng.choice([1, 2, 3, 4] if i % 5 else [7, 10, 13])))
        c = {"fam": fam, "nn": nn, "fl": 1, "dl": 0, "fr": i % 2, "dr": (i // 2) % 2}
        if fam in (3, 4) and nn == 2 and len(toks) == 2:
            nn = c["nn"] = 3  # a basis with no function left has no matrices
        ops = ctx.rng.sample(OPS, 4) + [ctx.rng.choice(RADIAL)]
        cmds = newcmd(ctx, c, toks, ["rand", "grade"][i % 2])
        real.append(["seed %d" % i] + cmds + ["real " + o for o in ops])
    v, ev2 = ctx.conform(exe, real, "FEMTrace", judge("asm"), label="radial operators", chunk=150)
    viol += v
    if not viol:
        def corrupt(x):
            if x.get("e") == "asm" and x["m"]:
                x["m"][0] += 1
                return True
        demo(ctx, ev, ["asm"], corrupt)
    return viol
