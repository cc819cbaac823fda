"""E01: electron counting."""
import itertools
from checks.scf_common import *


def check(ctx):
    exe = harness()
    design(ctx)
    w = 1 if ctx.thorough else 0
    cmds = []
    for Z, Q, M, na, nb in itertools.product(range(0, 6 + 2 * w), range(-2 - w, 4 + w), range(-1, 5 + w), range(-2, 4 + w), range(-2, 4 + w)):
        cmds.append("parse %d %d %d %d %d" % (Z, Q, M, na, nb))
        if (Z + Q + M + na + nb + ctx.seed) % 2 == 0 or ctx.thorough or (na == 0 and nb == 0):
            for r in (-1, 0, 1):
                cmds.append("derive %d %d %d %d %d %d" % (Z, Q, M, na, nb, r))
    r = ctx.rng
    for _ in range(4000):
        a = (r.randrange(0, 130), r.randrange(-5, 60), r.randrange(-3, 40), r.choice([0, 0, r.randrange(-9, 80)]), r.choice([0, 0, r.randrange(-9, 80)]))
        cmds.append("parse %d %d %d %d %d" % a)
        cmds.append("derive %d %d %d %d %d %d" % (a + (r.randrange(-1, 2),)))
    cs = [cmds[i:i + 200] for i in range(0, len(cmds), 200)]
    viol, ev = ctx.conform(exe, cs, "ScfTrace", judge("count"), label="electron counts")
    ok = sum(1 for c in ev for x in c if x.get("r") == "ok")
    if not viol:
        ctx.extra["accepted_requests"] = ok

        def corrupt(x):
            if x.get("e") == "parse" and x["r"] == "ok":
                x["out"][1] += 1
                return True
        demo(ctx, ev, ["count"], corrupt)
    return viol
