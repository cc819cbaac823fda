"""T03: electrostatic laws of the two-electron matrices."""
from checks.twoe_common import *

PC = dict(GC, Judge=tlaset(["physics"]))


def check(ctx):
    exe = harness()
    ctx.model_check("TwoE", cfg_text(spec="LSpec", constants={"Screened": tlaset(LABELS[:3])}, invariants=["MostRecent"]))
    rng, cs = ctx.rng, []
    n = 12 if ctx.thorough else 2
    for k in ("at", "sa", "di"):
        for conf in range({"at": 7, "sa": 3, "di": 8}[k]):
            for rad in range(4):
                if k == "di" and conf in (4, 5, 6, 7) and rad in (1, 2, 3) and not ctx.thorough and rad != 1 + conf % 3:
                    continue
                c = ["new %s %d %d" % (k, conf, rad)]
                for _ in range(n):
                    c.append("phys %d" % rng.randrange(1 << 20))
                if k == "di" and conf in (3, 5):      # no mirror partner, or partners in another order of l
                    cs.append(c)
                    continue
                c.append(("mirror %d" if k == "di" else "screen %d") % rng.randrange(1 << 20))
                cs.append(c)
    for L in range(4 if ctx.thorough else 3):
        for rad in range(3):
            for s in range(6 if ctx.thorough else 2):
                cs.append(["shell %d %d %d" % (L, rad, rng.randrange(1000) * 6 + (s * 3 + rad) % 6)])
    cs.append(["gauss %d" % rng.randrange(1 << 20) for _ in range(30 if ctx.thorough else 6)])
    for p in ["full"] + LABELS:
        for L in range(5 if ctx.thorough else 3):
            for rad in range(4):
                cs.append(["kernel %s %d %d %d" % (p, L, rad, rng.randrange(1 << 20)) for _ in range(4 if ctx.thorough else 1)])
    viol, ev = ctx.conform(exe, cs, "TwoETrace", PC, label="electrostatic laws", chunk=200, per_case_timeout=120.0)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "phys":
                        x["self"] = 2000000000
                        return [c]
        ctx.bind_demo("TwoETrace", ev, constants=PC, mutate=mut)
    return viol
