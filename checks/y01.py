"""Y01: Gaunt tables."""
from vp import core
from vp.core import cfg_text

GC = {"LMaxM": 0}


def check(ctx):
    exe = core.build("gaunt", ["gaunt.cpp"], ["src/general/gaunt.cpp"], float128=True, stubs=True, libs=("-lquadmath",))
    ctx.model_check("Gaunt", cfg_text(spec="NSpec", constants={"LMaxM": 5 if ctx.thorough else 3}, invariants=["Symmetric", "CosAgrees", "Trivial", "SinCos", "WindowSafe", "SelectionNecessary"]))
    viol = []
    for lhi, n in ((5, 25), (3, 15)) if not ctx.thorough else ((6, 300), (5, 300), (2, 100)):
        hs, _ = ctx.generate("GauntGen", cfg_text(spec="GSpec", constants=dict(GC, Depth=400, LHi=lhi), action_constraint="EmitEnd"), simulate=n, depth=402)
        cs = [[" ".join(str(x) for x in o) for o in h] for h in hs]
        # every lookup of small tables, window by window
        if lhi == 3:
            for cap in (-1, 0, 1, 2, 3):
                for T in ((3, 3, 3), (3, 1, 2), (2, 3, 1), (1, 2, 3), (4, 2, 2)):
                    cs.append(["table %d %d %d %d" % (T + (cap,))] + ["g %d %d %d %d %d" % (L, M, l, m, lp) for L in range(-1, T[0] + 2) for M in range(-L - 1, L + 2) for l in range(0, T[1] + 1) for m in range(-l, l + 1) for lp in range(0, T[2] + 2)])
        v, ev = ctx.conform(exe, cs, "GauntTrace", GC, label="coupling lookups, l <= %d" % lhi)
        viol += v
    # tables of the size used for molecules
    cs = []
    for i in range(40 if ctx.thorough else 10):
        r = ctx.rng
        T = [r.randrange(6, 19) for _ in range(3)]
        cap = r.choice([-1, 0, 1, 2, 3, 5, 8])
        c = ["table %d %d %d %d" % (*T, cap)]
        for _ in range(600):
            if r.random() < 0.7:
                L, l, lp = (r.randrange(t + 1) for t in T)
                if r.random() < 0.75:  # mostly allowed triples
                    lp = min(T[2], abs(L - l) + 2 * r.randrange(min(L, l) + 1))
                w = cap if cap >= 0 and r.random() < 0.9 else 20
                M, m = r.randint(-min(L, w), min(L, w)), r.randint(-min(l, w), min(l, w))
                c.append("gb %d %d %d %d %d" % (L + (r.random() < 0.02) * 20, M, l, m, lp))
            else:
                lj, li = r.randrange(T[0] + 1), r.randrange(T[2] + 1)
                if r.random() < 0.7:
                    li = min(T[2], max(0, lj + r.randint(-5, 5)))
                w = cap if cap >= 0 and r.random() < 0.9 else 20
                mj = r.randint(-min(lj, w), min(lj, w))
                c.append("cb %s %d %d %d %d" % (r.choice(["cos", "cos2", "cos3", "cos4", "cos5", "sin2", "cos2sin2"]), lj, mj, li, mj if r.random() < 0.95 else -mj))
        cs.append(c)
    v, _ = ctx.conform(exe, cs, "GauntTrace", GC, label="large tables")
    viol += v
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "g" and x.get("s", 0) != 0:
                        x["s"] = -x["s"]
                        return [c]
        ctx.bind_demo("GauntTrace", ev, constants=GC, mutate=mut)
    return viol
