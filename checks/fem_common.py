from vp import core
from vp.core import cfg_text, tlaset, Sub

MODES = ["rand", "neg", "grade"]


def harness():
    return core.build("fem", ["fem.cpp"], core.LIBHELFEM, float128=True, stubs=True, libs=("-lopenblas", "-lquadmath"))


def design(ctx):
    """closed forms against the definition by meaning, on every refinement history of a small grid"""
    toks = "{0, 1, 2, 3, 4}" if ctx.thorough else "{0, 1, 2, 3}"
    ctx.model_check("FEM", cfg_text(spec="Spec", constants={"Cfgs": Sub("DesignCfgs"), "Toks": toks},
                                    invariants=["ClosedForms", "Sharing", "Covers", "RowInterval", "EveryPointLocated", "StrictlyInsideUnique"], properties=["Monotone"]))


def scalar(fam, nn, rng=None):
    """precision in which the family is numerically usable at this order"""
    if fam in (100, 101):
        return "d"
    order = {3: 1, 4: 1, 5: 2, 8: 3, 9: 4}.get(fam, 1) * nn
    pick = ["d", "l", "q"] if order <= 6 else ["l", "q"] if order <= 12 else ["q"]
    if order <= 4 or rng is None:
        return pick[0]
    return pick[0] if rng.random() < 0.6 else rng.choice(pick)


def newcmd(ctx, c, toks, mode):
    sc = scalar(c["fam"], c["nn"], ctx.rng)
    if c["fam"] == 101 and c["nn"] > 4 and mode == "grade":
        mode = "rand"
    return ["mode " + mode, "new %s %d %d %d %d %d %d %s" % (sc, c["fam"], c["nn"], c["fl"], c["dl"], c["fr"], c["dr"], " ".join(map(str, toks)))]


def gconst(nns, nels, depth=1):
    return {"Cfgs": "{}", "Toks": Sub("Grid4"), "Depth": depth, "NNs": tlaset(nns), "Nels": tlaset(nels)}


def enum(ctx, nns, nels):
    hs, r = ctx.generate("FEMGen", cfg_text(init="EnumInit", next="EnumNext", constants=gconst(nns, nels), invariants=["EmitAll"]))
    return hs


def sim(ctx, num, depth, nns):
    hs, r = ctx.generate("FEMGen", cfg_text(spec="SimSpec", constants=gconst(nns, [1], depth), action_constraint="EmitEnd"), simulate=num, depth=depth + 2)
    return hs


def nels(nel, rng):
    """strictly increasing boundary tokens (multiples of 4)"""
    return sorted(rng.sample(range(0, 49, 4), nel + 1))


def enum_cases(ctx, hs, ops, modes=MODES):
    out = []
    for i, h in enumerate(hs):
        toks = nels(h["nel"], ctx.rng)
        out.append(["seed %d" % (ctx.seed * 1000 + i % 97)] + newcmd(ctx, h["c"], toks, modes[i % len(modes)]) + ops(h, toks))
    return out


def sim_cases(ctx, hs, keep, modes=MODES):
    out = []
    for i, h in enumerate(hs):
        cmds = ["seed %d" % (ctx.seed * 1000 + i % 97)] + newcmd(ctx, h[0]["c"], h[0]["b"], modes[i % len(modes)])
        for o in h[1:]:
            if o["op"] in keep:
                cmds.append("asm %d %d" % (o["t"], o["t"] % 4) if o["op"] == "asm" else "bnd" if o["op"] == "bnd" else "%s %d" % (o["op"], o["t"]))
        out.append(cmds)
    return out


def high(ctx, num, ops):
    """orders up to 15 (up to what the family's arithmetic supports) and up to 40 elements"""
    out = []
    for i in range(num):
        fam = [4, 4, 100, 3, 5, 8, 101, 9][i % 8]
        nn = ctx.rng.choice({4: [6, 8, 10, 12, 15], 100: [6, 8, 10], 3: [6, 8, 11, 15], 5: [5, 6, 8, 10], 8: [4, 5], 101: [4, 5], 9: [3, 4]}[fam])
        n = ctx.rng.choice([1, 2, 3, 9, 20, 40])
        toks = sorted(ctx.rng.sample(range(0, 161, 4), n + 1))
        f = [ctx.rng.randrange(2) for _ in range(4)]
        out.append(["seed %d" % i] + newcmd(ctx, {"fam": fam, "nn": nn, "fl": f[0], "dl": f[1], "fr": f[2], "dr": f[3]}, toks, ["rand", "neg"][i % 2]) + ops(toks))
    return out


def judge(*j):
    return {"Cfgs": "{}", "Toks": "{}", "Judge": tlaset(j)}


def demo(ctx, ev, j, corrupt):
    def mut(e):
        for c in e:
            for x in c:
                if corrupt(x):
                    return [c]
        raise core.CheckError("no event to corrupt for the binding demonstration")
    ctx.bind_demo("FEMTrace", ev, constants=judge(*j), mutate=mut)
