from vp import core
from vp.core import cfg_text, tlaset
from checks.twod_common import SRCS

SC = {"Occs": "{0, 2}", "MaxPut": 0}
BOOK = ["acc", "final", "ortho", "fock", "core", "hfx", "meta", "fill", "rt", "nel"]


def harness():
    return core.build("scf", ["scf.cpp"], SRCS, libs=core.ALL_LIBS, float128=True, stubs=True)


def design(ctx):
    ctx.model_check("Scf", cfg_text(spec="SSpec", constants={"Occs": "{0, 2, 4}", "MaxPut": 16 if ctx.thorough else 10},
                                    invariants=["ElectronsConserved", "Symmetric", "BlockDiagonal", "MirrorEven"]))


def histories(ctx, num, depth):
    return ctx.generate("ScfGen", cfg_text(spec="GSpec", constants=dict(SC, Depth=depth), action_constraint="EmitEnd"), simulate=num, depth=depth + 2)[0]


def cases(ctx, hs, keep):
    out = []
    for i, h in enumerate(hs):
        p = h[0]
        spec = ",".join((".".join(map(str, x["b"])) + ("/" + ".".join(map(str, x["m"])) if x["m"] else "")) or "-" for x in p["c"])
        cmds = ["seed %d" % (ctx.seed * 100 + i), "part %d %s %d" % (p["n"], spec, i)]
        k = 0
        for o in h[1:]:
            name = o["op"].strip()
            k += 1
            if name not in keep:
                name = keep[(o["t"] + k) % len(keep)]
            cmds.append("%s %d %d" % (name, o["t"], o["u"]))
        out.append(cmds)
    return out


def judge(*j):
    return dict(SC, Judge=tlaset(j))


def demo(ctx, ev, j, corrupt):
    def mut(e):
        for c in e:
            for x in c:
                if corrupt(x):
                    return [c]
        raise core.CheckError("no event to corrupt for the binding demonstration")
    ctx.bind_demo("ScfTrace", ev, constants=judge(*j), mutate=mut)
