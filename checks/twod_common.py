from vp import core
from vp.core import cfg_text, tlaset, Sub

SRCS = core.LIBHELFEM + core.QC + [x for x in core.COMMON if "dftgrid" not in x and "sadatom" not in x and "twodquad" not in x and "checkpoint" not in x]
OPS = ["overlap", "kinetic", "nuclear", "dipole", "quadrupole", "Bz", "conf"]


def harness():
    return core.build("twod", ["twod.cpp"], SRCS, libs=core.ALL_LIBS, float128=True, stubs=True)


def design(ctx):
    ctx.model_check("TwoD", cfg_text(spec="TDSpec", constants={"Cfgs": "{}", "Toks": "{}", "ChanPool": Sub("Pool"), "MaxCh": 4 if ctx.thorough else 3},
                                     invariants=["IndexFacts", "PartitionFacts", "MirrorFacts", "CouplingSymmetric"]))


GC = {"Cfgs": "{}", "Toks": "{}", "ChanPool": "{}", "MaxCh": 3}


def histories(ctx, num, depth):
    hs, r = ctx.generate("TwoDGen", cfg_text(spec="GSpec", constants=dict(GC, Depth=depth), action_constraint="EmitEnd"), simulate=num, depth=depth + 2)
    return hs


def basis(h):
    return "basis %s %d %d %d %d %s %s" % (h["k"], h["fam"], h["nn"], h["zd"], h["nel"], " ".join(map(str, h["chg"])), " ".join("%d %d" % tuple(x) for x in h["ch"]))


def cases(ctx, hs, keep):
    out = []
    for i, h in enumerate(hs):
        k = h[0]["k"]
        if h[0]["fam"] in (3, 4) and h[0]["nn"] == 2 and h[0]["nel"] == 1:
            continue
        cmds = ["seed %d" % (ctx.seed * 100 + i % 41), basis(h[0])]
        for o in h[1:]:
            op, t, u = o["op"], o["t"], o["u"]
            if op not in keep:
                continue
            if op == "sym":
                cmds.append("sym %d" % t)
            elif op == "idx":
                cmds.append("idx %d" % (t - 1))
            elif op in ("pad", "d2r"):
                cmds.append("%s %d" % (op, u))
            elif op == "midx":
                cmds.append("midx %d %d" % (t - 1, u % 4))
            elif op == "op":
                name = OPS[u % (7 if k == "at" else 6)]
                cmds.append("op %s %s" % (name, ["0", "0.7", "-1.3"][u % 3] if name == "Bz" else "0"))
        out.append(cmds)
    return out


def judge(*j):
    return dict(GC, Judge=tlaset(j))


def demo(ctx, ev, j, corrupt):
    def mut(e):
        for c in e:
            for x in c:
                if corrupt(x):
                    return [c]
        raise core.CheckError("no event to corrupt for the binding demonstration")
    ctx.bind_demo("TwoDTrace", ev, constants=judge(*j), mutate=mut)
