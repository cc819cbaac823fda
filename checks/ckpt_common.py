from vp import core
from vp.core import cfg_text, tlaset


SRCS = [x for x in core.EVERYTHING if "dftgrid" not in x and "sadatom" not in x and "twodquad" not in x]


def harness():
    return core.build("ckpt", ["ckpt.cpp"], SRCS, libs=core.ALL_LIBS, float128=True, stubs=True)


ALLK = ["dmat", "lmat", "qmat", "dvec", "lvec", "qvec", "imat", "dstd", "lstd", "qstd", "hstd", "dsc", "lsc", "qsc", "int", "hsz", "bool", "str"]


def consts(handles, files, good, bad, kinds, toklimit, bases):
    return {"Handles": tlaset(handles), "Files": tlaset(files), "GoodNames": tlaset(good), "BadNames": tlaset(bad),
            "Kinds": tlaset(kinds), "TokLimit": toklimit, "Bases": tlaset(bases)}


FULL = consts([1, 2, 3], ["A", "B"], ["n1", "n2", "n3"], ["g/x"], ALLK, 99, ["abas", "dbas"])


def command(o):
    op = o["op"]
    a = [op, o["h"]]
    if op == "new":
        a += [o["f"], int(o["w"]), int(o["t"])]
    if "n" in o:
        a.append(o["n"])
    if "k" in o:
        a.append(o["k"])
    if op in ("write", "wbas"):
        a.append(o["t"])
    return " ".join(str(x) for x in a)


def case(ops, seed):
    return ["seed %d" % seed] + [command(o) for o in ops] + ["finish", "dump A", "dump B"]


PROPS = ["OpenDiscipline", "FrameRule", "FilesNeverVanish"]
INVS = ["TypeOK", "OpenImpliesExists", "MissingIsEmpty", "LiveExists"]


def design(ctx):
    """The specification itself, exhaustively, on a small instance."""
    c = consts([1, 2], ["A"], ["n1", "n2"] if ctx.thorough else ["n1"], ["g/x"], ["dmat", "int"], 2, ["abas", "dbas"])
    ctx.model_check("Checkpoint", cfg_text(spec="Spec", constants=c, invariants=INVS, properties=PROPS))


def graph(ctx, c, depth, limit=None):
    cc = dict(c, Depth=depth, Mode='"graph"')
    hs, r = ctx.generate("CheckpointGen", cfg_text(spec="GSpec", constants=cc, view="View", action_constraint="Emit"), timeout=700)
    # one test per transition; drop tests that are proper prefixes of others
    keys = sorted({tuple(command(o) for o in h) for h in hs})
    keep = [k for i, k in enumerate(keys) if not (i + 1 < len(keys) and keys[i + 1][:len(k)] == k)]
    if limit and len(keep) > limit:
        keep = ctx.rng.sample(keep, limit)
    return [["seed %d" % (ctx.seed * 100 + i % 50)] + list(k) + ["finish", "dump A", "dump B"] for i, k in enumerate(keep)], len(keys)


def walks(ctx, num, depth, c=None):
    cc = dict(c or FULL, Depth=depth, Mode='"sim"')
    hs, r = ctx.generate("CheckpointGen", cfg_text(spec="SimSpec", constants=cc, action_constraint="Emit"), simulate=num, depth=depth + 2)
    return [case(h, ctx.seed * 1000 + i) for i, h in enumerate(hs)]


def judge(*j):
    return dict(FULL, Judge=tlaset(j))


def demo(ctx, ev, j, field):
    """binding demonstration on this run's own traces"""
    def mut(e):
        for c in e:
            for x in c:
                if field(x):
                    return [c]
        raise core.CheckError("no event to corrupt for the binding demonstration")
    ctx.bind_demo("CheckpointTrace", ev, constants=judge(*j), mutate=mut)
