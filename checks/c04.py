"""C04: a stored basis reloads as the same basis, and only as the same kind."""
from checks.ckpt_common import *
from vp.core import Sub

CH = [[(0, 0)], [(0, 0), (1, 0), (1, 1), (1, -1)], [(1, -1), (0, 0)], [(2, 1), (1, 1), (3, 1)], [(0, 0), (1, 0), (2, 0), (2, 2), (2, -2), (3, -1)]]


def cmd(o):
    if o["op"] == "reopen":
        return "reopen"
    if o["op"] == "load":
        return "load " + o["k"]
    c = o["c"]
    ch = CH[c["chan"] - 1]
    return " ".join(str(x) for x in ["store", c["kind"], c["poly"], c["nn"], c["zeroder"], c["model"], *c["z"], c["nel"], c["dq"], *[y for p in ch for y in p]])


def check(ctx):
    exe = harness()
    exe2 = core.build("basstore", ["basstore.cpp"], SRCS, libs=core.ALL_LIBS, float128=True, stubs=True)
    design(ctx)
    ctx.model_check("BasisStore", cfg_text(spec="Spec", constants={"Configs": Sub("Small")}, invariants=["OneKind", "StoredKnown"]))
    viol = []
    # the store as part of the whole checkpoint state machine (all handles, files, failing fetches, partial deletion)
    c = consts([1, 2], ["A"], ["n1"], [], ["int"], 1, ["abas", "dbas"])
    cases, n = graph(ctx, c, 8, limit=None if ctx.thorough else 1500)
    v, ev = ctx.conform(exe, cases, "CheckpointTrace", judge("basis"), label="transition cover")
    viol += v
    v, ev = ctx.conform(exe, walks(ctx, 1500 if ctx.thorough else 200, 40), "CheckpointTrace", judge("basis"), label="random walks")
    viol += v
    # every configuration of the bounded set, stored and fetched
    hs, r = ctx.generate("BasisStoreGen", cfg_text(init="EnumInit", next="EnumNext", constants={"Depth": 5, "Configs": "{}"}, invariants=["EmitAll"]))
    if not ctx.thorough:
        hs = ctx.rng.sample(hs, 1200)
    cases = [["seed %d" % (ctx.seed * 1000 + i)] + [cmd(o) for o in h] for i, h in enumerate(hs)]
    v, ev = ctx.conform(exe2, cases, "BasisStoreTrace", {"Configs": "{}"}, label="configurations", chunk=300)
    viol += v
    hs, r = ctx.generate("BasisStoreGen", cfg_text(spec="SimSpec", constants={"Depth": 8, "Configs": "{}"}, action_constraint="EmitEnd"), simulate=1500 if ctx.thorough else 200, depth=10)
    cases = [["seed %d" % (ctx.seed * 1000 + i)] + [cmd(o) for o in h] for i, h in enumerate(hs)]
    v, ev = ctx.conform(exe2, cases, "BasisStoreTrace", {"Configs": "{}"}, label="random histories", chunk=300)
    viol += v
    if not viol:
        def mut(e):
            for cs in e:
                for x in cs:
                    if x.get("e") == "load" and x["r"] == "ok":
                        x["desc"]["zd"] = 1 - x["desc"]["zd"]
                        return [cs]
            raise core.CheckError("no successful load")
        ctx.bind_demo("BasisStoreTrace", ev, constants={"Configs": "{}"}, mutate=mut)
    return viol
