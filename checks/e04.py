"""E04: complete runs of the three programs."""
import json
import os
import shutil
from concurrent.futures import ThreadPoolExecutor
from vp import core
from vp.core import cfg_text, Sub

KINDS = ["hyd", "shell", "atom", "lit", "stark", "zeeman", "orbital", "field", "conf", "h2p", "he2", "su", "pi", "mol", "emb"]
RC = {"Sys": "{}", "Pres": "{}", "Oracle": Sub("Zero")}
TC = {"Sys": "{}", "Pres": "{}", "Oracle": Sub("NoOracle")}


def programs():
    srcs = list(dict.fromkeys(core.EVERYTHING + ["src/sadatom/scf.cpp", "src/general/atomdb.cpp"]))
    out = {}
    for n, m in (("ATO", "src/atomic/main.cpp"), ("DIA", "src/diatomic/main.cpp"), ("SAD", "src/sadatom/main.cpp")):
        out[n] = core.build("run" + n.lower(), [], [m] + srcs, libs=core.ALL_LIBS, float128=True, stubs=True, opt="-O2", main=1)
    return out


def check(ctx):
    exes = programs()
    env = {"VP_DRV_" + k: v for k, v in exes.items()}
    exe = os.path.join(core.VERIF, "harness/runs.py")
    ctx.model_check("Runs", cfg_text(spec="MSpec", constants={"Sys": Sub("SmallSys"), "Pres": Sub("SmallPres"), "Oracle": Sub("SmallOracle")},
                                     invariants=["OrbitsPartition", "KnownAgrees", "MemAgrees", "FilesFromRuns", "OnlyUsable", "RefinesReflexive"]))
    cs = []
    n = 40 if ctx.thorough else 6
    pools = [KINDS] * n + [[k] for k in KINDS] * (3 if ctx.thorough else 1)
    jobs = {}
    for p in pools:
        jobs[tuple(p)] = jobs.get(tuple(p), 0) + 1

    def gen(x):
        i, (p, m) = x
        hs, _ = ctx.generate("RunsGen", cfg_text(spec="GSpec", constants=dict(RC, Depth=8, Pool=core.tlaset(sorted(set(p)))), action_constraint="EmitEnd"), simulate=m, depth=10, seed_off=i, heap="1g")
        return hs
    with ThreadPoolExecutor(8) as ex:
        for hs in ex.map(gen, list(enumerate(sorted(jobs.items())))):
            cs += [[json.dumps(o) for o in h] for h in hs]
    viol, ev = ctx.conform(exe, cs, "RunsTrace", TC, label="histories of runs", env=env, per_case_timeout=250.0, chunk=40)
    ctx.extra["runs"] = sum(1 for c in ev for x in c if x.get("e") == "run")
    ctx.extra["refused"] = sum(1 for c in ev for x in c if x.get("r") == "err")
    ctx.extra["resumed"] = sum(1 for c in ev for x in c if x.get("r") == "ok" and x["p"]["load"])
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("r") == "ok" and x["p"]["load"]:
                        x["last"]["tot"] += 30000
                        return [c]
            raise core.CheckError("no resumed run")
        ctx.bind_demo("RunsTrace", ev, constants=TC, mutate=mut)
    return viol
