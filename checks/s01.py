"""S01: one-electron problems reproduce the exact spectra and expectation values."""
from vp import core
from vp.core import cfg_text
from checks.twod_common import SRCS
from checks.twoe_common import SADATOM


def harness():
    return core.build("oneel", ["oneel.cpp"], SRCS + SADATOM, libs=core.ALL_LIBS, float128=True, stubs=True)


def channels(rng, lmax, keep=None):
    c = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
    if keep:
        c = rng.sample(c, min(keep, len(c)))
    rng.shuffle(c)
    return " ".join("%d %d" % x for x in c)


def check(ctx):
    exe = harness()
    ctx.model_check("OneEl", cfg_text(spec="OSpec", invariants=["Virial", "Kramers", "Unsold", "SinCos", "Degeneracy"]))
    rng, cs = ctx.rng, []
    T = ctx.thorough
    for rad in range(6):
        for nm in ((1, 2, 3) if T else (1 + (rad + ctx.seed) % 3, 3) if rad < 2 else (1 + (rad + ctx.seed) % 3,)):
            for Z in ((1, 2, 3, 10, 54) if T else (rng.choice([1, 3]), rng.choice([2, 7, 20]))):
                cs.append(["atom %d %d %d 0 0 %s" % (rad, Z, nm, channels(rng, rng.choice([0, 1, 2, 3]), 7))])
                cs.append(["sad %d %d %d %d" % (rad, Z, nm, rng.randrange(3))])
    for mod in (1, 2, 3, 4):
        for rad in (range(6) if T else (rng.randrange(2), 2 + rng.randrange(4))):
            # regularised nucleus: par is the dimensionless parameter times Z
            Z = rng.choice([1, 2, 5])
            cs.append(["atom %d %d 2 %d %s %s" % (rad, Z, mod, ("%g" % (Z * rng.choice([2, 3, 4]))) if mod == 4 else rng.choice(["0.3", "0.05"]), channels(rng, 1))])
    for rad in range(6):
        for k in range(4 if T else 1):
            R = rng.choice([10, 16, 20, 26])
            z = rng.choice([1, 2, 5])
            mm = rng.choice([0, 1, 1, 2]) if rad < 2 or T else rng.choice([0, 1])
            cs.append(["di %d %d 0 %d %d %d" % (rad, z, R, 8 + R // 10, mm), "di %d 0 %d %d %d %d" % (rad, z, R, 8 + R // 10, mm)])
            s = rng.choice([2, 3])
            a, b = rng.choice([(1, 2), (1, 3), (2, 3)])
            mm = rng.choice([0, 1])
            cs.append(["di %d 1 1 20 8 %d" % (rad, mm), "di %d %d %d 20 8 %d" % (rad, s, s, mm), "di %d %d %d %d 9 %d" % (rad, a, b, R, mm),
                       "di %d %d %d %d 9 %d" % (rad, b, a, R, mm), "di %d %d %d %d 9 %d" % (rad, s * a, s * b, R, mm)])
    cs.append(["di %d 1 1 20 8 2" % rng.randrange(2)])
    for rad in range(6):
        for _ in range(6 if T else 2):
            cs.append(["off %d %d %d %d %d %d" % (rad, rng.choice([1, 2, 3]), rng.randrange(4), rng.randrange(1, 4), rng.choice([3, 5, 10, 15, 21]), rng.choice([0, 0, 1, 2, 3]))])
    viol, ev = ctx.conform(exe, cs, "OneElTrace", label="one-electron problems", chunk=60, per_case_timeout=200.0)
    if not viol:
        def mut(e):
            for c in e:
                for x in c:
                    if x.get("e") == "sad":
                        x["st"][0]["r"][2] += 40
                        return [c]
        ctx.bind_demo("OneElTrace", ev, mutate=mut)
    return viol
