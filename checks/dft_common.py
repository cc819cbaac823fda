from vp import core
from vp.core import cfg_text, tlaset
from checks.twod_common import SRCS

EXTRA = [x for x in core.COMMON if "sadatom/basis" in x or "dftgrid" in x]
# explicit parameter values equal to the functional's own
PARS = {52: "1:1", 101: "0.8040:0.2195149727645171", 130: "0.06672455060314922:1:0.03109069086965489503494086371273",
        131: "0.04918:0.132:0.2533:0.349", 202: "0.40:1.59096:1.537:0.804:0.21951:2.0:0.0"}


def harness():
    return core.build("dft", ["dft.cpp"], SRCS + EXTRA, libs=core.ALL_LIBS, float128=True, stubs=True)


def fn(f, p):
    if not f or not p:
        return str(f)
    v = PARS.get(f, "1").split(":")
    v = (v + ["0.1"] * p)[:p]
    return ":".join([str(f)] + v)


def design(ctx):
    ctx.model_check("DftGrid", cfg_text(spec="LSpec", invariants=["TablesCover", "OnlyFullGridRefusesLaplacians"], properties=["Monotone"]))


def demo(ctx, ev, j, corrupt):
    def mut(e):
        for c in e:
            for x in c:
                if corrupt(x):
                    return [c]
        raise core.CheckError("no event to corrupt for the binding demonstration")
    ctx.bind_demo("DftGridTrace", ev, constants={"Judge": tlaset([j])}, mutate=mut)


FUN = [(1, 12), (101, 130), (202, 231), (497, 131), (52, 7)]
LAP = [(627, 72), (206, 130), (627, 231)]
