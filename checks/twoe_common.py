from vp import core
from vp.core import cfg_text, tlaset
from checks.twod_common import SRCS

SADATOM = [x for x in core.COMMON if "sadatom/basis" in x]
LABELS = ["yukA", "yukB", "yukC", "erfcA", "erfcB", "erfcC"]
GC = {"Screened": tlaset(LABELS)}


def harness():
    return core.build("twoe", ["twoe.cpp"], SRCS + SADATOM, libs=core.ALL_LIBS, float128=True, stubs=True)
