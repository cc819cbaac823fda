"""Y03: one-electron matrices are the integrals of the functions they stand for."""
from checks.oracle_common import run


def check(ctx):
    return run(ctx, "one", 14, 3000 if ctx.thorough else 300, "one", "one-electron integrals", 40)
