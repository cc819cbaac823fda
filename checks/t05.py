"""T05: Coulomb and exchange matrices are the integrals of the functions they stand for."""
from checks.oracle_common import run


def check(ctx):
    return run(ctx, "two", 6, 1500 if ctx.thorough else 120, "two", "two-electron integrals", 10)
