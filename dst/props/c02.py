"""C02: MHD results do not depend on the domain decomposition."""
from dst.props import c01
ID = "C02"; LEVEL = "exploration"; VARIANTS = ["mpi", "ser"]
CASES = dict(quick=1800, thorough=30000)
RULE, ASSUME, shrink = c01.RULE, c01.ASSUME, c01.shrink
def gen_scenario(r, i, tier): return c01.gen_(r, i, tier, "mhd")
def run(sc, ctx, o): c01.run_(sc, ctx, o, 1e-10)
