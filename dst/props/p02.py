from .. import nsprop, nsw, obs
from ..nsprop import REAL, STUBS, ASSUMPTIONS, STATES, shrink

RUNS = dict(quick=300, thorough=6000)
RULE = "one evaluation is one whole nested sampling run; distinct by the digest of all recorded log-likelihoods"


def gen(rng, i, tier):
    return nsprop.gen(rng, i, tier)


def run(p, ctx):
    nsprop.run(p, ctx, ("logl","alias"))
