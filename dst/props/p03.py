from .. import nsprop, nsw, obs
from ..nsprop import REAL, STUBS, ASSUMPTIONS, STATES, shrink

RUNS = dict(quick=300, thorough=6000)
RULE = "one evaluation is one whole nested sampling run; distinct by the digest of all recorded log-likelihoods"


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier)
    if rng.random() < 0.4:
        # walkers that meet the edges all the time, with one engine only
        p["problem"]["tight"] = True
        if not nsw.is_dyn(p["problem"]):
            p["engines"] = [rng.choice(nsw.ENGS)]
        p["buggify"] = rng.choice((0.05, 0.2))
    return p


def run(p, ctx):
    nsprop.run(p, ctx, ("domain",))
