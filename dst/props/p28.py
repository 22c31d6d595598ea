"""Schedule and bookkeeping of the engines."""
import math
import numpy as np
from .. import nsprop, nsw, obs, sched
from ..nsprop import REAL, STUBS, ASSUMPTIONS, STATES

RUNS = dict(quick=300, thorough=6000)
RULE = "one evaluation is one whole nested sampling run; distinct by the digest of the calls of the engines"


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier, special="safe", threads=0.3, boost=0.1, keep=0.2, plateau=0.1)
    d = p["problem"]
    if rng.random() < 0.5 and len(p["engines"]) == 1:
        p["engines"] = p["engines"] + [rng.choice(nsw.ENGS)]
    p["slow"] = [rng.choice((None, None, None, 1, 2, 3, 5)) for _ in p["engines"]]
    if rng.random() < 0.6:
        p["slow"] = [None] * len(p["engines"])
    elif not any(s is None for s in p["slow"]):
        p["slow"][0] = None          # something has to move the walkers at every iteration
    p["eseeds"] = [rng.randrange(1, 1 << 30) for _ in p["engines"]]
    p["buggify"] = 0.0
    p.pop("copymode", None)
    return p


def shrink(p):
    for q in nsprop.shrink(p):
        n = len(q["engines"])
        q["slow"] = (q["slow"] + [None] * n)[:n]
        q["eseeds"] = (q["eseeds"] + [1] * n)[:n]
        yield q


def run(p, ctx):
    rec = []
    names = ["%s" % e for e in p["engines"]]
    engines = [nsw.counted(e, rec, seed=s, slow=sl) for e, s, sl in zip(p["engines"], p["eseeds"], p["slow"])]
    lab = {}
    evals = [0]
    fn = nsprop.lik_fn(p["lik"], p["problem"]) if p.get("lik") else None

    def constrain(logL, problem, allpars, low):
        evals[0] += 1
        rec.append(("eval",))
        return logL if fn is None else fn(logL, problem, allpars, low)

    def dist(e):
        e.constrain = constrain
        return e
    q = dict(p)
    nsprop.setup(q, ctx)
    holder = {}

    def go():
        w = nsw.build(q, engines=engines, dist=dist)
        w.ns.restart = nsw.Probe(lambda: rec.append(("iteration", int(w.ns.iteration))))
        holder["w"] = w
        w.ns.sample()
    if p.get("sched"):
        with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            go()
        ctx.fault("thread switches", s.switches)
    else:
        go()
    w = holder["w"]
    ns = w.ns
    for r in rec:
        if r[0] == "call":
            ctx.ev(r[2], r[3], r[4])
    # counts
    first = next((i for i, r in enumerate(rec) if r[0] == "call"), len(rec))
    n = sum(1 for r in rec[first:] if r[0] == "eval")
    ctx.count("evaluations", n)
    if int(ns.distribution.ncalls) != n:
        ctx.fail("ncalls", "%d likelihood calls reported, %d made by the exploration" % (ns.distribution.ncalls, n))
    for e, nm in zip(engines, names):
        if names.count(nm) > 1:
            continue
        c = sum(1 for r in rec if r[0] == "call" and r[2] == nm)
        a = sum(1 for r in rec if r[0] == "accept" and r[2] == nm)
        rep = [int(x) for x in e.report]
        ctx.count("calls", c)
        ctx.count("accepts", a)
        if rep[e.NCALLS] != c:
            ctx.fail("calls", "%s: %d calls reported, called %d times" % (nm, rep[e.NCALLS], c))
        if rep[e.SUCCESS] != a:
            ctx.fail("successes", "%s: %d successes reported, %d moves accepted" % (nm, rep[e.SUCCESS], a))
    # schedule: split into explorations of one walker
    D = p.get("discard", 1)
    expl = {}
    order = []
    for i, r in enumerate(rec):
        if r[0] in ("call", "moves"):
            # without threads one thread explores all: a new exploration starts when another walker or iteration comes up
            k = (r[1] if p.get("threads") else 0, r[4], r[3] if not any(x == "struct" for x in names) else r[3])
            if k not in expl:
                expl[k] = []
                order.append(k)
            expl[k].append(r)
    sel = {}
    firsts = {}
    for k in order:
        it = k[1]
        want = [nm for nm, s in zip(names, p["slow"]) if s is None or (it % s == 0)]
        calls = [r for r in expl[k] if r[0] == "call"]
        mvs = [r[5] for r in expl[k] if r[0] == "moves"]
        m = len(want)
        got = [r[2] for r in calls]
        ctx.check(m > 0 and len(got) % m == 0, "round.incomplete",
                  lambda: "iteration %s, walker %d: selected engines %s, called %s" % (it, k[2], want, got))
        nr = len(got) // m
        for j in range(nr):
            rd = got[j * m:(j + 1) * m]
            ctx.check(sorted(rd) == sorted(want), "round", lambda: "iteration %s, walker %d, round %d: selected engines %s, called %s" %
                      (it, k[2], j, want, rd))
            if m > 1 and len(set(want)) > 1:
                firsts.setdefault(tuple(sorted(want)), []).append(rd[0])
        ctx.count("rounds", nr)
        tot = 0
        rate = p.get("rate", 1.0)
        need = calls[0][5] / rate
        maxr = 5 / rate
        for j in range(nr):
            if not (tot < need and j < maxr):
                ctx.fail("round.superfluous", "iteration %s, walker %d: round %d after %s moves of %s" % (it, k[2], j, tot, need))
            tot += sum(mvs[j * m:(j + 1) * m])
        if tot < need and nr < maxr:
            ctx.fail("round.missing", "iteration %s, walker %d: ended after %d rounds and %s moves, %s wanted" % (it, k[2], nr, tot, need))
    for f, l in firsts.items():
        if len(l) >= 60 and len(set(l)) == 1:
            ctx.fail("order.fixed", "in all %d rounds of %s the first engine is %s" % (len(l), f, l[0]))
    # every discarded walker explored, by one exploration each
    its = {}
    for k in order:
        its.setdefault(k[1], []).append(k[2])
    for it, ks in its.items():
        if it and sorted(ks) != list(range(D)):
            ctx.fail("explored", "iteration %s: walkers explored %s, discarded %d" % (it, sorted(ks), D))
