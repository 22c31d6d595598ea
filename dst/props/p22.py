"""Nested solver runs over travelling salesman problems, watched after every iteration and at every exploration."""
import math, random
import numpy as np
from .. import nsprop, nsw, core, rngseam, sched
from ..nsprop import ASSUMPTIONS

RUNS = dict(quick=1500, thorough=8000)
RULE = "one evaluation is one whole run of the nested solver; distinct by the digest of all recorded orders"
REAL = "NestedSolver, Explorer and its threads, all order engines, SalesmanProblem, DistanceCostFunction, PhantomCollection, WalkerList, SampleList"
STUBS = "one extra engine that only observes; random generators: numpy's own streams, with a seeded fraction of extreme values when buggify > 0; a distance function of the user that fails at a seeded call"
STATES = "distinct (engine mix, distance, nodes, one way, weights, ensemble, discard)"
ENG = ("move", "reverse", "loop", "near", "shuffle", "switch")


def gen(rng, i, tier):
    r = rng.random()
    e = None if r < 0.15 else [rng.choice(ENG)] if r < 0.5 else rng.sample(ENG, rng.randint(2, 6))
    n = rng.choice((3, 4, 5, 6, 8, 12)) if tier == "quick" else rng.choice((3, 5, 8, 12, 20, 30))
    p = dict(n=n, dim=rng.choice((2, 2, 2, 3)), grid=rng.random() < 0.3, dseed=rng.randrange(1 << 30), distance=rng.choice(("euclid", "Euclidic", "manhattan", "spherical", "table", "user")),
             weights=rng.random() < 0.3, oneway=rng.random() < 0.35, scale=rng.choice((None, None, 1.0, 0.3, 7.0)), engines=e, ensemble=rng.choice((3, 5, 8, 12, 20)),
             seed=rng.randrange(1, 1 << 31), rate=rng.choice((0.5, 1.0, 1.0, 2.0)), miniter=rng.choice((5, 10, 20)), maxiter=rng.choice((25, 40, 60)) if tier == "quick" else rng.choice((60, 150)),
             buggify=rng.choice((0.0, 0.0, 0.02, 0.1)), bseed=rng.randrange(1 << 30), again=rng.random() < 0.2)
    p["discard"] = min(rng.choice((1, 1, 1, 2, 3, 5)), p["ensemble"] - 2)
    p["discard"] = max(1, p["discard"])
    if rng.random() < 0.2:
        p["threads"] = True
        p["sched"] = nsprop.gen_sched(rng)
        p["maxiter"], p["miniter"], p["again"] = 15, 8, False
        if rng.random() < 0.6:
            p["discard"] = max(1, min(4, p["ensemble"] - 2))
    if p["distance"] == "user" and rng.random() < 0.3:
        p["fail"] = round(10 ** rng.uniform(0, 3))
    return p


def shrink(p):
    for k, v in (("buggify", 0.0), ("weights", False), ("oneway", False), ("again", False), ("grid", False), ("scale", None), ("discard", 1), ("dim", 2), ("rate", 1.0)):
        if p.get(k) != v:
            yield dict(p, **{k: v})
    if p.get("threads"):
        yield {k: v for k, v in p.items() if k not in ("threads", "sched")}
    if p.get("fail"):
        yield {k: v for k, v in p.items() if k != "fail"}
    if p["n"] > 3:
        yield dict(p, n=p["n"] - 1)
    if p["ensemble"] > 3:
        e = max(3, p["ensemble"] // 2)
        yield dict(p, ensemble=e, discard=max(1, min(p["discard"], e - 2)))
    if p["maxiter"] > 3:
        yield dict(p, maxiter=p["maxiter"] // 2, miniter=min(p["miniter"], p["maxiter"] // 2))
    if p["engines"] and len(p["engines"]) > 1:
        for i in range(len(p["engines"])):
            yield dict(p, engines=p["engines"][:i] + p["engines"][i + 1:])


class Broken(Exception):
    pass


def setting(p):
    r = np.random.RandomState(p["dseed"] % (1 << 32))
    xy = r.uniform(-60, 60, (p["n"], p["dim"]))
    if p["grid"]:
        xy = np.array(r.permutation([(i, j) + (0,) * (p["dim"] - 2) for i in range(6) for j in range(6)])[:p["n"]], dtype=float)
    w = r.uniform(0.5, 2, p["n"]) if p["weights"] else None
    t = r.uniform(1, 9, (p["n"], p["n"]))
    return xy, w, t


def leg(p, xy, t, i, j):
    """independent of the library: distance from node i to node j"""
    d = p["distance"]
    if d == "table":
        return float(t[i, j])
    if d == "spherical":
        a, b = xy[i] * math.pi / 180, xy[j] * math.pi / 180
        c = math.sin(a[1]) * math.sin(b[1]) + math.cos(a[1]) * math.cos(b[1]) * math.cos(a[0] - b[0])
        v = [math.cos(a[1]) * math.sin(b[1]) - math.sin(a[1]) * math.cos(b[1]) * math.cos(a[0] - b[0]), math.cos(b[1]) * math.sin(a[0] - b[0])]
        return math.atan2(math.hypot(*v), c)
    dv = [float(abs(u - v)) for u, v in zip(xy[i], xy[j])]
    if d == "manhattan":
        return sum(dv)
    if d == "user":
        return max(dv)
    return math.sqrt(sum(v * v for v in dv))


def cost(p, xy, w, t, order, scale):
    n = len(order)
    s = 0.0
    for k in range(n):
        if k == n - 1 and p["oneway"]:
            break
        s += leg(p, xy, t, order[k], order[(k + 1) % n]) / scale * (1.0 if w is None else float(w[order[k]]))
    return -s


def run(p, ctx):
    b = nsw.B()
    ctx.rng = rngseam.install(p["bseed"], p["buggify"])
    xy, w, t = setting(p)
    keepxy = xy.copy(), None if w is None else w.copy(), t.copy()
    box = dict(n=0, fired=False, armed=False)

    def user(xd, pars, roll=1):
        box["n"] += 1
        if box["armed"] and box["n"] >= p["fail"]:
            box["fired"], box["armed"] = True, False
            raise Broken("injected")
        x = xd[pars]
        return np.max(np.abs(x - np.roll(x, -roll, axis=0)), axis=1)
    kw = dict(distance=user if p["distance"] == "user" else p["distance"])
    if p["distance"] == "table":
        kw["table"] = t
    prob = b.SalesmanProblem(xdata=xy, weights=w, oneway=p["oneway"], scale=p["scale"], **kw)
    n = p["n"]
    mind = min(leg(p, xy, t, i, j) for i in range(n) for j in range(n) if i != j)
    scale = p["scale"] if p["scale"] is not None else (mind if mind >= 1e-10 else 1.0)
    nodes = list(range(n))
    hold = {}

    def point(x, tag, low=None):
        o = [int(v) for v in x.allpars]
        if sorted(o) != nodes or len(x.allpars) != n:
            ctx.fail_now(tag + ".order", "%s: %s is not a permutation of %d nodes" % (tag, list(x.allpars), n))
        c = cost(p, xy, w, t, o, scale)
        if abs(c - x.logL) > 1e-6 * (1 + abs(c)):
            ctx.fail_now(tag + ".cost", "%s: stored cost %r, minus the summed distance of %s is %r" % (tag, float(x.logL), o, c))
        if low is not None and not x.logL >= low:
            ctx.fail_now(tag + ".below", "%s: cost %r below the threshold %r" % (tag, float(x.logL), float(low)))
        ctx.count("points")

    def key(x):
        return (float(x.logL), tuple(int(v) for v in x.allpars))

    def see(eng, kw, low, it):
        wl = eng.walkers
        if len(wl) != p["ensemble"]:
            ctx.fail_now("size", "%d live solutions, not %d" % (len(wl), p["ensemble"]))
        for x in wl:
            # the ones being explored just now by another thread are looked at as well
            point(x, "live", low if low > -1e300 else None)
    spy = nsw.make_spy(ctx, see)(None, None)
    eng = (list(p["engines"]) if p["engines"] else prob.myEngines()) + [spy]
    ns = b.NestedSolver(prob, ensemble=p["ensemble"], discard=p["discard"], seed=p["seed"], rate=p["rate"], engines=eng, verbose=0, threads=p.get("threads", False))
    ns.minimumIterations, ns.maxIterations = p["miniter"], p["maxiter"]
    N, D = p["ensemble"], p["discard"]
    best = [-math.inf]

    def after():
        """end of an iteration"""
        it = "iteration %d: " % int(ns.iteration)
        live = [key(x) for x in ns.walkers]
        if len(live) != N:
            ctx.fail("size", it + "%d live solutions, not %d" % (len(live), N))
        low = float(ns.lowLhood)
        for x in ns.walkers:
            point(x, "kept", low)
        smp = list(ns.samples)
        new = smp[hold.get("n", 0):]
        if len(new) != D:
            ctx.fail("discards", it + "%d solutions discarded, not %d" % (len(new), D))
        if "live" in hold:
            old = sorted(hold["live"])
            if sorted(float(s.logL) for s in new) != [k[0] for k in old[:D]]:
                ctx.fail("lowest", it + "discarded %s, the worst are %s" % (sorted(float(s.logL) for s in new), [k[0] for k in old[:D]]))
            stay = list(live)
            gone = [key(s) for s in new]
            for k in old:
                if k in stay:
                    stay.remove(k)
                elif k in gone:
                    gone.remove(k)
                else:
                    ctx.fail("lost", it + "solution %s with cost %r vanished without being discarded (threshold %r)" % (k[1], k[0], low))
        if max(k[0] for k in live) < best[0]:
            ctx.fail("best.lost", it + "best live solution %r, once it was %r" % (max(k[0] for k in live), best[0]))
        best[0] = max(k[0] for k in live)
        hold["live"], hold["n"] = live, len(smp)
    ns.restart = nsw.Probe(after)
    ctx.state(p["engines"], p["distance"], n, p["oneway"], p["weights"], N, D)
    for e in p["engines"] or ["default"]:
        ctx.count("engine " + e)

    def go():
        if p.get("sched"):
            with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
                ctx.sched = s
                r = ns.solve()
            ctx.fault("thread switches", s.switches)
            if s.live_threads():
                ctx.fail("threads.left", "threads left running")
            return r
        return ns.solve()
    if p.get("fail"):
        box["armed"], box["n"] = True, 0
        try:
            go()
        except BaseException as e:
            c = e
            while c is not None and not isinstance(c, Broken):
                c = c.__cause__ or c.__context__
            if c is None:
                raise
            ctx.fault("distance of the user fails")
        else:
            if box["fired"]:
                ctx.fail("swallowed", "the distance function of the user raised, but solve returned a solution")
        box["armed"] = False
        hold.clear()
        best[0] = -math.inf
    for rep in range(2 if p["again"] else 1):
        hold.clear()
        best[0] = -math.inf
        got = go()
        smp = list(ns.samples)
        for s in smp:
            point(s, "sample")
        for x in ns.walkers:
            point(x, "final")
        I = int(ns.iteration)
        ctx.check(len(smp) == I * D + N, "count", lambda: "%d samples after %d iterations of %d discards with %d live solutions" % (len(smp), I, D, N))
        L = [float(s.logL) for s in smp]
        for i in range(1, len(L)):
            if L[i] < L[i - 1]:
                ctx.fail("samples.order", "recorded cost falls at sample %d: %r after %r" % (i, L[i], L[i - 1]))
        point(got, "returned")
        top = max(max(L), best[0])
        if float(got.logL) < top:
            ctx.fail("returned.best", "solution returned has cost %r, but %r was found" % (float(got.logL), top))
        ctx.check(sorted(key(x) for x in ns.walkers) == sorted(key(s) for s in smp[-N:]), "final", "the last %d samples are not the final live solutions" % N)
        for s in smp:
            ctx.ev(key(s))
        ctx.count("iterations", I)
        ctx.count("evaluations", int(ns.distribution.ncalls))
    ctx.count("draws", ctx.rng.draws)
    ctx.fault("extreme draws", ctx.rng.bugs)
    same = np.array_equal(xy, keepxy[0]) and np.array_equal(t, keepxy[2]) and (w is None or np.array_equal(w, keepxy[1]))
    ctx.check(same, "input", "nodes, weights or table of the user were changed")
