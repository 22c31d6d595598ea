"""Histories of knot (and tree) variations, directly, by the structure engine, and in whole sampler runs."""
import random
import numpy as np
from .. import dynw, core, nsw, nsprop, rngseam, sched
from ..dynw import Rng, Endless
from .p19 import Singular

RUNS = dict(quick=700, thorough=24000)
RULE = "one evaluation is one history of variations, insertions and removals on one model, or one sampler run over a modifiable model; distinct by the digest of the knots on the way"
REAL = "SplinesDynamicModel, BasicSplinesModel, DecisionTreeModel, their chains, StructureEngine, BirthEngine, DeathEngine, in part whole NestedSampler runs with and without threads"
STUBS = "the random generator handed to models and engines is counted, and in part hands out lattice or edge values; numpy.linalg.solve fails at a seeded call; in sampler runs an extra engine that only observes"
ASSUMPTIONS = ["one modifiable model per chain (the engines change the first one they find)", "decision trees stand alone"]
STATES = "distinct (kind of model, position, operation, outcome, number of components) met, hashed"
LISTS = ("ops",)


def gen(rng, i, tier):
    k = "Tree" if i % 5 == 4 else "Spl"
    w = dict(dyn=k, pseed=rng.randrange(1 << 30))
    samp = i % 8 == 7
    if k == "Spl":
        w["min"] = rng.choice((2, 2, 3))
        w["n"] = w["min"] + rng.randint(0, 5)
        w["max"] = rng.choice((None, w["n"], w["n"] + rng.randint(0, 3)))
        w["dynamic"] = rng.random() < 0.7
        w["limits"] = rng.choice(([-2.0, 2.0], [-2.0, 2.0], [0.5, 1.0]))
        w["order"] = rng.choice((1, 2, 3))
        kn = sorted(rng.sample(range(1, 19), w["n"] - 2))
        w["knots"] = [0.0] + [round(v * 0.1 + rng.choice((0, 0, 0.03)), 2) for v in kn] + [2.0]
        w["mindist"] = rng.choice((0.01, 0.01, 0.1, 0.3, 0.5, 0.9))
        if rng.random() < 0.5:
            w["before"] = [rng.choice(sorted(dynw.STATIC)) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.5:
            w["after"] = [rng.choice(sorted(dynw.STATIC)) for _ in range(rng.randint(1, 2))]
    else:
        w.update(depth=rng.randint(1, 3), tseed=rng.randrange(1000), itypes=rng.choice(([0], [0, 3], [0, 3], [3], [1, 3])))
    p = dict(seed=rng.randrange(1 << 30), w=w, rng=rng.choice(("plain", "plain", "lattice", "edge")))
    if samp:
        p["level"] = "sampler"
        p.update(ensemble=rng.randint(4, 9), maxiter=rng.choice((15, 25, 40)), discard=rng.choice((1, 1, 2, 3)), sseed=rng.randrange(1, 1 << 30),
                 buggify=rng.choice((0.0, 0.02, 0.1)), free=rng.random() < 0.4)
        if rng.random() < 0.3:
            p["sched"] = nsprop.gen_sched(rng)
            p["maxiter"] = 10
            p["discard"] = min(3, p["ensemble"] - 2)
    else:
        p["level"] = "model"
        ops = ["vary", "vary", "varyat", "varyat", "grow", "shrink", "pars", "copy", "walker", "struct"] + (["alt"] if k == "Spl" else [])
        p["ops"] = [[rng.choice(ops), rng.randrange(1 << 30)] for _ in range(rng.randint(8, 40))]
        if k == "Spl" and rng.random() < 0.5:
            p["singular"] = sorted(rng.sample(range(len(p["ops"])), 3))
    return p


def shrink(p):
    w = p["w"]
    for k in ("before", "after"):
        if w.get(k):
            yield dict(p, w={a: c for a, c in w.items() if a != k})
    if p["rng"] != "plain":
        yield dict(p, rng="plain")
    for k in ("singular", "sched", "free"):
        if p.get(k):
            yield {a: c for a, c in p.items() if a != k}
    if p["level"] == "sampler":
        if p["maxiter"] > 3:
            yield dict(p, maxiter=p["maxiter"] // 2)
        if p["ensemble"] > 4:
            yield dict(p, ensemble=4, discard=1)
        if p["discard"] > 1:
            yield dict(p, discard=1)
        if p["buggify"]:
            yield dict(p, buggify=0.0)


def valid(ctx, w, m, why, mind):
    if w["dyn"] == "Spl":
        dynw.knotsvalid(ctx, w, m, why, w["knots"], mind)
    else:
        dynw.treevalid(ctx, w, m, why)


class Kept:
    """something made from the model earlier; it must stay as it was"""
    def __init__(self, w, what, obj, model, pars):
        self.w, self.what, self.obj, self.model, self.pars = w, what, obj, model, pars
        self.was = self.look()

    def look(self):
        h = self.model(self.obj)
        q = np.array(self.pars(self.obj), dtype=float)
        d = dict(pars=q.tolist(), parts=[(type(m).__name__, dynw.structure(m)) for m in dynw.parts(h)])
        d["npchain"] = int(h.npchain)
        d["result"] = np.array(h.result(dynw.xof(self.w), q[:h.npchain]), dtype=float).tolist()
        if hasattr(self.obj, "logL"):
            d["logL"] = float(self.obj.logL)
            d["fitIndex"] = list(self.obj.fitIndex)
        return d


def run(p, ctx):
    b = dynw.B()
    w = p["w"]
    head = dynw.world(b, w)
    if p["level"] == "sampler":
        return sampler(p, ctx, b, w, head)
    rng = Rng(p["seed"], p["rng"])
    r = random.Random(p["seed"])
    ctx.fault("generator " + p["rng"])
    x = dynw.xof(w)
    y = np.array([r.gauss(0, 1) for _ in range(len(x))])
    ed = b.GaussErrorDistribution(scale=0.8)
    m, ip = dynw.dynof(w, head)
    mind = getattr(m, "minDistance", None)
    if w["dyn"] == "Spl":     # also by the constructor: the list given is not used as knots
        mine = dynw.knots0(w)
        keep = mine.copy()
        given = dynw.dynamic(b, w, knots=mine)
        user = b.SplinesDynamicModel(knots=mine, order=w["order"], minDistance=w["mindist"])
        user.parameters = np.zeros(user.npchain)
        del given
    kept = []
    for n, (op, seed) in enumerate(p["ops"]):
        m, ip = dynw.dynof(w, head)
        off = dynw.offset(head, m)
        why = "operation %d, %s" % (n, op)
        f0 = dynw.finger(w, head)
        p0, n0, nc0 = np.array(head.parameters), int(m.npbase), int(m.ncomp)
        rng.n = 0
        q = random.Random(seed)
        if op == "pars":
            z = np.zeros(len(p0))
            for k in range(len(z)):
                z[k] = head.getPrior(k).unit2Domain(q.uniform(0.02, 0.98))
            head.parameters = z
            continue
        if op in ("copy", "walker"):
            kept += make(b, w, op, head, x, y, ed, q)
            kept = kept[-6:]
            if op == "copy" and q.random() < 0.3:
                head = head.copy()
            continue
        old = np.array(m.knots) if w["dyn"] == "Spl" else None
        ok = None
        fault = n in p.get("singular", ())
        loc = None
        try:
            if fault:
                ctx.fault("singular matrix in the splines basis")
            with Singular(seed % 9) if fault else Nothing():
                if op == "struct":
                    head, ok = structure(ctx, b, w, head, x, y, ed, rng, q, why)
                elif op == "vary":
                    ok = m.vary(rng=rng)
                elif op == "varyat":
                    if w["dyn"] == "Spl":
                        loc = q.randrange(len(m.knots))
                        ok = m.vary(location=loc, rng=rng)
                    else:
                        loc = q.randrange(max(1, nc0))
                        kd = q.randrange(2)
                        ok = m.vary(location=loc, kdim=kd, split=q.choice((0.2, 0.5, 0.7, 0.9)))
                elif op == "alt":
                    if not m.isDynamic():
                        continue
                    ok = m.varyAlt(offset=off, rng=rng)
                else:
                    if not m.isDynamic():
                        continue
                    ok = getattr(m, op)(offset=off, rng=rng)
        except Endless:
            ctx.fail("endless:%s:%s" % (op, w["dyn"]), "%s: still busy after %d random draws; %s" % (why, rng.LIMIT, f0["parts"][ip]))
        except np.linalg.LinAlgError:
            if not fault:
                raise
            ok = False
        m, ip = dynw.dynof(w, head)
        ctx.state(w["dyn"], bool(w.get("before")), bool(w.get("after")), op, bool(ok), int(m.ncomp))
        ctx.count(op + (" done" if ok else " refused"))
        if op in ("vary", "varyat") and not fault:
            edge = w["dyn"] == "Spl" and (nc0 <= 2 or loc in (0, nc0 - 1))
            if edge or nc0 < 1:
                ctx.check(not ok, "edge:" + w["dyn"], lambda: "%s at %s of %d: the end points must stay" % (why, loc, nc0))
        if not ok:
            d = dynw.differ(f0, dynw.finger(w, head))
            ctx.check(d is None, "refused:%s:%s" % (op, w["dyn"]), "%s was refused, but %s" % (why, d))
        elif op in ("vary", "varyat", "struct"):
            p1 = np.array(head.parameters)
            ctx.check(np.array_equal(p0, p1) or (op == "struct" and np.array_equal(np.abs(p0), np.abs(p1))), "vary:" + w["dyn"], lambda: "%s: the parameters were %s, are %s" % (why, p0, p1))
            ctx.check(m.ncomp == nc0 and m.npbase == n0, "size:" + w["dyn"], lambda: "%s: %d components with %d parameters became %d with %d" % (why, nc0, n0, m.ncomp, m.npbase))
            if old is not None and op != "struct":
                ch = [k for k in range(nc0) if old[k] != m.knots[k]]
                ctx.check(len(ch) <= 1 and (loc is None or ch in ([], [loc])), "which:" + w["dyn"], lambda: "%s at %s: knots %s became %s" % (why, loc, old, m.knots))
        elif op == "alt":
            ctx.check(m.ncomp == nc0, "size:" + w["dyn"], lambda: "%s: %d components became %d" % (why, nc0, m.ncomp))
        valid(ctx, w, m, why, mind)
        v = dynw.consistent(ctx, b, w, head, why)
        for q in kept:
            d = dynw.differ(q.was, q.look())
            ctx.check(d is None, "%s:%s:%s" % (q.what, op, w["dyn"]), "%s: in a %s made before: %s" % (why, q.what, d))
        if w["dyn"] == "Spl":
            user.vary(rng=np.random.RandomState(seed % 1000))
            if ok and user.ncomp > 2:
                user.grow(rng=np.random.RandomState(seed % 1000)) and user.shrink(rng=np.random.RandomState(seed % 77))
            ctx.check(np.array_equal(mine, keep), "mine", lambda: "the array of knots given by the user was %s, is %s" % (keep, mine))
        ctx.ev(op, bool(ok), v.round(9).tolist())
    ctx.count("histories")


class Nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def problem(b, head, x, y):
    return b.ClassicProblem(head, xdata=x, ydata=y)


def make(b, w, op, head, x, y, ed, r):
    """a copy, walker or sample made from the model: what the library keeps as such"""
    if op == "copy":
        return [Kept(w, "copy", head.copy(), lambda o: o, lambda o: o.parameters)]
    prob = problem(b, head, x, y)
    pars = np.array(head.parameters, dtype=float)
    wl = b.WalkerList(walkerlist=[])
    wk = b.Walker(7, prob, np.append(pars, [0.8]), np.arange(len(pars)))
    wk.logL = ed.logLikelihood(prob, wk.allpars)
    wl.setWalker(wk, 0)
    return [Kept(w, "walker", wl[0].copy(), lambda o: o.problem.model, lambda o: o.allpars)]


def structure(ctx, b, w, head, x, y, ed, rng, r, why):
    """the structure engine on a walker made from (a copy of) the model; its other walkers and samples stay"""
    prob = problem(b, head.copy(), x, y)
    pars = np.array(head.parameters, dtype=float)
    wl = b.WalkerList(walkerlist=[])
    for k in range(3):
        wk = b.Walker(k, prob.copy(), np.append(pars, [0.8]), np.arange(len(pars)))
        wk.logL = ed.logLikelihood(wk.problem, wk.allpars)
        wl.setWalker(wk, k)
    smp = Kept(w, "sample", wl[1].toSample(0.0), lambda o: o.model, lambda o: o.allpars)
    others = [Kept(w, "walker", wl[k], lambda o: o.problem.model, lambda o: o.allpars) for k in (0, 2)]
    e = b.StructureEngine(wl, ed, phantoms=b.PhantomCollection(dynamic=True))
    e.rng = rng
    low = wl[1].logL - r.choice((0.0, 0.1, 1.0, 1e300))
    was = Kept(w, "walker", wl[1], lambda o: o.problem.model, lambda o: o.allpars).was
    app = r.random() < 0.3
    t = e.execute(1, low, append=app)
    new = wl[-1] if app and t else wl[1]
    for q in others + [smp]:
        d = dynw.differ(q.was, q.look())
        ctx.check(d is None, "%s:struct:%s" % (q.what, w["dyn"]), "%s: in an untouched %s %s" % (why, q.what, d))
    if not t or app:
        d = dynw.differ(was, Kept(w, "walker", wl[1], lambda o: o.problem.model, lambda o: o.allpars).was)
        ctx.check(d is None, "refused:struct:" + w["dyn"], "%s: %d moves, appended %s: the walker changed: %s" % (why, t, app, d))
    if not t:
        return head, False
    if t:
        ctx.check(new.logL >= low, "low:struct", lambda: "%s: walker at %s, below %s" % (why, new.logL, low))
        ref = ed.logLikelihood(new.problem.copy(), new.allpars.copy())
        ctx.check(abs(ref - new.logL) <= 1e-9 * (1 + abs(ref)), "logl:struct", lambda: "%s: the walker says %s, its likelihood is %s" % (why, new.logL, ref))
    h = new.problem.model.copy()
    h.parameters = new.allpars[:h.npchain].copy()
    return h, bool(t)


# ------------------------------------------------------------------------------------------------ whole runs
def sampler(p, ctx, b, w, head):
    x = dynw.xof(w)
    r = random.Random(p["seed"])
    y = np.array([r.gauss(0, 1) for _ in range(len(x))])
    ctx.rng = rngseam.install(p.get("bseed", 0), p.get("buggify", 0.0))
    m0, _ = dynw.dynof(w, head)
    mind = getattr(m0, "minDistance", None)
    seen = {}
    hold = {}

    def look(obj, model, why):
        """valid, and as it was when it was first seen"""
        m, _ = dynw.dynof(w, model)
        valid(ctx, w, m, why, mind)

    def see(eng, kw, low, it):
        ns = hold["ns"]
        if hold.get("it") == it:
            return
        hold["it"] = it
        for s in ns.samples:
            if id(s) not in seen:
                seen[id(s)] = Kept(w, "sample", s, lambda o: o.model, lambda o: o.allpars)
                look(s, s.model, "iteration %d: sample %d" % (it, s.id))
        if p.get("sched"):
            return
        for k, wk in enumerate(eng.walkers):
            why = "iteration %d: walker %d" % (it, k)
            look(wk, wk.problem.model, why)
            h = wk.problem.model.copy()
            h.parameters = wk.allpars[:h.npchain].copy()
            dynw.consistent(ctx, b, w, h, why)
            ctx.count("walkers seen")

    spy = nsw.make_spy(ctx, see)(None, None)
    eng = ["galilean", "chord"]
    if head.isDynamic():
        eng += ["birth", "death"]
    eng += ["struct"]
    kw = dict(ensemble=p["ensemble"], discard=p["discard"], seed=p["sseed"], verbose=0, engines=eng + [spy], threads=bool(p.get("sched")))
    if p["free"]:
        kw["limits"] = [0.1, 10.0]
    ns = hold["ns"] = b.NestedSampler(x, head, y, **kw)
    ns.minimumIterations = ns.maxIterations = p["maxiter"]
    f0 = dynw.finger(w, head)
    if p.get("sched"):
        def dead(msg):
            ctx.fail_now("stuck", msg)
        with sched.Scheduler(p["sched"], on_deadlock=dead) as s:
            ctx.sched = s
            ns.sample()
        ctx.fault("thread switches", s.switches)
    else:
        ns.sample()
    ctx.fault("extreme draws", ctx.rng.bugs)
    for q in seen.values():
        d = dynw.differ(q.was, q.look())
        ctx.check(d is None, "sample:run:" + w["dyn"], "a sample changed after it was recorded: %s" % d)
    moved = 0
    for s in ns.samples:
        look(s, s.model, "at the end: sample %d" % s.id)
        h = s.model.copy()
        h.parameters = np.array(s.allpars[:h.npchain])
        dynw.consistent(ctx, b, w, h, "at the end: sample %d" % s.id)
        m, _ = dynw.dynof(w, s.model)
        moved += w["dyn"] == "Spl" and (len(m.knots) != len(w["knots"]) or not np.array_equal(m.knots, w["knots"]))
        ctx.state("run", w["dyn"], bool(w.get("before")), bool(w.get("after")), int(m.ncomp), bool(p.get("sched")))
        ctx.ev(round(float(s.logL), 6))
    ctx.count("samples with moved knots", int(moved))
    ctx.count("samples", len(ns.samples))
    ctx.count("sampler runs")
