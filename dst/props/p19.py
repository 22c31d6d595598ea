"""Histories of births and deaths, directly and by the engines, on dynamic models at any place in a chain."""
import random
import numpy as np
from .. import dynw
from ..dynw import Rng, Endless

RUNS = dict(quick=1500, thorough=40000)
RULE = "one evaluation is one history of births and deaths of one model; distinct by the digest of all models on the way"
REAL = "the dynamic models, their chain, priors, BirthEngine, DeathEngine, StructureEngine, walkers, ClassicProblem, GaussErrorDistribution"
STUBS = "the random generator handed to models and engines is counted, and in part hands out lattice or edge values"
ASSUMPTIONS = ["one dynamic model per chain (the engines change the first one they find)", "decision trees stand alone"]
STATES = "distinct (kind of model, position, operation, outcome, number of components) met, hashed"
LISTS = ("ops",)


def gen(rng, i, tier):
    k = ("Poly", "Harm", "Spl", "Rep", "Tree", "Spl", "Rep")[i % 7]
    w = dict(dyn=k, pseed=rng.randrange(1 << 30))
    mn = rng.choice((1, 1, 2)) if k in ("Harm", "Poly") else 2 if k == "Spl" else rng.choice((0, 1, 2)) if k == "Rep" else None
    w["min"] = mn
    if k != "Tree":
        w["n"] = (mn or 0) + rng.randint(0, 3) + (2 if k == "Spl" else 0)
        w["max"] = rng.choice((None, w["n"] + rng.randint(0, 4)))
        if k == "Rep" and w["n"] == 0:
            w["n"], w["min"] = 1, 0
            w["max"] = None if w["max"] is None else w["max"] + 1
    if k in ("Poly", "Harm", "Spl"):
        w["limits"] = rng.choice(([-2.0, 2.0], [-2.0, 2.0], [0.5, 1.0]))
    if k == "Spl":
        w["order"] = rng.choice((1, 2, 3))
        w["border"] = 0
        kn = sorted(rng.sample(range(1, 19), w["n"] - 2))
        w["knots"] = [0.0] + [round(v * 0.1 + rng.choice((0, 0, 0.03)), 2) for v in kn] + [2.0]
        w["mindist"] = rng.choice((0.01, 0.01, 0.2, 0.5, 1.0))
    if k == "Rep":
        w["inner"] = rng.choice(("Gauss", "Sine", "Power"))
        if w["inner"] != "Power":
            w["same"] = rng.choice((None, None, [1], [2], [0], [1, 2]))
    if k == "Tree":
        w.update(depth=rng.randint(0, 2), tseed=rng.randrange(1000), itypes=rng.choice(([0], [0, 3], [0, 3], [3], [1, 3])))
    else:
        if rng.random() < 0.5:
            w["before"] = [rng.choice(sorted(dynw.STATIC)) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.5:
            w["after"] = [rng.choice(sorted(dynw.STATIC)) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.15:
            w["static"] = True
    p = dict(seed=rng.randrange(1 << 30), w=w, rng=rng.choice(("plain", "plain", "plain", "lattice", "edge")), level=rng.choice(("model", "model", "engine")))
    if p["level"] == "engine":
        p["keep"] = rng.random() < 0.3
        p["free"] = rng.random() < 0.5
        p["nw"] = rng.randint(2, 4)
        p["ops"] = [[rng.choice(("birth", "birth", "death", "struct")), rng.randrange(4), rng.random(), int(rng.random() < 0.2)] for _ in range(rng.randint(6, 24))]
    else:
        ops = ["grow", "grow", "shrink", "pars", "vary", "copy"]
        p["ops"] = [[rng.choice(ops), rng.randrange(1 << 30)] for _ in range(rng.randint(6, 30))]
        if k == "Spl" and rng.random() < 0.4:
            p["singular"] = sorted(rng.sample(range(len(p["ops"])), 2))
    return p


def shrink(p):
    w = p["w"]
    for k in ("before", "after", "static", "same"):
        if w.get(k):
            yield dict(p, w={a: c for a, c in w.items() if a != k})
    if p["rng"] != "plain":
        yield dict(p, rng="plain")
    for k in ("keep", "singular"):
        if p.get(k):
            yield {a: c for a, c in p.items() if a != k}


class Singular:
    """seam: the solver finds the matrix singular, the n-th time it is called"""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.f = np.linalg.solve

        def solve(a, c):
            self.n -= 1
            if self.n < 0:
                raise np.linalg.LinAlgError("Singular matrix")
            return self.f(a, c)
        np.linalg.solve = solve

    def __exit__(self, *a):
        np.linalg.solve = self.f


def survivors(ctx, w, op, off, old, new, n0, n1, lv0, lv1):
    """components that were not touched keep the values of their parameters, all other models too"""
    k = w["dyn"]
    tag = op + ":" + k
    if k == "Tree":
        for n, v in lv0:
            for m, u in lv1:
                if n is m:
                    ctx.check(u == v, "survivor:" + tag, lambda: "%s: a leaf that stayed had parameter %s and now has %s; the parameters were %s, are %s" % (op, v, u, old.tolist(), new.tolist()))
        return
    ctx.check(np.array_equal(old[:off], new[:off]), "others:" + tag, lambda: "%s: parameters of earlier models were %s, are %s" % (op, old[:off], new[:off]))
    ctx.check(np.array_equal(old[off + n0:], new[off + n1:]), "others:" + tag, lambda: "%s: parameters of later models were %s, are %s" % (op, old[off + n0:], new[off + n1:]))
    a, c = old[off:off + n0], new[off:off + n1]
    if k != "Spl":
        m = min(n0, n1)
        ctx.check(np.array_equal(a[:m], c[:m]), "survivor:" + tag, lambda: "%s: parameters were %s, are %s" % (op, a, c))
        return
    i = 0
    while i < min(n0, n1) and a[i] == c[i]:
        i += 1
    j = 0
    while j < min(n0, n1) - i and a[-1 - j] == c[-1 - j]:
        j += 1
    ctx.check(i + j >= min(n0, n1) - 1, "survivor:" + tag, lambda: "%s: at most one of the parameters that stayed may have changed: %s, %s" % (op, a, c))


def run(p, ctx):
    b = dynw.B()
    w = p["w"]
    head = dynw.world(b, w)
    if p["level"] == "engine":
        return engines(p, ctx, b, w, head)
    rng = Rng(p["seed"], p["rng"])
    ctx.fault("generator " + p["rng"])
    dynw.consistent(ctx, b, w, head, "at the start")
    old = []
    for n, (op, seed) in enumerate(p["ops"]):
        m, ip = dynw.dynof(w, head)
        off = dynw.offset(head, m)
        why = "operation %d, %s" % (n, op)
        f0 = dynw.finger(w, head)
        p0, n0, nc0 = np.array(head.parameters), int(m.npbase), int(m.ncomp)
        lv0 = list(zip(dynw.leaves(m), p0)) if w["dyn"] == "Tree" else None
        rng.n = 0
        if op == "pars":
            q = np.zeros(len(p0))
            for k in range(len(q)):
                q[k] = head.getPrior(k).unit2Domain(rng.r.uniform(0.02, 0.98))
            head.parameters = q
            continue
        if op == "copy":
            old.append((head, f0))
            head = head.copy()
            d = dynw.differ(f0, dynw.finger(w, head)) if w["dyn"] != "Tree" else None
            ctx.check(d is None, "copy:" + w["dyn"], "%s: %s" % (why, d))
            ctx.count("copies")
            continue
        if op == "vary" and not m.isModifiable():
            continue
        ok = None
        fault = n in p.get("singular", ())
        try:
            if fault:
                ctx.fault("singular matrix in the splines basis")
                with Singular(seed % 9):
                    ok = step(m, op, off, rng)
            else:
                ok = step(m, op, off, rng)
        except Endless:
            ctx.fail("endless:%s:%s" % (op, w["dyn"]), "%s: still busy after %d random draws; ncomp %d, %s" % (why, rng.LIMIT, nc0, f0["parts"][ip]))
        except np.linalg.LinAlgError:
            if not fault:
                raise
            ok = False
        ctx.state(w["dyn"], bool(w.get("before")), bool(w.get("after")), op, bool(ok), int(m.ncomp))
        ctx.count(op + (" done" if ok else " refused"))
        if not ok:
            d = dynw.differ(f0, dynw.finger(w, head))
            ctx.check(d is None, "refused:%s:%s" % (op, w["dyn"]), "%s was refused, but %s" % (why, d))
        else:
            p1, n1 = np.array(head.parameters), int(m.npbase)
            if op == "vary":
                ctx.check(np.array_equal(p0, p1), "vary:" + w["dyn"], lambda: "%s: the parameters were %s, are %s" % (why, p0, p1))
            else:
                dn = 1 if op == "grow" else -1
                if w["dyn"] == "Tree" and op == "shrink":
                    ctx.check(m.ncomp < nc0, "ncomp:shrink:Tree", lambda: "%s: it had %d branches and has %d" % (why, nc0, m.ncomp))
                else:
                    ctx.check(m.ncomp == nc0 + dn, "ncomp:%s:%s" % (op, w["dyn"]), lambda: "%s: there were %d components, now %d" % (why, nc0, m.ncomp))
                survivors(ctx, w, op, off, p0, p1, n0, n1, lv0, list(zip(dynw.leaves(m), p1)) if lv0 else None)
        v = dynw.consistent(ctx, b, w, head, why)
        if w["dyn"] == "Spl":
            dynw.knotsvalid(ctx, w, m, why, w["knots"], m.minDistance)
        elif w["dyn"] == "Tree":
            dynw.treevalid(ctx, w, m, why)
        for h, f in old:
            d = dynw.differ(f, dynw.finger(w, h))
            ctx.check(d is None, "other:%s:%s" % (op, w["dyn"]), "%s on a copy: in the original %s" % (why, d))
        ctx.ev(op, bool(ok), int(m.ncomp), p1.round(9).tolist() if ok else None, v.round(9).tolist())
    ctx.count("histories")


def step(m, op, off, rng):
    if op == "vary":
        return m.vary(rng=rng)
    return getattr(m, op)(offset=off, rng=rng)


def engines(p, ctx, b, w, head):
    """the same by the engines, on an ensemble of walkers"""
    x = dynw.xof(w)
    r = random.Random(p["seed"])
    y = np.array([r.gauss(0, 1) for _ in range(len(x))])
    if not head.isDynamic():
        return
    prob = b.ClassicProblem(head, xdata=x, ydata=y)
    ed = b.GaussErrorDistribution(scale=0.8, limits=[0.1, 10.0]) if p["free"] else b.GaussErrorDistribution(scale=0.8)
    nhyp = ed.nphypar
    n0 = int(head.npchain)
    m0, ip = dynw.dynof(w, head)
    off = dynw.offset(head, m0)
    keep = []
    if p.get("keep"):      # parameters of the static models that are kept
        nm = int(m0.npbase)
        keep = [k for k in range(n0) if not off <= k < off + nm and r.random() < 0.4]
    wl = b.WalkerList(walkerlist=[])
    for k in range(p["nw"]):
        pr = prob.copy()
        q = np.array([head.getPrior(j).unit2Domain(r.uniform(0.05, 0.95)) for j in range(n0)])
        for j in keep:
            q[j] = head.parameters[j]
        allp = np.append(q, [r.uniform(0.3, 2)] if nhyp else [])
        fi = np.array([j for j in range(n0) if j not in keep] + ([-1] if p["free"] else []), dtype=int)
        wk = b.Walker(k, pr, allp, fi)
        wk.logL = ed.logLikelihood(pr, allp)
        wl.setWalker(wk, k)
    ph = b.PhantomCollection(dynamic=True)
    rng = Rng(p["seed"], p["rng"])
    ctx.fault("generator " + p["rng"])
    es = {}
    for name, c in (("birth", b.BirthEngine), ("death", b.DeathEngine), ("struct", b.StructureEngine)):
        e = c(wl, ed, phantoms=ph)
        e.rng = rng
        es[name] = e
    for n, (op, kw, u, app) in enumerate(p["ops"]):
        kw %= len(wl)
        if op == "struct" and not dynw.dynof(w, wl[kw].problem.model)[0].isModifiable():
            continue
        low = wl[kw].logL - 4 * u if u < 0.6 else wl[kw].logL + u - 0.6 if u > 0.9 else -np.inf
        why = "%s %d on walker %d" % (op, n, kw)
        f0 = [wfinger(w, q) for q in wl]
        m0 = dynw.dynof(w, wl[kw].problem.model)[0]
        nc0, np0 = int(m0.ncomp), int(m0.npbase)
        rng.n = 0
        try:
            t = es[op].execute(kw, low, append=bool(app))
        except Endless:
            ctx.fail("endless:%s:%s" % (op, w["dyn"]), "%s: still busy after %d random draws; %s" % (why, rng.LIMIT, dynw.structure(m0)))
        up = len(wl) - 1 if app and t else kw
        ctx.count(op + (" done" if t else " refused"))
        ctx.state("engine", w["dyn"], op, bool(t), nc0, bool(app), bool(keep))
        ctx.check(len(wl) == len(f0) + ((t if op == 'struct' else 1) if app and t else 0), "count:%s" % op, lambda: "%s returned %s: there were %d walkers, now %d" % (why, t, len(f0), len(wl)))
        for k, f in enumerate(f0):
            if k != up or not t:
                d = dynw.differ(f, wfinger(w, wl[k]))
                ctx.check(d is None, "%s:%s:%s" % ("refused" if k == kw and not t else "otherwalker", op, w["dyn"]), "%s returned %s: in walker %d %s" % (why, t, k, d))
        if t:
            q = wl[up]
            m1, _ = dynw.dynof(w, q.problem.model)
            dn = dict(birth=1, death=-1, struct=0)[op]
            ctx.check(m1.ncomp == nc0 + dn or (w["dyn"] == "Tree" and op == "death" and m1.ncomp < nc0), "ncomp:%s:%s" % (op, w["dyn"]),
                      lambda: "%s: it had %d components, now %d" % (why, nc0, m1.ncomp))
            nn = sum(z.npbase for z in dynw.parts(q.problem.model))
            ctx.check(len(q.allpars) == nn + nhyp, "allpars:%s:%s" % (op, w["dyn"]), lambda: "%s: %d parameters and %d hyperparameters in a list of %d" % (why, nn, nhyp, len(q.allpars)))
            d = int(m1.npbase) - np0
            kp = [j if j < off else j + int(m1.npbase) - np00(w, p) for j in keep]
            want = [j for j in range(nn) if j not in kp] + ([-1] if p["free"] else [])
            ctx.check(list(q.fitIndex) == want, "fitindex:%s:%s" % (op, w["dyn"]), lambda: "%s: fitIndex is %s, expected %s (kept: %s)" % (why, list(q.fitIndex), want, kp))
            for j, j0 in zip(kp, keep):
                ctx.check(abs(q.allpars[j]) == abs(head.parameters[j0]), "kept:%s:%s" % (op, w["dyn"]), lambda: "%s: kept parameter %d was %s, is %s" % (why, j, head.parameters[j0], q.allpars[j]))
            keeps(ctx, w, op, off, np0, int(m1.npbase), np.abs(f0[kw]["allpars"]), np.abs(q.allpars), why)
            if nhyp:
                ctx.check(q.allpars[-1] == f0[kw]["allpars"][-1], "hypar:" + op, lambda: "%s: the scale was %s, is %s" % (why, f0[kw]["allpars"][-1], q.allpars[-1]))
            ref = ed.logLikelihood(q.problem.copy(), q.allpars.copy())
            ctx.check(abs(ref - q.logL) <= 1e-9 * (1 + abs(ref)), "logl:%s:%s" % (op, w["dyn"]), lambda: "%s: the walker says %s, its likelihood is %s" % (why, q.logL, ref))
            ctx.check(q.logL >= low, "low:" + op, lambda: "%s: %s below the threshold %s" % (why, q.logL, low))
            h = q.problem.model.copy()
            h.parameters = q.allpars[:nn].copy()
            dynw.consistent(ctx, b, w, h, why)
        ctx.ev(op, int(t), low, wl[up].allpars.round(9).tolist() if t else None)
    ctx.count("histories")


def keeps(ctx, w, op, off, n0, n1, old, new, why):
    """what a walker keeps when its model changes; a death may take away any of a number of equal components"""
    tag = op + ":" + w["dyn"]
    ctx.check(np.array_equal(old[:off], new[:off]) and np.array_equal(old[off + n0:], new[off + n1:]), "others:" + tag,
              lambda: "%s: parameters of other models changed: %s became %s" % (why, old, new))
    a, c = old[off:off + n0], new[off:off + n1]
    if op == "birth" and w["dyn"] in ("Poly", "Harm", "Rep"):
        ctx.check(np.array_equal(a, c[:n0]), "survivor:" + tag, lambda: "%s: components were %s, are %s" % (why, a, c))
    elif op == "death" and w["dyn"] in ("Poly", "Harm"):
        ctx.check(np.array_equal(a[:n1], c), "survivor:" + tag, lambda: "%s: components were %s, are %s" % (why, a, c))
    elif op == "death" and w["dyn"] == "Rep" and n1 > 0:
        one = dict(Gauss=3, Sine=3, Power=1)[w["inner"]]
        same = list(w.get("same") or ())
        own = [j for j in range(one) if j not in same]
        def comps(z):
            return sorted([[float(z[j]) for j in own]] + [[float(v) for v in z[k:k + len(own)]] for k in range(one, len(z), len(own))] if own else [])
        was, now = comps(a), comps(c)
        ctx.check(all(a[j] == c[j] for j in same) and all(z in was for z in now), "survivor:" + tag, lambda: "%s: components were %s, are %s" % (why, was, now))


def np00(w, p):
    """number of parameters of the dynamic model at the start"""
    n = w["n"] if w["dyn"] != "Tree" else (1 << w["depth"]) - 1
    return dynw.counted(n, w)


def wfinger(w, q):
    h = q.problem.model
    return dict(allpars=q.allpars.tolist(), fitIndex=list(q.fitIndex), logL=q.logL, ids=[q.id, q.parent, q.start],
                parts=[(type(m).__name__, dynw.structure(m)) for m in dynw.parts(h)])
