"""Worlds of dynamic and modifiable models, alone or in a chain, and a reference of what births, deaths and variations must do to them."""
import math, random
import numpy as np

X = np.array([0.03, 0.2, 0.41, 0.77, 1.02, 1.3, 1.44, 1.71, 1.96])
XT = np.array([[1, 1], [3, 2], [5, 1], [8, 3], [11, 4], [12, 1], [15, 6], [18, 3], [19, 8], [22, 5], [27, 7]])      # axis 0 by value, axis 1 categories
LO, HI = -2.0, 2.05        # not symmetric: lattice and edge draws would give widths of exactly zero


def B():
    import BayesicFitting as b
    return b


class Endless(Exception):
    pass


class Rng:
    """the random generator as seam: counts draws, hands out plain or lattice values, the latter colliding with existing knots"""
    LIMIT = 60000

    def __init__(self, seed, mode="plain"):
        self.r = np.random.RandomState(seed)
        self.mode = mode
        self.n = 0

    def tick(self):
        self.n += 1
        if self.n > self.LIMIT:
            raise Endless()

    def rand(self, *a):
        self.tick()
        v = self.r.rand(*a)
        if self.mode == "lattice" and self.r.rand() < 0.7:
            v = np.floor(v * 16) / 16
            return float(v) if not a else v
        if self.mode == "edge" and self.r.rand() < 0.5:
            v = np.where(v < 0.5, v * 1e-9, 1 - (1 - v) * 1e-9)
            return float(v) if not a else v
        return v

    def __getattr__(self, name):
        f = getattr(self.r, name)
        if callable(f):
            def g(*a, **k):
                self.tick()
                return f(*a, **k)
            return g
        return f


STATIC = dict(Poly=lambda b: b.PolynomialModel(1), Gauss=lambda b: b.GaussModel(), Sine=lambda b: b.SineModel(), Exp=lambda b: b.ExpModel(),
              Fixed=lambda b: b.GaussModel(fixed={1: 0.6}))


def knots0(w):
    return np.array(w["knots"], dtype=float)


def inner(b, w):
    m = {"Gauss": b.GaussModel, "Sine": b.SineModel, "Power": lambda: b.PowerModel(exponent=1)}[w["inner"]]()
    m.setLimits([LO] * m.npchain, [HI] * m.npchain)
    return m


def dynamic(b, w, n=None, knots=None, bounds=True):
    """the dynamic part of the chain with n components, as the constructor makes it"""
    k = w["dyn"]
    n = w.get("n") if n is None else n
    mn, mx = w.get("min"), w.get("max")
    if k == "Poly":
        m = b.PolynomialDynamicModel(n - 1, **(dict(minDegree=mn - 1, maxDegree=None if mx is None else mx - 1) if bounds else {}))
    elif k == "Harm":
        m = b.HarmonicDynamicModel(n, period=1.7, **(dict(minOrder=mn, maxOrder=mx) if bounds else dict(minOrder=0)))
    elif k == "Spl":
        kn = knots0(w) if knots is None else np.array(knots)
        m = b.SplinesDynamicModel(knots=kn, order=w["order"], border=w.get("border", 0), minDistance=w["mindist"], modifiable=w.get("modifiable", True), dynamic=w.get("dynamic", True),
                                  **(dict(minKnots=mn, maxKnots=mx) if bounds else {}))
    elif k == "Rep":
        m = b.RepeatingModel(n, inner(b, w), same=w.get("same"), dynamic=w.get("dynamic", True), **(dict(minComp=mn, maxComp=mx) if bounds else {}))
    elif k == "Tree":
        return b.DecisionTreeModel(ndim=2, depth=w["depth"], kdim=[random.Random(w["tseed"] + i).randrange(2) for i in range(7)], itypes=list(w["itypes"]),
                                   split=[0.3, 0.6, 0.4, 0.55, 0.35, 0.7, 0.5][:max(1, (1 << w["depth"]) - 1)],
                                   dynamic=w.get("dynamic", True), modifiable=w.get("modifiable", True))
    if k != "Rep":
        lo, hi = w.get("limits", (LO, HI))
        m.setLimits([lo] * m.npchain, [hi] * m.npchain)
    return m


def chain(b, w, dyn):
    parts = []
    for s in w.get("before", ()):
        parts.append(STATIC[s](b))
        parts[-1].setLimits([LO] * parts[-1].npchain, [HI] * parts[-1].npchain)
    if w.get("static"):
        st = dict(dyn="Rep", n=2, inner="Gauss", min=0, max=None, dynamic=False)
        parts.append(dynamic(b, st))
    parts.append(dyn)
    for s in w.get("after", ()):
        parts.append(STATIC[s](b))
        parts[-1].setLimits([LO] * parts[-1].npchain, [HI] * parts[-1].npchain)
    head = parts[0]
    for p in parts[1:]:
        head.addModel(p)
    return head


def world(b, w):
    head = chain(b, w, dynamic(b, w))
    r = random.Random(w["pseed"])
    n = int(head.npchain)
    p = np.zeros(n)
    for i in range(n):
        pr = head.getPrior(i)
        p[i] = pr.unit2Domain(r.uniform(0.02, 0.98))
    head.parameters = p
    return head


def parts(head):
    m = head
    while m is not None:
        yield m
        m = m._next


def dynof(w, head):
    i = len(w.get("before", ())) + (1 if w.get("static") else 0)
    return list(parts(head))[i], i


def offset(head, m):
    o = 0
    for q in parts(head):
        if q is m:
            return o
        o += q.npbase


def xof(w):
    return XT if w["dyn"] == "Tree" else X


def treenodes(m):
    yield m
    for c in (m.left, m.rite):
        if c is not None:
            yield from treenodes(c)


def leaves(m):
    return [n for n in treenodes(m) if n.left is None]


def treeval(m, x, pars):
    """the tree evaluated from its structure by the documented rule"""
    res = np.zeros(len(x))
    ls = leaves(m)

    def go(n, q):
        if n.left is None:
            res[q] = pars[[i for i, l in enumerate(ls) if l is n][0]]
            return
        if len(q) == 0:
            return
        xd = x[q, n.dimension]
        if n.split is not None:
            mn, mx = xd.min(), xd.max()
            s = mn + (mx - mn) * n.split
            c = xd > s                     # upper part first, unless on the border
            if not n.split < 0.5:
                c = ~(xd <= s)
        elif n.mask >= 2:
            c = (xd.astype(int) & n.mask) != 0
        else:
            c = xd == n.mask
        go(n.left, q[c])
        go(n.rite, q[~c])
    go(m, np.arange(len(x)))
    return res


def names(m):
    return list(m.__dict__.get("parNames") or [])


def structure(m):
    d = {}
    for k in ("knots", "minDistance", "ncomp", "minComp", "maxComp", "degree", "order", "npbase", "npmax", "deltaNpar"):
        try:
            v = getattr(m, k)
        except Exception:
            continue
        d[k] = None if v is None else np.array(v, dtype=float).tolist()
    if hasattr(m, "left"):
        d["tree"] = [(n.left is None, n.dimension, n.split, n.mask) for n in treenodes(m)]
    return d


def finger(w, head, values=True):
    """all that can be observed"""
    d = dict(pars=np.array(head.parameters, dtype=float).tolist(), npchain=int(head.npchain), parts=[(type(m).__name__, structure(m), names(m)) for m in parts(head)])
    if values:
        d["result"] = np.array(head.result(xof(w), np.array(head.parameters)), dtype=float).tolist()
    return d


def differ(a, c):
    for k in a:
        if k not in c or repr(a[k]) != repr(c[k]):
            return "%s was %s, is %s" % (k, str(a[k])[:400], str(c.get(k))[:400])
    return None


def counted(ncomp, w):
    """the number of parameters of the dynamic part with ncomp components"""
    k = w["dyn"]
    if k == "Poly":
        return ncomp
    if k == "Harm":
        return 2 * ncomp
    if k == "Spl":
        return ncomp + (w["order"] - 1 if not w.get("border") else -1)
    if k == "Tree":
        return ncomp + 1
    np1 = dict(Gauss=3, Sine=3, Power=1)[w["inner"]]
    return 0 if ncomp == 0 else np1 + (ncomp - 1) * (np1 - len(w.get("same") or ()))


def consistent(ctx, b, w, head, why, inlimits=True):
    """the model is in itself consistent and evaluates as one constructed with the present number of components"""
    m, ip = dynof(w, head)
    nc = int(m.ncomp)
    tag = w["dyn"]
    mn, mx = w.get("min"), w.get("max")
    ctx.check(mn is None or nc >= mn, "bounds:" + tag, lambda: "%s: %d components, the minimum is %d" % (why, nc, mn))
    ctx.check(mx is None or nc <= mx, "bounds:" + tag, lambda: "%s: %d components, the maximum is %d" % (why, nc, mx))
    n = counted(nc, w)
    ctx.check(m.npbase == n, "npbase:" + tag, lambda: "%s: %d components need %d parameters, npbase is %d" % (why, nc, n, m.npbase))
    tot = sum(q.npbase for q in parts(head))
    ctx.check(head.npchain == tot, "npchain:" + tag, lambda: "%s: the parts have %d parameters, npchain is %d" % (why, tot, head.npchain))
    dy = w.get("dynamic", True) and not (tag == "Rep" and mx is not None and mn >= mx)
    ctx.check(bool(head.isDynamic()) == bool(dy), "isdynamic:" + tag, lambda: "%s: the chain says isDynamic %s" % (why, head.isDynamic()))
    mo = tag in ("Spl", "Tree") and w.get("modifiable", True)
    ctx.check(bool(head.isModifiable()) == bool(mo), "ismodifiable:" + tag, lambda: "%s: the chain says isModifiable %s" % (why, head.isModifiable()))
    pars = np.array(head.parameters, dtype=float)
    ctx.check(len(pars) == tot, "parlength:" + tag, lambda: "%s: %d parameters in the list, the parts have %d" % (why, len(pars), tot))
    ctx.check(np.all(np.isfinite(pars)), "finite:" + tag, lambda: "%s: parameters %s" % (why, pars))
    for q in parts(head):
        if q is m:
            nm = [q.getParameterName(k) for k in range(q.npbase)]
            ctx.check(len(names(q)) == 0 or len(names(q)) >= q.npbase, "names:" + tag, lambda: "%s: %d names for %d parameters" % (why, len(names(q)), q.npbase))
            ctx.check(len(set(nm)) == len(nm), "names:" + tag, lambda: "%s: the parameter names are not distinct: %s" % (why, nm))
    if inlimits:
        for k in range(tot):
            pr = head.getPrior(k)
            ctx.check(not pr.isOutOfLimits(pars[k]), "limits:" + tag, lambda: "%s: parameter %d is %s outside the limits of %s" % (why, k, pars[k], pr))
    x = xof(w)
    val = np.array(head.result(x, pars), dtype=float)
    if w["dyn"] == "Tree":
        ref = treeval(m, x, pars[offset(head, m):])
        ctx.check(not w.get("before") and not w.get("after") and (len(val) == len(ref) or m.ncomp == 0), "harness", "trees are on their own")
        ctx.check(np.allclose(val * np.ones(len(x)), ref, rtol=1e-12, atol=1e-12), "result:Tree", lambda: "%s: the tree evaluates as %s, its structure says %s" % (why, val, ref))
        part = np.array(head.partial(x, pars), dtype=float)
        ctx.check(part.shape == (len(x), tot) and np.allclose(part @ pars, ref, atol=1e-12), "partial:Tree", lambda: "%s: partials %s" % (why, part))
    else:
        kn = m.knots.copy() if tag == "Spl" else None
        fresh = chain(b, w, dynamic(b, w, n=nc, knots=kn, bounds=False))
        ctx.check(fresh.npchain == tot, "constructed:" + tag, lambda: "%s: constructed with %d components it has %d parameters, after births and deaths %d" % (why, nc, fresh.npchain, tot))
        for what in ("result", "partial", "derivative"):
            a, c = (np.array(getattr(q, what)(x, pars.copy()), dtype=float) for q in (head, fresh))
            ctx.check(a.shape == c.shape and np.allclose(a, c, rtol=1e-8, atol=1e-8, equal_nan=True), "%s:%s" % (what, tag),
                      lambda: "%s: %s is %s, a model constructed with %d components gives %s" % (why, what, a.tolist(), nc, c.tolist()))
    return val


def knotsvalid(ctx, w, m, why, k0, mindist):
    k = np.array(m.knots, dtype=float)
    d = np.diff(k)
    ctx.check(np.all(d > 0), "order:knots", lambda: "%s: knots not increasing: %s" % (why, k))
    ctx.check(k[0] == k0[0] and k[-1] == k0[-1], "ends:knots", lambda: "%s: the end points were %s, %s; are %s, %s" % (why, k0[0], k0[-1], k[0], k[-1]))
    ctx.check(m.minDistance == mindist, "mindist:changed", lambda: "%s: minDistance was %s, is %s" % (why, mindist, m.minDistance))
    ctx.check(np.min(d) >= min(mindist, np.min(np.diff(k0))) * (1 - 1e-9), "distance:knots", lambda: "%s: knots %s are closer than %s" % (why, k, mindist))
    ctx.check(len(k) == m.ncomp and m.npbase == counted(len(k), w), "number:knots", lambda: "%s: %d knots, %d parameters" % (why, len(k), m.npbase))


def treevalid(ctx, w, m, why):
    for n in treenodes(m):
        leaf = n.left is None
        ctx.check(leaf == (n.rite is None), "tree:children", "%s: a node with one child" % why)
        if leaf:
            ctx.check(n.dimension is None, "tree:leaf", lambda: "%s: a leaf with dimension %s" % (why, n.dimension))
            continue
        for c in (n.left, n.rite):
            ctx.check(c.parent is n, "tree:parent", "%s: a child has another parent" % why)
        ctx.check(0 <= n.dimension < 2, "tree:dimension", lambda: "%s: dimension %s" % (why, n.dimension))
        t = w["itypes"][min(n.dimension, len(w["itypes"]) - 1)]
        if t == 0:
            ctx.check(n.split is not None and 0 < n.split < 1, "tree:split", lambda: "%s: a branch on a float axis has split %s, mask %s" % (why, n.split, n.mask))
        else:
            ctx.check(n.split is None and n.mask is not None and 0 < n.mask < (1 << (t + 1)), "tree:mask",
                      lambda: "%s: a branch on an axis of type %d has split %s, mask %s" % (why, t, n.split, n.mask))
    nb = sum(n.left is not None for n in treenodes(m))
    ctx.check(m.ncomp == nb, "tree:count", lambda: "%s: ncomp is %s, the tree has %d branches" % (why, m.ncomp, nb))
