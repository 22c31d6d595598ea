"""The phantom collection against a small reference: sequential histories, threaded histories checked for
linearizability, and the collection inside whole sampler runs."""
import math, random, threading
import numpy as np
from .. import nsprop, nsw, obs, sched, core
from ..nsprop import ASSUMPTIONS

RUNS = dict(quick=700, thorough=20000)
RULE = "one evaluation is one history of operations on a collection (or one whole sampler run); distinct by the digest of operations and results"
REAL = "PhantomCollection, WalkerList, Walker, problems and models; in one run of eight the whole NestedSampler"
STUBS = "the exploring threads are the harness' own in the threaded histories: they store points and request ranges"
STATES = "distinct (model sizes in use, lengths, retained after crop) met"
HOT = ["PhantomCollection.py", "WalkerList.py"]


def gen_ops(rng, n, dynamic, distinct, vals):
    ops = []
    low = -20.0
    for _ in range(n):
        np_ = rng.choice((1, 2, 3)) if dynamic else 2
        if rng.random() < 0.72:
            L = vals.pop() if distinct else float(rng.randint(-12, 12))
            if not distinct and rng.random() < 0.02:
                L = -math.inf
            ops.append(["store", np_, L, [round(rng.uniform(-5, 5), 3) for _ in range(np_ + 1)]])
        elif rng.random() < 0.08 and not distinct:
            ops.append(["clear", 0])
            low = -20.0
        else:
            if rng.random() < 0.8:
                low += rng.choice((0.0, 0.37, 1.41, 3.03))
                t = low
            else:
                t = low - rng.choice((0.7, 4.1))
            ops.append(["range", np_, t])
    return ops


def gen(rng, i, tier):
    r = rng.random()
    if r < 0.12:
        p = nsprop.gen(rng, i, tier, threads=0.5)
        p["mode"] = "ns"
        return p
    dyn = rng.random() < 0.5
    if r < 0.5:
        return dict(mode="seq", dynamic=dyn, ops=gen_ops(rng, rng.randint(3, 60), dyn, False, None))
    vals = [round(v * 0.1 + 0.05, 3) for v in range(-150, 150)]
    rng.shuffle(vals)
    nt = rng.choice((2, 2, 3))
    return dict(mode="par", dynamic=dyn, setup=gen_ops(rng, rng.choice((0, 3, 10, 20)), dyn, True, vals),
                threads=[gen_ops(rng, rng.randint(1, 4), dyn, True, vals) for _ in range(nt)],
                sched=dict(mode="random", seed=rng.randrange(1 << 30), p=0.0, hot=rng.choice((0.05, 0.15, 0.4)), hotfiles=HOT, budget=5_000_000))


def shrink(p):
    import copy
    if p["mode"] == "ns":
        for q in nsprop.shrink(p):
            yield q
        return
    if p["mode"] == "par":
        for f in ("setup",):
            for k in range(len(p[f])):
                q = copy.deepcopy(p)
                del q[f][k]
                yield q
        for t in range(len(p["threads"])):
            for k in range(len(p["threads"][t])):
                q = copy.deepcopy(p)
                del q["threads"][t][k]
                yield q


# ---------------------------------------------------------------- reference
MINP = None


class Ref:
    """points per key; what range requests may return"""
    def __init__(self, dynamic, minp):
        self.dyn, self.minp = dynamic, minp
        self.pts = {}            # key -> tuple of (L, pars) sorted
        self.low = {}
        self.cache = {}          # key -> range at last computation

    def copy(self):
        r = Ref(self.dyn, self.minp)
        r.pts, r.low, r.cache = dict(self.pts), dict(self.low), dict(self.cache)
        return r

    def key(self, np_):
        return np_ if self.dyn else 0

    def store(self, np_, L, pars):
        k = self.key(np_)
        self.pts[k] = tuple(sorted(self.pts.get(k, ()) + ((L, tuple(pars)),)))

    @staticmethod
    def rng_of(pts):
        if not pts:
            return None
        a = np.array([q for _, q in pts])
        return (tuple(np.nanmin(a, axis=0)), tuple(np.nanmax(a, axis=0)))

    def allowed(self, np_, t):
        """[(result, next state)] that the property admits"""
        k = self.key(np_)
        low = self.low.get(k, -math.inf)
        out = []
        pts = self.pts.get(k, ())
        if t > low:
            new = tuple(q for q in pts if q[0] > t)
            eq = tuple(q for q in pts if q[0] == t)
            for keep in ([new] if not eq else [new, tuple(sorted(new + eq))]):
                for res in self.results(keep):
                    s = self.copy()
                    s.low[k], s.pts[k], s.cache[k] = t, keep, res
                    out.append((res, s))
            return out
        s = self.copy()
        if k in self.cache or not self.dyn:
            out.append((self.cache.get(k), s))
        # computing it anew, from the points above the highest threshold passed so far, is right as well
        tt = max(t, low)
        keep = tuple(q for q in pts if q[0] > tt) if tt > -math.inf else pts
        for cand in {keep, tuple(q for q in pts if q[0] >= tt), pts}:
            for res in self.results(cand):
                s = self.copy()
                s.low[k], s.cache[k] = tt, res
                s.pts[k] = cand
                out.append((res, s))
        return out

    def results(self, pts):
        r = [self.rng_of(pts)]
        if self.dyn and len(pts) <= self.minp:
            r = [None, r[0]] if r[0] is not None else [None]
        return r


def as_tuple(mm):
    mn, mx = mm
    if mn is None or mx is None:
        return None
    return (tuple(float(v) for v in mn), tuple(float(v) for v in mx))


class Real:
    def __init__(self, dynamic):
        b = nsw.B()
        from BayesicFitting.source.PhantomCollection import PhantomCollection
        from BayesicFitting.source.ClassicProblem import ClassicProblem
        from BayesicFitting.source.Walker import Walker
        self.Walker = Walker
        self.dyn = dynamic
        self.pc = PhantomCollection(dynamic=dynamic)
        x = np.linspace(0, 1, 5)
        self.prob = {n: ClassicProblem(b.PolynomialModel(n - 1), xdata=x, ydata=x) for n in (1, 2, 3)}

    def walker(self, np_, L, pars):
        w = self.Walker(0, self.prob[np_], np.array(pars, dtype=float), np.arange(np_))
        w.logL = float(L)
        return w

    def store(self, np_, L, pars):
        self.pc.storeItems(self.walker(np_, L, pars))

    def range(self, np_, t):
        return as_tuple(self.pc.getParamMinmax(t, np=np_))

    def content(self, k):
        ph = self.pc.phantoms
        lst = ph.get(k, []) if self.dyn else ph
        return [(float(w.logL), tuple(float(v) for v in w.allpars)) for w in lst]

    def keys(self):
        return sorted(self.pc.phantoms) if self.dyn else [0]


def check_content(ctx, real, states, tag):
    """the lists hold what one of the admitted states holds, in order"""
    for k in real.keys():
        c = real.content(k)
        L = [q[0] for q in c]
        if any(a > b for a, b in zip(L, L[1:])):
            ctx.fail("order", "%s: the list of size %s is not ordered: %s" % (tag, k, L))
    ok = []
    for s in states:
        if all(sorted(real.content(k)) == list(s.pts.get(k, ())) for k in set(real.keys()) | set(s.pts)):
            ok.append(s)
    if not ok:
        ctx.fail("content", "%s: the collection holds %s; expected %s" %
                 (tag, {k: real.content(k) for k in real.keys()}, [s.pts for s in states][:2]))
    for k in real.keys():
        n = real.pc.length(k) if real.dyn else real.pc.length()
        ctx.check(int(n) == len(real.content(k)), "length", lambda: "%s: length %s, list has %d" % (tag, n, len(real.content(k))))
    return ok


def step(ctx, real, states, op, tag):
    if op[0] == "store":
        real.store(op[1], op[2], op[3])
        states = [s.copy() for s in states]
        for s in states:
            s.store(op[1], op[2], op[3])
        ctx.ev("store", op[1], op[2])
        ctx.count("stored")
    elif op[0] == "clear":
        real.pc.clear()
        states = [Ref(s.dyn, s.minp) for s in states]
        ctx.ev("clear")
        ctx.count("cleared")
    else:
        got = real.range(op[1], op[2])
        ctx.ev("range", op[1], op[2], got)
        ctx.count("ranges")
        nxt = [ns for s in states for res, ns in s.allowed(op[1], op[2]) if res == got]
        if not nxt:
            ctx.fail("range", "%s: range %s returned at threshold %r for size %d; admitted %s" %
                     (tag, got, op[2], op[1], [r for s in states for r, _ in s.allowed(op[1], op[2])][:3]))
        states = nxt
    return states


def dedup(states):
    seen = {}
    for s in states:
        seen[repr((sorted(s.pts.items()), sorted(s.low.items()), sorted(s.cache.items(), key=lambda t: t[0])))] = s
    return list(seen.values())[:40]


def run_seq(p, ctx):
    real = Real(p["dynamic"])
    states = [Ref(p["dynamic"], real.pc.MINPARS)]
    for n, op in enumerate(p["ops"]):
        states = dedup(step(ctx, real, states, op, "operation %d" % n))
        states = check_content(ctx, real, states, "after operation %d %s" % (n, op))
        ctx.state(p["dynamic"], [(k, len(real.content(k))) for k in real.keys()])


def run_par(p, ctx):
    real = Real(p["dynamic"])
    states = [Ref(p["dynamic"], real.pc.MINPARS)]
    for n, op in enumerate(p["setup"]):
        states = dedup(step(ctx, real, states, op, "setup %d" % n))
        states = check_content(ctx, real, states, "setup")
    clock = [0]
    hist = []

    def tick():
        clock[0] += 1
        return clock[0]

    errs = []

    def work(t, ops):
        try:
            for op in ops:
                t0 = tick()
                res = None
                if op[0] == "store":
                    real.store(op[1], op[2], op[3])
                else:
                    res = real.range(op[1], op[2])
                hist.append((t, t0, tick(), op, res))
        except Exception as e:      # noqa
            import traceback
            errs.append("thread %d: %s" % (t, traceback.format_exc()[-600:]))
    with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
        ctx.sched = s
        ths = [threading.Thread(target=work, args=(t, ops), name="user%d" % t) for t, ops in enumerate(p["threads"])]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
    ctx.fault("thread switches", s.switches)
    if errs:
        ctx.fail("error", errs[0])
    for h in hist:
        ctx.ev(h)
    ctx.state(p["dynamic"], [(h[0], h[3][0]) for h in hist])
    # linearize
    hist.sort(key=lambda h: h[1])
    n = len(hist)
    final = {k: sorted(real.content(k)) for k in real.keys()}
    for k in real.keys():
        L = [q[0] for q in real.content(k)]
        if any(a > b for a, b in zip(L, L[1:])):
            ctx.fail("order", "the list of size %s is not ordered after the threads: %s" % (k, L))
    seen = set()

    def dfs(done, states):
        if len(done) == n:
            return any(all(final.get(k, []) == list(st.pts.get(k, ())) for k in set(final) | set(st.pts)) for st in states)
        key = (frozenset(done), repr([sorted(st.cache.items(), key=lambda t: t[0]) for st in states]), repr([sorted(st.low.items()) for st in states]))
        if key in seen:
            return False
        seen.add(key)
        rest = [i for i in range(n) if i not in done]
        first_end = min(hist[i][2] for i in rest)
        for i in rest:
            t, t0, t1, op, res = hist[i]
            if t0 > first_end:
                continue
            if any(hist[j][0] == t and hist[j][1] < t0 for j in rest if j != i):
                continue
            if op[0] == "store":
                nx = [st.copy() for st in states]
                for st in nx:
                    st.store(op[1], op[2], op[3])
            else:
                nx = dedup([ns for st in states for r, ns in st.allowed(op[1], op[2]) if r == res])
            if nx and dfs(done | {i}, nx):
                return True
        return False
    ctx.count("histories linearized")
    if not dfs(frozenset(), states):
        ctx.fail("not.linearizable", "no order of these operations explains their results and the final lists\n%s\nfinal %s" %
                 ("\n".join("thread %d [%d-%d] %s -> %s" % h for h in hist), final))


def run_ns(p, ctx):
    """inside a sampler: ordered lists; a stored point stays until the threshold passes it"""
    prev = {}

    def see(eng, kw, low, it):
        ph = eng.phantoms.phantoms
        dyn = isinstance(ph, dict)
        for k in (list(ph) if dyn else [0]):
            lst = list(ph[k] if dyn else ph)
            L = [float(w.logL) for w in lst]
            if any(a > b for a, b in zip(L, L[1:])):
                ctx.fail_now("ns.order", "iteration %d: phantoms of size %s are not ordered" % (it, k))
            ids = {id(w): w for w in lst}
            if len(ids) != len(lst):
                ctx.fail_now("ns.twice", "iteration %d: a phantom is stored twice" % it)
            lost = [w for i, w in prev.get(k, {}).items() if i not in ids and w.logL > low]
            if lost:
                ctx.fail_now("ns.lost", "iteration %d: a phantom with logL %r is gone while the threshold is %r" % (it, lost[0].logL, low))
            if dyn:
                for w in lst:
                    if int(w.problem.npars) != k:
                        ctx.fail_now("ns.size", "phantom with %d parameters in the list of size %s" % (w.problem.npars, k))
            prev[k] = ids
        ctx.count("spied")
    spy = nsw.make_spy(ctx, see)(None, None)
    nsprop.setup(p, ctx)

    def go():
        w = nsw.build(p, extra=[spy])
        try:
            w.ns.sample()
        except RuntimeError as e:
            if "valid starting" in str(e) and w.d["dist"] in ("poisson", "bernoulli") and w.ns.iteration == 0:
                raise core.Expected("no valid start")
            raise
        ctx.ev([round(float(s.logL), 6) for s in w.ns.samples])
    q = dict(p)
    if p.get("sched"):
        with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            go()
        ctx.fault("thread switches", s.switches)
    else:
        go()


def run(p, ctx):
    {"seq": run_seq, "par": run_par, "ns": run_ns}[p["mode"]](p, ctx)
