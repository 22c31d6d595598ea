"""Faults while exploring: they surface, nothing hangs, nothing is left behind."""
import math, json, copy
import numpy as np
from .. import nsprop, nsw, obs, sched, fresh
from ..nsprop import ASSUMPTIONS, STATES
from .p04 import verify

RUNS = dict(quick=160, thorough=6000)
MIN_EVENTS = 2
RULE = "one evaluation is a run with one injected failure, then a run of another sampler and of the same one; distinct by digest"
REAL = nsprop.REAL
STUBS = "the failing part only: the user's constraint, the user's model (a subclass whose result raises) or the start of a thread"
KINDS = ("ValueError", "RuntimeError", "ZeroDivisionError", "FloatingPointError", "MemoryError", "KeyboardInterrupt", "Own", "StopIteration", "AttributeError")


class Own(Exception):
    pass


def kind(k):
    import builtins
    return Own if k == "Own" else getattr(builtins, k)


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier, special="safe", threads=0.5, boost=0.0, keep=0.2, plateau=0.0)
    p["maxiter"] = min(p["maxiter"], 20)
    p["miniter"] = min(p["miniter"], 10)
    q = nsprop.gen(rng, i, "quick", special="safe", threads=0.0, boost=0.1, keep=0.2, plateau=0.0)
    q["maxiter"], q["miniter"] = 12, 5
    q["ensemble"] = min(q["ensemble"], 8)
    q["discard"] = 1
    p["after"] = q
    r = rng.random()
    if p.get("threads") and r < 0.15:
        p["fault"] = dict(where="thread", at=rng.randint(1, p["ensemble"] + 10))
    else:
        p["fault"] = dict(where=rng.choice(("constrain", "model", "constrain")), at=int(10 ** rng.uniform(0, 3.3)), kind=rng.choice(KINDS),
                          sticky=rng.random() < 0.4)
    return p


def shrink(p):
    for q in nsprop.shrink(p):
        yield q
    f = p["fault"]
    for a in (1, f["at"] // 2, f["at"] - 1):
        if 1 <= a < f["at"]:
            q = copy.deepcopy(p)
            q["fault"]["at"] = a
            yield q


class Bomb:
    def __init__(self, f, ctx):
        self.f, self.n, self.fired, self.after = f, 0, 0, 0
        self.ctx = ctx
        self.on = True

    def tick(self):
        if not self.on:
            return
        self.n += 1
        if self.fired:
            self.after += 1
            if self.after > 60000:
                self.ctx.fail_now("not.prompt", "more than 60000 evaluations after the failure")
        if self.n == self.f["at"] or (self.fired and self.f.get("sticky")):
            self.fired += 1
            self.ctx.fault("%s in %s" % (self.f["kind"], self.f["where"]))
            raise kind(self.f["kind"])("injected")


def bombed(model, bomb):
    """the user's model, with a result that fails when told to"""
    M = type(model)
    if M.__name__.startswith("Bombed"):
        return model

    def result(self, xdata, param=None):
        bomb.tick()
        return M.result(self, xdata, param)
    C = type("Bombed" + M.__name__, (M,), dict(result=result, copy=lambda self: _cp(self)))

    def _cp(self):
        c = M.copy(self)
        object.__setattr__(c, "__class__", C)
        return c
    object.__setattr__(model, "__class__", C)
    return model


def settings():
    import warnings
    return [repr(np.get_printoptions()), repr(np.geterr()), repr(np.random.get_state()), len(warnings.filters)]


def other(p, ctx):
    """digest of a run of another sampler"""
    nsprop.setup(p, ctx)
    w = nsw.build(p)
    w.ns.sample()
    return json.loads(json.dumps([repr(x) for x in nsw.digest_ns(w.ns)]))


def run(p, ctx):
    f = p["fault"]
    q = p["after"]
    ref = fresh.fresh(lambda: other(q, ctx))
    nsprop.setup(p, ctx)
    bomb = Bomb(f, ctx)
    kw = {}
    if f["where"] == "constrain":
        def dist(e):
            def con(logL, problem, allpars, low):
                bomb.tick()
                return logL
            e.constrain = con
            return e
        kw["dist"] = dist
    elif f["where"] == "model":
        kw["model"] = bombed(nsw.build_model(p["problem"])[0], bomb)
    w = nsw.build(p, **kw)
    st0 = settings()
    res = {}

    def go():
        try:
            res["evidence"] = w.ns.sample()
        except BaseException as e:
            if type(e).__name__ == "Violation":
                raise
            res["error"] = e
    S = None
    if p.get("sched"):
        with sched.Scheduler(p["sched"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as S:
            ctx.sched = S
            if f["where"] == "thread":
                real = S.start_thread
                n = [0]

                def start_thread(th):
                    n[0] += 1
                    if n[0] == f["at"]:
                        bomb.fired += 1
                        ctx.fault("thread cannot start")
                        raise RuntimeError("can't start new thread")
                    return real(th)
                S.start_thread = start_thread
            go()
            left = S.live_threads()
            if left:
                ctx.fail("threads.left", "sample has returned while threads still run: %s" % [t.name for t in left])
        ctx.fault("thread switches", S.switches)
    else:
        go()
    ctx.ev(bomb.fired, type(res.get("error")).__name__, p["problem"]["kind"])
    ctx.state(f.get("kind"), f["where"], bool(p.get("threads")), len(w.ns.samples) if w.ns.samples is not None else 0)
    if bomb.fired and "error" not in res:
        ctx.fail("swallowed", "%s raised in the %s at evaluation %d, but sample returned evidence %r" % (f.get("kind"), f["where"], f["at"], res.get("evidence")))
    if not bomb.fired and "error" in res:
        raise res["error"]
    if bomb.fired and not p.get("threads") and not isinstance(res["error"], kind(f["kind"])):
        chain = []
        e = res["error"]
        while e is not None and e not in chain:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if not any(isinstance(e, kind(f["kind"])) for e in chain):
            ctx.fail("disguised", "%s raised, %r reached the caller" % (f["kind"], res["error"]))
    if settings() != st0:
        ctx.fail("settings", "process-wide settings changed by the failing run")
    bomb.on = False
    got = other(q, ctx)
    if got != ref:
        k = next(i for i in range(min(len(got), len(ref))) if got[i] != ref[i]) if len(got) == len(ref) else -1
        ctx.fail("contaminated", "a run of another sampler after the failure differs from one in a fresh process: item %d: %s, not %s" %
                 (k, got[k], ref[k]))
    # the same sampler again, without the fault
    nsprop.setup(dict(p, buggify=0.0), ctx)
    D = p.get("discard", 1)

    def again():
        w.evidence = w.ns.sample()
    if p.get("sched"):
        with sched.Scheduler(dict(p["sched"], mode="random", seed=7), on_deadlock=lambda m: ctx.fail_now("stuck", m)) as S2:
            again()
            if S2.live_threads():
                ctx.fail("threads.left", "threads left after the second run")
    else:
        again()
    if len(w.ns.samples) != int(w.ns.iteration) * D + p["ensemble"]:
        ctx.fail("again.count", "second run after the failure: %d samples after %d iterations" % (len(w.ns.samples), w.ns.iteration))
    if not p.get("maxsize"):
        verify(ctx, w, D, tag="second run: ")
    for s in w.ns.samples:
        nsw.check_point(ctx, w, s.model, s.allpars, s.logL, "again")
        nsw.check_domain(ctx, w, s.allpars, "again")
    ctx.ev(round(float(w.ns.logZ), 6))
