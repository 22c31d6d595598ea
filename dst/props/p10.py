"""Determinism of seeded runs, and independence of what else goes on in the process."""
import json, os, random as _random, subprocess, sys, threading
import numpy as np
from .. import nsprop, nsw, obs, sched, fresh, boot
from ..nsprop import ASSUMPTIONS

RUNS = dict(quick=160, thorough=4000)
RULE = "one evaluation is one problem run alone in a fresh process and once more in a seeded environment; distinct by the digest of the run"
REAL = nsprop.REAL
STUBS = "none; the environment (global random generator, other samplers, verbosity, hash seed, interleaving) is what the simulator varies"
STATES = "distinct environments times model kind and error distribution"
MIN_EVENTS = 1
ENV = ("twice", "global", "verbose", "other", "interleaved", "interleaved", "hash", "globaldraws")


def gen(rng, i, tier):
    p = nsprop.gen(rng, i, tier, special="safe", threads=0.0, boost=0.25, keep=0.25, plateau=0.2)
    p["buggify"] = 0.0
    p["maxiter"] = min(p["maxiter"], 30)
    p["miniter"] = min(p["miniter"], 10)
    q = nsprop.gen(rng, i, "quick", special="safe", threads=0.0, boost=0.25, keep=0.25, plateau=0.0)
    q["maxiter"], q["miniter"], q["buggify"] = 15, 5, 0.0
    q["ensemble"] = min(q["ensemble"], 8)
    q["discard"] = 1
    p["other"] = q
    p["sameproblem"] = rng.random() < 0.4
    p["env"] = rng.choice(ENV)
    if p["env"] == "hash" and rng.random() < 0.7:
        p["env"] = "twice"
    if p["env"] in ("twice", "global", "other", "hash") and rng.random() < 0.35:
        # with threads that run in the same order every time
        p["threads"] = True
    p["eseed"] = rng.randrange(1 << 30)
    p["seed3"] = rng.randrange(1 << 30)
    if rng.random() < 0.15:
        # defaults all over: engines and their seeds, seed of the sampler
        p["default"] = True
    p["sched2"] = dict(mode="random", seed=rng.randrange(1 << 30), p=rng.choice((0.0005, 0.003, 0.02)), hot=0.0, hotfiles=[], budget=80_000_000)
    return p


def build(p, ctx, **k):
    kw = dict(k)
    if p.get("lik"):
        fn = nsprop.lik_fn(p["lik"], p["problem"])

        def dist(e):
            e.constrain = fn
            return e
        kw["dist"] = dist
    return nsw.build(p, **kw)


def one(p, ctx, **k):
    w = build(p, ctx, **k)
    if p.get("threads"):
        # a thread runs until it ends or waits: the schedule is the same in all surroundings
        with sched.Scheduler(dict(mode="random", seed=p["seed"], p=0.0, hot=0.0, hotfiles=[], budget=80_000_000), on_deadlock=lambda m: ctx.fail_now("stuck", m)):
            w.ns.sample()
    else:
        w.ns.sample()
    return dig(w)


def dig(w):
    return [repr(x) for x in nsw.digest_ns(w.ns)] + [repr(np.asarray(w.ns.walkers[i].allpars).tolist()) for i in range(len(w.ns.walkers))]


def same(ctx, a, b, cls, what):
    if a != b:
        names = ["logZ", "information", "iterations", "number of samples"]
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
        ctx.fail(cls, "%s: %s differs: %s and %s" % (what, names[k] if 0 <= k < 4 else "item %d" % k, a[k][:200], b[k][:200]))


def run(p, ctx):
    env = p["env"]
    ctx.fault("environment " + env)
    ctx.state(env, p["problem"]["kind"], p["problem"]["dist"])
    ref = fresh.fresh(lambda: one(p, ctx))
    ctx.ev(ref)
    np.random.seed(p["eseed"] % (1 << 32))
    g0 = repr(np.random.get_state())
    q = p["other"]
    if p["sameproblem"]:
        q = dict(q, problem=p["problem"])
        q["engines"] = p["engines"]
        q.pop("keep", None)
        q.pop("boost", None)
    if env == "twice":
        got = one(p, ctx)
    elif env == "global":
        g0 = repr(np.random.get_state())
        _random.seed(p["eseed"])
        got = one(p, ctx)
    elif env == "globaldraws":
        n = [0]

        def see(eng, kw, low, it):
            np.random.rand(3)
            np.random.seed(n[0])
            n[0] += 1
        # the extra engine takes part in the permutations: compare with the same engine doing nothing
        ref = fresh.fresh(lambda: one(p, ctx, extra=[nsw.make_spy(ctx, lambda *a: None)(None, None)]))
        got = one(p, ctx, extra=[nsw.make_spy(ctx, see)(None, None)])
        g0 = None
    elif env == "verbose":
        got = one(p, ctx, verbose=1 + p["eseed"] % 4)
        # higher verbosity may include extra consistency checks: these are counted as likelihood calls
        nw = p["ensemble"]
        ref, got = ref[:-nw - 1] + ref[-nw:], got[:-nw - 1] + got[-nw:]
    elif env == "other":
        one(q, ctx)
        got = one(p, ctx)
    elif env == "interleaved":
        res, err = {}, []
        start = []

        def work(nm, pp, delay):
            try:
                res[nm] = one(pp, ctx)
            except BaseException as e:      # noqa
                import traceback
                err.append("%s: %s" % (nm, traceback.format_exc()[-1500:]))
        with sched.Scheduler(p["sched2"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            ts = [threading.Thread(target=work, args=("a", p, 0), name="sampler-a"), threading.Thread(target=work, args=("b", q, 0), name="sampler-b")]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        ctx.fault("switches between samplers", s.switches)
        if err:
            ctx.fail("interleaved.error", err[0])
        got = res["a"]
    elif env == "hash":
        import tempfile
        f = os.path.join(os.environ.get("DST_SCRATCH", tempfile.gettempdir()), "plan-%d.json" % os.getpid())
        json.dump(p, open(f, "w"))
        src = ("import sys, json; sys.path.insert(0, %r)\nfrom dst import boot\nboot.load()\nfrom dst import core\nfrom dst.props import p10\n"
               "p = json.load(open(%r))\nprint('DIGEST ' + json.dumps(p10.one(p, core.Ctx(p, 2))))\n" % (boot.VERIF, f))
        o = subprocess.run([sys.executable, "-c", src], env=dict(os.environ, PYTHONHASHSEED=str(p["eseed"] % 4294967295)), capture_output=True, text=True)
        ln = [l for l in o.stdout.splitlines() if l.startswith("DIGEST ")]
        if not ln:
            raise RuntimeError("no digest: " + o.stderr[-1500:])
        got = json.loads(ln[-1][7:])
        os.unlink(f)
    if g0 is not None and repr(np.random.get_state()) != g0:
        ctx.fail("global.state", "numpy's global random generator was used or set by the run (environment %s)" % env)
    same(ctx, ref, got, "differs." + env, "run alone in a fresh process, and in environment '%s'" % env)
    # another seed is another run
    if p["eseed"] % 4 == 0:
        r3 = one(dict(p, seed=(p["seed"] + 12345) % (1 << 31)), ctx)
        if r3[0] == ref[0] and r3[4:8] == ref[4:8]:
            ctx.fail("seed.ignored", "seeds %d and %d give the same run" % (p["seed"], (p["seed"] + 12345) % (1 << 31)))


def shrink(p):
    for q in nsprop.shrink(p):
        yield q
