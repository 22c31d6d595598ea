"""Fits that are cut short by an exception or interrupt at a seeded evaluation of the model: nothing lasting remains."""
import copy
import numpy as np
from .. import fitw, fresh
from . import p14

RUNS = dict(quick=1000, thorough=30000)
RULE = "one evaluation is one fit (or read of its results) cut short at a seeded evaluation of the model, followed by whole fits that are compared with those of a fresh fitter and model; distinct by the digest of the run"
REAL = p14.REAL
STUBS = "none; the model's result and partial pass through a seam that raises"
STATES = "fitter, kind of operation, kind of exception, place of the exception (first, last, between; in the result or the derivative; in fit or in read)"
MIN_EVENTS = 2
LISTS = ("cuts",)
ASSUMPTIONS = ["exceptions come out of the evaluation of the model, its derivative or the callback", "model.parameters is set by the user before an iterative fit"]
EXC = dict(boom=fitw.Boom, interrupt=KeyboardInterrupt, memory=MemoryError, value=ValueError, linalg=np.linalg.LinAlgError,
           fpe=FloatingPointError, exit=SystemExit, overflow=OverflowError, type=TypeError, attr=AttributeError, index=IndexError, stop=StopIteration, runtime=RuntimeError)


def gen(rng, i, tier):
    p = p14.gen(rng, i, tier)
    spec = p["spec"]
    kinds = ("fit", "fit", "fit", "modelFit", "robust") + (("limitsFit", "limitsFit") if "limits" in spec else ())
    cuts = []
    for k in range(rng.choice((1, 1, 2, 3))):
        op = fitw.genfit(rng, spec, kinds=kinds, keepprob=0.5)
        if op["op"] == "limitsFit" and spec.get("keep"):
            op.pop("keep", None)
        cuts.append(dict(op=op, exc=rng.choice(list(EXC) + ["boom", "interrupt", "interrupt"]), at=rng.choice((0.0, 1.0, rng.random(), rng.random())),
                         read=rng.choice((None, None, None, "stdevs", "mcerr", "logZ", "covariance"))))
    p["cuts"] = cuts
    p["ops"] = [o for o in p["ops"] if "bad" not in o][:2]
    return p


def state(f, m):
    fi = f.fitIndex
    return dict(fitIndex=None if fi is None else np.asarray(fi).tolist(), keep=None if f.keep is None else sorted(f.keep.items()),
                npchain=m.npchain, xdata=np.asarray(f.xdata).tolist(), fixedScale=f.fixedScale,
                parlist=None if getattr(m, "parlist", None) is None else [int(k) for k in m.parlist], fixed=repr(getattr(m, "fixed", None)),
                limits=repr([np.asarray(l).tolist() if l is not None else None for l in m.getLimits()]) if m.priors is not None else None)


def run(p, ctx):
    spec = p["spec"]
    x = fitw.xdata(spec)
    x0 = x.copy()
    m, f = p14.make(spec, x)
    given = []
    for k, c in enumerate(p["cuts"]):
        op = c["op"]
        exc = EXC[c["exc"]]
        # how many evaluations the whole takes, in a process of its own
        def rehearse():
            mm, ff = p14.make(spec, x)
            mm.parameters = fitw.start(spec, op["p0"])
            h = fitw.seam(mm, lambda n, kind, par, r: r)
            a = fitw.Args(spec, x, op)
            try:
                fitw.do(ff, mm, spec, op, a)
                nf = h[3]
                if c["read"]:
                    fitw.read(ff, c["read"], spec)
                return [nf, h[3], None]
            except Exception as e:
                return [h[3], h[3], type(e).__name__]
        nf, nall, err = fresh.fresh(rehearse)
        lo, hi = (nf + 1, nall) if c["read"] and nall > nf else (1, nf)
        if hi < lo:
            ctx.count("no evaluation to fail at")
            continue
        at = lo + int(round(c["at"] * (hi - lo)))
        m.parameters = fitw.start(spec, op["p0"])
        st0 = state(f, m)
        a = fitw.Args(spec, x, op)
        given.append(a)
        boom = exc("injected")
        where = [None]

        def hook(n, kind, par, r):
            if n == at:
                where[0] = kind
                raise boom
            return r
        fitw.seam(m, hook)
        got = None
        try:
            fitw.do(f, m, spec, op, a)
            if c["read"]:
                w = c["read"]
                if w == "logZ":
                    n = fitw.NPAR[spec["model"]]
                    f.getLogZ(limits=[[-10.0] * n, [10.0] * n], noiseLimits=spec.get("noise"))
                elif w == "mcerr":
                    f.monteCarloError()
                else:
                    getattr(f, w)
        except BaseException as e:
            got = e
        finally:
            fitw.unseam(m)
        if where[0] is None:
            ctx.count("fault not reached")
            continue
        ctx.fault(c["exc"])
        ctx.ev(k, op["op"], c["exc"], at, where[0], type(got).__name__)
        ctx.state(spec["fitter"], op["op"], c["exc"], where[0], c["read"] if lo > nf else None, "first" if at == lo else "last" if at == hi else "between")
        chain, e = [], got
        while e is not None and e not in chain:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if boom not in chain and spec.get("errdis") and where[0] == "partial" and isinstance(boom, Exception):
            # the library replaces a derivative that fails by a numerical one
            ctx.count("derivative replaced by a numerical one")
            continue
        ctx.check(boom in chain, "exception.lost." + spec["fitter"],
                  lambda: "a %s raised at evaluation %d of %d of the model in %s of %s came out as %r" % (c["exc"], at, hi, op["op"], spec["fitter"], got))
        for b in given:
            ch = b.changed()
            if not np.array_equal(x, x0):
                ch.append("xdata")
            ctx.check(not ch, "arrays", lambda: "after a failure at evaluation %d in %s of %s arrays of the user are changed: %s" % (at, op["op"], spec["fitter"], ch))
        st1 = state(f, m)
        for q in st0:
            ctx.check(repr(st0[q]) == repr(st1[q]), "left." + q, lambda: "after a failure at evaluation %d in %s of %s %s is %s; it was %s" % (at, op["op"], spec["fitter"], q, st1[q], st0[q]))
    # whole fits afterwards
    for k, op in enumerate(p["ops"]):
        want = fresh.fresh(lambda: p14.ref(spec, op))
        m.parameters = fitw.start(spec, op["p0"])
        a = fitw.Args(spec, x, op)
        got = fitw.outcome(f, m, spec, op, a, op["reads"])
        ctx.ev("after", k, got)
        for q in sorted(set(want) | set(got)):
            if q not in want or q not in got or not fitw.close(got[q], want[q], 1e-9):
                if fitw.rounding(want, lambda o: p14.ref(spec, o), op, 1e-10):
                    ctx.count("outcome hangs on rounding")
                    break
            if q not in want or q not in got:
                ctx.fail("after.error", "fit %d (%s of %s) after a failed one: %s; with a fresh fitter %s" % (k, op["op"], spec["fitter"], p14.short(got), p14.short(want)))
            if not fitw.close(got[q], want[q], 1e-9):
                ctx.fail("after." + q, "fit %d (%s of %s) after a failed one: %s is %s; with a fresh fitter %s" % (k, op["op"], spec["fitter"], q, p14.short(got[q]), p14.short(want[q])))


def shrink(p):
    for q in p14.shrink(p):
        yield q
    for k, c in enumerate(p["cuts"]):
        for key in ("weights", "accuracy", "keep", "opts", "par0"):
            if c["op"].get(key):
                q = copy.deepcopy(p)
                q["cuts"][k]["op"].pop(key)
                yield q
        for at in (0.0, 1.0, 0.5):
            if c["at"] not in (0.0, 1.0, 0.5):
                q = copy.deepcopy(p)
                q["cuts"][k]["at"] = at
                yield q
    if p["ops"]:
        q = copy.deepcopy(p)
        q["ops"] = q["ops"][:-1]
        yield q
