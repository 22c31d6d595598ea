"""Worlds for fitters: models, data, fitters, fits and reads built from JSON specs; the model evaluation as fault seam."""
import math, random
import numpy as np
import warnings

LINEAR = ("poly1", "poly2", "poly3", "harm", "polyharm")
NONLIN = ("exp", "gauss", "gausspoly", "sine", "lorentzpoly", "arctan")
NPAR = dict(poly1=2, poly2=3, poly3=4, harm=2, polyharm=3, exp=2, gauss=3, gausspoly=5, sine=3, lorentzpoly=4, arctan=3)
TRUTH = dict(poly1=[1.2, -0.8], poly2=[0.5, 1.1, -0.7], poly3=[0.4, -1.0, 0.6, 0.9], harm=[0.8, -0.6],
             polyharm=[0.7, 1.1, -0.4], exp=[2.1, 0.9], gauss=[2.0, 0.2, 0.4], gausspoly=[2.5, -0.1, 0.35, 0.6, 0.4],
             sine=[0.9, 1.3, -0.7], lorentzpoly=[1.8, 0.15, 0.4, 0.5], arctan=[1.1, 0.1, 0.5])
FITTERS_LIN = ("Fitter", "QR")
FITTERS_IT = ("LM", "Curve", "Amoeba", "NELDER-MEAD", "POWELL", "CG", "BFGS", "NEWTON-CG", "L-BFGS-B", "TNC", "COBYLA", "SLSQP")
SCIPY = FITTERS_IT[3:]


def B():
    import BayesicFitting
    return BayesicFitting


def model(kind, fixed=None, limits=None, split=False):
    b = B()
    if kind.startswith("poly") and kind != "polyharm":
        m = b.PolynomialModel(int(kind[4]), fixed=fixed)
    elif kind == "harm":
        m = b.HarmonicModel(1, period=2.4, fixed=fixed)
    elif kind == "polyharm":
        m = b.PolynomialModel(0)
        m += b.HarmonicModel(1, period=2.4)
    elif kind == "exp":
        m = b.ExpModel(fixed=fixed)
    elif kind == "gauss":
        m = b.GaussModel(fixed=fixed)
    elif kind == "gausspoly":
        m = b.GaussModel()
        m += b.PolynomialModel(1)
    elif kind == "sine":
        m = b.SineModel(fixed=fixed)
    elif kind == "lorentzpoly":
        m = b.LorentzModel()
        m += b.PolynomialModel(0)
    elif kind == "arctan":
        m = b.ArctanModel(fixed=fixed)
    else:
        raise KeyError(kind)
    if limits is not None:
        m.setLimits(list(limits[0]), list(limits[1]))
    return m


def xdata(spec):
    r = np.random.RandomState(spec["xseed"])
    return np.sort(r.uniform(-1.5, 1.5, spec["npts"]))


def data(spec, x, seed, noise=0.1):
    r = np.random.RandomState(seed % (1 << 31))
    m = model(spec["model"])
    p = np.asarray(TRUTH[spec["model"]]) * (1 + 0.08 * r.uniform(-1, 1, NPAR[spec["model"]]))
    y = m.result(x, p) + noise * r.standard_normal(len(x))
    return np.asarray(y, dtype=float)


def outliers(y, seed, n, size):
    r = np.random.RandomState(seed % (1 << 31))
    i = r.permutation(len(y))[:n]
    y = y.copy()
    y[i] += size * np.where(r.rand(n) < 0.5, -1, 1) * (1 + r.rand(n))
    return y, i


def start(spec, seed, spread=0.12):
    r = np.random.RandomState(seed % (1 << 31))
    t = np.asarray(TRUTH[spec["model"]])
    return t * (1 + spread * r.uniform(-1, 1, len(t))) + 0.02 * r.uniform(-1, 1, len(t))


def weights(w, n):
    """w: None | {"seed", "zeros"}"""
    if w is None:
        return None
    r = np.random.RandomState(w["seed"] % (1 << 31))
    v = r.uniform(0.3, 2.5, n)
    if w.get("zeros"):
        v[r.permutation(n)[: w["zeros"]]] = 0.0
    if w.get("int"):
        v = np.ceil(v)
    return v


def accuracy(a, n):
    if a is None:
        return None
    if "value" in a:
        return a["value"]
    r = np.random.RandomState(a["seed"] % (1 << 31))
    return r.uniform(0.1, 0.6, n)


def keepdict(k):
    return None if k is None else {int(a): b for a, b in k.items()}


def fitter(kind, x, m, keep=None, ctor=None):
    b = B()
    kw = dict(ctor or {})
    if keep is not None:
        kw["keep"] = keep
    if kind == "Fitter":
        return b.Fitter(x, m, **kw)
    if kind == "QR":
        kw.pop("fixedScale", None)
        return b.QRFitter(x, m, **kw)
    if kind == "Curve":
        kw.pop("maxIter", None)
        kw.pop("tolerance", None)
        kw.pop("verbose", None)
        kw.pop("errdis", None)
        return b.CurveFitter(x, m, **kw)
    kw.setdefault("verbose", 0)
    if kind == "LM":
        kw.pop("errdis", None)
        return b.LevenbergMarquardtFitter(x, m, **kw)
    if kw.get("errdis") is None:
        kw.pop("errdis", None)
    if "fixedScale" in kw:
        kw["scale"] = kw.pop("fixedScale")
    if kind == "Amoeba":
        return b.AmoebaFitter(x, m, **kw)
    cls = {"NELDER-MEAD": b.NelderMeadFitter, "POWELL": b.PowellFitter, "CG": b.ConjugateGradientFitter, "BFGS": b.BfgsFitter,
           "NEWTON-CG": b.NewtonCgFitter, "L-BFGS-B": b.LbfgsbFitter, "TNC": b.TncFitter, "COBYLA": b.CobylaFitter, "SLSQP": b.SlsqpFitter}
    return cls[kind](x, m, **kw)


class Boom(Exception):
    """the injected failure"""


# ------------------------------------------------------------------------------ the model as a fault seam
SEAMS = {}


def seam(m, hook):
    """evaluations of (compound) model m go through hook( call number, result|partial, params, value ) -> value"""
    C = m.__class__
    S = C if "_dst_seam" in C.__dict__ else SEAMS.get(C)
    if S is None:
        def call(self, kind, fn, args, param):
            h = SEAMS.get(id(self))
            r = fn(self, *args)
            if h is None or h[0] is not self or h[2]:
                return r
            h[2] = True
            try:
                h[3] += 1
                return h[1](h[3], kind, self.parameters if param is None else param, r)
            finally:
                h[2] = False

        def result(self, xdata, param=None):
            return call(self, "result", C.result, (xdata, param), param)

        def partial(self, xdata, param, *a, **k):
            return call(self, "partial", lambda s, *z: C.partial(s, *z, **k), (xdata, param) + a, param)

        S = type(C.__name__, (C,), dict(result=result, partial=partial, __doc__=C.__doc__, _dst_seam=True))
        SEAMS[C] = S
    if m.__class__ is not S:
        object.__setattr__(m, "__class__", S)
    SEAMS[id(m)] = [m, hook, False, 0]
    return SEAMS[id(m)]


def unseam(m):
    SEAMS.pop(id(m), None)


# ------------------------------------------------------------------------------ reads
READS = ("chisq", "scale", "stdevs", "covariance", "yfit", "stdevScale", "logZ", "mcerr", "hessian", "evidence", "weights", "sumwgt")


def read(f, what, spec):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what == "logZ" or what == "evidence":
                n = NPAR[spec["model"]]
                lim = [[-10.0] * n, [10.0] * n]
                fn = f.getLogZ if what == "logZ" else f.getEvidence
                return float(fn(limits=lim, noiseLimits=spec.get("noise")))
            if what == "mcerr":
                return np.asarray(f.monteCarloError()).tolist()
            if what == "weights":
                v = f.weights
                return None if v is None else np.asarray(v, dtype=float).tolist()
            v = getattr(f, what)
    except (AttributeError, ValueError, RuntimeError, ArithmeticError, np.linalg.LinAlgError, TypeError) as e:
        return "%s" % type(e).__name__
    return np.asarray(v, dtype=float).tolist()


def close(a, b, rtol=1e-9, atol=0.0):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = np.max(np.abs(b[np.isfinite(b)])) if np.any(np.isfinite(b)) else 1.0
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(np.abs(b), 1e-6 * s) + atol)
    return bool(np.all(ok))


# ------------------------------------------------------------------------------ operations
def genfit(rng, spec, kinds=("fit",), keepprob=0.3, allow=("weights", "accuracy", "par0", "opts", "verbose")):
    n = NPAR[spec["model"]]
    lin = spec["fitter"] in FITTERS_LIN
    op = dict(op=rng.choice(kinds), data=rng.randrange(3), p0=rng.randrange(1 << 30))
    if "weights" in allow and rng.random() < 0.45:
        op["weights"] = dict(seed=rng.randrange(1 << 30), zeros=rng.choice((0, 0, 2)), int=rng.random() < 0.2)
    if op["op"] in ("fit", "robust") and "accuracy" in allow and rng.random() < 0.3:
        op["accuracy"] = rng.choice((dict(seed=rng.randrange(1 << 30)), dict(value=0.3)))
    if rng.random() < keepprob:
        op["keep"] = genkeep(rng, spec)
    if op["op"] in ("fit",) and not lin:
        if "par0" in allow and rng.random() < 0.35:
            op["par0"] = rng.randrange(1 << 30)
            op["par0list"] = rng.random() < 0.3
        if "opts" in allow and spec["fitter"] not in ("Curve",) and rng.random() < 0.3:
            op["opts"] = rng.choice((dict(maxiter=rng.choice((60, 300))), dict(tolerance=rng.choice((1e-3, 1e-6))), dict(maxiter=3)))
        if spec["fitter"] == "Amoeba" and rng.random() < 0.3:
            op.setdefault("opts", {})["temp"] = rng.choice((0.1, 1.0))
            op["opts"]["seed"] = rng.randrange(1 << 30)
    if op["op"] == "robust":
        op["kernel"] = rng.choice(("Biweight", "Huber", "Cosine", "CauchyKernel"))
    return op


def CAUCHY(x):
    return 1.0 / (1.0 + np.square(x))


def kernel(name):
    b = B()
    if name == "CauchyKernel":
        return CAUCHY
    return getattr(b, name)()


def genkeep(rng, spec, most=None):
    n = NPAR[spec["model"]]
    k = rng.randint(1, min(most or n - 1, n - 1, 2 if spec["fitter"] not in ("Amoeba",) else max(1, n - 2)))
    if spec["fitter"] == "Amoeba" and n - k < 2:
        k = n - 2
    if k < 1:
        return None
    t = TRUTH[spec["model"]]
    return {str(i): round(t[i] * rng.uniform(0.9, 1.1), 4) for i in sorted(rng.sample(range(n), k))}


class Args:
    """the arrays of the user, and copies to compare with afterwards"""
    def __init__(self, spec, x, op):
        n = len(x)
        self.y = data(spec, x, spec["dataseeds"][op["data"]])
        if op.get("outliers"):
            self.y, _ = outliers(self.y, op["outliers"]["seed"], op["outliers"]["n"], op["outliers"]["size"])
        if op.get("jiggle"):
            # differences of the order of rounding: does the outcome depend on them?
            self.y = self.y * (1 + 4e-16 * np.random.RandomState(op["jiggle"]).randint(-2, 3, n))
        self.w = weights(op.get("weights"), n)
        self.a = accuracy(op.get("accuracy"), n)
        self.keep = keepdict(op.get("keep"))
        self.par0 = None
        if "par0" in op:
            self.par0 = start(spec, op["par0"])
            if op.get("par0list"):
                self.par0 = self.par0.tolist()
        self.saved = self.snap()

    def snap(self):
        return [repr(np.asarray(v).tolist()) if v is not None and not isinstance(v, dict) else repr(sorted(v.items())) if v else repr(v)
                for v in (self.y, self.w, self.a, self.keep, self.par0)]

    def changed(self):
        now = self.snap()
        return [nm for nm, u, v in zip(("ydata", "weights", "accuracy", "keep", "initial parameters"), self.saved, now) if u != v]


def do(f, m, spec, op, args):
    """carry out the fit of an op on fitter f; returns parameters"""
    kw = {}
    if args.w is not None:
        kw["weights"] = args.w
    if args.keep is not None:
        kw["keep"] = args.keep
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op["op"] == "modelFit":
            f.modelFit(args.y, **kw)
            return m.parameters
        if op["op"] == "limitsFit":
            return f.limitsFit(args.y, **kw)
        if args.a is not None:
            kw["accuracy"] = args.a
        if args.par0 is not None:
            kw["inipar" if spec["fitter"] == "Curve" else "par0"] = args.par0
        if spec["fitter"] not in FITTERS_LIN + ("Curve",):
            kw["verbose"] = 0
        kw.update(op.get("opts") or {})
        if op["op"] == "robust":
            for k in ("verbose",):
                kw.pop(k, None)
            sh = B().RobustShell(f, kernel=kernel(op["kernel"]), verbose=0, maxIter=op.get("maxIter", 20),
                                 **({"domain": 4.0} if op["kernel"] == "CauchyKernel" else {}))
            return sh.fit(args.y, **kw)
        return f.fit(args.y, **kw)


def rounding(want, fn, op, tol, key=None):
    """whether the outcome of the reference fn( op ) itself hangs on rounding: such outcomes are not compared"""
    from . import fresh
    for j in range(1, 7):
        w = fresh.fresh(lambda: fn(dict(op, jiggle=j)))
        if isinstance(w, list):
            if len(w) != len(want) or not all(close(a, b, tol) for a, b in zip(w, want)):
                return True
        elif set(w) != set(want) or not all(close(w[q], want[q], tol) for q in want):
            return True
    return False


FITERR = (AttributeError, ValueError, RuntimeError, ArithmeticError, np.linalg.LinAlgError, TypeError, IndexError, KeyError)


def outcome(f, m, spec, op, args, reads, extra=()):
    """parameters (or the name of the error) and the reads asked for"""
    from BayesicFitting import ConvergenceError
    out = {}
    try:
        p = do(f, m, spec, op, args)
        out["parameters"] = np.asarray(p, dtype=float).tolist()
    except FITERR + (ConvergenceError,) as e:
        out["error"] = type(e).__name__
        return out
    for r in reads:
        out[r] = read(f, r, spec)
    out["model"] = np.asarray(m.parameters, dtype=float).tolist()
    return out


def genspec(rng, fitters, linear=None):
    fk = rng.choice(fitters)
    if fk in FITTERS_LIN:
        mk = rng.choice(LINEAR)
    else:
        mk = rng.choice(NONLIN + ("poly1", "harm"))
    if fk == "Amoeba" and NPAR[mk] < 3 and rng.random() < 0.7:
        mk = "gauss"
    spec = dict(model=mk, fitter=fk, npts=rng.randint(14, 40), xseed=rng.randrange(1 << 30),
                dataseeds=[rng.randrange(1 << 30) for _ in range(3)])
    return spec
