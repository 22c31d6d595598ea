"""Histories of operations on originals and their copies: whatever is done to one, the others evaluate as before."""
import math, random, warnings
import numpy as np
from .. import sched as _sched

RUNS = dict(quick=1400, thorough=40000)
RULE = "one evaluation is one history of copies and operations; distinct by the digest of all evaluations"
REAL = "the whole library: models, priors, error distributions, problems, walkers, samples and the fitters used as operations"
STUBS = "user functions of UserModel and of SalesmanProblem; seeded generators handed to grow, shrink and vary"
ASSUMPTIONS = ["problems and walkers share their data arrays and static models by design: only their own state is checked, and models that are dynamic or modifiable",
               "a copy is compared with its original to 1e-11 (cached matrices may be rebuilt), later evaluations of an untouched object exactly"]
STATES = "distinct (class, operation, number of relatives alive) met, hashed"
LISTS = ("ops",)

K = [0.0, 0.7, 1.1, 1.6, 2.0]
X1 = np.array([0.1, 0.35, 0.8, 1.25, 1.5, 1.9])
X2 = np.array([[0.1, 0.2], [0.4, 1.7], [0.9, 0.6], [1.3, 1.1], [1.8, 0.3], [1.95, 1.5]])


def B():
    import BayesicFitting as b
    return b


def uresult(x, p):
    return p[0] * np.sin(p[1] * x)


def F(b):
    """factories of models"""
    f = {}
    for n in ("ArctanModel", "EtalonModel", "ExpModel", "GaussModel", "LogisticModel", "LorentzModel", "PowerLawModel", "PseudoVoigtModel",
              "SincModel", "SineDriftModel", "SineModel", "VoigtModel", "KernelModel", "RadialVelocityModel", "EtalonDriftModel", "Kernel2dModel"):
        f[n] = (lambda c: lambda r: getattr(b, c)())(n)
    f["SinePhase"] = lambda r: b.SineModel(phase=True)
    f["ExpDecay"] = lambda r: b.ExpModel(decay=True)
    f["PolynomialModel"] = lambda r: b.PolynomialModel(r.randint(0, 3))
    f["ChebyshevPolynomialModel"] = lambda r: b.ChebyshevPolynomialModel(r.randint(1, 3))
    f["HarmonicModel"] = lambda r: b.HarmonicModel(r.randint(1, 2), period=r.choice((1.0, 1.7)))
    f["PowerModel"] = lambda r: b.PowerModel(exponent=r.choice((0, 1, 2)))
    f["PadeModel"] = lambda r: b.PadeModel(1, 2)
    f["SineAmpModel"] = lambda r: b.SineAmpModel(1.3)
    f["PolySineAmpModel"] = lambda r: b.PolySineAmpModel(1, 1.3)
    f["SplinesModel"] = lambda r: b.SplinesModel(knots=np.array(K), order=r.choice((1, 2, 3)))
    f["BasicSplinesModel"] = lambda r: b.BasicSplinesModel(knots=np.array(K), order=r.choice((1, 2, 3)))
    f["BSplinesModel"] = lambda r: b.BSplinesModel(knots=np.array(K), order=r.choice((2, 3)))
    f["SineSplineModel"] = lambda r: b.SineSplineModel(1.1, np.array(K), order=2)
    f["SineSplineDriftModel"] = lambda r: b.SineSplineDriftModel(np.array(K), order=2)
    f["SurfaceSplinesModel"] = lambda r: b.SurfaceSplinesModel([np.array(K), np.array(K[::2])], order=1)
    f["PolySurfaceModel"] = lambda r: b.PolySurfaceModel(r.randint(1, 2))
    f["ProductModel"] = lambda r: b.ProductModel([b.PolynomialModel(1), b.GaussModel()])
    f["FreeShapeModel"] = lambda r: b.FreeShapeModel(5, xlo=0.0, xhi=2.0)
    f["UserModel"] = lambda r: b.UserModel(2, uresult, userName="user")
    f["ConstantModel"] = lambda r: b.ConstantModel(values=[0.7])
    f["ConstantTable"] = lambda r: b.ConstantModel(table=np.linspace(0, 1, len(X1)))
    f["Bracket"] = lambda r: b.BracketModel(f["Sum"](r))
    f["Combi"] = lambda r: b.CombiModel(b.GaussModel(), 3, addCombi={1: [0.0, 0.3, 0.5]}, mulCombi={2: [1.0, 1.0, 2.0]})
    f["FixedGauss"] = lambda r: b.GaussModel(fixed={1: 0.6})
    f["FixedModelPar"] = lambda r: b.GaussModel(fixed={0: b.PolynomialModel(1)})
    f["FixedModelPar2"] = lambda r: b.ArctanModel(fixed={2: 0.7, 0: b.PolynomialModel(1)})
    f["FootballModel"] = lambda r: b.FootballModel(3)
    f["SoftMaxModel"] = lambda r: b.SoftMaxModel(ndim=1, ndout=2, offset=True)
    f["StellarOrbitModel"] = lambda r: b.StellarOrbitModel()
    f["PolyDyn"] = lambda r: b.PolynomialDynamicModel(r.randint(0, 2), maxDegree=r.choice((None, 4)))
    f["HarmDyn"] = lambda r: b.HarmonicDynamicModel(1, maxOrder=r.choice((None, 3)), period=1.1)
    f["SplinesDyn"] = lambda r: b.SplinesDynamicModel(nrknots=r.randint(3, 5), min=0.0, max=2.0, order=r.choice((1, 2, 3)), maxKnots=r.choice((None, 7)))
    f["Tree"] = lambda r: b.DecisionTreeModel(ndim=2, depth=r.randint(0, 2), kdim=[0, 1, 1, 0], split=0.4)
    f["Repeat"] = lambda r: b.RepeatingModel(r.randint(1, 2), b.GaussModel(), minComp=1, maxComp=r.choice((None, 3)))
    f["RepeatSame"] = lambda r: b.RepeatingModel(2, b.GaussModel(), same=2, minComp=1, dynamic=r.random() < 0.6)
    f["Sum"] = lambda r: chain(b.PolynomialModel(1), b.GaussModel(), r)
    f["Sum3"] = lambda r: chain(chain(b.SineModel(), b.PolynomialModel(0), r), b.ExpModel(), r)
    f["Pipe"] = lambda r: pipe(b.PolynomialModel(1), b.SineModel())
    f["Nested"] = lambda r: chain(b.PolynomialModel(1), f["Sum"](r), r)
    f["DynSum"] = lambda r: add(b.GaussModel(), f["PolyDyn"](r))
    f["DynSum2"] = lambda r: add(f["SplinesDyn"](r), b.ExpModel())
    f["SumFixed"] = lambda r: add(b.PolynomialModel(1), f["FixedModelPar"](r))
    return f


def chain(m, n, r):
    o = r.choice("+-*")
    if o == "+":
        m += n
    elif o == "-":
        m -= n
    else:
        m *= n
    return m


def add(m, n):
    m += n
    return m


def pipe(m, n):
    m |= n
    return m


def priors(b, r):
    c = r.randrange(9)
    lo = r.uniform(-3, -1)
    return (lambda: b.UniformPrior(limits=[lo, lo + 6]), lambda: b.GaussPrior(center=lo, scale=2.0), lambda: b.LaplacePrior(scale=1.5),
            lambda: b.CauchyPrior(center=0.5, scale=2.0), lambda: b.JeffreysPrior(limits=[0.1, 10.0]), lambda: b.ExponentialPrior(scale=2.0),
            lambda: b.UniformPrior(limits=[-2.0, 2.0], circular=True), lambda: b.GaussPrior(center=1.0, scale=1.0, limits=[-1.0, 4.0]),
            lambda: b.CircularUniformPrior(limits=[0.0, 3.0]) if hasattr(b, "CircularUniformPrior") else b.UniformPrior(limits=[0.0, 3.0]))[c]()


# ------------------------------------------------------------------------------------------ evaluations
def val(f):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            v = f()
    except RecursionError:
        raise
    except Exception as e:
        return "raises " + type(e).__name__
    return v


def flat(v):
    """nested lists of floats, strings, ints"""
    if v is None or isinstance(v, (str, bool, int)):
        return v
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [flat(x) for x in v] if v.ndim else flat(v.item())
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, dict):
        return [[str(k), flat(v[k])] for k in sorted(v, key=str)]
    return str(v)


def same(a, b, tol=0.0):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, int) and isinstance(b, float) and not isinstance(a, bool) or isinstance(b, int) and isinstance(a, float) and not isinstance(b, bool):
        a, b = float(a), float(b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * (1 + abs(a))
    return a == b and type(a) == type(b)


def xdata(m):
    if type(m).__name__ == "FootballModel":
        return np.array([[0, 1], [1, 2], [2, 0], [1, 0]])
    if m.ndim == 1:
        return X1.copy()
    return X2.copy() if m.ndim == 2 else np.repeat(X2, 2, axis=1)[:, :m.ndim].copy()


def parlists(m, n):
    r = random.Random(1000 + n)
    return [np.array([r.uniform(0.3, 1.4) for _ in range(n)]), np.array([r.uniform(-1.2, 1.5) for _ in range(n)])]


def prior_print(p):
    d = [type(p).__name__, bool(val(p.isBound)), bool(p.isCircular()), flat(p.lowLimit), flat(p.highLimit), flat(val(lambda: p.getIntegral()))]
    for u in (0.1, 0.4, 0.5, 0.77):
        d.append(flat(val(lambda: p.unit2Domain(u))))
    for x in (-1.3, 0.3, 0.9, 2.2):
        d += [flat(val(lambda: p.domain2Unit(x))), flat(val(lambda: p.result(x))), flat(val(lambda: p.logResult(x))), flat(val(lambda: p.partialLog(x)))]
    d += [flat(getattr(p, "center", None) if "center" in p.__dict__ else None), flat(p.__dict__.get("scale")), str(p)]
    return d


def model_print(m, heavy=True):
    d = dict(name=str(m), short=val(m.shortName), np=int(m.npchain), pars=flat(m.parameters), sd=flat(m.stdevs), dyn=[m.isDynamic(), m.isModifiable()],
             units=[str(m.xUnit), str(m.yUnit)], own=flat(val(lambda: m.result(xdata(m), m.parameters.copy()))))
    n = int(m.npchain)
    x = xdata(m)
    for i, p in enumerate(parlists(m, n)):
        d["res%d" % i] = flat(val(lambda: m.result(x.copy(), p.copy())))
        if heavy:
            d["part%d" % i] = flat(val(lambda: m.partial(x.copy(), p.copy())))
    if heavy:
        d["deriv"] = flat(val(lambda: m.derivative(x.copy(), parlists(m, n)[0])))
        d["num"] = flat(val(lambda: m.numPartial(x.copy(), parlists(m, n)[0])))
    d["names"] = [flat(val(lambda: m.getParameterName(k))) for k in range(n)]
    d["hasp"] = [flat(val(m.hasPriors)), flat(val(m.hasLimits))]
    d["pri"] = [val(lambda: prior_print(m.getPrior(k))) for k in range(n)]
    for k in ("growPrior",):
        q = part(m)
        if q is not None and getattr(q, "growPrior", None) is not None:
            d["grow"] = prior_print(q.growPrior)
            d["comp"] = [flat(val(lambda: q.ncomp)), flat(val(lambda: q.minComp)), flat(val(lambda: q.maxComp))]
    c = m
    e = []
    while c is not None:
        e.append([int(c.npbase), flat(c.posIndex), flat(c.nonZero), flat(c.deltaP), flat(c.tiny), flat(c.__dict__.get("knots")), flat(c.__dict__.get("table"))])
        c = c._next
    d["chain"] = e
    return d


def part(m):
    """the dynamic or modifiable part of a chain, and its offset"""
    b = B()
    while m is not None and not isinstance(m, (b.Dynamic, b.Modifiable)):
        m = m._next
    return m


def offset(m):
    b = B()
    off = 0
    while m is not None and not isinstance(m, (b.Dynamic, b.Modifiable)):
        off += m.npbase
        m = m._next
    return off


# ------------------------------------------------------------------------------------------ objects under test
class Obj:
    """one party: a model, prior, error distribution, problem or walker with what it evaluates to"""
    def __init__(self, kind, o, fam, ops):
        self.kind, self.o, self.fam, self.ops = kind, o, fam, ops
        self.fp = None

    def print(self, heavy=True):
        return PRINT[self.kind](self.o)


def dist_print(e):
    b = B()
    nh = len(e.hyperpar)
    pr, nd = RIG["problem"](e)
    d = dict(cls=type(e).__name__, name=str(e), hyp=flat(e.hypar), nh=nh, dp=flat(e.deltaP), con=e.constrain is not None,
             fixed=flat(e.fixed if hasattr(e, "fixed") else None), bound=flat(val(e.isBound)), sd=[flat(h.stdev) for h in e.hyperpar],
             isfixed=[flat(h.__dict__.get("isFixed")) for h in e.hyperpar])
    d["pri"] = [None if h.prior is None else prior_print(h.prior) for h in e.hyperpar]
    p = np.append(nd, [0.8, 1.3, 0.4][:nh])
    d["logl"] = flat(val(lambda: e.logLikelihood(pr, p.copy())))
    d["part"] = flat(val(lambda: e.partialLogL(pr, p.copy(), np.arange(len(nd)))))
    return d


def problem_print(q):
    d = dict(cls=type(q).__name__, name=str(q), w=flat(q.weights), hasw=q.hasWeights(), sw=flat(val(lambda: q.sumweight)), varyy=flat(q.varyy), hasacc=flat(q.hasAccuracy),
             acc=flat(q.accuracy), np=int(q.npars), nd=int(q.ndata))
    if q.model is not None and (q.model.isDynamic() or q.model.isModifiable()):
        d["model"] = model_print(q.model, heavy=False)
    if hasattr(q, "distance"):
        o = list(range(int(q.npars)))
        d["dis"] = [flat(val(lambda: q.result(np.array(o)))), flat(val(lambda: q.result(np.array(o[::-1])))), flat(q.scale), flat(val(lambda: q.parameters)),
                    flat(val(lambda: q.minimumDistance())), flat(q.oneway)]
        return d
    n = int(q.npars)
    p = parlists(None, n)[0]
    if type(q).__name__ == "ErrorsInXandYProblem":
        d["varxx"] = [flat(q.varxx), flat(q.varxy), flat(q.determinant)]
        d["pri"] = None if q.prior is None else prior_print(q.prior)
    d["res"] = flat(val(lambda: q.result(p.copy())))
    d["ssq"] = flat(val(lambda: q.weightedResSq(p.copy())))
    d["unit"] = [flat(val(lambda: q.unit2Domain(0.3, k))) for k in range(n)]
    return d


def walker_print(w):
    d = dict(id=int(w.id), par=flat(w.allpars), fi=flat(w.fitIndex), L=flat(w.logL), lp=flat(w.logPrior), parent=int(w.parent), start=int(w.start))
    d["prob"] = problem_print(w.problem)
    d["own"] = flat(val(lambda: w.problem.result(w.allpars[:w.problem.npars].copy())))
    return d


def sample_print(s):
    d = dict(id=int(s.id), par=flat(s.parameters), fi=flat(s.fitIndex), L=flat(s.logL), W=flat(s.logW), parent=int(s.parent), start=int(s.start),
             hyp=flat(s.hyper) if hasattr(s, "hyper") else None, nuis=flat(s.nuisance) if hasattr(s, "nuisance") else None)
    d["model"] = model_print(s.model, heavy=False)
    return d


RIG = {}
PRINT = dict(model=model_print, prior=prior_print, dist=dist_print, problem=problem_print, walker=walker_print, sample=sample_print)


def rig(b):
    """a fixed small problem of its own for the likelihoods of the error distributions"""
    m = b.PolynomialModel(1)
    y = np.array([1.0, 2.0, 1.0, 0.0, 1.0, 1.0])

    def problem(e):
        if isinstance(e, b.Gauss2dErrorDistribution):
            q = b.ErrorsInXandYProblem(m, xdata=X1, ydata=y, accuracy=0.3, prior=b.UniformPrior(limits=[-1, 1]))
            return q, np.append([0.3, 0.2], X1)
        if isinstance(e, b.ModelDistribution):
            d = b.PolynomialDynamicModel(1)
            d.setLimits([-10.0], [10.0])
            return b.EvidenceProblem(d, xdata=X1, ydata=y), np.array([0.3, 0.2])
        return b.ClassicProblem(m, xdata=X1, ydata=y), np.array([0.3, 0.2])
    RIG["problem"] = problem


def dists(b, r):
    lim = r.choice((None, [0.1, 10.0]))
    f = dict(gauss=lambda: b.GaussErrorDistribution(scale=0.6, limits=lim), laplace=lambda: b.LaplaceErrorDistribution(scale=0.6, limits=lim),
             cauchy=lambda: b.CauchyErrorDistribution(scale=0.6, limits=lim), uniform=lambda: b.UniformErrorDistribution(scale=3.0, limits=lim),
             poisson=lambda: b.PoissonErrorDistribution(), bernoulli=lambda: b.BernoulliErrorDistribution(),
             exponential=lambda: b.ExponentialErrorDistribution(scale=0.6, power=1.4, limits=None if lim is None else [[0.1, 0.5], [10.0, 4.0]]),
             mixed=lambda: b.MixedErrorDistribution(b.GaussErrorDistribution(scale=0.6, limits=lim), b.LaplaceErrorDistribution(scale=1.5, limits=lim), fraction=0.3, limits=[0.0, 1.0]),
             gauss2d=lambda: b.Gauss2dErrorDistribution(scale=0.6, limits=lim),
             model=lambda: b.ModelDistribution(scale=0.6, limits=lim, **r.choice(({}, dict(fixedScale=0.4)))) if False else b.ModelDistribution(scale=0.6, limits=lim))
    k = r.choice(sorted(f))
    return f[k]()


def problems(b, r):
    y = np.array([1.0, 2.0, 1.0, 0.0, 1.0, 1.0])
    k = r.choice(("classic", "classicdyn", "evidence", "xy", "sales", "salestab", "salesuser", "multi"))
    w = r.choice((None, np.array([1.0, 2.0, 1.0, 0.5, 1.0, 1.0])))
    if k == "classic":
        m = b.PolynomialModel(1)
        m.setLimits([-3.0] * 2, [3.0] * 2)
        return b.ClassicProblem(m, xdata=X1.copy(), ydata=y, weights=w, accuracy=r.choice((None, 0.2)))
    if k in ("classicdyn", "evidence"):
        m = F(b)[r.choice(("PolyDyn", "HarmDyn", "SplinesDyn"))](r)
        m.setLimits([-3.0] * min(2, m.npchain), [3.0] * min(2, m.npchain))
        return (b.ClassicProblem if k == "classicdyn" else b.EvidenceProblem)(m, xdata=X1.copy(), ydata=y, weights=w)
    if k == "xy":
        m = b.PolynomialModel(1)
        m.setLimits([-3.0] * 2, [3.0] * 2)
        return b.ErrorsInXandYProblem(m, xdata=X1.copy(), ydata=y, weights=w, accuracy=r.choice((None, 0.3, [0.2, 0.1])), prior=b.UniformPrior(limits=[-1.0, 1.0]))
    if k == "multi":
        m = b.StellarOrbitModel()
        return b.MultipleOutputProblem(m, xdata=X1.copy(), ydata=np.outer(y, [1.0, 0.5]))
    n = 6
    if k == "sales":
        return b.SalesmanProblem(xdata=X2.copy(), weights=w, distance=r.choice(("euclid", "manhattan", "spherical")), oneway=r.random() < 0.3)
    if k == "salesuser":
        return b.SalesmanProblem(xdata=X2.copy(), weights=w, distance=userdist)
    t = np.abs(np.subtract.outer(X2[:, 0], X2[:, 1])) + 0.3
    return b.SalesmanProblem(xdata=X2.copy(), weights=w, distance="table", table=t)


def userdist(xdata, pars, roll=1):
    x = xdata[pars]
    return np.sum(np.abs(x - np.roll(x, -roll, axis=0)) ** 3, axis=1)


# ------------------------------------------------------------------------------------------ operations
class Boom(Exception):
    pass


def op_model(b, m, op, r):
    """one documented operation on a model"""
    n = int(m.npchain)
    q = part(m)
    if op == "pars":
        m.parameters = np.array([r.uniform(0.2, 1.5) for _ in range(n)])
    elif op == "par" and n:
        m.parameters[r.randrange(n)] = r.uniform(0.2, 1.5)
    elif op == "stdevs":
        m.stdevs = np.array([r.uniform(0.2, 1.5) for _ in range(n)])
    elif op == "stdev" and m.stdevs is not None and n:
        m.stdevs[r.randrange(n)] = 7.0
    elif op == "limits":
        lo = [r.uniform(-3, -1) for _ in range(n)]
        m.setLimits(lowLimits=lo, highLimits=[v + r.uniform(3, 6) for v in lo])
    elif op == "prior":
        for k in range(n):
            if m.isDynamic() and k > 0 and q is m:
                break
            m.setPrior(k, prior=priors(b, r))
    elif op == "priorlim" and n:
        m.setPrior(r.randrange(n), limits=[-r.uniform(1, 2), r.uniform(3, 5)])
    elif op == "priorobj" and n:
        p = m.getPrior(r.randrange(n))
        if r.random() < 0.5 or "scale" not in p.__dict__:
            p.setLimits([0.11, r.uniform(2.5, 6)])
        else:
            p.scale = r.uniform(1, 3)
    elif op == "grow" and q is not None and m.isDynamic():
        q.grow(offset=offset(m), rng=np.random.RandomState(r.randrange(1 << 30)))
    elif op == "shrink" and q is not None and m.isDynamic():
        q.shrink(offset=offset(m), rng=np.random.RandomState(r.randrange(1 << 30)))
    elif op == "vary" and q is not None and q.isModifiable():
        q.vary(rng=np.random.RandomState(r.randrange(1 << 30)))
    elif op == "growprior" and q is not None and getattr(q, "growPrior", None) is not None:
        p = q.growPrior
        p.setLimits([0, r.randint(3, 9)])
    elif op == "names" and n:
        c = m
        if len(c.parNames):
            c.parNames[r.randrange(len(c.parNames))] = "name%d" % r.randrange(99)
    elif op == "deltap":
        if r.random() < 0.5:
            m.deltaP = [r.uniform(0.001, 0.01)]
        else:
            m.deltaP[0] = r.uniform(0.001, 0.01)
    elif op == "tiny":
        m.tiny = r.uniform(1e-9, 1e-8)
    elif op == "posindex":
        m.posIndex = [0] if m.npbase else []
    elif op == "units":
        from astropy import units
        m.xUnit = [units.m] * m.ndim if m.ndim > 1 else units.m
        m.yUnit = units.kg
    elif op == "append":
        if m.ndim == 1 and not type(m).__name__ in ("SoftMaxModel",):
            chain(m, b.PolynomialModel(r.randint(0, 1)), r)
    elif op == "appendcopy":
        k = m.copy()
        if not (m.isDynamic() and k.isDynamic()) and m.chainLength() < 4:
            chain(m, k, r)
    elif op == "sum":
        k = b.PolynomialModel(0) if m.ndim == 1 else m
        if not (m.isDynamic() and k.isDynamic()) and m.chainLength() < 4:
            z = m + k
            z.parameters[:] = 0.123
            for i in range(len(z.parameters)):
                try:
                    z.setPrior(i, limits=[-0.2, 0.3])
                except Exception:
                    pass
    elif op == "isolate":
        k = r.randrange(m.chainLength())
        z = m.isolateModel(k)
        z.parameters[:] = 0.321
        z.setLimits([-0.4] * len(z.parameters), [0.5] * len(z.parameters))
    elif op == "eval":
        x = xdata(m)
        m.result(x, parlists(m, n)[1])
        m.partial(x, parlists(m, n)[1])
        m.derivative(x, parlists(m, n)[1])
    elif op == "knots" and isinstance(m.__dict__.get("knots"), np.ndarray):
        i = r.randrange(1, len(m.knots) - 1) if len(m.knots) > 2 else 0
        if i:
            k = m.knots.copy()
            k[i] += 0.2 * (k[i + 1] - k[i])
            if isinstance(m, b.BSplinesModel) or getattr(m, "_bspline", None) is not None:
                m.knots = k                      # a cached basis is only renewed for new knots
            else:
                m.knots[i] = k[i]
    elif op == "inner":
        # objects that were handed to the model by the user, reached through its attributes
        for a in ("fixedModel", "model", "pm", "cm", "sm"):
            z = m.__dict__.get(a)
            if isinstance(z, b.Model) and z.parameters is not None and len(z.parameters):
                z.parameters[:] = r.uniform(0.3, 2)
        if m.__dict__.get("models"):
            for z in m.models:
                z.setLimits([-0.6], [0.7])
                z.parameters[:] = 0.5
        if isinstance(m.__dict__.get("table"), np.ndarray):
            m.table[:] = 0.5
        if m.fixed is not None:
            for k in m.mlist:
                m.fixed[k].setLimits([-0.6], [0.7])
            for k in m.fixed:
                if k not in m.mlist:
                    m.fixed[k] = 0.9
    elif op == "fit":
        x = xdata(m)
        y = np.sin(np.arange(len(x)) * 1.0) + 2
        if m.ndim == 1:
            cls = b.LevenbergMarquardtFitter
            f = cls(x, m)
            f.fit(y, maxiter=8)
    elif op == "failfit":
        x = xdata(m)
        if m.ndim == 1:
            f = b.Fitter(x, m)
            f.fit(np.full(len(x), np.nan))
    elif op == "str":
        str(m), m.shortName()
        for k in range(n):
            m.getParameterUnit(k)


def op_prior(b, p, op, r):
    if op in ("nolim", "unset") and p.isCircular():
        return     # without limits there is no period
    if op == "lim":
        p.setLimits([0.2, r.uniform(3, 7)])
    elif op == "nolim":
        p.setLimits(None)
    elif op == "unset":
        p.unsetLimits()
    elif op == "attr":
        p.setAttributes(limits=[0.3, r.uniform(2, 7)], scale=r.uniform(0.5, 2) if "scale" in p.__dict__ else None)
    elif op == "scale" and "scale" in p.__dict__:
        p.scale = r.uniform(0.5, 2)
    elif op == "center" and "center" in p.__dict__ and not isinstance(p, b.ExponentialPrior):   # it has no center
        p.center = r.uniform(0.5, 2)
    elif op == "circ" and type(p).__name__ in ("UniformPrior", "GaussPrior", "LaplacePrior", "CauchyPrior"):
        p.setPriorAttributes([0.1, 5.0], True)


def cons(logL, problem, allpars, low):
    return min(logL, -1.0)


def op_dist(b, e, op, r):
    nh = len(e.hyperpar)
    if op == "lim" and nh == 1:
        e.setLimits([0.2, r.uniform(3, 8)])
    elif op == "lim" and nh > 1:
        e.setLimits([[0.2] * nh, [0.9] * nh])
    elif op == "priors" and nh:
        e.setPriors([b.JeffreysPrior(limits=[0.01, r.uniform(5, 9)]) for _ in range(nh)])
    elif op == "priorobj" and nh:
        e.hyperpar[r.randrange(nh)].prior.setLimits([0.3, 0.8])
    elif op == "hypar" and nh:
        e.hyperpar[r.randrange(nh)].hypar = r.uniform(0.2, 0.9)
    elif op == "scale" and isinstance(e, b.ScaledErrorDistribution):
        e.scale = r.uniform(0.2, 3)
    elif op == "keep" and nh:
        e.fixed = e.keepFixed({r.randrange(nh): r.uniform(0.2, 0.9)})
    elif op == "unkeep":
        e.fixed = e.keepFixed(None)
    elif op == "constrain":
        e.constrain = cons
    elif op == "deltap":
        e.deltaP = r.uniform(1e-5, 1e-4)
    elif op == "eval":
        dist_print(e)
    elif op == "fit":
        f = b.MaxLikelihoodFitter(X1, b.PolynomialModel(1), errdis=e)
        f.fit(np.array([1.0, 2.0, 1.0, 0.0, 1.0, 1.0]))


def op_problem(b, q, op, r):
    if op.startswith("xdata") and getattr(q, "disname", "").lower().startswith("spher"):
        return     # sines and cosines of the nodes are calculated once
    if op == "weights":
        q.weights = np.array([r.uniform(0.5, 2) for _ in range(6)])
    elif op == "acc":
        q.setAccuracy(accuracy=r.uniform(0.1, 0.5))
    elif op == "acc0":
        q.setAccuracy()
    elif op == "prior" and getattr(q, "prior", None) is not None and type(q).__name__ == "ErrorsInXandYProblem":
        q.prior.setLimits([-0.5, r.uniform(0.3, 2)])
    elif op == "eval":
        problem_print(q)
    elif op in ("grow", "shrink", "vary", "limits", "par", "prior2") and q.model is not None and (q.model.isDynamic() or q.model.isModifiable()):
        op_model(b, q.model, "prior" if op == "prior2" else op, r)
    elif op == "scale" and hasattr(q, "distance"):
        q.scale = r.uniform(1, 2)
    elif op == "oneway" and hasattr(q, "distance"):
        q.oneway = not q.oneway
    elif op == "table" and type(q).__name__ == "SalesmanProblem" and "table" in q.__dict__:
        q.table = q.table * r.uniform(1.1, 2)
    elif op == "xdata":
        q.xdata = q.xdata * 1.1
    elif op == "xdata2" and type(q).__name__ == "SalesmanProblem":
        q.xdata = q.xdata[::-1].copy()


def op_walker(b, w, op, r):
    if op == "par":
        w.allpars[r.randrange(len(w.allpars))] = r.uniform(0.2, 0.9)
    elif op == "logl":
        w.logL = r.uniform(-9, 0)
    elif op == "findex" and w.fitIndex is not None:
        w.fitIndex[r.randrange(len(w.fitIndex))] = 0
    elif op == "ids":
        w.id, w.parent, w.start = r.randrange(99), r.randrange(99), r.randrange(99)
    elif op == "sample":
        w.toSample(-1.0)
    else:
        op_problem(b, w.problem, op, r)


def op_sample(b, s, op, r):
    if op == "par":
        s.parameters[r.randrange(len(s.parameters))] = r.uniform(0.2, 0.9)
    elif op == "hyp" and hasattr(s, "hyper"):
        s.hyper[0] = r.uniform(0.2, 0.9)
    elif op == "w":
        s.logW = r.uniform(-9, 0)
    elif op == "findex" and s.fitIndex is not None:
        s.fitIndex[0] = 3
    else:
        op_model(b, s.model, op, r)


OPS = dict(model=("pars", "par", "par", "stdevs", "stdev", "limits", "limits", "prior", "prior", "priorlim", "priorobj", "grow", "grow", "grow", "shrink", "vary", "vary",
                  "growprior", "names", "deltap", "tiny", "posindex", "units", "append", "appendcopy", "sum", "isolate", "eval", "knots", "inner", "fit", "failfit", "str"),
           prior=("lim", "nolim", "unset", "attr", "scale", "center", "circ"),
           dist=("lim", "priors", "priorobj", "hypar", "scale", "keep", "unkeep", "constrain", "deltap", "eval", "fit"),
           problem=("weights", "acc", "acc0", "prior", "eval", "grow", "grow", "shrink", "vary", "limits", "par", "prior2", "scale", "oneway", "table", "xdata", "xdata2"),
           walker=("par", "par", "logl", "findex", "ids", "sample", "weights", "acc", "prior", "eval", "grow", "grow", "shrink", "vary", "limits"),
           sample=("par", "par", "hyp", "w", "findex", "grow", "shrink", "vary", "limits", "prior", "priorobj", "pars"))
OPF = dict(model=op_model, prior=op_prior, dist=op_dist, problem=op_problem, walker=op_walker, sample=op_sample)


def gen(rng, i, tier):
    kind = rng.choice(("model",) * 10 + ("prior", "dist", "dist", "problem", "problem", "walker", "walker", "sample"))
    p = dict(kind=kind, seed=rng.randrange(1 << 30), pre=rng.randint(0, 4))
    if kind == "model":
        names = sorted(F(None))
        p["cls"] = names[i % len(names)] if rng.random() < 0.7 else rng.choice(("PolyDyn", "HarmDyn", "SplinesDyn", "Tree", "Repeat", "RepeatSame", "DynSum", "DynSum2", "Sum3", "Nested", "Combi"))
    if kind in ("walker", "sample"):
        p["cls"] = rng.choice(("PolyDyn", "HarmDyn", "SplinesDyn", "DynSum", "PolynomialModel", "DynSum2"))
    ops = []
    for _ in range(rng.randint(4, 16)):
        if rng.random() < 0.28:
            ops.append(["copy", rng.randrange(6)])
        else:
            ops.append([rng.choice(OPS[kind]), rng.randrange(6), rng.randrange(1 << 30)])
    ops.insert(0, ["copy", 0])
    p["ops"] = ops
    if kind == "model" and rng.random() < 0.12:
        p["threads"] = dict(mode="random", seed=rng.randrange(1 << 30), p=rng.choice((0.01, 0.1, 0.3)), hot=0.0, hotfiles=[], budget=20_000_000)
    return p


def shrink(p):
    if p.get("threads"):
        yield {k: v for k, v in p.items() if k != "threads"}
    if p.get("pre"):
        yield dict(p, pre=p["pre"] - 1)
        yield dict(p, pre=0)


def make(b, p, r):
    kind = p["kind"]
    if kind == "prior":
        return priors(b, r)
    if kind == "dist":
        return dists(b, r)
    if kind == "problem":
        return problems(b, r)
    m = F(b)[p["cls"]](r)
    if kind == "model":
        return m
    n = int(m.npchain)
    m.setLimits([-2.0] * n, [2.0] * n) if not m.isDynamic() else [m.setPrior(k, limits=[-2.0, 2.0]) for k in range(n) if k < 1 or m.chainLength() > 1 or p["cls"] == "HarmDyn" and k < 2]
    m.parameters = np.array([r.uniform(0.2, 1.0) for _ in range(n)])
    if kind == "walker":
        q = b.ClassicProblem(m, xdata=X1.copy(), ydata=X1 + 1)
        return b.Walker(3, q, np.append(m.parameters, 0.5), np.append(np.arange(n), [-1]), logL=-2.0, parent=1, start=0)
    s = b.Sample(3, 1, 0, m, parameters=m.parameters.copy(), fitIndex=np.append(np.arange(n), [-1]))
    s.hyper = [0.5]
    return s


def run(p, ctx):
    b = B()
    rig(b)
    r = random.Random(p["seed"])
    o = make(b, p, r)
    kind = p["kind"]
    tag = p.get("cls") or type(o).__name__
    f, pr = OPF[kind], PRINT[kind]

    def do(x, op, seed, why):
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                f(b, x, op, random.Random(seed))
        except RecursionError:
            raise
        except Exception as e:
            ctx.fault("operation raised " + type(e).__name__)
            ctx.count("raised:" + op)
    for j in range(p["pre"]):
        do(o, r.choice(OPS[kind]), r.randrange(1 << 30), "pre")
    objs = [(o, pr(o))]
    if p.get("threads"):
        return threaded(p, ctx, b, objs, do, pr, tag)
    for n, op in enumerate(p["ops"]):
        k = op[1] % len(objs)
        x, fx = objs[k]
        if op[0] == "copy":
            if len(objs) > 7:
                continue
            try:
                c = x.copy()
            except Exception as e:
                ctx.fail("copy.raises:%s:%s" % (tag if kind == "model" else kind, type(e).__name__), "%s cannot be copied: %s: %s" % (tag, type(e).__name__, e))
            fc = pr(c)
            diff(ctx, "copy.differs", tag, "the copy of object %d differs from it" % k, fx, fc, 1e-11, op="copy")
            objs.append((c, fc))
            ctx.count("copies")
        else:
            do(x, op[0], op[2], "")
            objs[k] = (x, pr(x))
            ctx.fault("operation " + op[0])
            ctx.state(tag, op[0], len(objs))
        for j, (y, fy) in enumerate(objs):
            if op[0] == "copy" or j != k:
                diff(ctx, "changed", tag, "operation %d: %s on object %d changed object %d" % (n, op[0], k, j), fy, pr(y), 0.0, op=op[0])
        ctx.ev(op, str(objs[k][1])[:2000])


def diff(ctx, cls, tag, what, a, c, tol, op=""):
    if isinstance(a, dict):
        for key in a:
            if key not in c or not same(a[key], c[key], tol):
                ctx.fail("%s:%s:%s:%s" % (cls, tag, op, key.rstrip("01")), "%s: %s: %s was %s, is %s" % (tag, what, key, str(a[key])[:600], str(c.get(key))[:600]))
    elif not same(a, c, tol):
        ctx.fail("%s:%s:%s" % (cls, tag, op), "%s: %s: was %s, is %s" % (tag, what, str(a)[:900], str(c)[:900]))


def threaded(p, ctx, b, objs, do, pr, tag):
    """two parties each work on their own copy, interleaved by line; each must end as when it works alone"""
    import threading
    o, fo = objs[0]
    mine = [op for op in p["ops"] if op[0] != "copy"]
    sets = [[op for op in mine if op[1] % 2 == j] for j in (0, 1)]
    alone = []
    for j in (0, 1):
        c = o.copy()
        for op in sets[j]:
            do(c, op[0], op[2], "")
        alone.append(pr(c))
    cs = [o.copy(), o.copy()]
    ctx.count("copies", 4)

    def work(j):
        for op in sets[j]:
            f = OPF["model"]
            try:
                with np.errstate(all="ignore"):
                    f(b, cs[j], op[0], random.Random(op[2]))
            except RecursionError:
                raise
            except Exception:
                pass
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with _sched.Scheduler(p["threads"], on_deadlock=lambda m: ctx.fail_now("stuck", m)) as s:
            ctx.sched = s
            ts = [threading.Thread(target=work, args=(j,)) for j in (0, 1)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        ctx.fault("thread switches", s.switches)
    ctx.count("threaded")
    for j in (0, 1):
        diff(ctx, "interleaved", tag, "copy %d ends differently when its sibling is worked on at the same time" % j, alone[j], pr(cs[j]), 0.0, op="threads")
    diff(ctx, "changed", tag, "working on copies in threads changed the original", fo, pr(o), 0.0, op="threads")
    ctx.ev(str(alone)[:4000])
