#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
S = "BayesicFitting/source/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith("docs") else f for f in files],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

SEED1 = "the tests run one fixed seed and one configuration each and look at the final numbers only; an excursion at one iteration is averaged away"

p("P01", "Hard likelihood constraint of nested sampling",
  "During a nested sampling run the discarded points are always the lowest-likelihood live points, every replacement ends at a likelihood not below the current threshold, and no live point ever lies below that threshold. Consequently the log-likelihoods of the recorded samples never decrease over the course of the run. This holds for every engine and engine mix, problem type, error distribution, discard number and random sequence, with or without threads, also where the likelihood is -inf or NaN in part of the parameter space.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every random sequence, engine mix, configuration, thread schedule and pattern of invalid likelihood values",
  SEED1, ["NestedSampler.py", "Explorer.py", "Engine.py", "GalileanEngine.py", "ChordEngine.py", "GibbsEngine.py", "StepEngine.py", "RandomEngine.py", "BirthEngine.py", "DeathEngine.py", "StructureEngine.py"],
  [("sort, discard and replace", "NestedSampler.py:sample"), ("acceptance Ltry >= lowLhood", "*Engine.py:execute"), ("post-condition", "Explorer.py:exploreWalker")],
  [("walkers", "the live points", "NestedSampler.py"), ("lowLhood", "present threshold", "NestedSampler.py")],
  ["live walkers at every engine call", "samples after the run"])
p("P02", "Stored likelihoods belong to the stored parameters",
  "The log-likelihood kept with a live walker, a phantom or a recorded sample is at every moment the log-likelihood of the parameters, hyperparameters and model kept in that same object. Nothing that happens later in the run, or in another run, alters a sample that has already been recorded.",
  ["histories", "schedules", "configurations"],
  "every sequence of engine moves (births, deaths, knot moves, boosts, copies) and thread interleavings",
  "aliasing between walkers, phantoms and samples shows only for particular move sequences; tests never recompute stored likelihoods",
  ["Walker.py", "WalkerList.py", "Sample.py", "Engine.py", "PhantomCollection.py", "BirthEngine.py", "DeathEngine.py"],
  [("walkers copied before they are moved", "WalkerList.py:copy"), ("store of accepted trial", "Engine.py:setWalker"), ("conversion to sample", "Walker.py:toSample")],
  observe=["walkers, phantoms and samples at every iteration, against an independent likelihood"])
p("P03", "Walkers stay inside the priors and keep fixed values",
  "Every parameter and fitted hyperparameter of every live walker, phantom and recorded sample lies inside the domain of its prior. Parameters and hyperparameters that are kept fixed have exactly the given value in each of them, also when the best-walker boost is on.",
  ["histories", "configurations", "schedules"],
  "every random sequence (including extreme draws), every engine, every choice of kept parameters and prior limits",
  "tests use roomy priors and check averages; one walker across a boundary or one drifting fixed parameter does not show",
  ["NestedSampler.py", "Engine.py", "GalileanEngine.py", "ChordEngine.py", "GibbsEngine.py", "StepEngine.py", "RandomEngine.py", "StartEngine.py", "Prior.py"],
  [("list of fitted parameters", "NestedSampler.py:makeFitlist"), ("moves in unit space", "Engine.py:unit2Domain"), ("reflection on the unit box", "GalileanEngine.py:trialStep"), ("boost", "Engine.py:doBoost")],
  observe=["walkers, phantoms, samples"])
p("P04", "Evidence, information and weights account for the samples",
  "Each discarded point contributes its likelihood times its prior mass: the fraction 1 - exp(-1/n) of the prior mass that is left, which then shrinks by exp(-1/n), n being the number of live points not yet discarded in that step (at the end of the run all live points are discarded in one step). The evidence is the sum of all contributions. The information is the weighted mean log-likelihood minus log Z, the weights in the final sample list are the contributions normalised to sum to one, and the reported parameters, hyperparameters and their standard deviations are the weighted moments of that list; sampler and sample list report the same evidence.",
  ["histories", "configurations"],
  "every run: any iteration count, discard number, ensemble size, early stop, weeding",
  "tests compare the evidence to a reference within a wide tolerance; an error of one width or one weight stays within it",
  ["NestedSampler.py", "SampleList.py", "Walker.py"],
  [("accumulation", "NestedSampler.py:updateEvidence"), ("normalisation", "SampleList.py:normalize"), ("moments", "SampleList.py:averstd")],
  observe=["samples, evidence, information, precision, parameters and stdevs after the run"])
p("P05", "No walker or sample is lost or duplicated",
  "A run of I iterations with D discards per iteration and N walkers records exactly I*D + N samples with distinct, consecutive identities: each discarded point exactly once, and each final live point exactly once. The ensemble always consists of N walkers with distinct identities, and with a maximum size given the resulting sample list is never larger than that size and only lowest-weight samples are left out.",
  ["histories", "configurations", "schedules"],
  "every run length, discard number, ensemble, maximum size, copy mode and thread schedule",
  "tests never count samples against iterations, nor look at identities",
  ["NestedSampler.py", "SampleList.py", "WalkerList.py"],
  [("record", "NestedSampler.py:updateEvidence"), ("identity kept over copies", "WalkerList.py:copy"), ("weeding", "SampleList.py:weed")],
  observe=["samples and walkers"])
p("P06", "A nested sampling run always ends by its stopping rule",
  "A run stops after the minimum number of iterations as soon as, and not before, the last contribution to the evidence falls below the tolerance, the iteration count exceeds the end criterion (end * N * information / discard), or it exceeds the maximum number of iterations. Every exploration takes a bounded number of likelihood evaluations, whatever the random sequence and even when the likelihood has plateaus or becomes -inf or NaN everywhere outside the live points. When no valid starting point can be found an error is raised instead of looping on.",
  ["histories", "fault_sequences", "configurations"],
  "every random sequence, likelihood plateau, region of invalid likelihood and stopping parameter",
  "a test that loops for ever is not written; existing tests have smooth likelihoods",
  ["NestedSampler.py", "Explorer.py", "StartEngine.py", "GibbsEngine.py", "ChordEngine.py", "StepEngine.py"],
  [("stopping rule", "NestedSampler.py:nextIteration"), ("trials limit", "Explorer.py:exploreWalker"), ("start limit", "StartEngine.py:execute")],
  observe=["iteration count, likelihood evaluations per exploration, return or error"])
p("P07", "The phantom collection is sorted, cropped and bounds the walkers",
  "Whatever the order in which points are stored and ranges are requested, also from several threads at once, the phantom collection (one list per model size for dynamic models) is ordered by log-likelihood, every stored point is kept until the threshold passes it, and the points below the threshold are dropped when a range is requested at a higher threshold. The range returned is the minimum and maximum of the parameters of the points that were retained when it was last computed.",
  ["histories", "schedules"],
  "every sequence of store and range requests with equal, rising and falling likelihoods and thresholds, and every interleaving of threads doing so",
  "only ends of ordinary runs are tested; ordering, cropping and lost insertions influence efficiency first and correctness silently",
  ["PhantomCollection.py", "WalkerList.py"],
  [("ordered insertion", "WalkerList.py:insertWalker"), ("cropping", "WalkerList.py:cropOnLow"), ("range", "PhantomCollection.py:getParamMinmax")],
  [("phantoms", "list, or dict of lists per number of parameters", "PhantomCollection.py")],
  ["collection content after every operation, against a reference model"])
p("P08", "Threaded exploration is safe under every interleaving",
  "With threads on, a nested sampling run over a valid problem completes without error for every interleaving of the exploring threads. Every walker to be explored is explored exactly once per iteration, no thread outlives the iteration, all guarantees on thresholds, stored likelihoods, prior domains and sample counts hold as without threads, and the engine reports are the sum of what the threads did.",
  ["schedules"],
  "every interleaving of exploring threads at source-line granularity",
  "threads are used in one module that is excluded from the stable tests, under whatever schedule the OS happens to choose",
  ["Explorer.py", "PhantomCollection.py", "Engine.py", "ErrorDistribution.py"],
  [("thread per walker", "Explorer.py:explore"), ("engine copies", "Engine.py:copy"), ("shared phantoms", "PhantomCollection.py")],
  [("threadErrors", "errors seen in threads", "Explorer.py")],
  ["run outcome, walkers, phantoms, engine reports"])
p("P09", "A failure while exploring surfaces and is contained",
  "When the likelihood, the model or the user's constraint raises during a run, with or without threads, the call to sample raises too, promptly, after all its threads have ended; it never hangs and never returns an evidence. (An analytic derivative that fails is replaced by a numerical one, by design.) The failure leaves nothing behind: another run in the same process, of the same or another sampler, behaves as it would in a fresh process.",
  ["fault_sequences", "crash_points", "schedules"],
  "every likelihood evaluation at which an error can be raised, in every thread and interleaving",
  "no test injects a failing likelihood",
  ["Explorer.py", "NestedSampler.py"],
  [("thread errors collected and raised", "Explorer.py:explore"), ("error capture", "Explorer.py:run")],
  observe=["outcome of the failing run and of the next one"])
p("P10", "Same seed, same run, independent of the surroundings",
  "A nested sampling run without threads is completely determined by its inputs and its seed: two runs give identical samples, evidence, information and engine reports. It does not matter what else happened in the process: the state of numpy's global random generator, verbosity, hash seed, other samplers that ran before or whose iterations are interleaved with it; and the run itself leaves numpy's global random generator as it was.",
  ["histories", "schedules", "configurations"],
  "every interleaving with other users of the library and every state of global generators",
  "the test suite seeds the global generator before every test, which hides any dependence on it",
  ["NestedSampler.py", "NestedSolver.py", "Engine.py", "StartOrderEngine.py", "Explorer.py", "Dynamic.py"],
  [("own generators", "NestedSampler.py:__init__"), ("seeded engines", "NestedSampler.py:setEngines")],
  observe=["digest of samples and reports"])
p("P11", "A sampler can be run again",
  "Calling sample once more on the same sampler performs a complete new run: its sample list holds only samples of that run, and its evidence, information, weights and counts obey the same rules as those of a first run; with the same random numbers it finds the same samples as a new sampler would. This holds after a completed run and after a run that ended in an error, and for a changed keep, tolerance or iteration limit.",
  ["histories", "fault_sequences"],
  "every history of completed and failed calls on one sampler object",
  "each test makes a new sampler",
  ["NestedSampler.py", "PhantomSampler.py", "NestedSolver.py", "PhantomCollection.py"],
  [("initialisation per run", "NestedSampler.py:initSample"), ("phantoms made in the constructor", "NestedSampler.py:setEngines")],
  observe=["samples, evidence, iteration of every call"])
p("P12", "Monte Carlo errors are seeded, isolated and correct",
  "The Monte Carlo error of a fit depends only on the fit (model, parameters, covariance), the points and the seed: not on the global random state, on earlier or interleaved use of other instances, and it leaves numpy's global generator and the model's parameters unchanged. It agrees, within the noise of its number of drawings, with the propagation of the covariance matrix.",
  ["histories", "schedules", "inputs"],
  "every history of calls on several instances interleaved with other users of the global generator",
  "tests seed the global generator and compare one instance only",
  ["MonteCarlo.py", "BaseFitter.py"], [("drawing from the covariance", "MonteCarlo.py:randomVariant"), ("error", "MonteCarlo.py:getError")],
  observe=["errors returned, global generator state, model parameters"])
p("P13", "A failed or interrupted fit does no lasting damage",
  "When a fit is cut short by an exception at any evaluation of the model or by an interrupt, the exception reaches the caller, the caller's arrays (xdata, ydata, weights, initial parameters, keep) are unchanged, and the lists of fixed and fitted parameters of fitter and model are as they were before the call. A following fit with the same fitter then gives the same result as with a new fitter and model.",
  ["crash_points", "fault_sequences"],
  "every model evaluation at which the fit can be cut short, for each fitter",
  "no test interrupts a fit",
  ["BaseFitter.py", "Fitter.py", "QRFitter.py", "LevenbergMarquardtFitter.py", "CurveFitter.py", "ScipyFitter.py", "AmoebaFitter.py", "RobustShell.py", "MaxLikelihoodFitter.py", "IterativeFitter.py"],
  [("fit prolog and epilog", "BaseFitter.py:fitprolog"), ("parameters inserted", "BaseFitter.py:insertParameters")],
  observe=["inputs, fitIndex, result of the next fit"])
p("P14", "Fit results do not depend on the fitter's history",
  "The parameters, chi-squared, scale and standard deviations that a fit returns depend only on the model, data, weights, accuracy, keep and options of that call, not on which fits the same fitter made before: with other data, with or without weights or accuracy, with other kept parameters, limited or robust. The same holds for the hessian, covariance and evidence asked after the fit. Fits never modify the arrays handed to them, nor the results of earlier fits.",
  ["histories"],
  "every sequence of fit calls with differing arguments on one fitter object",
  "tests use a fitter once or twice in a fixed order",
  ["BaseFitter.py", "Fitter.py", "QRFitter.py", "LevenbergMarquardtFitter.py", "CurveFitter.py", "AmoebaFitter.py", "ScipyFitter.py", "IterativeFitter.py"],
  [("cached decomposition", "QRFitter.py:solve"), ("covariance, chisq and scale", "BaseFitter.py"), ("state of iteration", "LevenbergMarquardtFitter.py:fit")],
  observe=["result of the last fit against the same fit by a fresh fitter"])
p("P15", "Kept parameters stay kept, for exactly the promised scope",
  "Parameters in keep have exactly their given values in the result, and the others are fitted as if the model had those values built in. A keep given to the constructor of a fitter holds for all its fits, one given to a fit holds for that fit only (parameters kept by the constructor have zero standard deviation), whatever the order of such calls and whether or not a call failed.",
  ["histories", "fault_sequences"],
  "every sequence of fits with and without keep, at both scopes, including failing ones",
  "tests use one scope at a time, in one order",
  ["BaseFitter.py", "Fitter.py", "QRFitter.py", "LevenbergMarquardtFitter.py", "AmoebaFitter.py", "ScipyFitter.py", "CurveFitter.py", "FixedModel.py"],
  [("scope of keep", "BaseFitter.py:keepFixed"), ("restoration", "BaseFitter.py:fitpostscript")],
  observe=["parameters, stdevs, fitIndex after each call"])
p("P16", "Iterative fitters stop: converged result or ConvergenceError",
  "Every iterative fitter ends within its iteration limits, either with a finite result, whose reported chi-squared is that of its parameters, or with an error; the library's own minimisers (Levenberg-Marquardt, amoebas) never end worse than where they started. This also holds when the model or data yield NaN or infinite values at any evaluation, or a singular or flat problem. It never loops for ever and never returns NaN parameters as a successful fit of finite data.",
  ["fault_sequences", "inputs"],
  "every evaluation at which the model may return NaN or inf and every pattern of such returns",
  "tests contain well-behaved problems only",
  ["LevenbergMarquardtFitter.py", "AnnealingAmoeba.py", "AmoebaFitter.py", "ScipyFitter.py", "MaxLikelihoodFitter.py", "RobustShell.py", "IterativeFitter.py", "ConvergenceError.py"],
  [("iteration limit", "LevenbergMarquardtFitter.py:trialfit"), ("annealing loop", "AnnealingAmoeba.py:minimize")],
  observe=["outcome and number of evaluations"])
p("P17", "The annealing amoeba returns the best point it evaluated",
  "Whatever the temperature scheme, seed, limits and function, the annealing amoeba returns a point whose stated function value is the function at that point, that is not higher than any value it has evaluated inside the limits, and that lies within the limits. Every function evaluation is inside the limits, the starting point given by the user is not modified, and equal seeds give equal results.",
  ["histories", "inputs", "fault_sequences"],
  "every random sequence, temperature scheme and set of one- or two-sided limits",
  "tests check convergence on a few functions with one seed",
  ["AnnealingAmoeba.py", "AmoebaFitter.py"],
  [("bookkeeping of the best", "AnnealingAmoeba.py:checkSimplex"), ("limits", "AnnealingAmoeba.py:stayInLimits"), ("trial steps", "AnnealingAmoeba.py:trialStep")],
  observe=["all function evaluations, result"])
p("P18", "Robust fitting: sound weights, bounded, and no lasting effect",
  "The robust shell ends within its iteration limit; the weights it uses in each fit are those of its kernel at the residuals of the fit before (in units of the scale), lie between 0 and 1 and multiply the user's weights, whose array stays unchanged. With a redescending kernel a small grossly deviating minority of points cannot pull the result away from the bulk, and afterwards the wrapped fitter behaves as if it had never been wrapped; failures inside the wrapped fitter reach the caller.",
  ["histories", "fault_sequences", "inputs"],
  "every outlier pattern, kernel, sequence of robust and ordinary fits, and failure of an inner fit",
  "tests use one data set with given outliers",
  ["RobustShell.py", "kernels/Kernel.py", "kernels/Huber.py", "kernels/Biweight.py"],
  [("reweighting loop", "RobustShell.py:fit"), ("kernel and influence function", "RobustShell.py:setKernel")],
  observe=["weights, parameters, inner fitter"])
p("P19", "Births and deaths keep dynamic models consistent",
  "After every sequence of growth and shrinkage, anywhere in a chain of models and under any random choices, a dynamic model has as many components as births minus deaths within its minimum and maximum, its number of parameters, parameter list, names and list of fitted parameters agree with it, and the surviving components and all other models of the chain keep their parameter values. A model that grew (or shrank) evaluates like one constructed with that number of components, and refused changes leave it untouched.",
  ["histories"],
  "every sequence of births and deaths for each dynamic model, position in a chain and random sequence",
  "tests do a handful of births and deaths in a fixed order",
  ["Dynamic.py", "PolynomialDynamicModel.py", "HarmonicDynamicModel.py", "SplinesDynamicModel.py", "RepeatingModel.py", "DecisionTreeModel.py", "BirthEngine.py", "DeathEngine.py"],
  [("grow and shrink", "Dynamic.py:grow"), ("parameter bookkeeping", "Dynamic.py:alterParameters"), ("fit index", "Dynamic.py:alterFitindex")],
  observe=["model attributes and results after each operation"])
p("P20", "Knots of modifiable splines stay valid",
  "Under every sequence of knot variations, insertions and removals the knots of modifiable and dynamic splines models stay strictly increasing with fixed end points and at least the required distance, and their number agrees with the number of parameters. A variation that is refused leaves the model as it was, and a variation never changes the walkers, copies or samples made from it earlier.",
  ["histories"],
  "every random sequence of variations, births and deaths",
  "the test module on modifiable models is not part of the stable tests and checks few steps",
  ["SplinesDynamicModel.py", "BasicSplinesModel.py", "Modifiable.py", "StructureEngine.py", "DecisionTreeModel.py"],
  [("knot move", "SplinesDynamicModel.py:vary"), ("structure engine", "StructureEngine.py:executeOnce")],
  observe=["knots, parameters, results of model and of earlier copies"])
p("P21", "Copies are independent of their originals",
  "A copy of a model (simple, compound or dynamic), prior, problem, walker, sample or error distribution evaluates identically to its original. No later operation on either one - changing parameters, priors, limits, growing, shrinking, varying, extending the chain, fitting - changes what the other evaluates to.",
  ["histories"],
  "every interleaving of operations on a copy and on its original, for every model class",
  "tests compare a copy directly after copying, for some models",
  ["FixedModel.py", "Model.py", "BaseModel.py", "BracketModel.py", "CombiModel.py", "RepeatingModel.py", "Prior.py", "Problem.py", "Walker.py", "Sample.py"],
  [("copy constructors", "Model.py:copy")],
  observe=["results, parameters, priors of both"])
p("P22", "The nested solver keeps valid orders and its best solution",
  "Each order that the nested solver keeps is a permutation of the nodes, its stored cost equals minus the summed distance along that order, and it is not worse than the threshold of its iteration. In each iteration only the worst solutions are replaced, each by an admissible one; the others stay as they are, so the best is never lost: the solution returned is at least as good as every solution that was live at the end of any iteration. Every engine of the solver can be used on its own or in any mix.",
  ["histories", "configurations", "schedules"],
  "every random sequence, engine mix, distance type, weights, and thread schedule",
  "the solver tests are not part of the stable tests; they look at the final distance only",
  ["NestedSolver.py", "OrderEngine.py", "StartOrderEngine.py", "MoveEngine.py", "ReverseEngine.py", "ShuffleEngine.py", "SwitchEngine.py", "LoopEngine.py", "NearEngine.py", "SalesmanProblem.py", "DistanceCostFunction.py"],
  [("moves in order space", "MoveEngine.py:executeOnce"), ("storing the trial", "Engine.py:setWalker"), ("solution", "NestedSolver.py:solve")],
  observe=["walkers after every engine call, samples, solution"])
p("P23", "The phantom sampler keeps a valid ensemble of the right size",
  "In a phantom sampler run every iteration discards the given percentage (at least one) of the lowest live points and keeps all other live points, all points added in exchange are at or above the threshold with true likelihoods inside the priors, and after the exchange the ensemble has its initial size again. Every discarded and final point is recorded exactly once, the recorded likelihoods never decrease, and the evidence follows from them as in ordinary nested sampling.",
  ["histories", "configurations"],
  "every random sequence, step percentage, engine mix and ensemble size",
  "its tests are not part of the stable tests",
  ["PhantomSampler.py", "Explorer.py", "Engine.py", "WalkerList.py"],
  [("refill and thin", "PhantomSampler.py:updateWalkers"), ("appending accepted trials", "WalkerList.py:setWalker")],
  observe=["walkers at every iteration, samples, evidence"])
p("P24", "Start and exploration engines sample the constrained prior",
  "Starting walkers are distributed as the prior, for all prior types and kept parameters. An exploration engine that starts from points distributed as the prior above a likelihood threshold leaves them distributed so: in the long run no region of the constrained prior is shut out, favoured or unreachable.",
  ["histories", "configurations"],
  "every random sequence (in distribution), engine, prior and kept parameters",
  "tests judge final parameter averages of one seed; a biased engine remains within their tolerance",
  ["StartEngine.py", "GalileanEngine.py", "ChordEngine.py", "GibbsEngine.py", "StepEngine.py", "RandomEngine.py", "Engine.py", "Prior.py"],
  [("starting", "StartEngine.py:execute"), ("proposal and acceptance", "*Engine.py:execute"), ("range", "Engine.py:getUnitRange")],
  observe=["distribution of walkers over many simulated ensembles"])
p("P25", "Nested sampling evidence is right within its stated precision",
  "Over all seeds the evidence of a nested sampling run agrees with the analytically known value to within a few times its stated precision, without systematic offset, for standard priors and error distributions, with and without fitted scale, for any discard number. The posterior means and standard deviations agree with the analytic posterior in the same sense.",
  ["histories", "configurations"],
  "all seeds (in distribution), problems with analytic evidence, discard numbers, engines",
  "one seed per test cannot show a systematic offset",
  ["NestedSampler.py", "Explorer.py", "SampleList.py", "GaussErrorDistribution.py"],
  [("accumulation", "NestedSampler.py:updateEvidence"), ("exploration", "Explorer.py:exploreWalker")],
  observe=["evidence and moments over many seeds"])
p("P26", "Reporting never influences the results",
  "Verbosity, printing, iteration reports and plotting have no influence on the outcome of a nested sampling run or a fit: same samples, evidence and parameters for every verbosity level. With verbosity 0 nothing is printed, and process-wide settings (numpy print options, error and warning settings, random state) are the same after a run or fit as before.",
  ["configurations", "histories"],
  "every verbosity level, plotting choice and sampler or fitter",
  "tests run at one verbosity and ignore output and settings",
  ["NestedSampler.py", "Explorer.py", "AnnealingAmoeba.py", "IterationPlotter.py", "Formatter.py", "Plotter.py", "LevenbergMarquardtFitter.py", "RobustShell.py", "BaseFitter.py"],
  [("reports", "NestedSampler.py:iterReport"), ("verbose consistency checks", "Explorer.py:exploreWalker")],
  observe=["digest of results, captured output, numpy settings"])
p("P27", "Results read from a sample list do not depend on reading order",
  "What a sample list reports - averages, standard deviations, maximum-likelihood, median and modus items, model average and its Monte Carlo error, weights - is a function of the samples and of the arguments of the query: the same in whatever order and however often it is asked, also for different x-values. Maximum-likelihood results belong to the sample with the highest likelihood.",
  ["histories"],
  "every order and repetition of queries, with samples added or weights renormalised in between",
  "tests ask each item once in a fixed order",
  ["SampleList.py", "Sample.py"],
  [("computed attributes", "SampleList.py:__getattr__"), ("cached average", "SampleList.py:monteCarloError")],
  observe=["answers against a reference computed from the samples"])
p("P28", "Engines are scheduled and counted as documented",
  "In every exploration round each selected engine is called once, in random order: engines without a slow setting always, one with slow = n only at iterations divisible by n, until enough moves are made or the trials run out. The counts reported are true: likelihood calls equal the evaluations made, and success and call counts of each engine equal the accepted moves and the calls made, with or without threads.",
  ["histories", "schedules", "configurations"],
  "every random sequence, slow setting, rate and thread interleaving",
  "tests do not look at engine selection or counters",
  ["Explorer.py", "Engine.py", "ErrorDistribution.py"],
  [("selection", "Explorer.py:selEngines"), ("counters", "Engine.py:reportCall"), ("merge of thread reports", "Explorer.py:explore")],
  observe=["calls seen by instrumented engines and likelihoods"])
# ---------------------------------------------------------------- not applicable
NA = "a deterministic function of its arguments: no schedule, clock, I/O, randomness, fault or history"
def na(id, title, statement, files, mech, text="all inputs"):
    p(id, title, statement, ["inputs"], text, "tests sample a few inputs", files, mech)
na("P40", "Partial derivatives agree with the models",
   "For every model, chain, bracket and error distribution the analytic partial derivatives to parameters and to x equal the derivatives of the result.",
   ["FixedModel.py", "Model.py", "BracketModel.py", "CombiModel.py"], [("partials", "BaseModel.py:partial")])
na("P41", "Prior transformations are inverse and monotonic",
   "For every prior, unit2Domain is the monotonic inverse of domain2Unit on its (limited, circular or zero-offset) domain, and results integrate to the unit interval.",
   ["Prior.py", "UniformPrior.py", "JeffreysPrior.py", "GaussPrior.py", "LaplacePrior.py", "CauchyPrior.py", "ExponentialPrior.py", "CircularUniformPrior.py"], [("transform", "Prior.py:unit2Domain")])
na("P42", "Linear fits are the least-squares optimum",
   "Fitter and QRFitter return the weighted least-squares solution, with covariance the inverse Hessian scaled by the noise.",
   ["Fitter.py", "QRFitter.py", "BaseFitter.py"], [("normal equations", "Fitter.py:fit")])
na("P43", "Likelihoods are normalised densities",
   "The error distributions are normalised probability densities of the data at any scale, power, weight and accuracy.",
   ["GaussErrorDistribution.py", "LaplaceErrorDistribution.py", "CauchyErrorDistribution.py", "ExponentialErrorDistribution.py", "UniformErrorDistribution.py", "MixedErrorDistribution.py"], [("data likelihood", "ErrorDistribution.py:logLdata")])
na("P44", "Weight n equals a point present n times",
   "A data point with weight n has the same influence on parameters, chi-squared, likelihood and evidence as n identical points.",
   ["BaseFitter.py", "Problem.py"], [("weighted residuals", "Problem.py:weightedResSq")])
na("P45", "Model algebra follows arithmetic",
   "Sums, differences, products, quotients, pipes and brackets of models evaluate as the arithmetic on their results, with parameters in the order of construction.",
   ["Model.py", "BracketModel.py", "CombiModel.py"], [("chain", "Model.py:result")])
na("P46", "Analytic evidence of linear and nonlinear fits",
   "The Gaussian-approximated evidence of a fitter equals the analytic integral for linear models with uniform priors and noise scale limits.",
   ["BaseFitter.py"], [("evidence", "BaseFitter.py:getLogZ")])
na("P47", "Splines are continuous and differentiable as their order promises",
   "Spline models are piecewise polynomials with continuous derivatives up to order - 1 at the knots.",
   ["SplinesModel.py", "BasicSplinesModel.py", "BSplinesModel.py"], [("splines", "SplinesModel.py:basePartial")])
na("P48", "Kepler's equation is solved for every eccentricity",
   "Orbit models solve Kepler's equation to machine precision for all mean anomalies and eccentricities below one.",
   ["Kepplers2ndLaw.py", "StellarOrbitModel.py", "RadialVelocityModel.py"], [("eccentric anomaly", "Kepplers2ndLaw.py:eccentricAnomaly")])
na("P49", "Image mapping is a bijection",
   "ImageAssistant maps image pixels to index arrays and back without loss.",
   ["ImageAssistant.py"], [("mapping", "ImageAssistant.py:getIndices")])
na("P50", "Formatter output is faithful",
   "Formatted numbers and arrays show the values given, within the chosen format, without altering them.",
   ["Formatter.py"], [("formatter", "Formatter.py:formatter")])
na("P51", "Orthonormal basis and kernels are what they say",
   "Generated directions are orthonormal to the earlier ones; kernels are normalised with the stated width.",
   ["OrthonormalBasis.py", "kernels/Kernel.py"], [("Gram-Schmidt", "OrthonormalBasis.py:normalise")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
