import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
ME="stheno/model/measure.py"; GPF="stheno/model/gp.py"; OB="stheno/model/observations.py"; FD="stheno/model/fdd.py"; RA="stheno/random.py"; LA="stheno/lazy.py"; MO="stheno/mo/"

p("C01","A measure is one consistent joint Gaussian, whatever the build/query history",
"Processes built in a measure by adding, subtracting, negating, scaling (by numbers or functions), dividing by numbers, multiplying (moment matching), shifting, stretching, selecting dimensions, transforming inputs and taking finite-difference derivatives have exactly the mean function, variance and pairwise covariance that the operation defines in terms of its operands. This holds for every pair of processes of the measure in both argument orders, no matter when, in which order and how often means and covariances are asked for, and no matter which further processes are built in between.",
["histories","schedules","inputs"],"every interleaving of several clients' construction and evaluation steps on shared measures, for every expression over the operations and all inputs",
"Tests build a handful of fixed two- or three-process models and query them once, after construction; covariances are derived lazily from rules that snapshot the set of processes at registration time and are then cached, so correctness depends on the order of registrations and queries, which the tests do not vary.",
[ME,GPF,LA],[("rules registered per process (left/right), symmetrised by reversing",ME+": Measure._update"),("sum/mul/shift/stretch/select/transform definitions",ME),("finite-difference construction",GPF+": GP.diff_approx"),("first query builds and caches",LA+": LazyTensor._get")],
[("kernels / means","lazy joint covariance and mean of the measure",ME)],["f(x).mean/.var","cross(f, g)(x).var","Measure.kernels/means"])

p("C02","Conditioning gives the exact Gaussian posterior for every conditioning history",
"For every process of a measure, and every pair, the mean and covariance under a measure conditioned on noisy or noise-free observations equal the Gaussian conditional of the prior joint, up to the library's documented numerical regularisation. Conditioning on several observations at once, in several steps, in any order, through any of the equivalent call forms, or by reusing one observation object across several measures, all give that same posterior; so does further modelling on top of a posterior.",
["histories","schedules","inputs"],"every sequence of conditioning steps, splittings and orders of the data, call forms, noise forms (none, scalar, vector, matrix), observation-object reuse, model extension before and after conditioning",
"Tests check a few fixed chains of at most two conditioning steps; posterior means and kernels are built lazily from shared, id-keyed caches inside the observation object, so results can depend on which measure or process was queried first.",
[ME,OB,FD],[("posterior rules close over observations and prior",ME+": Measure.condition"),("cached data kernel matrix per measure",OB+": Observations.K_x"),("noise as structured matrix",FD+": _noise_as_matrix"),("joint observations",OB+": combine")],
[("_K_x","data kernel matrix cached per measure identity",OB)],["post(f)(x).mean/.var","(f | (f(x), y))(z)"])

p("C03","Existing models and caller data are never changed by later operations",
"Conditioning a measure, extending a prior or a posterior, evaluating, sampling, naming and printing leave every distribution already obtained, every other measure (the prior and sibling posteriors) and every process's statistics under them unchanged. They also never modify the arrays, noise matrices, observation objects or random states (other than the one being drawn from) that the caller passed in.",
["histories","schedules"],"every interleaving of operations by clients that share priors, posteriors, observation objects and input arrays",
"Tests never re-examine the prior or a sibling posterior after conditioning and extending; sharing of process lists, index sets and noise matrices between measures is an aliasing matter only histories expose.",
[ME,OB,GPF,FD],[("posterior copies process list and index set",ME+": Measure.condition"),("rules freeze their index sets",LA+": add_rule/add_left_rule/add_right_rule"),("noise is combined into new matrices",OB+": AbstractPseudoObservations._compute")],
[("ps / _pids","members of a measure",ME),("_measures","measures a process belongs to",GPF)],["values of previously created FDDs and fresh FDDs of old processes"])

p("C04","Missing observations are equivalent to never having been part of the data",
"If an arbitrary subset of the observed values is lost (NaN), then conditioning, joint conditioning over several processes, pseudo-point approximations and log-densities give exactly the result obtained from the remaining observations with their own inputs and noise. This includes multi-output observations, vector or matrix noise, the case that everything is lost, and any mixture of lossy and complete observations in one history.",
["fault_sequences","histories","inputs"],"every subset of lost observations in every step of every conditioning history, for single- and multi-output inputs and all noise forms",
"Tests drop one fixed prefix of a single-output data set, and one entry of a 3-vector in a log-density.",
[OB,FD,RA,"stheno/mo/kernel.py"],[("mask of available values applied to inputs, noise and values",OB+": AbstractObservations.__init__"),("taking from structured multi-output inputs",FD+": take, _take_x"),("taking in multi-output kernels","stheno/mo/kernel.py: _take_x"),("log-density with missing values",RA+": Normal.logpdf")],(),["post(f)(x)","f(x).logpdf(y)","Measure.logpdf"])

p("C05","Pseudo-point posteriors and ELBOs follow their definitions across reuse",
"For the VFE, FITC and DTC approximations the approximate posterior mean and covariance of every process, and the objective, equal their defining formulas for the given inducing points and diagonal noise; the VFE objective never exceeds the exact log-marginal likelihood and all three are exact when the inducing points determine the data. This holds whichever of the posterior, the objective or another measure's results was asked for first from the same observation object, however often, and non-diagonal noise is rejected each time.",
["histories","schedules","inputs"],"every order and repetition of objective/posterior queries against one observation object under several measures, every method, single or multiple inducing sets, observation sets and noise forms",
"Tests check only the exactness case of a few fixed models, one query order, one measure per object.",
[OB],[("computed once per measure and cached by identity",OB+": AbstractPseudoObservations._compute, K_z, elbo, mu, A"),("posterior via subspace correction",OB+": posterior_kernel, posterior_mean")],
[("_K_z/_elbo/_mu/_A","per-measure caches",OB)],["obs.elbo(measure)","Measure.logpdf(obs)","(measure | obs)(f)(x)"])

p("C06","Samples have the right law and consume only the given randomness",
"A sample equals the mean plus a linear map of the standard-normal numbers drawn, whose covariance is the distribution's variance plus any requested noise, with independent numbers for each requested sample; jointly sampling several finite-dimensional distributions uses the joint law under the measure asked and returns one array of the right size for each. With an explicit random state only that state is consumed, results are a deterministic function of it and no other stream is touched, whatever other clients draw in between; without one, exactly the global stream is consumed.",
["schedules","histories","fault_sequences","inputs"],"every interleaving of clients drawing from explicit and global random states, every number of samples, noise level and collection of finite-dimensional distributions, and failures of the randomness source",
"Tests compare empirical moments with a 5e-2 tolerance for one distribution, and one repeated-seed comparison without interleaving.",
[RA,ME],[("sampling threads the random state",RA+": Normal.sample"),("joint sampling and unpacking",ME+": Measure.sample"),("joint FDD",OB+": combine")],[("random state","explicit or global generator state","lab (dependency)")],["f(x).sample","Measure.sample"])

p("C07","Derived processes belong to the measures common to all their operands, in order",
"A process derived from others belongs to precisely the measures all its operands belong to, and its primary measure is the operands' primary measure, independently of how many posteriors exist and of where objects live in memory. Processes with different primary measures cannot be combined: the attempt is refused and has no effect.",
["histories","schedules","configurations"],"every history of constructing, conditioning and combining, under every assignment of memory addresses (hash order)",
"Tests use at most two measures per process and one run's memory layout; with more measures the outcome can depend on hash iteration order.",
[GPF,ME],[("assert_same_measure and intersection of measure groups",GPF+": intersection_measure_group"),("processes record their measures",ME+": _add_p, condition")],[("_measures","ordered measures of a process",GPF)],["p.measure","post(p)","p.mean/p.kernel"])

p("C08","The default measure is scoped to its with-block, on every exit path",
"Inside `with measure:` every process created without an explicit measure belongs to the innermost active measure; an explicit measure always wins. Leaving a block, normally or through any exception, restores exactly the default that was active on entry, including for nested blocks, re-entered and reused measures, so that outside all blocks every such process gets a fresh measure of its own.",
["histories","fault_sequences"],"every properly nested sequence of entering, re-entering, leaving and failing out of default-measure blocks, with failures at any point of the body",
"The single test nests two distinct measures once, without exceptions, re-entry or reuse.",
[ME,GPF],[("context manager saves and restores the default",ME+": Measure.__enter__, __exit__"),("constructor picks the measure",GPF+": GP.__init__")],[("Measure.default","currently active default",ME)],["GP(...).measure","Measure.default"])

p("C09","Names and processes form a bijection that failed namings leave intact",
"Within a measure names map one-to-one to processes: looking up a name gives the process last given it, looking up a process gives its current name, and re-naming frees the old name. Giving a name that another process of the measure already holds is refused, and a refused naming changes nothing.",
["histories","fault_sequences"],"every history of naming, re-naming, moving names, naming at construction, name collisions and look-ups over several measures",
"The test performs one rename, one move and one collision, and never looks at the state after the collision.",
[ME,GPF],[("two dictionaries kept in step",ME+": Measure.name, __getitem__"),("name setter over all measures",GPF+": GP.name")],[("_gps_by_name/_names_by_gp","name registry",ME)],["measure[name]","measure[p]","p.name"])

p("C10","What a normal distribution reports does not depend on what was asked before",
"For every normal distribution or finite-dimensional distribution, each quantity it gives (mean, variance, diagonal, joint mean and variance, marginals, credible bounds, second moment, log-density, entropy, KL and Wasserstein distances, samples for given random numbers, and sums, scalings, linear images and diagonalisations) has the value determined by its dense mean and variance. The values and shapes are the same for every order and number of accesses, after failed accesses, after printing, and whether the distribution was specified eagerly or lazily.",
["schedules","histories","fault_sequences","inputs"],"every order and repetition of accesses by interleaved clients, with lazily evaluated constructors failing at any point, for eager, zero-mean, structured and lazy specifications",
"Tests exercise about a dozen hand-picked access orders; the accessors have interacting caches for mean, variance, diagonal and zero-mean flag, giving many more orders.",
[RA,FD],[("lazy resolution and caches",RA+": Normal._resolve_mean, _resolve_var, _resolve_var_diag, mean_var, marginals"),("lazy constructors of an FDD",FD+": FDD.__init__")],[("_mean/_var/_var_diag/_mean_is_zero","caches",RA)],["Normal and FDD public accessors"])

p("C11","Lazy vectors and matrices behave like their rule tables at all times",
"A lazy vector or matrix returns, for an index that was set, the value last set, and otherwise the value built by the first applicable rule (universal rules, then fixed-row rules, then fixed-column rules, each in the order added, over the index sets as they were when the rule was added), always the same value once built; indices without any applicable rule are refused. This holds for every interleaving of setting, adding rules, mutating the index sets passed in, and reading by object or by identity, also when a builder fails or itself reads the container.",
["histories","fault_sequences"],"every history of set, rule addition, index-set mutation, reads (including failing and re-entrant builders)",
"Tests cover fixed rule sets in two fixed access orders and no builder failures.",
[LA],[("store, rules, build on first access",LA+": LazyTensor._get, LazyVector._build, LazyMatrix._build"),("identity indexing",LA+": _resolve_index")],[("_store/_rules/_left_rules/_right_rules","cached values and rules",LA)],["LazyVector/LazyMatrix indexing"])

p("C12","A failed or interrupted operation leaves the model usable and unchanged",
"If building, conditioning, evaluating or sampling fails part-way - a user-supplied function raises, a matrix factorisation fails, memory runs out, the random source fails, the call is refused, or the caller is interrupted - the failure is propagated and everything that existed before keeps its correct statistics. Repeating the operation afterwards succeeds and gives the correct result, also when the abandoned objects' memory is reused by new objects.",
["fault_sequences","crash_points","histories"],"every fault kind at every point inside every operation of every history, followed by continued use and retries",
"No test makes anything fail inside an operation; caches and registries are updated in several steps, so partial updates are reachable only with faults at particular points.",
[ME,OB,RA,LA,GPF],[("values are cached only after they are built",LA+": LazyTensor._get"),("registration of a process in a measure",ME+": _update, add_independent_gp, _add_p"),("per-measure caches",OB+": K_x, _compute"),("lazy resolution",RA)],(),["all public results after the fault"])

p("C13","Concurrent use of a shared model gives the sequential results",
"When several threads evaluate, sample (each with its own random state), condition and take posteriors of a shared model, distribution or observation object at the same time, while each extends only measures it owns, every result equals the one the same call gives on its own, no call fails, and the shared objects remain correct afterwards. This holds for every interleaving of the threads' steps.",
["schedules","histories","fault_sequences"],"every preemption schedule of caller threads at the granularity of the library's source lines, optionally with one thread failing",
"All tests are single-threaded; the caches are filled in several unsynchronised steps.",
[RA,LA,OB,ME,FD],[("idempotent cache fills",LA+": LazyTensor._get"),("multi-field resolution",RA+": Normal.mean_var, marginals, _resolve_mean"),("per-measure caches",OB)],(),["results returned to each thread"])

p("C14","Results depend on the program only, not on memory layout or object lifetimes",
"The results, refusals and primary measures a program observes are the same for every assignment of memory addresses (and thus hash order), every garbage-collection schedule, every reuse of dead objects' addresses by new objects, and regardless of unrelated measures and processes created or dropped in the same interpreter. Objects the program still holds stay valid after it drops its references to the objects they were derived from.",
["schedules","configurations","histories"],"every address layout, collection schedule, reference-dropping point and unrelated activity, for every model-building and evaluation program",
"A test run sees a single memory layout and keeps everything alive; indices and caches are keyed by object identity.",
[LA,ME,OB,GPF],[("identity-keyed stores with strong references held elsewhere",LA+": _resolve_index; "+ME+": ps, _pids"),("identity hash of measures",ME+": Measure.__hash__"),("identity-keyed caches",OB)],[("id-keyed dictionaries","stores, index sets, caches",LA)],["complete result trace of a program"])

p("C15","Multi-output and joint distributions are consistent with their parts",
"The Cartesian product of processes, and the combination of several finite-dimensional distributions, has the concatenation of the parts' means, the full matrix of their pairwise covariances and block-diagonal noise, in the order given, for shared inputs, per-output inputs, nested products and products under any measure. Joint log-densities equal the sum of conditional log-densities in every order of revealing the parts, and conditioning on or through a product equals conditioning on its parts.",
["histories","schedules","inputs"],"every collection, nesting and order of parts, inputs and noises, and every order in which the parts are revealed",
"Tests check one or two fixed two-output models, mostly at the level of shapes.",
["stheno/mo/kernel.py","stheno/mo/mean.py","stheno/mo/infer.py","stheno/mo/input.py",OB,ME,GPF],[("multi-output kernel and mean","stheno/mo/kernel.py, stheno/mo/mean.py"),("size inference","stheno/mo/infer.py"),("tuple inputs","stheno/mo/input.py"),("combine and cross",OB+": combine; "+ME+": cross")],(),["cross(f, g)(x)","Measure.logpdf((f(x), y), ...)","Measure.sample"])

p("C16","Evaluation is lazy and shared: nothing early, nothing twice",
"Building prior processes and their distributions, observation objects and posterior measures evaluates no user-supplied mean or kernel function, and building processes and distributions of a posterior evaluates at most the kernel matrices of its data; a finite-dimensional distribution evaluates its mean, its full covariance and its diagonal at most once each, whatever the sequence of accesses, and computing marginals or credible bounds never evaluates the full covariance at the prediction inputs. One observation object evaluates the data kernel matrix (or its pseudo-point matrices) at most once per measure, however many posterior processes are queried and in whatever order.",
["histories","schedules"],"every order and repetition of accesses by interleaved clients over shared distributions and observation objects",
"Tests count evaluations for one access sequence of one model.",
[RA,OB,FD,ME],[("lazy constructors",FD+": FDD.__init__"),("resolution caches",RA),("per-measure caches",OB+": K_x, _compute")],(),["calls received by user-supplied mean and kernel functions"])

p("C17","All backends compute the same results",
"The same program of model building, conditioning and evaluation gives the same results with arrays of AutoGrad, TensorFlow, PyTorch or JAX as with NumPy arrays, up to floating-point precision, at every point of its history; and it runs on them wherever it runs on NumPy arrays.",
["configurations","inputs","histories"],"all backends, all models, inputs and orders of operations","Tests run almost everything on NumPy only.",
[RA,OB,FD,ME,GPF,"stheno/mo/kernel.py","stheno/mo/input.py"],[("dispatch on array type through LAB","lab (dependency)")])
p("C18","Batched computation equals the stack of unbatched computations",
"Every evaluation with leading batch dimensions equals evaluating each batch element separately and stacking the results.",
["inputs"],"all batch shapes, models and evaluations","Tests check shapes and inequalities for two fixed models.",
[RA,OB,FD,"stheno/mo/kernel.py"],[("batch-aware operations","lab, matrix (dependencies)")])
p("C19","Derivative processes are the exact derivatives",
"The derivative of a process has the derivative of the mean and the mixed partial derivatives of the kernel as its statistics, jointly with every other process of the measure, before and after conditioning on anything, including on derivatives.",
["inputs","histories"],"all differentiable models, inputs and histories of building and conditioning","One fixed kernel at fixed inputs on one backend.",
[ME,GPF],[("derivative rule",ME+": Measure.diff"),("automatic differentiation","mlkernels, TensorFlow (dependencies)")])
p("C20","Textual representations render the model's structure",
"Displaying a process shows its mean and kernel expression, with parameters passed through the given formatter.",
["inputs"],"all expressions and formatters","A few fixed strings are compared.",
[GPF,FD,"stheno/mo/kernel.py","stheno/mo/mean.py"],[("display",GPF+": GP.display")])
p("C21","Results are differentiable in everything that the user gives",
"On arrays of a framework with automatic differentiation, the derivative of every smooth result (means, kernels, distributions, log-densities, ELBOs) with respect to parameters, noises, inputs and data is the derivative of the function that the program computes, whatever was computed, cached or conditioned on before.",
["inputs","histories"],"all smooth models, inputs, and histories of building, conditioning and evaluation","Tests differentiate one log-density and never check the value.",
[RA,OB,FD,ME,GPF,"stheno/mo/kernel.py","stheno/mo/input.py"],[("all computation stays in the user's framework through LAB","lab (dependency)"),("caches keep what is differentiated",OB+": _compute, K_x")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
