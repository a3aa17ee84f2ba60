"""Source of properties.jsonl and MANIFEST.json: python3-vt tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            observe_at=observe, hook_needed=None)))


prop("C01", "Every algorithm compares solutions by the Pareto dominance relation",
     "One objective vector is reported to dominate another exactly when it is no worse in every "
     "objective and strictly better in at least one (minimisation), whichever algorithm asks. The "
     "three-way comparison is antisymmetric: its answer flips when its arguments are swapped, and it "
     "is zero for equal or incomparable vectors. Negative and equal objective values are no exception.",
     ["inputs"], "every pair of objective vectors of one to four objectives",
     "The unit tests of the comparison use a few fixed vectors and are not among the stable tests; the "
     "private copies of the relation in the algorithms are not tested at all.",
     ["evotools/ea_utils.py", "algorithms/NSGAII/NSGAII.py", "algorithms/OMOPSO/OMOPSO.py",
      "algorithms/SPEA2/SPEA2.py"],
     [("shared comparison", "evotools/ea_utils.py domination_cmp, dominates"),
      ("NSGA-II dominance", "algorithms/NSGAII/NSGAII.py Individual/dominates"),
      ("OMOPSO dominance", "algorithms/OMOPSO/OMOPSO.py Individual.dominates"),
      ("SPEA2 dominance", "algorithms/SPEA2/SPEA2.py dominates")],
     ["return values of the comparison functions"])

prop("C02", "Non-dominated filtering keeps exactly the non-dominated solutions",
     "Filtering a set of objective vectors returns exactly those vectors of the set that no other vector "
     "of it dominates: none missing, none extra, none invented. Splitting a set into Pareto layers is a "
     "partition in which the first layer is the non-dominated part and every later layer is the "
     "non-dominated part of what the earlier layers left. The outcome does not depend on the order of "
     "the input. The archive of the random search is, after every step, the non-dominated part of all it "
     "has evaluated.",
     ["inputs"], "every list of up to four or five vectors of one to three objectives, in every order",
     "The layering test uses one fixed example; the filters used for result post-processing have no test.",
     ["metrics/metrics_utils.py", "evotools/ea_utils.py", "metrics/metrics.py", "algorithms/BOGO/BOGO.py"],
     [("incremental filter", "metrics/metrics_utils.py filter_not_dominated"),
      ("all-pairs filter", "metrics/metrics_utils.py filter_not_dominated2"),
      ("layering", "evotools/ea_utils.py paretofront_layers"),
      ("random search archive", "algorithms/BOGO/BOGO.py refresh_archive")],
     ["returned lists"])

prop("C03", "Non-dominated sorting ranks a population consistently with dominance",
     "In every algorithm that sorts its population into fronts (NSGA-II, NSGA-III, SMS-EMOA, NSLS), each "
     "individual lands in exactly one front, no individual is dominated by another one of its own front, "
     "and every individual of a later front is dominated by some individual of the front just before it "
     "(for NSGA-III, dominance is a better scalarised fitness within the same reference direction). "
     "SPEA2's fitness is below one exactly for the non-dominated individuals and better for a dominating "
     "individual than for the one it dominates.",
     ["inputs"], "every assignment of objective values to three to five individuals",
     "Tests only run whole algorithms on one or two problems and look at the final hypervolume or at "
     "nothing; a wrong front assignment degrades the search silently.",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/SMSEMOA/SMSEMOA.py",
      "algorithms/NSLS/NSLS.py"],
     [("NSGA-II sort", "algorithms/NSGAII/NSGAII.py _nd_sort"),
      ("NSGA-III sort", "algorithms/NSGAIII/NSGAIII.py"),
      ("SMS-EMOA sort", "algorithms/SMSEMOA/SMSEMOA.py nd_sort"),
      ("NSLS sort", "algorithms/NSLS/NSLS.py nd_sort")],
     ["front structures produced for a population"])

prop("C04", "Survivor selection is elitist and keeps the population size",
     "Whenever an algorithm reduces a parent-plus-offspring pool to its population, the survivors are "
     "members of the pool, their number is the configured population size, and no individual is discarded "
     "in favour of one that it dominates under the relation the algorithm sorts by. Algorithms that sort into fronts keep "
     "every member of a better front before any member of a worse one. Selection always terminates, also "
     "when the pool is no larger than the population.",
     ["inputs", "configurations"],
     "every assignment of objective values to a pool of up to six individuals, ties included",
     "The tests run a few generations on ZDT-like problems and never inspect which individuals survive.",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/SPEA2/SPEA2.py",
      "algorithms/IBEA/IBEA.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSLS/NSLS.py",
      "algorithms/JGBL/JGBL.py"],
     [("NSGA-II environmental selection", "algorithms/NSGAII/NSGAII.py _environmental_selection"),
      ("NSGA-III selection", "algorithms/NSGAIII/NSGAIII.py create_final_population"),
      ("SPEA2 selection", "algorithms/SPEA2/SPEA2.py environmental_selection"),
      ("IBEA selection", "algorithms/IBEA/IBEA.py _environmental_selection"),
      ("SMS-EMOA reduction", "algorithms/SMSEMOA/SMSEMOA.py reduce_population"),
      ("NSLS selection", "algorithms/NSLS/NSLS.py next_generation")],
     ["population before and after one selection step"])

prop("C05", "No operator ever leaves the declared variable bounds",
     "Every vector an algorithm generates — initial population, mutation, crossover, local search, jumping "
     "genes, particle moves — has as many variables as the problem declares and every variable inside its "
     "declared range, for any random draws and any parents inside the range. The problem's objective "
     "functions are therefore only ever evaluated inside the declared domain.",
     ["inputs", "configurations"],
     "every parent vector inside bounds, every random draw, every (asymmetric, negative) range",
     "Out-of-range values need particular random draws; tests do not look at decision vectors.",
     ["algorithms/base/drivertools.py", "evotools/ea_utils.py", "algorithms/NSGAIII/NSGAIII.py",
      "algorithms/OMOPSO/OMOPSO.py", "algorithms/JGBL/JGBL.py", "algorithms/NSLS/NSLS.py"],
     [("mutation", "algorithms/base/drivertools.py mutate"),
      ("crossover", "algorithms/base/drivertools.py crossover"),
      ("initial population", "evotools/ea_utils.py gen_population"),
      ("NSGA-III operators", "algorithms/NSGAIII/NSGAIII.py"),
      ("particle moves", "algorithms/OMOPSO/OMOPSO.py move, mopso_mutation"),
      ("jumping genes", "algorithms/JGBL/JGBL.py"), ("local search", "algorithms/NSLS/NSLS.py")],
     ["vectors returned by the operators and passed to the objective functions"])

prop("C06", "The swarm archives never hold a dominated or duplicate-ranked solution",
     "After any sequence of insertions, the leader archive and the result archive of the particle swarm "
     "hold no solution that another archived one dominates and no two with equal objectives, whatever the "
     "sign of the objectives; the leader archive never exceeds its capacity, and an archive that has "
     "accepted a solution is never empty. The leader archive rejects a solution exactly when an archived "
     "one dominates or equals it, a rejection leaves the archive unchanged, and while there is room only "
     "dominated solutions are dropped. The result archive keeps no two solutions of which one makes the "
     "other redundant within its declared margin.",
     ["inputs", "histories"], "every insertion sequence of up to four solutions with arbitrary objectives",
     "Whether a removal is missed depends on the order of insertions; no test touches the archives.",
     ["algorithms/OMOPSO/OMOPSO.py"],
     [("archive insertion", "algorithms/OMOPSO/OMOPSO.py Archive.add"),
      ("leader archive", "algorithms/OMOPSO/OMOPSO.py LeaderArchive")],
     ["archive contents after each insertion"])

prop("C07", "Reported cost equals the number of objective evaluations",
     "The cost an algorithm reports grows by exactly one for every vector it evaluates on the problem and "
     "by nothing else; with evaluation caching on, vectors answered from the cache are free, are not "
     "evaluated, and take the cached values, and an algorithm that records its evaluations in the cache "
     "evaluates no vector twice. IBEA, which re-reads its objectives, charges each individual once. The "
     "accounting holds from construction on, over any number of steps and reads of the final population, "
     "and cost never decreases.",
     ["inputs", "histories"], "every sequence of draws over construction and one or two steps, cache on and off; fixed draws over a dozen",
     "Cost errors do not change the search, so no test notices them; all budget comparisons rest on them.",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/SPEA2/SPEA2.py", "algorithms/IBEA/IBEA.py",
      "algorithms/OMOPSO/OMOPSO.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSGAIII/NSGAIII.py",
      "algorithms/NSLS/NSLS.py", "algorithms/JGBL/JGBL.py", "algorithms/base/driver.py"],
     [("cost accumulation", "calculate_objectives of each driver"),
      ("cost field", "algorithms/base/driver.py")],
     ["driver.cost against a count of evaluations"])

prop("C08", "Computed hypervolume is the exact dominated volume",
     "The hypervolume reported for a set of points is the volume of the union of the boxes between each "
     "point and the reference point, points beyond the reference point contributing nothing. It is "
     "therefore independent of the order of the points and of dominated or duplicate points, and never "
     "shrinks when a point is added.",
     ["inputs"], "every set of up to three (two objectives) or two to three (three objectives) points, ties included",
     "The only uses in tests are loose inequalities on whole runs.",
     ["algorithms/base/hv.py", "metrics/metrics.py"],
     [("hypervolume algorithm", "algorithms/base/hv.py HyperVolume.compute"),
      ("metric", "metrics/metrics.py hypervolume")],
     ["returned volume"])

prop("C09", "Distance metrics are the defined generational distances",
     "The generational distance is the root mean square of each non-dominated solution's distance to the "
     "nearest reference point, the inverse one is the same from every reference point to the whole "
     "solution set, and the averaged Hausdorff distance is the larger of the two. They are non-negative, "
     "zero exactly when each point coincides with one of the other set, and independent of point order.",
     ["inputs"], "every solution and reference set of up to three points in one to three objectives",
     "No test computes a metric.",
     ["metrics/metrics.py", "metrics/metrics_utils.py"],
     [("metric entry points", "metrics/metrics.py"), ("distance kernel", "metrics/metrics_utils.py distance")],
     ["returned metric values"])

prop("C10", "The remaining quality metrics follow their definitions",
     "Epsilon is the largest over non-dominated solutions of the smallest over reference points of the largest "
     "coordinate excess of the reference over the solution; extent is the square root of the summed "
     "per-objective ranges; spacing is the spread (sample standard deviation) of nearest-neighbour city-block "
     "distances; the non-domination ratio is the non-dominated share of a solution set; the dominance "
     "indicator is the share of the common front a set contributes; the distribution is the share of ordered "
     "pairs of solutions farther apart than the radius. Each is invariant under reordering "
     "and successive evaluations do not influence one another.",
     ["inputs", "histories"], "every point set of up to three points in one to three objectives, any order, repeated calls",
     "No test computes a metric.",
     ["metrics/metrics.py", "metrics/metrics_utils.py", "metrics/epsilon.py"],
     [("metrics", "metrics/metrics_utils.py"), ("epsilon", "metrics/epsilon.py")],
     ["returned metric values"])

prop("C11", "Budget runs checkpoint each budget at the first state that reaches it",
     "For any per-step cost behaviour and any budget list, a budgeted run stores exactly one result per "
     "budget, under that budget, and the stored population, objective values and cost are those of the "
     "first moment the accumulated cost reaches that budget (a budget already reached stores the current "
     "state). No step is executed once the last budget is reached.",
     ["inputs", "histories"], "every sequence of positive step costs and every increasing budget list within the bounds",
     "The stable tests run budgets with one real driver and look at the final population only.",
     ["simulation/worker.py", "algorithms/base/driver.py"],
     [("budget loop", "algorithms/base/driver.py BudgetRun"), ("worker", "simulation/worker.py BudgetWorker")],
     ["stored results: budget, cost, population"])

prop("C12", "Timed runs report each time slot once, with the state known at that time",
     "For any step durations, a time-bounded run reports every elapsed slot at most once, in increasing "
     "order, never beyond the limit, and what it reports for a slot is the last result finished before the "
     "run noticed the slot, so later work never leaks into an earlier slot. The run ends once its limit is "
     "reached.",
     ["schedules", "inputs"], "every sequence of non-decreasing clock readings within the step bound",
     "The timing test relies on real sleeping and is excluded from the stable tests.",
     ["algorithms/base/driver.py", "simulation/worker.py"],
     [("slot reporting", "algorithms/base/driver.py TimeRun"), ("worker", "simulation/worker.py TimeWorker")],
     ["emitted progress messages"])

prop("C13", "Progress messages carry the state they were emitted for",
     "Every step of every algorithm emits exactly one progress message; step numbers count up by one from "
     "the start, and the cost, population and objective values in the message are those after that step and "
     "stay so when the algorithm moves on. Objective values are paired with the individuals they were "
     "computed for. The population in the message has the configured size, plus the offspring for the "
     "algorithms that select at the start of a step; the final population has exactly the configured size "
     "(the particle swarm hands out its archive instead).",
     ["inputs", "histories"], "every algorithm, any objective functions, any draws over up to two steps; fixed draws over a dozen",
     "Tests read the final population only.",
     ["algorithms/base/driver.py", "algorithms/base/model.py"],
     [("step counting", "algorithms/base/driver.py StepCountingDriver"),
      ("messages", "algorithms/base/model.py, algorithms/*/message.py")],
     ["emitted messages"])

prop("C14", "The island model conserves individuals, evaluations and schedule",
     "Islands start from a partition of the initial population, as even as possible. In each step every "
     "island runs one epoch of the configured length; then each island hands the configured number of "
     "members to every neighbour, each taken from a front selected by a rank-weighted draw (weight 1 for the "
     "best front, 1/2, 1/3, ... after it). Members move only along the configured links, with their vectors "
     "and evaluations, none is lost or duplicated and every island keeps its size. The reported cost of a "
     "step is the sum of the evaluations of all islands, and the final population is the union of the "
     "islands', readable any number of times.",
     ["inputs", "histories", "configurations"], "up to five islands, zero to two migrants, any objectives, any step costs and any random draw",
     "The two tests use one configuration and only check the final size or cost of a single run.",
     ["algorithms/IMGA/IMGA.py", "algorithms/IMGA/message.py"],
     [("islands and migration", "algorithms/IMGA/IMGA.py"), ("migrants", "algorithms/*/message.py")],
     ["island populations, cost, finalized population"])

prop("C15", "The torus topology links every island to its grid neighbours",
     "For every number of islands the topology has one entry per island, every neighbour is another "
     "existing island listed once, links are symmetric, and neighbours are exactly the islands adjacent on "
     "the wrapped grid. Every island can be reached from every other one.",
     ["configurations"], "every number of islands up to the bound",
     "The tests cover one island count.",
     ["algorithms/IMGA/topology.py"],
     [("torus", "algorithms/IMGA/topology.py TorusTopology")], ["generated neighbour lists"])

prop("C16", "Hierarchic search respects its sprouting limits and charges every node",
     "Only a node that has stopped progressing sprouts: it creates children around its nominated members "
     "that lie no closer than the minimal distance to a grown node of the next level, as many as the round "
     "limit and the limit on its active children allow and never more; children start at the next level "
     "with that level's population size, settings and precision as configured (also when built through the driver "
     "of the command line), and the deepest level never sprouts. Active nodes "
     "run exactly one metaepoch per step, stopped ones none. A node is stopped exactly when its progress is "
     "below the level's demand or it is closer than the level's minimal distance to another node of its "
     "level that is active or has stopped progressing; when no active node is left those that stopped "
     "progressing are revived and the demand is halved. The reported cost is the sum over all nodes of "
     "their evaluations weighted by their level's factor, and the final population is that of all nodes.",
     ["inputs", "histories"], "any node progress, any centres, any evaluation counts within the tree bound",
     "The one test runs a single configuration for a few steps and checks nothing about the tree.",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/tools.py"],
     [("tree control", "algorithms/HGS/classic/ClassicHGS.py")],
     ["tree of nodes, cost, finalized population"])

prop("C17", "The distributed hierarchy completes each phase under any reply order",
     "In every phase of a distributed hierarchic step the supervisor asks each concerned node exactly once, "
     "completes exactly once after the last reply and not before, and ends in the same result whatever the "
     "order of replies. Children get their level's size, settings and precision. A node is stopped exactly when "
     "its progress is below its level's demand or it is "
     "closer than the level's minimal distance to another node of its level that is active or has stopped "
     "progressing (which of several such nodes stays may depend on the order); revival, round limits and "
     "active-children limits are those of the classic hierarchy. A step costs as much as its dearest node "
     "(the largest of the nodes' evaluations weighted by level), populations are merged without loss or "
     "duplication, and the records kept of the nodes match them.",
     ["schedules", "inputs"], "every reply order of up to three or four nodes, every node state",
     "Actor timing decides the order; the tests do not cover the distributed driver in the stable set.",
     ["algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py",
      "algorithms/HGS/distributed/actors.py"],
     [("supervisor tasks", "algorithms/HGS/distributed/hgs_tasks.py"),
      ("node tasks", "algorithms/HGS/distributed/node_tasks.py")],
     ["messages sent by the tasks, supervisor state"])

prop("C18", "Reduced-precision evaluation perturbs only within its declared accuracy",
     "Cutting a variable to a number of mantissa bits changes it by less than one unit of the last kept "
     "bit, never increases its magnitude, keeps its sign, and is idempotent. A noisy objective with zero "
     "noise is the exact objective, for negative values too, and its error is bounded by the declared "
     "relative accuracy times the drawn noise. Every vector an algorithm evaluates has gone through its "
     "precision cut.",
     ["inputs"], "every mantissa and exponent within the bound, every objective value, every draw",
     "No test covers precision reduction.",
     ["algorithms/HGS/tools.py", "algorithms/HGS/classic/ClassicHGS.py"],
     [("mantissa trimming", "algorithms/HGS/tools.py"), ("noise", "algorithms/HGS/tools.py blurred_fitnesses")],
     ["returned vectors and objective values"])

prop("C19", "Stored results are read back complete, unmixed and in order",
     "Whatever runs have been stored, loading groups them by problem, algorithm and budget with every stored "
     "result appearing exactly once under the key it was stored with, with the stored population, objective "
     "values and cost, budgets in increasing numeric order. Files that are not results (metric caches) are "
     "never taken for results, and results of one run never overwrite those of another.",
     ["histories", "configurations"], "every set of stored runs within the bound and every directory listing order",
     "No test stores and reloads results.",
     ["simulation/serialization.py", "simulation/serializer.py", "dir_walker.py"],
     [("store/load", "simulation/serialization.py, simulation/serializer.py"),
      ("grouping", "dir_walker.py")],
     ["loaded objects and files"])

prop("C20", "A simulation runs exactly the requested cases with the declared configuration",
     "The planned cases are exactly every requested problem combined with every requested algorithm, N "
     "times each, and nothing else; unknown names never run and omitted selections mean all. Every case "
     "gets the configuration given for its algorithm, with a more specific setting overriding a more "
     "general one and nested algorithms composed in the requested order.",
     ["inputs", "configurations"], "every combination of requested names within the bound",
     "Planning is not tested at all.",
     ["simulation/factory.py", "simulation/run_config.py"],
     [("planning", "simulation/factory.py"), ("configuration", "simulation/run_config.py")],
     ["planned cases and built drivers"])

prop("C21", "A failing case never takes down the rest of the batch",
     "Whichever cases of a batch fail, every other case still runs and its outcome is reported; a failed "
     "case is counted as a failure and nothing of it is reported as a success. The summary accounts for "
     "every submitted case once.",
     ["fault_sequences"], "every subset and order of failing cases within the bound",
     "Nothing in the tests fails a case.",
     ["simulation/run_parallel.py", "simulation/worker.py"],
     [("batch", "simulation/run_parallel.py")], ["return value and log of the batch"])

prop("C22", "Statistics and rankings follow their definitions",
     "The analysed mean and spread of a sample are those of the sample; bootstrap estimates are computed "
     "from non-empty resamples of the given data and lie within its range. In rankings the best algorithm for "
     "a metric is the one with the best value in that metric's direction, near-ties within the declared "
     "tolerance and only those share the win, and scores add up over all problems and metrics; the table of a budget shows the two algorithms with "
     "most points.",
     ["inputs"], "every sample and score table within the bound",
     "No test covers statistics.",
     ["statistic/stats_bootstrap.py", "statistic/ranking.py", "statistic/stats.py"],
     [("bootstrap", "statistic/stats_bootstrap.py"), ("ranking", "statistic/ranking.py")],
     ["returned analyses and scores"])

prop("C23", "Benchmark objectives and reference fronts agree",
     "The ZDT, UF, Kursawe and Ackley problems evaluate the published formulas: on every decision vector of "
     "the declared (published) domain each objective is finite and equals the formula of the problem's "
     "published definition. Every point of a problem's reference front satisfies the analytic relation of "
     "that problem's Pareto front, no point of the front is dominated by another, and the listed points "
     "cover the published front from end to end. For the ZDT problems the front is attained and never "
     "beaten by any decision vector of the domain; for UF11 and UF12 the optimal decision vectors reach "
     "the front. (The EWA problems have only a nominal front and are not covered.)",
     ["inputs"], "every decision vector of the domain, every reference point",
     "No test evaluates a benchmark against its front, and no finite sample of vectors decides a formula.",
     ["problems/ZDT1/problem.py", "problems/ZDT2/problem.py", "problems/ZDT3/problem.py",
      "problems/ZDT4/problem.py", "problems/ZDT6/problem.py", "problems/UF1/problem.py",
      "problems/UF6/problem.py", "problems/UF8/problem.py", "problems/UF9/problem.py",
      "problems/UF10/problem.py", "problems/UF11/problem.py", "problems/UF12/problem.py",
      "problems/kursawe/problem.py", "problems/ackley/problem.py"],
     [("problem definitions", "problems/*/problem.py"),
      ("shared front generators", "problems/UF*/problem.py pareto_front")],
     ["objective values and pareto_front"])

prop("C24", "Runs share nothing: configuration and inputs are never modified",
     "Running any algorithm leaves the caller's initial population, bounds, objective list and shared "
     "configuration exactly as they were, so a second run built from the same objects with the same random "
     "draws repeats the first. Two runs whose steps are interleaved do not influence each other, and "
     "populations handed out are not modified afterwards by the run. This holds for plain algorithms, the "
     "island model and both hierarchic models.",
     ["histories", "inputs"], "any draws over construction and one or two steps of each algorithm",
     "Tests build each driver once from fresh objects.",
     ["algorithms/*", "algorithms/HGS/HGS.py", "algorithms/ClassicHGS/ClassicHGS.py",
      "algorithms/DistributedHGS/DistributedHGS.py", "algorithms/IMGA/IMGA.py", "simulation/factory.py",
      "simulation/run_config.py"],
     [("drivers", "algorithms/*"), ("configuration", "simulation/factory.py")],
     ["objects passed in, before and after"])

prop("C25", "Cached metrics match the results they are computed from",
     "A metric value attached to a stored result is the one computed from that result, whatever was cached "
     "before and in whatever order files and directories are listed; a cache written for other parameters "
     "is not silently used. Recomputing with a warm cache gives the same values as with a cold one.",
     ["histories", "configurations"], "every listing order and every cache state within the bound",
     "No test computes or caches a metric.",
     ["simulation/metrics_processor.py", "simulation/serialization.py"],
     [("metric cache", "simulation/serialization.py get_metric"),
      ("dominance indicator inputs", "simulation/metrics_processor.py")],
     ["metric values returned for each stored result"])

prop("C26", "Variation honours its declared rates and operators",
     "Offspring are made by the declared operators at the declared rates. Polynomial mutation redraws a "
     "variable exactly when its draw is below the mutation rate, each variable on its own, by the published "
     "formula with the declared index; bounded simulated binary crossover gives the published children, "
     "crossing each variable with probability one half on its own, or copies of the parents above the "
     "crossover rate. A rate of zero leaves copies, a rate of one changes every variable (mutation) or every "
     "pair (crossover), and a step makes the declared number of offspring. In the tournaments of NSGA-II, JGBL, "
     "IBEA and SPEA2 a dominated individual does not beat the one that dominates it, and OMOPSO's particles "
     "follow the less crowded of two leaders. A third of OMOPSO's swarm is perturbed uniformly and, when the "
     "budget is known, a third by a perturbation that shrinks as the budget is used; a particle's "
     "velocity adds to its momentum pulls towards its own best place, given up only for a dominating one, and "
     "towards a leader, and turns round where a bound stops it. NSLS moves a variable "
     "along differences of population members and never accepts a dominated candidate. JGBL's cut and paste "
     "only moves genes; its copy and paste overwrites at most the length of the transposon.",
     ["inputs", "histories"], "every draw, rate and parent within the bound",
     "Random operators are tested, if at all, by looking at one seeded run; a wrong formula, a swapped rate or an "
     "operator that is never applied only slows the search down.",
     ["algorithms/base/drivertools.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/OMOPSO/OMOPSO.py",
      "algorithms/NSGAII/NSGAII.py", "algorithms/IBEA/IBEA.py", "algorithms/SPEA2/SPEA2.py",
      "algorithms/NSLS/NSLS.py", "algorithms/JGBL/JGBL.py", "algorithms/HGS/tools.py"],
     [("shared operators", "algorithms/base/drivertools.py mutate, crossover"),
      ("NSGA-III operators", "algorithms/NSGAIII/NSGAIII.py simulated_binary_crossover, polynomial_mutation"),
      ("swarm mutation", "algorithms/OMOPSO/OMOPSO.py mopso_mutation"),
      ("tournaments", "algorithms/*/ _mating_selection, Tournament, CrowdingTournament")],
     ["vectors evaluated by a step", "returned children"])

prop("C27", "Within equally good solutions diversity decides who survives",
     "When a front does not fit, each algorithm drops the members its own diversity measure ranks worst. "
     "NSGA-II and JGBL drop the smallest crowding distance inside that front (relative to the front's range in "
     "each objective; the best solution of an objective is never the most crowded). SMS-EMOA drops the member "
     "of the worst front that contributes least hypervolume. SPEA2 thins out a too large archive one by one, "
     "each time the solution whose sorted distances to the others are lexicographically smallest, and fills a "
     "too small one with the least dominated, then sparsest solutions. OMOPSO's full leader archive gives up "
     "its most crowded leader, never an extreme one. IBEA repeatedly drops the worst epsilon-indicator fitness "
     "among those left. NSGA-III normalises by ideal and worst values, assigns each solution to the nearest "
     "reference line and ranks by the distance along it plus theta times the distance from it; its reference "
     "points lie on the unit simplex. NSLS keeps the extremes of the front and then the farthest candidates.",
     ["inputs"], "every assignment of distinct objective values to three to five members of a front",
     "A wrong choice among equally good solutions is invisible in a single run: the front looks plausible.",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/SPEA2/SPEA2.py",
      "algorithms/OMOPSO/OMOPSO.py", "algorithms/IBEA/IBEA.py", "algorithms/NSGAIII/NSGAIII.py",
      "algorithms/NSLS/NSLS.py", "algorithms/base/hv.py"],
     [("crowding distance", "algorithms/NSGAII/NSGAII.py _crowding"),
      ("volume contribution", "algorithms/SMSEMOA/SMSEMOA.py calculate_hypervolume_contribution"),
      ("truncation", "algorithms/SPEA2/SPEA2.py choose_to_truncate, get_min"),
      ("leader archive", "algorithms/OMOPSO/OMOPSO.py LeaderArchive.prune, crowding"),
      ("indicator fitness", "algorithms/IBEA/IBEA.py _calculate_fitness, _environmental_selection"),
      ("theta dominance", "algorithms/NSGAIII/NSGAIII.py clustering, calculate_theta_fitness"),
      ("farthest candidate", "algorithms/NSLS/NSLS.py next_generation")],
     ["survivors of a selection"])

prop("C28", "Plots and printed reports show the stored results",
     "Each command of the command line runs its own report, once, on the results directory given with -d and "
     "writing below the directory given with -o (or their defaults). The timed pictures draw, per problem and "
     "ranked metric, one curve for each configured algorithm, through the mean values of its runs in order of "
     "time, with every point in view. The summary plots put each algorithm's score above the name of its own "
     "problem, as a share of the largest score on that problem (the dominance indicator unscaled). The front "
     "plots draw the whole reference front (cut only where its first objective jumps by more than the threshold, "
     "and never before a lone point) and, for each configured algorithm, all points of the first run of the "
     "largest affordable budget. The violin plots put each algorithm's own values above its name, leaving out "
     "algorithms with only zeros. The statistics list one line per problem, algorithm, budget and metric and "
     "mark exactly the values outside three standard deviations of a suspicious sample, naming at the end "
     "those samples whose mean moves by more than 10% without its outliers; the result summary "
     "lists one line per problem, algorithm and budget with the number of runs; the list command names every "
     "configured algorithm and problem once. Algorithms or problems without "
     "a plot configuration, or without an acceptable result, do not stop a report.",
     ["inputs"], "every set of stored values for one or two problems and one to three algorithms",
     "One smoke test generates the plots of one problem and one algorithm and looks at the file names; it is not "
     "among the stable tests. What the plots show is not tested.",
     ["plots/pictures.py", "plots/best_fronts.py", "plots/violin.py", "statistic/stats.py", "statistic/summary.py",
      "evotools/ea_utils.py", "evogil.py"],
     [("curves", "plots/pictures.py pictures_time, plot_results"),
      ("summary plots", "plots/pictures.py pictures_summary, plot_results_summary"),
      ("fronts", "plots/best_fronts.py best_fronts, plot_problem_front; evotools/ea_utils.py split_front"),
      ("violins", "plots/violin.py violin"), ("statistics", "statistic/stats.py statistics"),
      ("dispatch", "evogil.py main_worker, set_default_options")],
     ["arguments of the plotting library's calls", "printed lines", "report called"])

prop("C29", "A hierarchy sprouts from evaluated members of the best front",
     "After a metaepoch (some steps and a request for the final population) every algorithm nominates at least "
     "one delegate to the classic or distributed hierarchy it works under. Each delegate is a vector it has "
     "evaluated and lies within the bounds. For the algorithms that rank by Pareto dominance (NSGA-II, JGBL, NSLS, "
     "IBEA, SMS-EMOA) no member of the population or of the pool it was taken from dominates a delegate. "
     "Nominating costs nothing, evaluates no new vector and leaves the population as it was; the list belongs to "
     "the caller, which may shuffle or shorten it, and nominating again gives the same delegates.",
     ["inputs", "histories"], "every set of objective values of the members and offspring, one to four steps",
     "No test looks at the delegates; the tests of the hierarchy count its messages.",
     ["algorithms/NSGAII/message.py", "algorithms/IBEA/message.py", "algorithms/SMSEMOA/message.py",
      "algorithms/SPEA2/message.py", "algorithms/OMOPSO/message.py", "algorithms/HGS/distributed/message.py"],
     [("delegates", "nominate_delegates of the HGS and DHGS adapters in algorithms/*/message.py and "
       "algorithms/HGS/distributed/message.py")],
     ["nominated vectors", "cost", "population"])

prop("C30", "Every run draws its own random numbers",
     "Before a run draws its first random number, those of its random initial population included, the worker seeds "
     "the generator anew, once, from at least 16 bytes of the operating system's entropy, every byte of which "
     "counts; where the system offers none, two processes that start at the same moment still get different "
     "seeds. So runs of a batch that were forked from one parent never repeat each other.",
     ["inputs", "histories"], "every algorithm, every process number and time, entropy differing in any byte",
     "The tests never compare two runs; runs that repeat each other look like very consistent results.",
     ["simulation/worker.py", "simulation/factory.py"],
     [("seeding", "SimulationWorker.run and _init_random_seed in simulation/worker.py")],
     ["calls of the random module, in order", "seed"])

prop("C31", "Every run gets on towards its budget",
     "Every step of a single algorithm ends and charges at least one evaluation, whatever the population (repeated "
     "or all-equal members included, two or more of them), the objective values and the random draws; for NSGA-III, "
     "which keeps untouched individuals' evaluations, wherever some variable is mutated. A step of the island model "
     "does so on each island. A run with a budget therefore ends after finitely many steps, at the first "
     "state whose cost reaches it, and an algorithm goes on after its final population was taken.",
     ["inputs", "histories"], "populations of 2-9, three shapes of objective values, up to 6 steps; budgets to 90",
     "A step that charges nothing makes a run endless for some draws only; tests use short runs with fixed budgets.",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/IBEA/IBEA.py",
      "algorithms/SPEA2/SPEA2.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/SMSEMOA/SMSEMOA.py",
      "algorithms/NSLS/NSLS.py", "algorithms/JGBL/JGBL.py", "algorithms/IMGA/IMGA.py", "algorithms/base/driver.py"],
     [("steps_charge", "next_step of every single algorithm"),
      ("islands_charge", "IMGA.next_step over every single algorithm"),
      ("budget_reached", "BudgetRun.create_job and StepsRun in algorithms/base/driver.py")],
     ["driver.cost after each step", "completion of the run"])

NA = {}
TECH = "symbolic execution of the real Python code with z3 (all paths within bounds), replayed on PyPy"
CHECKS = None  # None: every property


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    na = []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
            checks.append(dict(
                property=i, quick_cmd="python3-vt check.py %s" % i,
                thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % i,
                evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking",
                level_note=LEVEL.get(i, LEVEL[""])))
        else:
            na.append(dict(property=i, reason="check still under construction"))
    m = dict(version=1, setup_cmd="python3-vt check.py --selftest", checks=checks, not_applicable=na,
             notes="Bounded: every verdict is for the sizes listed in evidence/<id>.json "
                   "(coverage.bounds); reals stand for floats; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


LEVEL = {
    "": "Exhaustive over the paths of the real code within the bounds recorded in the evidence "
        "(coverage.bounds); each assertion is a solver query over all values reaching it. Numbers are "
        "mathematical reals; outside the bounds nothing is claimed.",
}

if __name__ == "__main__":
    main()
