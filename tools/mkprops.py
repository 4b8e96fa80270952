"""Writes properties.jsonl (kept as code so the JSON stays valid)."""
import json, os
HNF = "structrans/marttrans/lat_cor/main_hnf.py"
OPT = "structrans/marttrans/lat_cor/lat_opt.py"
DIR = "structrans/marttrans/lat_cor/main_direct.py"
LAT = "structrans/crystallography/lattice.py"
BRA = "structrans/crystallography/bravais_lattice.py"
GRP = "structrans/crystallography/matrix_group.py"
MAR = "structrans/marttrans/martensite.py"
TWI = "structrans/marttrans/twin.py"
NOTESTS = "The only tests that run cover lattice construction, symmetry groups and Hermite normal forms, single threaded; every search, martensite and twin test is commented out. "
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "A parallel search returns the sequential search's answer",
  "A lattice-correspondence search whose sublattice problems are solved by a caller-supplied asynchronous worker pool returns the same answer as the sequential search: the requested number of best symmetry-inequivalent correspondences among everything the workers report (fewer only when the workers together report fewer), in ascending order of distance, each with its own distance, correspondence and stretch. This holds for every pool size and every order and delay in which workers finish; only which of exactly tied solutions at the cut-off are listed may differ.",
  ["schedules", "configurations", "inputs"],
  "All pairs of 3D Bravais lattices, all requested solution counts and search depths, all pool sizes, all completion orders and latencies of the workers, all ways solutions are spread over the workers' results (ties, short lists, equivalent solutions).",
  NOTESTS + "Even a test of the parallel path would see one completion order.",
  [HNF, OPT], [("polling loop over asynchronous results, merging as they become ready", HNF + ": lat_cor, lat_opt_par branch"),
               ("merge_sols / add_sol / truncate_sols keep a sorted, deduplicated, truncated list", HNF)],
  [("sols", "solutions merged so far", HNF), ("EXT_SOLS2", "all symmetry images of accepted solutions", HNF)],
  ["return value of lat_cor_hnf(..., lat_opt_par=...)"])

p("C02", "Every sublattice problem is handed out once, within the pool limit",
  "In a parallel lattice-correspondence search every sublattice problem is handed to the worker pool exactly once, and the number of handed-out problems whose result has not been collected never exceeds the requested pool size (by default the number of CPUs). Every result is collected, and once the workers have finished the call returns after a number of polls bounded by a constant multiple of the number of problems times the pool size.",
  ["schedules", "configurations"],
  "All pool sizes (including larger than the number of problems and 1), all CPU counts, all completion orders, stalled and slow workers, late serialisation of the task arguments by the pool.",
  NOTESTS + "Duplicate or lost dispatch only shows for particular completion patterns relative to the pool size.",
  [HNF], [("initial fill up to poolsize, one new submission per collected result, unready results requeued", HNF + ": lat_cor, lat_opt_par branch")],
  [("async_results", "results not yet collected", HNF)], ["calls made to lat_opt_par and to the asynchronous results it returns"])

p("C03", "A failing worker is reported, never hidden in a partial answer",
  "When a worker solving a sublattice problem fails, or the pool refuses a submission, a parallel lattice-correspondence search raises that failure to its caller. It never returns a list of solutions computed without the failed sublattice, and a later search in the same process is unaffected.",
  ["fault_sequences", "schedules"],
  "All subsets of failing workers, all failure kinds (exceptions raised by the worker, a broken pool, a refused submission), at every position in every completion order.",
  NOTESTS + "No test injects a worker failure.",
  [HNF, OPT], [("results are fetched with get(), which re-raises", HNF + ": lat_cor, lat_opt_par branch")],
  (), ["exception or return value of lat_cor_hnf"])

p("C04", "Equivalent sublattices are reduced to one each, serially or in parallel",
  "A lattice-correspondence search examines exactly one sublattice from every symmetry class (under rotations of the parent lattice) of the sublattices whose volume is admissible, and no admissible class is left out. This holds whether the reduction to representatives runs sequentially or is farmed out through a caller-supplied parallel map, for every number of CPUs and every order in which the groups are processed.",
  ["schedules", "configurations", "inputs"],
  "All parent lattices and volume ratios, all CPU counts and so all groupings of the sublattices, all orders in which groups are processed and their results delivered.",
  NOTESTS + "The parallel reduction is entered only for many sublattices and few CPUs.",
  [HNF, "structrans/crystallography/hnf.py"], [("reduce_hnfs: orbit under the lattice group, canonical Hermite normal forms", HNF),
     ("parallel reduce of groups followed by a master reduce", HNF + ": lat_cor, reduce_hnfs_par branch")],
  [("rhnfs", "representatives found so far", HNF)], ["sublattice problems handed to the pool; return value"])

p("C05", "Searches running at the same time in one process do not disturb each other",
  "Several lattice-correspondence searches or sublattice optimisations running concurrently in threads of one process, including sublattice problems solved by a thread pool, each return exactly what they return when run alone. This holds for every interleaving of the threads.",
  ["schedules", "inputs"],
  "All interleavings (at source-line granularity) of two to four concurrent searches with different lattices, numbers of solutions, distances and depths.",
  NOTESTS + "A unit test sees whatever interleaving the OS happens to pick.",
  [OPT, HNF, DIR, "structrans/marttrans/lat_cor/dfs.py", "structrans/marttrans/lat_cor/slnode.py"],
  [("search state local to each call", OPT + ": lat_opt")],
  [("dopt, lopt, depth", "best distances / correspondences of the running optimisation", OPT)], ["return values of lat_opt, lat_opt_unpack and the lat_cor functions"])

p("C06", "The direct search finds the true optimum whatever the random numbers",
  "The direct lattice-correspondence search returns, for every sequence of random numbers it draws and every batch size, the requested number of symmetry-inequivalent invertible integer correspondences with the smallest Cauchy distances that exist, in ascending order, each with a stretch tensor and principal stretches that match its correspondence (exact ties at the cut-off may add further solutions). It always terminates.",
  ["schedules", "inputs", "configurations"],
  "All pairs of Bravais lattices of moderate aspect ratio, all random streams consumed by the start-up guesses and the radius bound, all batch sizes and solution counts.",
  NOTESTS + "The search draws from an unseeded generator; a test samples one stream.",
  [DIR, "structrans/marttrans/lat_cor/quartic_opt.py", "structrans/marttrans/lat_cor/dist.py"],
  [("random start-up guesses only set the initial bound", DIR), ("search radius from the minimum of a quartic form over random starts", "structrans/marttrans/lat_cor/quartic_opt.py"),
   ("enumeration restarted from a checkpoint whenever the bound shrinks", DIR)],
  [("SOLS / EXT_SOLS / DMAX", "best solutions, their symmetry images, current bound", DIR)], ["return value of lat_cor / lat_cor_direct"])

p("C07", "Stopping and resuming the candidate enumeration loses no candidate",
  "The direct search's enumeration of integer candidate vectors visits every vector within the given length exactly once, and when it is stopped after any number of vectors and resumed from its next vector as checkpoint, with the same or a smaller length bound, any number of times, every not yet visited vector within the last bound is still visited. No vector is visited twice.",
  ["crash_points", "histories", "inputs"],
  "All dimensions, all stopping points, all sequences of stops with non-increasing bounds.",
  NOTESTS + "The loss depends on the exact stopping point and on two nested signs.",
  [DIR], [("recursive generator with a starting vector", DIR + ": vec_generator")],
  [("checkpoint", "first vector not yet visited", DIR)], ["sequence of vectors produced"])

p("C08", "A lattice shared between threads answers as if used alone",
  "Every query on a 2D or 3D lattice object (Laue group, point group, lattice groups, membership tests, base, index conversion) shared by several threads returns the lattice's true, complete answer: each symmetry operation exactly once, none missing. This holds for every interleaving of the queries, including first queries that overlap.",
  ["schedules", "histories", "inputs"],
  "All Bravais lattice types and bases, all sequences of queries per thread, all interleavings at source-line granularity.",
  "The existing tests query each lattice from one thread after it has been fully set up.",
  [LAT, BRA, GRP], [("lazily computed groups are cached on the object", LAT + ": Laue_group, point_group")],
  [("cached groups", "None until first computed", LAT)], ["return values of the lattice query methods"])

p("C09", "Variants of a martensite shared between threads are complete and consistent",
  "For a martensitic transformation object shared by several threads, every query returns the complete list of distinct variants (the symmetry orbit of the stretch tensor, the original first) and, variant by variant, exactly the indices of the symmetry operations that produce it. This holds for every interleaving and order of the queries; deriving a new object with another stretch or symmetry never changes the original.",
  ["schedules", "histories", "inputs"],
  "All stretch tensors and parent symmetry groups for which the transformation is reversible, all query sequences and interleavings.",
  NOTESTS,
  [MAR], [("variants and operation indices computed lazily together", MAR + ": calcvariants")],
  [("variant list and operation indices", "None until computed", MAR)], ["getvariants, getvariant, getLaueidx, isreversible, getU"])

p("C10", "Twin answers are complete, whatever other threads or earlier calls asked",
  "For a twin system or twin pair shared by several threads, the list of twinnable variant pairs, the matching list of pair objects, the conventional / compound / type I classification and the twin parameters are always the complete ones a fresh object gives for the same arguments. No interleaving and no earlier question (with the same or with another symmetry group) changes an answer.",
  ["schedules", "histories", "inputs"],
  "All variant lists, symmetry groups passed to the classification, query sequences and interleavings.",
  NOTESTS,
  [TWI], [("twin table and pair list filled lazily", TWI + ": TwinSystem.TwinTable"), ("per-pair results cached", TWI + ": TwinPair")],
  [("twin table, twin pairs, per-pair caches", "None until computed", TWI)], ["TwinTable, getTwinpairs, getConventional, getCompound, getTypeI; TwinPair queries"])

p("C11", "An interrupted query never leaves a wrong answer behind",
  "When a query on a lattice, martensite or twin object is cut short at any point by an interrupt, memory exhaustion or another exception raised inside it, that query raises; it does not return a wrong answer. Every later query on the same object, by any thread, returns the same correct, complete answer as on a fresh object.",
  ["crash_points", "fault_sequences", "histories"],
  "All points (source lines) inside all queries, KeyboardInterrupt and MemoryError, any number of interrupted queries before the final ones, with and without other threads using the object.",
  "No test injects an interrupt; the damage depends on the exact line interrupted.",
  [LAT, MAR, TWI], [("caches are published only when complete", LAT + ", " + MAR + ", " + TWI), ("exceptions are not swallowed in membership tests", LAT + ": inpointgroup, inlatticegroup")],
  (), ["return values and exceptions of the query methods"])

p("C12", "An aborted search leaves no trace on later searches",
  "When a lattice-correspondence search (sequential, parallel or direct) is aborted at any point by an interrupt, memory exhaustion, a failing output stream or a failing worker, it raises instead of returning an answer that is not the correct one. Any later search in the same process returns exactly what it returns in a fresh process.",
  ["crash_points", "fault_sequences", "histories"],
  "All abort points (source lines, output calls, worker results), all sequences of aborted and completed searches.",
  NOTESTS + "No test aborts a search.",
  [HNF, OPT, DIR, "structrans/marttrans/lat_cor/dfs.py"], [("caches are created per call", OPT)],
  (), ["return values and exceptions of lat_cor_hnf, lat_cor_direct, lat_opt"])

p("C13", "Watching a search does not change its result",
  "The solutions returned by a lattice-correspondence search do not depend on the display level, on whether, where and at what level a log is written, on the clock (including clock jumps), or on the number of CPUs (a parallel search may list exactly tied solutions differently). A log device that fails or fills up during the search neither aborts the search nor changes its result.",
  ["configurations", "fault_sequences"],
  "All display levels, log settings, clock readings (jumps forward and backward, stalls), CPU counts, and all sequences of write, flush and close errors of the log device.",
  NOTESTS + "No test varies clock, log device or verbosity.",
  [HNF, OPT, DIR], [("logging and timing only observe", HNF + ", " + OPT + ", " + DIR)],
  (), ["return values of lat_cor_hnf, lat_cor_direct, lat_opt"])

p("C14", "Each search's log file holds that search's full report and nothing else",
  "A search or sublattice optimisation given a log file writes its complete report, each line once, to that file (the report of a direct search includes every solution's distance), whatever searches with other or no log files ran before it in the process or run concurrently in other threads, completed or aborted. It writes nothing to any other search's log file; after log device errors stop, later searches' logs are complete again.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences of searches with the same, different or no log file, aborted and completed, interleaved threads, and log device errors during earlier searches.",
  NOTESTS + "A test that runs one logged search sees the first log only.",
  [DIR, OPT], [("log file handler attached for the search", DIR + ": lat_cor, " + OPT + ": lat_opt")],
  [("log handlers", "where search messages go", "module loggers")], ["contents of the log files"])

p("C15", "Callers and the library never share mutable arrays",
  "Overwriting any array, list or dictionary that a lattice, Bravais lattice, matrix group, martensite, twin system, twin pair or search has returned, or that was passed in to construct it, never changes any later answer of that or any other object or search, including the built-in symmetry groups. This holds also when one thread overwrites while another queries.",
  ["histories", "schedules"],
  "All objects, all accessors and constructor arguments, all sequences of queries and overwrites, and interleavings of overwriting and querying threads.",
  "Tests never overwrite what they were given.",
  [LAT, BRA, GRP, MAR, TWI], [("accessors hand out copies", LAT + ", " + BRA + ", " + GRP + ", " + MAR + ", " + TWI)],
  (), ["return values of accessors after overwrites"])

p("C25", "A search's answer does not depend on what ran before it",
  "The answer of every lattice-correspondence search (sublattice optimisation, sequential, parallel or direct) depends only on that search's own arguments. Completed searches before it in the same process, or in the worker process that evaluates its sublattices, never change it, whether they used the same, similar or other lattices, symmetry groups, distances, depths or numbers of solutions, and whether they were given the same argument objects. A search leaves the arrays and options it was given as they were.",
  ["histories"],
  "All sequences of completed searches in one process and in long-lived worker processes, in particular of searches whose arguments agree in all but one respect.",
  NOTESTS + "A test runs one search, or different ones, per process and cannot see an answer carried over from a similar request.",
  [HNF, OPT, DIR, "structrans/marttrans/lat_cor/slnode.py", "structrans/marttrans/lat_cor/dfs.py"],
  [("search state is local to the search", OPT + ": lat_opt, " + HNF + ": lat_cor, " + DIR + ": lat_cor")],
  (), ["return values of repeated searches"])

p("C26", "Calls of library functions do not influence each other",
  "Every call of the library's functions (enumeration and decomposition of Hermite normal forms, lattice reduction, reduction to symmetry orbits, lattice distances, rotations and Euler matrices, rank-one and austenite/martensite interface solvers, direction and plane conversion, stereographic projection, cell geometry) returns what it returns alone in a fresh process, whatever other calls precede it, overlap with it in other threads or were interrupted, and whatever callers did with earlier results. Equal arguments give equal answers, and arguments are left as they were.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences and line-level interleavings of calls in several threads, interrupts at every line of a call, and overwrites of earlier results.",
  NOTESTS + "Tests call each function once or twice, in one thread, uninterrupted.",
  ["structrans/crystallography/hnf.py", "structrans/crystallography/lattice_reduction.py", "structrans/util/utils.py", "structrans/marttrans/Compatibility.py",
   "structrans/marttrans/orientation_relationship.py", "structrans/marttrans/lat_cor/dist.py", "structrans/crystallography/stereogram.py", HNF],
  [("functions keep no state between calls", "the modules named")],
  (), ["return values of the functions", "argument values after calls"])

p("C27", "A copy of an object answers as the original, wherever it is sent",
  "Copying a lattice, Bravais lattice, matrix group, martensite, twin system or twin pair (copy, deepcopy, pickle), or sending it to another process, always works and yields an object that gives the same answers as the original. This holds whatever was asked of the original before, whether such a query was interrupted, whether other threads were querying it while it was copied, and whatever is asked of the original or of other copies afterwards.",
  ["histories", "schedules", "fault_sequences"],
  "All objects, all sequences of queries and copies of either, all moments at which a copy is made relative to queries running in other threads or cut short by an exception, and receiving processes of any age.",
  "No test copies or pickles anything; a test that did would copy a fresh or a fully used object, not one in between.",
  [LAT, BRA, GRP, MAR, TWI], [("instance attributes, filled lazily by queries, travel with the copy", LAT + ", " + BRA + ", " + GRP + ", " + MAR + ", " + TWI)],
  [("cached attributes", "answers computed so far", "instances")], ["return values of queries on copies and originals"])

p("C28", "A call leaves the process as it found it",
  "Apart from its documented output (return value, printed progress, its log file), no call of the library, whether it returns, raises or is interrupted, leaves anything changed in the process: logging configuration and handlers, numpy's error handling and print options, warning filters, standard streams, random seeds, recursion limit, signal handlers, working directory, environment, running threads and open files are as before. Calls that overlap in several threads leave nothing changed once they have all ended.",
  ["histories", "schedules", "fault_sequences"],
  "All calls and sequences of calls, all overlaps of calls in several threads, interrupts at every line, failing log devices, output streams and workers.",
  NOTESTS + "Unit tests look at return values of calls that succeed; a setting left changed shows only after a call that fails or overlaps another.",
  [DIR, OPT, HNF, LAT, MAR, TWI, "structrans/util/utils.py"], [("log handlers and files are attached for the time of a search", DIR + ": lat_cor, " + OPT + ": lat_opt")],
  [("logging configuration, numpy settings, open files", "process-wide state shared with the caller", "interpreter")], ["process settings before and after calls"])

p("C29", "What a search displays is its own report, at the level asked for",
  "A search called with display level 0 prints nothing. At any other level the text a search prints is exactly what the same search prints when it is the only one in a fresh process: earlier, simultaneous or aborted searches, log files and their levels, and failing devices neither silence it, nor add to it, nor change it. The reports of the lattice correspondence searches show the distance of every solution returned.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences of searches at all display levels, all overlaps in several threads, all interrupts of earlier ones, all log settings and device faults.",
  NOTESTS + "A display level kept in a module or class shows only when another search with a different level ran, runs or died before.",
  [DIR, OPT, HNF], [("display level and report", HNF + ": hnf_solver, " + DIR + ", " + OPT + ": disp")],
  [("display level", "process-wide or per call", "search")], ["standard output of searches"])

p("C30", "A call made in the middle of another call disturbs neither",
  "A library call made in the middle of another library call of the same thread (from a signal handler, a finaliser, or a callback of the pool, the display or the log) returns what it returns when called alone, and the call in whose middle it was made goes on to return what it would have returned without it. Neither ever waits forever for the other. This holds at every moment, for the same or other objects, and for nested calls that fail.",
  ["schedules", "histories", "fault_sequences"],
  "All pairs of calls on the same or different objects, and every line of the outer call at which the nested call is made, to any number of nested calls.",
  "No test calls the library from a handler or callback; locks that a thread cannot take twice, and scratch data or settings kept per thread or per process, show only there.",
  [LAT, GRP, MAR, TWI, DIR, OPT, HNF, "structrans/marttrans/lat_cor/dist.py", "structrans/crystallography/hnf.py"],
  [("cached attributes, scratch data and log handlers of a call in progress", LAT + ", " + GRP + ", " + MAR + ", " + DIR + ", " + OPT)],
  [("state of the call in progress", "a nested call of the same thread", "instances, modules and log handlers")], ["return values of nested and interrupted-in-the-middle calls", "log files"])

PURE = "A pure function of its arguments: no schedule, clock, fault, I/O or shared state takes part."
def n(id, title, statement, text, files, mech, why=None):
    p(id, title, statement, ["inputs"], text, why or "Tests sample a handful of matrices or none.", files, mech)
n("C16", "Hermite normal form enumeration is complete and free of repeats",
  "For every positive determinant and dimension the enumeration returns every Hermite normal form with that determinant exactly once.",
  "All determinants and dimensions.", ["structrans/crystallography/hnf.py", "structrans/crystallography/sublattice.py"], [("hnf_from_det, hnf_from_diag", "structrans/crystallography/hnf.py")])
n("C17", "Hermite normal form decomposition is canonical",
  "Every full-rank integer matrix M is decomposed as M = H L with H in Hermite normal form and L unimodular, and H is the same for all matrices spanning the same sublattice.",
  "All full-rank integer matrices.", ["structrans/crystallography/hnf.py"], [("hnfd", "structrans/crystallography/hnf.py")])
n("C18", "Lattice reduction preserves the lattice and its orientation",
  "Reducing a basis returns a basis of the same lattice with the same orientation that satisfies the reduction conditions.",
  "All non-singular bases.", ["structrans/crystallography/lattice_reduction.py"], [("LLL", "structrans/crystallography/lattice_reduction.py")])
n("C19", "Lattice equality and symmetry groups are mathematically right",
  "Two bases compare equal exactly when they span the same lattice, and the sets reported as symmetry groups are closed under multiplication and inversion.",
  "All bases in two and three dimensions.", [LAT, GRP], [("__eq__, Laue_group, point_group", LAT)])
n("C20", "Bravais lattice geometry matches its parameters",
  "Every Bravais lattice has the edge lengths, angles and centring of its type and parameters, and conversion between conventional and primitive indices is invertible.",
  "All lattice types and parameters.", [BRA], [("primitive bases, Miller index conversion", BRA)])
n("C21", "Distances between lattices are invariant under symmetry",
  "The Cauchy, Ericksen and strain distances of a correspondence are unchanged by symmetry operations of either lattice, and the vectorised distance equals the scalar one.",
  "All correspondences and lattice pairs.", ["structrans/marttrans/lat_cor/dist.py"], [("distance functions", "structrans/marttrans/lat_cor/dist.py")])
n("C22", "Twin and interface solutions satisfy their equations",
  "Twin parameters, habit planes and austenite/martensite interfaces returned by the solvers satisfy the twinning, rank-one and crystallographic equations they claim to solve.",
  "All compatible stretch tensors.", [TWI, "structrans/marttrans/Compatibility.py", "structrans/util/utils.py"], [("closed-form solvers", TWI)])
n("C23", "Rotations, orientation relationships and projections are exact",
  "Rotation and Euler matrices are proper orthogonal with the requested axis and angle, direction and plane transformations are mutually dual, and stereographic projections keep points within the projection circle.",
  "All angles, axes, correspondences and directions.", ["structrans/util/utils.py", "structrans/marttrans/orientation_relationship.py", "structrans/crystallography/stereogram.py"], [("matrix formulas", "structrans/util/utils.py")])
n("C24", "The multi-process direct search script agrees with the direct search",
  "The stand-alone multi-process version of the direct search reports the same solutions as the in-process direct search for every completion order of its workers.",
  "All completion orders of the worker processes.", ["structrans/marttrans/lat_cor/main_direct_para.py", "structrans/marttrans/lat_cor/solver.py"], [("pool.apply_async per batch", "structrans/marttrans/lat_cor/main_direct_para.py")],
  "No test runs it; it is Python 2 only.")
P[-1]["quantifier"]["over"] = ["schedules"]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
