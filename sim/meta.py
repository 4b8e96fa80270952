"""Per-property run counts and the static part of the evidence."""
META = {}


def m(id, quick, thorough, rule, measure, real, stub, assumptions, hang=90):
    META[id] = dict(quick=dict(runs=quick[0], cap=quick[1], hang=hang), thorough=dict(runs=thorough[0], cap=thorough[1], hang=hang * 2),
                    rule=rule, measure=measure, real=real, stub=stub, assumptions=assumptions)


LINES = "hash of the sequence of (thread, operation, line count, source line, next thread) decisions of a run"
OBJR = ["structrans.crystallography", "structrans.marttrans.martensite", "structrans.marttrans.twin (unmodified working tree)", "numpy"]
THR = ["thread scheduler (source-line granularity)"]
A_LINE = "interleavings and interrupt points are at source-line granularity of library files; numpy calls are atomic"

for id, kind in (("C08", "Lattice / BravaisLattice"), ("C09", "Martensite"), ("C10", "TwinSystem / TwinPair")):
    m(id, (2400, 100), (60000, 800),
      "seeded object (%s), 2-4 threads with 1-3 queries each, seeded preemptions at source lines; non-trivial: at least one preemption inside a query, "
      "counted once per distinct schedule" % kind, LINES, OBJR, THR, [A_LINE])

m("C11", (2400, 100), (60000, 800),
  "seeded object, 1-3 threads, 2-5 queries each; KeyboardInterrupt or MemoryError raised at a seeded source line inside most first and some later queries; "
  "non-trivial: an exception was injected inside a query", LINES, OBJR, THR + ["asynchronous exceptions"],
  [A_LINE, "a query cut short by an injected exception may raise any exception; what later queries return is judged"])

m("C15", (2400, 100), (60000, 800),
  "seeded objects built from caller-held arrays and lists, seeded sequences of queries and in-place overwrites of results and inputs, in 1-3 threads; "
  "non-trivial: at least one container was overwritten", "hash of objects, operation sequence and thread decisions", OBJR +
  ["structrans.marttrans.lat_cor (sequential search)"], THR,
  [A_LINE, "containers reached through documented accessors, constructor arguments and search arguments; private attributes are not touched",
   "handing out read-only arrays would satisfy the property"])

POOLS = ["asynchronous worker pool (virtual time, latencies, stalls, failures)"]
POOLR = ["structrans.marttrans.lat_cor.main_hnf (dispatch, polling, merge)", "structrans.crystallography", "numpy"]
POOLM = "hash of the request and the pool's event log (submit, start, poll, get in order)"
m("C01", (1200, 110), (40000, 850),
  "seeded pair of 3D Bravais lattices, request (solutions, distance, volume threshold, depth), pool size, CPU count and completion schedule; 40% of runs "
  "execute the library's own lat_opt in simulated worker processes and repeat the search sequentially, the others use stub workers with seeded "
  "solution lists (true distances, ties, short lists, equivalent solutions); non-trivial: at least two sublattice problems dispatched",
  POOLM, POOLR + ["structrans.marttrans.lat_cor.lat_opt in worker images (40% of runs)"], POOLS + ["lat_opt worker (60% of runs)"],
  ["worker results obey lat_opt's contract: sorted by distance, at least one solution", "distances closer than 1e-9 count as tied"])
m("C02", (1500, 100), (50000, 800),
  "as C01, mostly stub workers; non-trivial: at least two sublattice problems dispatched", POOLM, POOLR, POOLS + ["lat_opt worker (92% of runs)"],
  ["the expected set of problems is one sublattice per symmetry class, computed independently"])
m("C03", (1500, 100), (50000, 800),
  "as C01 with 1-3 failing workers and/or a refused submission at seeded positions, then a second search on a healthy pool in the same process; "
  "non-trivial: a failure was injected", POOLM, POOLR, POOLS + ["lat_opt worker (90% of runs)"],
  ["a failed task becomes ready and get() raises, as in multiprocessing; a task that never completes is outside the property"])
m("C04", (900, 100), (20000, 800),
  "seeded parent lattice and volume ratio (cell volumes 1-9), CPU count 1-7, reduction sequential or through a simulated map (ordered list, lazy "
  "iterator, unordered); non-trivial: at least two symmetry classes", "hash of request, CPU count and map behaviour",
  POOLR + ["reduce_hnfs in worker images"], POOLS + ["lat_opt worker", "parallel map"], [])

SEAR = ["structrans.marttrans.lat_cor (all search code)", "structrans.crystallography", "Python logging", "numpy"]
m("C05", (700, 110), (20000, 850),
  "2-3 threads, each running 1-2 sublattice optimisations, sequential searches or (10% of runs) 2D direct searches with seeded lattices and options, "
  "some on the same lattices and some unsupported 2D optimisations that raise; seeded preemptions at source lines; every result is compared with the "
  "same call alone in a fresh process image (direct search: with the exact optimum); non-trivial: at least one preemption",
  LINES, SEAR, THR, [A_LINE, "direct-search runs: lines of the pure numerical helpers and of the candidate generator are not yield points"], hang=120)
m("C06", (600, 120), (12000, 860),
  "seeded pair of lattices (2D; 3D in 1/16 of the thorough runs), number of solutions, batch size and random stream; compared with the exact optimum from "
  "an independent exhaustive enumeration of all integer correspondences within the returned distance; a run that needs more than 300000 random draws "
  "counts as not finishing; every run is non-trivial", "hash of lattices, request, batch size and random seed",
  SEAR, ["random number stream", "clock"], ["lattice pairs of moderate aspect ratio (condition number up to 4)", "distances closer than 1e-9 count as tied"], hang=150)
m("C07", (6000, 60), (400000, 700),
  "1-3 interleaved enumerations in dimension 1-9, stopped after seeded numbers of vectors and resumed from the next vector with the same or a smaller "
  "bound, up to 8 times; non-trivial: at least one stop-and-resume", "hash of dimension, bounds and stopping points",
  ["structrans.marttrans.lat_cor.main_direct.vec_generator"], ["caller that stops and resumes", "interleaving of enumerations"],
  ["bounds are chosen half-way between attainable lengths", "vectors beyond the bound may also be visited (they are candidates too), but none twice",
   "the generator is reached by its name; if it is renamed only C06 covers the resumption"])
m("C12", (500, 110), (20000, 850),
  "2-5 successive searches (optimisation, sequential, parallel on simulated workers, 2D direct) in one process; the first 1-3 are disturbed by "
  "KeyboardInterrupt or MemoryError at a seeded source line, an output stream error at a seeded write, a failing worker or a refused submission; "
  "non-trivial: at least one search was aborted", LINES, SEAR, THR + POOLS + ["stdout", "asynchronous exceptions", "random number stream"],
  [A_LINE, "interrupts do not land inside the worker processes of a parallel search"], hang=120)
m("C13", (800, 100), (30000, 800),
  "seeded search repeated with a seeded display level, log file and level, application logging configuration, clock behaviour (steady, frozen, jumping), "
  "CPU count, and seeded write / flush / close errors of the log device; every run is non-trivial", "hash of search and surroundings",
  SEAR, ["log device", "clock", "stdout", "CPU count", "random number stream"] + POOLS,
  ["the log file can be opened (an unusable log file name is reported to the caller)"], hang=120)
m("C14", (500, 110), (20000, 850),
  "2-5 optimisations and 2D direct searches in 1-3 threads, writing to their own, reused or no log files at seeded levels, some interrupted at seeded lines, "
  "some on a failing log device; each file is compared with what the same searches write alone in fresh process images (clock frozen); "
  "non-trivial: at least two searches", LINES, SEAR, THR + ["log device", "clock", "asynchronous exceptions", "random number stream"],
  [A_LINE, "two searches never share a log file at the same time",
   "what an aborted search or a failing device leaves in its own file is not promised"], hang=120)
m("C25", (700, 100), (30000, 850),
  "2-7 completed searches (optimisation, sequential, parallel on long-lived simulated workers, 2D direct) in one process, each mostly a small variation of "
  "an earlier one (type, parameters, sizes, symmetry, distance, depth, request, direction), argument objects passed again; every run is non-trivial",
  "hash of the sequence of requests", SEAR, POOLS + ["stdout", "clock", "random number stream"], [], hang=120)
m("C26", (3000, 90), (80000, 800),
  "1-3 threads with 2-6 calls each of 31 functions (enumeration and decomposition of Hermite normal forms, LLL, orbit reduction, distances, "
  "rotations, rank-one and interface solvers, direction/plane conversion, projections, cell geometry), often the same or slightly different calls on the "
  "same argument objects, results overwritten, some calls interrupted at seeded lines; every run is non-trivial", LINES,
  ["structrans.crystallography, structrans.util, structrans.marttrans (functions)", "numpy"], THR + ["asynchronous exceptions", "random number stream"], [A_LINE])
m("C27", (1800, 90), (60000, 800),
  "1-2 seeded objects (lattice, matrix group, martensite, twin system, twin pair), 1-3 threads asking and copying (copy, deepcopy, pickle of several "
  "protocols) at seeded source lines, some calls interrupted; then every object, every copy and copies pickled into another simulated process are asked; "
  "non-trivial: at least one copy was made", "hash of objects, operation sequence and thread decisions", OBJR, THR + ["asynchronous exceptions", "process boundary (pickle between module images)"], [A_LINE])
m("C28", (1500, 90), (60000, 800),
  "1-3 threads with 1-5 calls each: searches (log files, parallel, unsupported 2D), functions (also unusable arguments), object construction and queries; "
  "interrupts at seeded lines, failing log device, failing output stream, failing workers; process-wide settings, open files and threads compared before "
  "and after; every run is non-trivial", LINES, SEAR + ["structrans.util", "structrans.marttrans.martensite", "structrans.marttrans.twin"],
  THR + POOLS + ["log device", "stdout", "clock", "asynchronous exceptions", "random number stream"],
  [A_LINE, "a log file whose search is interrupted at the very line that opens it may stay open until it is garbage"], hang=120)
m("C29", (900, 100), (40000, 850),
  "2-4 searches (optimisation, sequential, parallel, 2D direct) at display levels 0-4 in 1-3 threads, with and without log files, some interrupted at seeded lines, "
  "some on a failing display or log device or with failing workers; what each search displays is compared with the same search alone in a fresh process "
  "image (clock frozen); non-trivial: at least two searches", LINES, SEAR,
  THR + POOLS + ["stdout", "log device", "clock", "asynchronous exceptions", "random number stream"], [A_LINE,
  "what a search displays is attributed to its thread", "what an aborted search displayed is not judged, except that level 0 displays nothing"], hang=120)
m("C30", (1500, 100), (50000, 850),
  "1-3 outer calls (searches, object queries, functions) in 1-2 threads, each with 1-2 further calls (the same or others, on the same or other objects, also "
  "ones that fail) made at seeded source lines in its middle, by the same thread; non-trivial: at least one nested call", "hash of calls and of the lines at which they were nested",
  SEAR + ["structrans.util", "structrans.marttrans.martensite", "structrans.marttrans.twin"], ["moment at which a signal handler, finaliser or callback runs"] + THR + POOLS + ["log device", "stdout", "clock",
  "random number stream"], [A_LINE, "a nested call runs to its end before the outer one goes on"], hang=120)
