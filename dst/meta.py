"""What the checks report about themselves, and how many runs they make."""

ASSUMPTIONS = [
    "CPython 3.12 with the GIL: preemption is simulated between source lines, before calls and at lock operations of the code under test, not inside one C call",
    "numpy/scipy/pandas and the C library are trusted; BLAS runs single-threaded",
    "absence of a violation on the sampled seeds is evidence, not proof",
]
SEAM_STUBS = [
    "thread scheduler (real OS threads, one runs at a time, the simulator picks)",
    "locks, queues and thread joins (pure-Python, simulator-blocking)",
    "clocks and sleep", "os entropy", "number of cores", "string hash salt", "contents of uninitialised memory",
]
LIB = ["tt_sketch (all modules, from /repo)", "fast_lazy_gaussian extension (built from /repo)",
       "concurrent.futures thread pool and futures", "numpy, scipy"]


def prop(rule, quick, thorough, probes=(), real=(), stub=(), level="exploration", note="", technique=None, floor=None, assumptions=(), budget=(240, 3000)):
    return {
        "rule": rule, "runs": {"quick": quick, "thorough": thorough}, "budget": {"quick": budget[0], "thorough": budget[1]},
        "floor": floor or max(8, quick // 20), "probes": list(probes), "real": LIB + list(real),
        "stub": SEAM_STUBS + list(stub), "level": level, "note": note,
        "technique": technique or "deterministic simulation with fault injection", "assumptions": list(assumptions),
    }


PROPS = {}
PROPS["C03"] = prop(
    "a run generates 1-4 arrays on a simulated machine under one seeded schedule with failures of worker, caller or thread start at a seeded point; non-trivial: a fault fired or a preemption happened; distinct by plan and context-switch trace",
    4000, 100000, ["completed", "raised"])
PROPS["C01"] = prop(
    "a run makes 1-4 seeded objects (arrays, tensors, maps, sketches) in a reference environment and in 1-3 environments that differ in core count, hash salt, process-wide generator, concurrent activity and thread schedule, partly in a second interpreter with another real hash seed; every run counts as non-trivial; distinct by plan and trace",
    2800, 60000, ["drm DG", "drm SG", "drm TT", "drm SS", "left-right", "normal", "tucker", "sparse", "stream None", "orth None", "hmt None"],
    stub=["second interpreter: a real process with its own PYTHONHASHSEED"])
PROPS["C02"] = prop(
    "a run is a history of caller draws, seeded (also failing) and unseeded calls in one thread, in concurrent threads, in several simulated processes, or after fixing the process-wide generator; distinct by plan and trace",
    2800, 60000, ["mode single", "mode threads", "mode fresh", "mode fixed", "seeded failed", "seeded ok"])
PROPS["C04"] = prop(
    "1-4 consumers on simulated machines stream updates, scalings, transpositions and partial merges with crashes at arbitrary code points and restarts from saved sketches, then merge in a random tree; non-trivial: a crash or preemption happened; distinct by plan and trace",
    2800, 60000, ["restart", "merged", "one-shot", "checkpoint"])
PROPS["C05"] = prop(
    "1-3 public operations, each failed 1-3 times by an exception at a seeded point (before a line or call of the code, in the calling or a worker thread) and then retried; non-trivial: an exception was injected; distinct by plan and trace",
    5000, 120000, ["failed", "iadd failed"])
PROPS["C06"] = prop(
    "2-4 threads run 1-2 public operations each on shared tensors, maps, sketches and linear maps under a seeded schedule with preemption at code lines and calls; compared with running alone; non-trivial: at least one preemption; distinct by plan and trace",
    5000, 120000, ["drm", "sketch", "sketch-update", "algebra", "tensor-train", "linear-map", "solve", "blocked", "seeded-constructor"])
PROPS["C07"] = prop(
    "a run sketches tensors in several modes and rank windows on simulated workers with lost, duplicated, delayed and reordered messages and worker crashes, then assembles the blocks; compared with the sketch computed at once; distinct by plan and trace",
    2800, 60000, ["slices DG", "slices SG", "slices TT", "slices SS", "empty slice", "block computed twice", "block requested again", "worker restarted"],
    stub=["network between simulated workers (drop, duplicate, delay, partition)"])
PROPS["C08"] = prop(
    "a run grows, restarts and checkpoints sketches and maps while updates stream in; after each step the sketch is compared with the one of the larger rank computed at once; distinct by plan and trace",
    2800, 60000, ["increased", "refused", "restart", "checkpoint"])
PROPS["C10"] = prop(
    "a run recovers tensors of known rank with a seeded method, map family, format, rank profile, machine and thread schedule; error judged against a bound from the condition of the drawn maps; distinct by plan and trace",
    4000, 120000, ["recovered stream", "recovered hmt", "recovered orth", "recovered up to noise"])
PROPS["C15"] = prop(
    "a run streams updates into a sketch, saving, copying, transposing and restoring it at seeded points (partly in a second interpreter), spoils one of the copies, and continues; distinct by plan and trace",
    2800, 60000, ["restart", "original spoiled", "copy spoiled", "continued in another interpreter", "increased", "map T", "map slice", "map used in another interpreter"],
    stub=["second interpreter: a real process with its own PYTHONHASHSEED"])
PROPS["C16"] = prop(
    "a run evaluates map entries of a seeded position set split in chunks, reordered, duplicated and retyped over simulated workers that crash and restart; distinct by plan and trace",
    12000, 250000, ["chunk", "window", "2^62", ">2^53", ">2^31", "small", "spread", "signs", "worker restarted"])
PROPS["C09"] = prop(
    "a run is a history of tensor operations (additions, scalings, transpositions, roundings, gathers, splits, applications of linear maps, in-place changes, failing operations) by 1-3 concurrent owners of shared tensors, each result compared with dense arrays; distinct by plan and trace",
    8000, 150000, ["concurrent", "failed operation", "iadd", "inplace", "setitem", "round", "gather", "error"])
PROPS["C11"] = prop(
    "a run solves a seeded linear system with a seeded rounding method, starting guess, preconditioner and clock, with operator failures and clock jumps at seeded points; compared with a dense reference GMRES, the true residual and the undisturbed run; distinct by plan and trace",
    1300, 30000, ["operator failed", "disturbed", "truncated budget", "solved exact", "solved pairwise", "solved sketch", "solved orth_sketch", "cookie problem"],
    real=["scripts/cookie_problem.py"], stub=["matplotlib (empty)", "finite element matrices (small random ones)"])
PROPS["C17"] = prop(
    "a run is a history of sketch requests by 1-3 callers sharing maps, tensors and live sketches, about half of them unfitting (shapes, ranks, orders, lengths, formats, linear maps), with interruptions at seeded points; the maps used, the results, the refusals and the state afterwards are checked; distinct by plan and trace",
    3200, 60000, ["call stream", "call orth", "call hmt", "compared orth", "compared hmt", "refused shape sketch", "refused shape update", "refused shape apply", "refused shape last summand", "refused rank", "refused rank hmt", "refused order", "refused length", "refused format", "refused misc", "refused nonzeros", "interrupted"])
FSSTUB = ["file system faults (real files in a scratch directory; every operation may fail, tear, fall short or end the process)", "process identity"]
PROPS["C12"] = prop(
    "a run is a history of recordings, saves and loads of one results file with crashes at code lines and file-system operations, short and torn writes, full disks and I/O errors; the file is compared with the promised rows after each; non-trivial: a fault fired; distinct by plan and trace",
    12000, 250000, ["recorded", "retried", "crash in do", "error in do", "crash in save", "error in save", "crash in open", "error in open", "crash in overwrite"],
    real=["scripts/experiment_base.py", "pandas reader and writer"], stub=FSSTUB)
PROPS["C13"] = prop(
    "a run restarts a batch of configurations 2-6 times in seeded orders, stopped cleanly, by failing or interrupted experiments, crashes and I/O errors; which experiments run and the rows on disk are compared with a model; distinct by plan and trace",
    7000, 150000, ["ran", "skipped", "crash", "complete", "experiment fail", "experiment ki", "experiment exit", "store error"],
    real=["scripts/experiment_base.py", "pandas reader and writer"], stub=FSSTUB)
PROPS["C14"] = prop(
    "a run is a history of downloads of 1-3 files by one or two processes over connections that are refused, reset, closed early, stalled, redirected or answered by errors, onto a disk that fails, fills up and tears writes, with crashes and interrupts; distinct by plan and trace",
    10000, 200000, ["downloaded", "kept", "error", "crash", "at the same time", "same file at the same time", "all complete"],
    real=["scripts/data_download_util.py", "urllib, http.client, tqdm"],
    stub=FSSTUB + ["sockets and web server (fake sockets below http.client; TLS left out)"])
PROPS["C18"] = prop(
    "a run makes 1-3 measurements in each of 1-3 callers on a simulated clock, with slow maps and error functions, a stall at a seeded point, calendar clock changes, and failing maps, error functions and code lines followed by a retry, directly and through the store; compared with the library called with the maps that were drawn and with dense arrays; distinct by plan and trace",
    4000, 80000, ["measured stream", "measured orth", "measured hmt", "measured svd", "measured round", "slow maps", "stalled", "failed in map", "failed in error", "failed in line", "stored"],
    real=["scripts/experiment_base.py", "pandas reader and writer"], stub=["maps and error functions of the user (the library's maps with seeded delays and failures)"])
