"""What each check runs: lanes, numbers of runs, limits, and what its evidence says about itself."""

REAL_ALWAYS = ["the whole dsrg_generator package from the working tree", "sympy", "the Python interpreters"]


def lanes(n=7, pypy=1):
    return [["cpython", h] for h in range(n)] + [["pypy", h] for h in range(pypy)]


BASE = dict(level="exploration", budget=300, minimise=60, pypy_every=60, cpu_limit=100, wall_limit=280)

POOL_REAL = REAL_ALWAYS + ["pickling of tasks and results",
                           "worker processes (forked, or from an interpreter of their own with another hash seed), one address space each"]
POOL_STUB = ["multiprocessing.Pool: replaced by a scheduler-driven pool with the same interface",
             "CPU count", "the operating system's choice of which worker runs when"]
POOL_ASSUME = ["the simulated pool follows the documented behaviour of multiprocessing.Pool",
               "sampled schedules, faults and requests; a clean batch is evidence, not proof"]
IO_REAL = REAL_ALWAYS + ["the interpreter's own buffering and the real file system, in a scratch directory"]
IO_STUB = ["results of the file and directory system calls (an LD_PRELOAD library decides which fail, are cut short or "
           "are the process's last)"]
IO_ASSUME = ["process death, not power failure: what a write call accepted stays", "sampled faults and requests"]

PLANS = {
    "C01": dict(runs=(3500, 60000), rule="a request and a machine (workers, CPUs, batch size, schedule style) drawn "
                "from the seed, run on the simulated pool and compared with a pristine one-process run; non-trivial: "
                "at least two tasks went through the pool; distinct by order of delivery, machine and task count",
                real=POOL_REAL, stub=POOL_STUB, assumptions=POOL_ASSUME),
    "C02": dict(runs=(10000, 150000), scenarios=["C02-F7"],
                rule="one or two streams of contractions with drawn operators, limits, workers, chunk sizes, schedule "
                "and consumer order; every delivered contraction is compared with an independent enumerator; "
                "non-trivial: more than one contraction delivered; distinct by order of delivery and sizes",
                real=POOL_REAL, stub=POOL_STUB, assumptions=POOL_ASSUME +
                ["the reference enumerator is right (it is written from the definition and independent of the package)"]),
    "C03": dict(runs=(2400, 30000), scenarios=["C03-F6"],
                rule="a request on the simulated pool with one or two failures in or around a worker (error or memory "
                "exhaustion at a drawn line, task or result that cannot be transferred, worker that cannot start, is "
                "killed or interrupted); the caller must get an exception or the complete result; non-trivial: the "
                "fault fired; distinct by fault, place and order of delivery",
                real=POOL_REAL, stub=POOL_STUB, assumptions=POOL_ASSUME),
    "C04": dict(runs=(2500, 40000),
                rule="the same request under drawn batch sizes, chunk sizes, CPU counts, worker counts, start methods "
                "and worker replacement, compared with a pristine one-process run; non-trivial: at least two tasks or "
                "two batches; distinct by machine and order of delivery",
                real=POOL_REAL, stub=POOL_STUB, assumptions=POOL_ASSUME),
    "C05": dict(runs=(2500, 40000), scenarios=["C05-recursion"],
                rule="a request that is interrupted or fails at a drawn line or wait, or a stream closed, dropped or "
                "thrown into after a drawn number of pieces; then workers, process-wide settings and the same request "
                "again; non-trivial: the disturbance happened; distinct by kind, place and order of delivery",
                real=POOL_REAL, stub=POOL_STUB, assumptions=POOL_ASSUME),
    "C06": dict(runs=(4000, 100000),
                rule="two or three simulated threads (switched at drawn lines or bytecode instructions of the package), "
                "or two to four generators advanced in a drawn order, on shared operands; every result is compared with "
                "the same work done alone in a pristine process; non-trivial: at least one switch inside the package; "
                "distinct by programs and switch points",
                real=REAL_ALWAYS + ["real threads, one running at a time"],
                stub=["the thread scheduler", "threading.Lock and RLock (scheduler-aware)", "multiprocessing.Pool"],
                assumptions=["threads are switched only inside the package's own code", "sampled schedules and programs"]),
    "C07": dict(runs=(3000, 80000),
                rule="a drawn history of operations on shared operands (with interrupted operations, abandoned streams "
                "and parallel derivations in between); every result is compared with the same operation in a pristine "
                "process, and all operands, earlier results and shared tables with what they were; non-trivial: more "
                "than one step; distinct by sequence of operations",
                real=REAL_ALWAYS, stub=["multiprocessing.Pool", "the console"], assumptions=["sampled histories"]),
    "C08": dict(runs=(4000, 60000), level="fault_enumeration",
                rule="a drawn save under drawn failures of its file operations; the saved code is run by an independent "
                "interpreter on random tensors against the terms it was made from, and a save that returns must have "
                "left exactly the bytes of an undisturbed one; non-trivial: at least one term saved; distinct by "
                "request, faults and outcome",
                real=IO_REAL, stub=IO_STUB, assumptions=IO_ASSUME +
                ["the evaluator of generated code and terms is right (numpy, independent of the package)"]),
    "C09": dict(runs=(4000, 60000), level="fault_enumeration",
                rule="a drawn save that crashes (at a drawn system call, before, after or in the middle of it, or at a "
                "drawn line) or fails one to three times, possibly between other saves, then the same save again; bytes "
                "are compared with an undisturbed save and the whole surrounding tree with what it was; non-trivial: at "
                "least one disturbed attempt; distinct by attempts and outcomes",
                real=IO_REAL, stub=IO_STUB, assumptions=IO_ASSUME),
    "C10": dict(runs=(6000, 200000), level="fault_enumeration",
                rule="a drawn program of nested working-directory scopes with failing directory operations, exceptions, "
                "interrupts and abandoned generators; the directory and the exceptions are compared with a small model; "
                "non-trivial: at least one scope; distinct by history",
                real=IO_REAL, stub=IO_STUB, assumptions=IO_ASSUME),
    "C11": dict(runs=(4000, 120000), level="fault_enumeration",
                rule="drawn lists of terms printed to a console that fails at drawn points in drawn ways; the full text "
                "is compared with the terms (LaTeX line by line, ambit statements by running them), what was written "
                "before a failure with the full text; non-trivial: at least one term; distinct by request and failures",
                real=REAL_ALWAYS, stub=["the console"], assumptions=["sampled lists and failure points"]),
    "C12": dict(runs=(2500, 60000), mode="compare", lanes=lanes(7, 0),
                rule="a drawn request (derivation, stream, operations on terms, save, print) carried out in seven "
                "interpreters with different hash seeds; everything they produce must be identical; non-trivial: every "
                "run; distinct by output",
                real=REAL_ALWAYS, stub=["multiprocessing.Pool", "the console", "the hash seed of each interpreter (chosen)"],
                assumptions=["seven hash seeds", "same interpreter version"]),
    "C13": dict(runs=(6000, 200000),
                rule="a drawn program of nested and repeated timed blocks under simulated clocks (wall clock steps, CPU "
                "time apart from elapsed time, exceptions); the recorded and printed times are compared with the "
                "simulated elapsed time; non-trivial: at least one timed block; distinct by history",
                real=REAL_ALWAYS, stub=["all clocks of the process"], assumptions=["sampled programs and clock behaviours"]),
}


def plan(prop, tier):
    p = dict(BASE, lanes=lanes())
    p.update(PLANS[prop])
    p["runs"] = p["runs"][0 if tier == "quick" else 1]
    if tier != "quick":
        p["budget"] = p.get("budget_thorough", 3000)
        p["minimise"] = 300
    return p
