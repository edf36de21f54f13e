"""Runs that put the derivations on the simulated process pool: C01 - C05."""
import os

import simpool
import workloads as wl
import props
from core import SimHang, Violation
from props import attempt, brief, isolated, norm, prop, same
from simpool import W

HOOK = "DSRG_GENERATOR_SIM_BATCH_SIZE"


def serial(spec):
    W.reset(None)
    return wl.dump(wl.call_derivation(spec, 1))


def gen_pool(ctx, hook=30, spawn=0, recycle=0):
    """Machine and schedule of a run."""
    ch = ctx.ch
    n = ch.weighted([(4, 2), (3, 3), (2, 4), (1, 6)], "n_process")
    cpu = ch.weighted([(4, 8), (2, 2), (2, 3), (1, 1)], "cpus")
    style = ch.pick(5, "style")
    batch = None
    if ch.flip(hook, "small-batches"):
        batch = ch.spread(40, "batch")
    method = "spawn" if ch.flip(spawn, "spawn") else "fork"
    maxtasks = ch.spread(4, "maxtasks") if ch.flip(recycle, "recycle") else None
    return dict(n=n, cpu=cpu, style=style, batch=batch, method=method, maxtasks=maxtasks)


def enter(ctx, m, faults=None):
    """Put the simulated machine in place."""
    W.reset(ctx, cpu=m["cpu"], start_method=m["method"], maxtasks=m["maxtasks"], style=m["style"], faults=faults)
    W.victim = 0
    if m["method"] != "fork" and W.zygote is None:
        W.zygote = simpool.Zygote()
    if m["batch"] is not None:
        os.environ[HOOK] = str(m["batch"])
    else:
        os.environ.pop(HOOK, None)


def leave():
    os.environ.pop(HOOK, None)


def account(ctx, m):
    ctx.steps = W.steps
    ctx.probes["pools"] += len(W.pool_args)
    ctx.probes["workers started"] += W.n_started
    ctx.probes["tasks"] += W.n_tasks
    if W.deliveries != sorted(W.deliveries):
        ctx.probes["results handed back out of order"] += 1
    if m["batch"] is not None and len(W.pool_args) > 1:
        ctx.probes["several batches"] += 1
    if m["method"] == "spawn":
        ctx.probes["fresh-interpreter workers"] += 1
    if W.n_started > sum(W.pool_args):
        ctx.probes["workers replaced"] += 1
    for kind, _ in W.fired:
        ctx.faults[kind] += 1
    ctx.nontrivial = W.n_tasks > 1
    ctx.shape = [W.deliveries[:64], m["n"], m["cpu"], W.n_tasks, len(W.pool_args)]


def gen_batch(ch):
    """One batch of contractions as the derivations hand them to the workers, with repeated and cancelling ones."""
    ops = [wl.gen_operand(ch, i, 1) for i in range(2 + ch.pick(2, "operands"))]
    n = 2 + ch.pick(30, "contractions")
    return dict(ops=ops, kw=dict(max_cu=1 + ch.pick(2, "max_cu"), max_n_open=6, min_n_open=0, for_commutator=False,
                                 expand_hole=True),
                take=[[ch.pick(12, "which"), ch.of([1.0, -1.0, 0.5, -0.5, 2.0], "weight")] for _ in range(n)],
                coeff=ch.of(wl.SCALES, "scale"), simplify=not ch.flip(30, "as they come"), chunk=ch.spread(8, "chunk"),
                hermitian=not ch.flip(25, "nonherm"))


def call_batch(b, n):
    """The value of the batch: canonical terms, combined."""
    import dsrg_generator.phys_op_contraction as po
    d = wl.pkg()
    terms = [wl.build(o) for o in b["ops"]]
    cons = [c for part in d.compute_operator_contractions([t.sq_op for t in terms], **b["kw"]) for c in part]
    if not cons:
        return []
    cons = [(w * cons[k % len(cons)][0],) + tuple(cons[k % len(cons)][1:]) for k, w in b["take"]]
    tensors = [x for t in terms for x in t.list_of_tensors]
    r = po.canonicalize_contractions_batch(n, cons, tensors, b["coeff"], b["simplify"], b["chunk"], b["hermitian"])
    return wl.dump(d.combine_terms(r))


def serial_batch(b):
    W.reset(None)
    return call_batch(b, 1)


def has_batches():
    import dsrg_generator.phys_op_contraction as po
    return hasattr(po, "canonicalize_contractions_batch")


def batch_run(ctx):
    b = gen_batch(ctx.ch)
    m = gen_pool(ctx, hook=0)
    ctx.summary = dict(batch=b, machine=m)
    ref = isolated(serial_batch, b)
    enter(ctx, m)
    got = attempt(call_batch, b, max(2, min(m["n"], m["cpu"])))
    leave()
    account(ctx, m)
    ctx.log("result", norm(got))
    ctx.probes["batches with repeated contractions"] += 1
    bad = same(got, ref)
    if bad:
        ctx.fail("differs-from-serial", "a batch on %d workers, deliveries %s: %s" % (m["n"], W.deliveries[:40], bad))


@prop("C01")
def run_c01(ctx):
    if ctx.ch.flip(25, "one batch") and has_batches():
        batch_run(ctx)
        return
    spec = wl.gen_derivation(ctx.ch)
    m = gen_pool(ctx, spawn=12)
    ctx.summary = dict(request=spec, machine=m)
    ref = isolated(serial, spec)
    enter(ctx, m)
    got = attempt(lambda: wl.dump(wl.call_derivation(spec, m["n"])))
    leave()
    account(ctx, m)
    if ref[0] == "raise":
        ctx.probes["request raises"] += 1
    bad = same(got, ref)
    ctx.log("result", norm(got))
    if bad:
        ctx.fail("differs-from-serial", "%d workers, deliveries %s: %s" % (m["n"], W.deliveries[:40], bad))


# ---------------------------------------------------------------- C02: the stream of contractions

def gen_stream(ch, high=0):
    """A request for a stream of contractions."""
    if high and ch.flip(high, "high cumulants"):
        return gen_high(ch)
    ops = wl.gen_product(ch, 10)
    if ch.flip(30, "uneven"):
        ops = [gen_uneven(ch, i) if ch.flip(60, "uneven op") else o for i, o in enumerate(ops)]
        bare = [o for o in ops if o[0] == "S"]
        if len(bare) > 1 and ch.flip(40, "same name above and below"):
            a, b = bare[ch.pick(len(bare), "above")], bare[ch.pick(len(bare), "below")]
            if a is not b and a[1] and b[2] and b[2][0] not in [x for o in bare for x in o[1]]:
                a[1][0] = b[2][0]
    kw = wl.gen_limits(ch)
    if ch.flip(10, "odd limits"):
        kw["max_n_open"] += 1
    kw["for_commutator"] = not ch.flip(40, "general")
    kw["expand_hole"] = not ch.flip(40, "keephole")
    act, tot = wl.estimate(ops, kw["max_cu"])
    if act > 5 and kw["max_cu"] > 2:
        kw["max_cu"] = 2
    if act > 6 or tot > 8:
        kw["max_cu"] = 1
    if ch.flip(8, "cu-out-of-range"):
        if act <= 4 and tot <= 8:
            kw["max_cu"] = ch.of([0, -1, 9], "max_cu")
    return dict(ops=ops, kw=kw)


def gen_high(ch):
    """Few operators with many active indices and cumulants of four or five pairs."""
    k = ch.weighted([(10, 4), (4, 3), (1, 5)], "pairs")
    n_ops = ch.weighted([(5, 2), (3, 3), (1, 4)], "operators") if k < 5 else 2
    kinds = "a" if k > 4 else ch.of(["a", "a", "aaaahp", "aaap"], "spaces")
    ops = [["S", [], []] for _ in range(n_ops)]
    for side in (1, 2):
        for i in range(k):
            slot = (i if side == 1 else n_ops - 1 - i) if i * 2 < n_ops else ch.pick(n_ops, "operator")
            ops[slot][side].append("%s%d" % (ch.of(kinds, "sp") if len(kinds) > 1 else kinds,
                                             10 * slot + 5 * side + len(ops[slot][side]) - 5))
    kw = dict(max_cu=ch.of([k, k, k - 1], "max_cu"), max_n_open=ch.of([0, 2, 4, 2 * k], "max_n_open"),
              min_n_open=ch.of([0, 0, 2], "min_n_open"), for_commutator=not ch.flip(60, "general"),
              expand_hole=ch.flip(40, "expand"))
    if k > 4:
        kw["max_n_open"], kw["expand_hole"] = 0, False
    kw["min_n_open"] = min(kw["min_n_open"], kw["max_n_open"])
    return dict(ops=ops, kw=kw)


def gen_uneven(ch, slot):
    """A bare operator string, with any numbers of creation and annihilation operators."""
    n, m = ch.of([(1, 1), (1, 2), (2, 1), (0, 1), (1, 0), (2, 0), (0, 2)], "numbers")
    sp = ch.of(["a", "hp", "cav", "g", "ahpg"], "spaces")
    cre = ["%s%d" % (ch.of(sp, "sp"), 10 * slot + k) for k in range(n)]
    ann = ["%s%d" % (ch.of(sp, "sp"), 10 * slot + n + k) for k in range(m)]
    if n and m and ch.flip(20, "diagonal"):
        ann[0] = cre[0]
    return ["S", cre, ann]


def sq_ops(spec):
    d = wl.pkg()
    return [d.SecondQuantizedOperator(list(o[1]), list(o[2])) if o[0] == "S" else wl.build(o).sq_op
            for o in spec["ops"]]


def plain_ops(ops):
    return [([i.name for i in o.cre_ops.indices], [i.name for i in o.ann_ops.indices]) for o in ops]


KIND = {"HoleDensity": "E", "Cumulant": "L", "Kronecker": "K"}


def normal_form(entry):
    from refwick import sort_sign
    sign, dens, op = entry
    ds = []
    for t in dens:
        su, us = sort_sign([i.name for i in t.upper_indices.indices])
        sl, ls = sort_sign([i.name for i in t.lower_indices.indices])
        sign *= su * sl
        ds.append((KIND.get(type(t).__name__, type(t).__name__), us, ls))
    su, us = sort_sign([i.name for i in op.cre_ops.indices])
    sl, ls = sort_sign([i.name for i in op.ann_ops.indices])
    return (tuple(sorted(ds)), us, ls), int(sign * su * sl)


def open_stream(spec, n_process=1, batch_size=1, ops=None):
    d = wl.pkg()
    kw = dict(spec["kw"])
    return d.compute_operator_contractions(ops if ops is not None else sq_ops(spec), n_process=n_process,
                                           batch_size=batch_size, **kw)


def table(entries):
    out = {}
    for e in entries:
        k, s = normal_form(e)
        out.setdefault(k, []).append(s)
    for v in out.values():
        v.sort()
    return out


def table_diff(got, ref):
    miss = [k for k in ref if k not in got]
    extra = [k for k in got if k not in ref]
    if miss or extra:
        ex = ("missing " + repr(miss[0])) if miss else ("unexpected " + repr(extra[0]))
        return "%d contractions missing, %d unexpected; %s" % (len(miss), len(extra), ex)
    for k in ref:
        if got[k] != ref[k]:
            return "contraction %r has signs %r instead of %r" % (k, got[k], ref[k])
    return None


def judge_stream(ctx, spec, entries, what):
    import refwick
    kw = spec["kw"]
    ops = plain_ops(sq_ops(spec))
    try:
        full, inc = refwick.reference(ops, kw["max_cu"], kw["max_n_open"], kw["min_n_open"], kw["for_commutator"],
                                      kw["expand_hole"])
    except OverflowError:
        ctx.probes["reference too large"] += 1
        return
    got = table(entries)
    bad = table_diff(got, full)
    if bad is None:
        return
    if len(ops) >= 4 and kw["for_commutator"] and table_diff(got, inc) is None:
        ctx.known["F7"] = ("the connected contractions of %d operators %r (max_cu=%d) lack %d of %d that only "
                           "connect in a later step of the enumeration" % (len(ops), ops, kw["max_cu"],
                                                                           len(full) - len(inc), len(full)))
        return
    ctx.fail("wrong-contractions", "%s: %s" % (what, bad))


def plain_entry(e):
    return [e[0], [wl.dump_tensor(t) for t in e[1]], wl.dump(e[2])]


@prop("C02")
def run_c02(ctx):
    ch = ctx.ch
    n_streams = 1 + (ch.pick(2, "second stream") if ch.flip(40, "several streams") else 0)
    specs = [gen_stream(ch, 12) for _ in range(n_streams)]
    m = gen_pool(ctx, hook=0, spawn=12)
    modes = []
    for s in specs:
        if ch.flip(65, "parallel"):
            b = ch.weighted([(3, 1), (2, 0), (2, 2), (1, 5), (1, 50)], "batch_size")
            if s["kw"]["max_cu"] > 3 and 0 < b < 5:     # thousands of contractions
                b *= 8
            modes.append((m["n"], b))
        else:
            modes.append((1, 1))
    burst = ch.weighted([(2, 1), (2, 3), (1, 10)], "burst")
    ctx.summary = dict(streams=specs, machine=m, modes=modes)
    enter(ctx, m)
    streams, done, got, seen = [], [], [], []
    for s, (n, b) in zip(specs, modes):
        streams.append(iter(open_stream(s, n, b)))
        got.append([])
        seen.append([])
        done.append(False)
    live = list(range(n_streams))
    while live:
        k = live[ch.pick(len(live), "stream")] if len(live) > 1 else live[0]
        for _ in range(burst if len(live) > 1 else 1 << 30):
            r = attempt(next, streams[k], None)
            if r[0] != "ok":
                ctx.fail("stream-fails", "stream %d: %s" % (k, brief(r)))
            if r[1] is None:
                live.remove(k)
                break
            got[k].append(r[1])
            seen[k].append(norm([plain_entry(e) for e in r[1]]))
    account(ctx, m)
    ctx.nontrivial = sum(len(b) for g in got for b in g) > 1
    ctx.shape = [ctx.shape, n_streams, [sum(len(b) for b in g) for g in got]]
    for k in range(n_streams):
        late = [norm([plain_entry(e) for e in b]) for b in got[k]]
        if late != seen[k]:
            ctx.fail("delivered-changed", "a piece of the stream changed after it was delivered")
        ctx.log("stream", k, sorted(map(repr, (e for b in late for e in b))))
        judge_stream(ctx, specs[k], [e for b in got[k] for e in b],
                     "stream %d, %d workers, chunks of %d" % (k, modes[k][0], modes[k][1]))


@prop("C02-F7")
def run_c02_f7(ctx):
    spec = dict(ops=[["X", "V", ["a%d" % (10 * k)], ["a%d" % (10 * k + 1)], 1.0] for k in range(4)],
                kw=dict(max_cu=1, max_n_open=6, min_n_open=0, for_commutator=True, expand_hole=False))
    W.reset(None)
    ents = [e for b in open_stream(spec) for e in b]
    judge_stream(ctx, spec, ents, "the four-operator example")
    ctx.nontrivial = True


# ---------------------------------------------------------------- C03: failures in and around workers

WORKER_FAULTS = ["MemoryError", "SimInjected", "OSError", "RecursionError", "result-transfer"]


def dry_lines(req, m, n):
    """How many lines of the package the caller executes for the request on this machine."""
    W.reset(None, cpu=m["cpu"])
    if m["batch"] is not None:
        os.environ[HOOK] = str(m["batch"])
    with simpool.LineFault(1 << 60, "KeyboardInterrupt") as lf:
        attempt(carry_out, req, n)
    return lf.count


def stream_table(spec, n=1, b=1):
    out = table([e for batch in open_stream(spec, n, b) for e in batch])
    return sorted([list(k), v] for k, v in out.items())


def gen_request(ch, stream=25):
    """A derivation, a stream of contractions, or one batch of canonicalizations."""
    if ch.flip(stream, "stream"):
        return dict(stream=gen_stream(ch), batch_size=ch.weighted([(3, 1), (2, 0), (2, 3), (1, 20)], "batch_size"))
    return dict(derive=wl.gen_derivation(ch))


def carry_out(req, n):
    """Plain value of the request's result."""
    if "stream" in req:
        return stream_table(req["stream"], n, req["batch_size"])
    return wl.dump(wl.call_derivation(req["derive"], n))


def serial_request(req):
    W.reset(None)
    os.environ.pop(HOOK, None)
    return carry_out(req, 1)


def dry_tasks(req, m):
    """How many tasks the request puts on the pool of this machine (so that faults can be aimed at one)."""
    W.reset(None, cpu=m["cpu"])
    if m["batch"] is not None:
        os.environ[HOOK] = str(m["batch"])
    attempt(carry_out, req, m["n"])
    return [W.n_tasks, W.n_started]


def judge_outcome(ctx, got, ref, what, deaths=()):
    """An exception, or the complete and correct result; never silence, never a wait without end."""
    if got[0] == "hang":
        if deaths:
            ctx.known["F6"] = ("after a worker process died with task %r the caller waits forever (%s)"
                               % (deaths[0], got[1]))
            return
        ctx.fail("waits-forever", "%s: %s" % (what, got[1]))
    if got[0] == "raise":
        ctx.probes["caller got an exception"] += 1
        return
    bad = same(got, ref)
    if bad:
        ctx.fail("silently-wrong", "%s: %s" % (what, bad))
    ctx.probes["caller got the correct result"] += 1


@prop("C03")
def run_c03(ctx):
    ch = ctx.ch
    req = gen_request(ch)
    m = gen_pool(ctx, hook=30, spawn=8, recycle=20)
    if m["cpu"] == 1:
        m["cpu"] = 2
    ref = isolated(serial_request, req)
    dry = isolated(dry_tasks, req, m)
    n_tasks, n_started = dry[1] if dry[0] == "ok" else (1, 1)
    kind = ch.weighted([(5, "MemoryError"), (4, "SimInjected"), (2, "OSError"), (2, "RecursionError"),
                        (4, "result-transfer"), (3, "task-transfer"), (3, "fork-fail"), (2, "kill"),
                        (1, "KeyboardInterrupt"), (6, "other")], "fault")
    if kind == "other":
        kind = ch.of(simpool.OTHERS, "error")
    faults = {}
    victim = 1 + ch.pick(max(1, n_tasks), "victim task")
    two = ch.flip(15, "second fault")
    enter(ctx, m)
    if kind == "task-transfer":
        W.task_pickle_fail = victim
    elif kind == "fork-fail":
        W.fork_fail = 1 + ch.pick(max(1, n_started), "worker start")
    else:
        nth = ch.spread(4000, "line") if kind != "result-transfer" else 1
        W.faults[victim] = (kind, nth)
        if two:
            W.faults[1 + ch.pick(max(1, n_tasks), "victim task")] = ("MemoryError", ch.spread(500, "line"))
    ctx.summary = dict(request=req, machine=m, fault=kind, victim=victim, faults=repr(W.faults))
    got = attempt(carry_out, req, m["n"])
    leave()
    account(ctx, m)
    ctx.nontrivial = bool(W.fired)
    ctx.shape = [kind, W.fired, W.deliveries[:40], n_tasks]
    ctx.log("outcome", norm(got))
    deaths = [o for k, o in W.fired if k in ("kill", "KeyboardInterrupt", "died")]
    judge_outcome(ctx, got, ref, "fault %s fired %s" % (kind, W.fired), deaths)
    if got[0] == "raise" and not W.fired:
        if same(got, ref):
            ctx.fail("spurious-error", "no fault fired, yet %s" % brief(got))
    # and the process is still usable
    if ch.flip(40, "again"):
        W.kill_all()
        enter(ctx, dict(m, style=0))
        got = attempt(carry_out, req, m["n"])
        leave()
        bad = same(got, ref)
        if bad:
            ctx.fail("wrong-after-failure", "repeating the request after the fault %s %s: %s" % (kind, W.fired, bad))


@prop("C03-F6")
def run_c03_f6(ctx):
    req = dict(derive=dict(fn="contract_terms", ops=[["H", 1, 0], ["T", 1, 10, True, "h", "p", 1.0]],
                           kw=dict(max_cu=1, max_n_open=6, min_n_open=0, hermitian_tensor=True, for_commutator=True,
                                   expand_hole=True, scale_factor=1.0)))
    m = dict(n=2, cpu=4, style=0, batch=None, method="fork", maxtasks=None)
    ref = isolated(serial_request, req)
    enter(ctx, m, {1: ("kill", 1)})
    got = attempt(carry_out, req, 2)
    leave()
    account(ctx, m)
    judge_outcome(ctx, got, ref, "a worker is killed with its first task", [1])
    W.kill_all()


# ---------------------------------------------------------------- C04: sizes and the machine

@prop("C04")
def run_c04(ctx):
    ch = ctx.ch
    req = gen_request(ch, stream=20)
    if "stream" in req:
        req["batch_size"] = ch.weighted([(2, 0), (2, 1), (2, 2), (2, 7), (1, 1000)], "batch_size")
    n = ch.weighted([(3, 2), (2, 3), (2, 5), (1, 8), (1, 16), (1, 1)], "n_process")
    cpu = ch.weighted([(3, 4), (2, 1), (2, 2), (2, 3), (2, 8), (1, 12)], "cpus")
    batch = None
    if "derive" in req and ch.flip(75, "small-batches"):
        batch = ch.spread(64, "batch")
    m = dict(n=n, cpu=cpu, style=ch.pick(5, "style"), batch=batch,
             method=ch.weighted([(3, "fork"), (2, "spawn"), (1, "forkserver")], "start method"),
             maxtasks=ch.spread(5, "maxtasks") if ch.flip(40, "recycle") else None)
    ctx.summary = dict(request=req, machine=m)
    ref = isolated(serial_request, req)
    enter(ctx, m)
    got = attempt(carry_out, req, n)
    leave()
    account(ctx, m)
    ctx.nontrivial = W.n_tasks > 1 or (batch is not None and n == 1)
    ctx.shape = [ctx.shape, batch, m["method"], m["maxtasks"], req.get("batch_size")]
    ctx.log("result", norm(got))
    bad = same(got, ref)
    if bad:
        ctx.fail("depends-on-sizes", "machine %s: %s" % (m, bad))
    if W.max_alive > min(n, cpu):
        ctx.fail("too-many-workers", "%d worker processes at a time, %d asked for, %d CPUs" % (W.max_alive, n, cpu))
    ctx.probes["at most %s workers" % ("requested" if n <= cpu else "CPU-bound")] += 1


# ---------------------------------------------------------------- C05: interruption

def process_state():
    import signal as sg
    import sys
    import threading
    import warnings
    import faulthandler
    import gc
    import socket
    import tempfile
    import dsrg_generator.mo_space as mo
    d = wl.pkg()
    import ops
    tables = {k: stable(getattr(mo, k)) for k in ops.TABLES if hasattr(mo, k)}
    return dict(cwd=os.getcwd(), environ=dict(os.environ), filters=repr(warnings.filters),
                tables=tables, stdout=id(sys.stdout), stderr=id(sys.stderr), threads=threading.active_count(),
                handlers=[repr(sg.getsignal(s)) for s in (sg.SIGINT, sg.SIGTERM, sg.SIGCHLD, sg.SIGALRM)],
                umask=_umask(), path=list(__import__("sys").path),
                switch=sys.getswitchinterval(), limit=sys.getrecursionlimit(),
                start=[repr(d.Tensor.subclasses) if hasattr(d.Tensor, "subclasses") else ""],
                fds=len(os.listdir("/proc/self/fd")), sigmask=sorted(map(int, sg.pthread_sigmask(sg.SIG_BLOCK, []))),
                excepthook=id(sys.excepthook), displayhook=id(sys.displayhook), precision=_decimal(),
                collector=__import__("gc").isenabled(), trace=repr(sys.gettrace()), profile=repr(sys.getprofile()),
                locale=repr(__import__("locale").setlocale(0)), limits=_limits(), nice=os.nice(0),
                children=_children(), logging=_logging(), method=_method(), affinity=_affinity(),
                hooks=[id(threading.excepthook), id(getattr(sys, "unraisablehook", None))], stack=threading.stack_size(),
                collecting=gc.get_threshold() if hasattr(gc, "get_threshold") else 0, files=_files(),
                timeout=socket.getdefaulttimeout(), faults=faulthandler.is_enabled(), tempdir=tempfile.tempdir,
                alarm=sg.getitimer(sg.ITIMER_REAL)[0] > 0, stdin=id(sys.stdin), library=_library())


def _library():
    """What the public names of some library modules stand for."""
    import builtins
    import copy
    import io
    import multiprocessing
    import pickle
    import time
    return {m.__name__ + "." + k: id(v) for m in (builtins, os, os.path, time, io, pickle, copy, multiprocessing)
            for k, v in vars(m).items() if not k.startswith("_")}


def _affinity():
    return sorted(os.sched_getaffinity(0)) if hasattr(os, "sched_getaffinity") else []


def _files():
    """What lies in the places for temporary and other output of this run."""
    d = os.environ.get("TMPDIR")
    return sorted(os.listdir(d)) if d and os.path.isdir(d) else []


def _limits():
    import resource
    return [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS,
                                            resource.RLIMIT_CORE)]


def _children():
    """Child processes other than the simulator's own."""
    import multiprocessing
    return sorted(p.pid for p in multiprocessing.active_children())


def _logging():
    import logging
    root = logging.getLogger()
    others = [logging.getLogger(n) for n in ("multiprocessing", "sympy", "asyncio", "py.warnings")]
    return [root.level, len(root.handlers), logging.root.manager.disable] + [[o.level, len(o.handlers), o.disabled] for o in others]


def _method():
    # asking for a context fixes the default method, which changes nothing
    import multiprocessing
    return multiprocessing.get_start_method(allow_none=True) or multiprocessing.get_all_start_methods()[0]


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _decimal():
    import decimal
    return repr(decimal.getcontext())


def stable(v):
    if isinstance(v, dict):
        return sorted((repr(k), stable(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return sorted(repr(x) for x in v)
    return repr(v)


def state_diff(a, b):
    for k in a:
        if k == "limit":
            if b[k] < a[k]:
                return "recursion limit lowered from %d to %d" % (a[k], b[k])
        elif k == "environ":
            x = {i: j for i, j in a[k].items() if i != HOOK}
            y = {i: j for i, j in b[k].items() if i != HOOK}
            if x != y:
                return "environment changed: %s" % sorted(set(x.items()) ^ set(y.items()))[:4]
        elif k == "library":
            changed = sorted(n for n in a[k] if b[k].get(n) != a[k][n])
            if changed:
                return "%s replaced" % ", ".join(changed[:4])
        elif k == "fds":
            if b[k] > a[k]:
                return "%d file descriptors left open" % (b[k] - a[k])
        elif a[k] != b[k]:
            return "%s changed from %s to %s" % (k, brief(a[k]), brief(b[k]))
    return None


def settle(ch):
    """A working directory of the run's own, and settings unlike those anybody would choose."""
    import tempfile
    d = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "run-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.environ["TMPDIR"] = d
    tempfile.tempdir = None
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "COLUMNS", "LC_ALL"):
        if ch.flip(50, "variable"):
            os.environ[k] = "3"
        else:
            os.environ.pop(k, None)


@prop("C05")
def run_c05(ctx):
    import gc
    ch = ctx.ch
    how = ch.weighted([(4, "interrupt-line"), (3, "interrupt-wait"), (3, "close"), (3, "drop"), (2, "error-line"),
                       (2, "worker-error"), (1, "fork-fail"), (1, "throw")], "how")
    if how in ("close", "drop", "throw"):
        req = dict(stream=gen_stream(ch), batch_size=ch.weighted([(3, 1), (2, 0), (2, 3)], "batch_size"))
    else:
        req = gen_request(ch, 25)
    m = gen_pool(ctx, hook=35, recycle=10)
    if m["cpu"] == 1:
        m["cpu"] = 2
    n = m["n"] if not ch.flip(20, "serial") else 1
    ref = isolated(serial_request, req)
    enter(ctx, m)
    settle(ch)
    before = process_state()
    lf = None
    if how in ("interrupt-line", "error-line"):
        kind = ch.of(["MemoryError", "SimInjected", "RecursionError"], "error") if how == "error-line" else "KeyboardInterrupt"
        if ch.flip(40, "anywhere"):
            line = 1 + ch.pick(max(1, isolated(dry_lines, req, m, n)[1]), "line")
        else:
            line = ch.spread(60000, "line")
        lf = simpool.LineFault(line, kind)
    elif how == "interrupt-wait":
        W.interrupt_wait = 1 + ch.pick(12, "wait")
    elif how == "worker-error":
        W.faults[1 + ch.pick(6, "victim task")] = ("SimInjected", ch.spread(300, "line"))
    elif how == "fork-fail":
        W.fork_fail = 1 + ch.pick(4, "worker start")
    take = ch.pick(6, "pieces read")
    ctx.summary = dict(request=req, machine=m, how=how, n_process=n, line=lf.n if lf else None, read=take)
    if how in ("close", "drop", "throw"):
        def abandon():
            it = iter(open_stream(req["stream"], n, req["batch_size"]))
            for _ in range(take):
                if next(it, None) is None:
                    break
            if how == "close":
                it.close()
            elif how == "throw":
                try:
                    it.throw(KeyboardInterrupt("injected"))
                except KeyboardInterrupt:
                    pass
                except StopIteration:
                    pass
            del it
            return None
        got = attempt(abandon)
        fired = how
    else:
        if lf:
            with lf:
                got = attempt(carry_out, req, n)
            fired = lf.fired
            if lf.fired:
                ctx.faults[how] += 1
                ctx.log("interrupted at", lf.fired)
        else:
            got = attempt(carry_out, req, n)
            fired = W.fired
    gc.collect()
    account(ctx, m)
    if how in ("close", "drop", "throw"):
        ctx.faults[how] += 1
    ctx.nontrivial = bool(fired)
    ctx.shape = [how, str(fired), n, W.n_tasks, W.deliveries[:20]]
    ctx.log("outcome", norm(got))
    left = W.alive()
    if left:
        ctx.fail("workers-left", "%d worker processes still run after %s at %s" % (len(left), how, fired))
    after = process_state()
    bad = state_diff(before, after)
    if bad:
        ctx.fail("state-left", "after %s at %s: %s" % (how, fired, bad))
    if got[0] == "hang":
        ctx.fail("waits-forever", "%s at %s: %s" % (how, fired, got[1]))
    if got[0] == "ok" and how not in ("close", "drop", "throw"):
        bad = same(got, ref)
        if bad:
            ctx.fail("silently-wrong", "%s at %s was swallowed: %s" % (how, fired, bad))
    # the same request again
    enter(ctx, m)
    again = attempt(carry_out, req, n)
    if W.alive():
        gc.collect()
    left = W.alive()
    leave()
    bad = same(again, ref)
    if bad:
        ctx.fail("wrong-when-repeated", "repeated after %s at %s: %s" % (how, fired, bad))
    if left:
        ctx.fail("workers-left", "%d worker processes still run after the repeated request" % len(left))


@prop("C05-recursion")
def run_c05_recursion(ctx):
    """A list of operators with more than a thousand elementary contractions makes the package adjust the depth of
    recursion; started with a lower and a higher setting, its stream is abandoned after one piece."""
    import gc
    import sys
    ch = ctx.ch
    d = wl.pkg()
    import dsrg_generator.sqop_contraction as sc
    start = sys.getrecursionlimit()
    for mode in (0, 1):
        for limit in (start, 3000, 12000):
            sys.setrecursionlimit(limit)
            shape = ch.of([(3, 3, 1), (3, 1, 3), (1, 3, 3)], "shape")
            ops = [d.SecondQuantizedOperator(["a%d" % (10 * i + k) for k in range(n)],
                                             ["a%d" % (10 * i + n + k) for k in range(n)]) for i, n in enumerate(shape)]
            before = process_state()
            fn = sc.compute_operator_contractions_general if mode else sc.compute_operator_contractions_connected
            W.reset(ctx, cpu=2)
            it = iter(fn(ops, max_cu=3, max_n_open=14, min_n_open=0, n_process=1))
            first = next(it, None)
            if mode:
                next(it, None)
            it.close()
            del it
            gc.collect()
            ctx.faults["close"] += 1
            ctx.nontrivial = True
            ctx.shape = ["recursion", mode]
            ctx.log("first", repr(first)[:200])
            bad = state_diff(before, process_state())
            if bad:
                ctx.fail("state-left", "stream over more than a thousand elementary contractions, limit %d: %s" % (limit, bad))
    sys.setrecursionlimit(max(start, sys.getrecursionlimit()))
