"""C06: threads, and generators advanced alternately, on shared operands."""
import gc
import sys

import ops
import props
import simthreads
import workloads as wl
from core import HarnessError
from prop_pool import KIND  # noqa: F401
from props import Pristine, attempt, brief, isolated, norm, prop, same
from simpool import W

CAN_OPCODES = sys.implementation.name == "cpython"

# ---------------------------------------------------------------- generators over shared operands

STREAMS = {}


def stream(name):
    def deco(f):
        STREAMS[name] = f
        return f
    return deco


@stream("contractions")
def _(ts, p):
    d = wl.pkg()
    s = [t.sq_op for t in ops.two(ts, 8)[:3]]
    if not s:
        return iter(())
    return (norm([[e[0], [wl.dump_tensor(x) for x in e[1]], wl.dump(e[2])] for e in b])
            for b in d.compute_operator_contractions(s, **p))


@stream("combinations")
def _(ts, p):
    """Combinations of elementary contractions of one shared table, which every such generator over the same
    operands uses."""
    from collections import Counter
    import dsrg_generator.sqop_contraction as sc
    s = [t.sq_op for t in ops.two(ts, 8)[:2]]
    if len(s) < 2 or not hasattr(sc, "ElementaryContractionCategorized"):
        return iter(())
    k = repr([wl.dump(x) for x in s]) + str(p["max_cu"])
    if k not in TABLES:
        e = sc.compute_elementary_contractions_categorized(s, p["max_cu"])
        seq = sorted(e.keys(), key=lambda x: (len(x), x), reverse=True)
        x = sc.ElementaryContractionCategorized(e, seq)
        TABLES[k] = x, seq, x.compatible_elementary_contractions()
    x, seq, comp = TABLES[k]
    if not seq:
        return iter(())
    target = Counter(seq[-2:] if len(seq) > 1 and p["expand_hole"] else seq[-1:] * 2)
    return (list(c) for c in x.composite_contractions(target, comp))


TABLES = {}


@stream("indices")
def _(ts, p):
    out = []
    for x in ts[0].list_of_tensors + [ts[0].sq_op]:
        out.append(x.upper_indices)
        out.append(x.lower_indices)
    return (i.name for ind in out for i in ind)


@stream("one index list")
def _(ts, p):
    o = ts[0].sq_op
    x = o.cre_ops if o.n_cre else ts[0].list_of_tensors[0].upper_indices if ts[0].list_of_tensors else o.cre_ops
    return (i.name for i in x)


@stream("nested index lists")
def _(ts, p):
    x = ts[0].list_of_tensors[0] if ts[0].list_of_tensors else ts[0].sq_op
    return (i.name + j.name for i in x.upper_indices for j in x.lower_indices)


@stream("expand")
def _(ts, p):
    t = ts[0]
    return (wl.dump(x) for x in t.expand_composite_indices(p["expand_hole"], 0)) if t.sq_op.n_ops <= 4 else iter(())


@stream("spin cases")
def _(ts, p):
    t = ts[0]
    if t.sq_op.n_ops + sum(x.size for x in t.list_of_tensors) > 8:
        return iter(())
    return (wl.dump(x) for x in t.generate_spin_cases_naive())


@stream("permutations")
def _(ts, p):
    t = ts[0]
    c, a = t.perm_partition_open()
    return (list(x) for x in t.sq_op.ambit_permute_format(c, a))


@stream("paths")
def _(ts, p):
    t = ts[0]
    if not 1 <= t.n_tensors <= 4:
        return iter(())
    return (sorted(map(repr, map(wl.dump, x))) if isinstance(x, (list, tuple)) else repr(x)
            for x in t.contraction_paths())


@stream("ddca")
def _(ts, p):
    t = ts[0]
    return (wl.dump(x) for x in t.make_ddca(1, 1, True)) if t.sq_op.n_ops <= 4 else iter(())


def gen_stream_op(ch, n_obj):
    name = ch.of(sorted(STREAMS), "generator")
    return [name, [ch.pick(n_obj, "operand") for _ in range(1 + ch.pick(3, "operands"))], ops.g_contract(ch)]


def open_it(o, objs):
    """(a generator: what fails on the way in shows when the first item is asked for)"""
    yield from STREAMS[o[0]]([objs[r] for r in o[1]], o[2])


LIMIT = 400


def drain(it):
    out = []
    for x in it:
        out.append(x)
        if len(out) >= LIMIT:
            break
    return out


def stream_alone(specs, o):
    W.reset(None)
    objs = {r: ops.make(specs[r]) for r in o[1]}
    return norm(drain(open_it(o, objs)))


# ---------------------------------------------------------------- the runs

LIGHT = sorted(set(ops.OPS) - {"hamiltonians", "save", "diagonal", "direct t3"})


def gen_program(ch, n_obj):
    """What one thread does."""
    out = []
    for _ in range(1 + ch.pick(3, "operations")):
        if ch.flip(15, "generator"):
            out.append(["gen", gen_stream_op(ch, n_obj)])
        else:
            out.append(["op", ops.gen_op(ch, n_obj, LIGHT if not ch.flip(15, "any") else None,
                                         [o for k, o in out if k == "op"])])
    return out


def part(step, objs):
    kind, o = step
    if kind == "op":
        return norm(ops.do(o, objs))
    return norm(drain(open_it(o, objs)))


def part_alone(specs, step):
    kind, o = step
    return norm(ops.alone(specs, o)) if kind == "op" else stream_alone(specs, o)


HEAVY = {"hamiltonians", "save", "diagonal", "direct t3", "contract", "commutator", "stream", "contract-parallel", "spin",
         "operators-lists", "deepcopy", "cost"}
LONG = {"hamiltonians", "direct t3", "contract", "commutator", "stream", "contract-parallel", "diagonal"}
SHORT = sorted(set(ops.OPS) - HEAVY)


def counted(specs, step, opcodes):
    W.reset(None)
    objs = {r: ops.make(specs[r]) for r in step[1][1]}
    return simthreads.count_steps(lambda: part(step, objs), [[o, ops.bare[id(o)]] for o in objs.values()], opcodes)


def threads_run(ctx, few=False):
    """few: short programs on operands nobody has used yet, with few switches, each anywhere in the program."""
    ch = ctx.ch
    specs = ops.gen_objects(ch, 1 + ch.pick(2 if few else 3, "objects"))
    if few:
        for s in specs:
            if s[0] in "DIA":
                s[-1] = 1
    objs = [ops.make(s) for s in specs]
    n = 2 + (ch.pick(2, "threads") if not few else ch.flip(15, "three"))
    if few:
        progs = [[["op", ops.gen_op(ch, len(objs), SHORT)]] for _ in range(n)]
    else:
        progs = [gen_program(ch, len(objs)) for _ in range(n)]
    if ch.flip(60 if few else 30, "same program"):
        progs = [progs[0]] * n
    style = 5 if few else ch.pick(5, "style")
    opcodes = ch.flip(35, "opcodes") and CAN_OPCODES and \
        not any(k == "gen" or o[0] in LONG for p in progs for k, o in p)
    ctx.summary = dict(objects=specs, threads=progs, style=style, opcodes=opcodes)
    memo = {}
    steps = {}
    hot = {}

    def ref(step):
        k = repr(step)
        if k not in memo:
            if few:
                r = isolated(counted, specs, step, opcodes)
                memo[k], steps[k], hot[k] = (["ok", r[1][0]], r[1][1], r[1][2]) if r[0] == "ok" else (r, 2000, [])
            else:
                memo[k] = isolated(part_alone, specs, step)
        return memo[k]
    for p in progs:
        for s in p:
            ref(s)
    before = [norm(ops.full(ops.make(s))) for s in specs]
    tab = norm(ops.tables())
    W.reset(ctx, cpu=4, style=0)
    th = simthreads.Threads(ctx, style, opcodes)
    if few:
        th.lengths = [sum(steps[repr(s)] for s in p) for p in progs]
        th.budget = 1 + ch.pick(3, "switches")
        writes = [hot[repr(p[0])] for p in progs]
        if any(writes):
            ctx.probes["programs that write shared state"] += 1
        ctx.probes["runs with few switches"] += 1

    def job(prog):
        def body():
            out = []
            for s in prog:
                out.append(attempt(part, s, objs))
            return out
        return body
    for p in progs:
        th.spawn(job(p))
    if few:
        th.hot = writes
    res = th.run()
    ctx.steps = th.steps
    ctx.probes["thread switches inside the package"] += len(th.switches)
    ctx.nontrivial = len(th.switches) > 0
    ctx.shape = [[[s[0], s[1][0]] for s in p] for p in progs] + [[list(x) for x in th.switches[:12]]]
    if opcodes:
        ctx.probes["runs switching between bytecode instructions"] += 1
    for sw in th.switches[:200]:
        ctx.log("switch at %s:%d from %d to %d" % sw)
    for k, (p, r) in enumerate(zip(progs, res)):
        if r is None or r[0] != "ok":
            ctx.fail("thread-fails", "thread %d: %s" % (k, brief(r)))
        for s, got in zip(p, r[1]):
            ctx.log("thread", k, s[1][0], got)
            bad = same(got, ref(s))
            if bad:
                ctx.fail("differs-from-alone", "thread %d of %d, %s: %s" % (k, n, brief(s), bad))
    check_operands(ctx, objs, before, tab)


def check_operands(ctx, objs, before, tab):
    if ops.touched or wl.Watch.changed:
        ctx.fail("argument-changed", (ops.touched + wl.Watch.changed)[0])
    for i, o in enumerate(objs):
        now = norm(ops.full(o))
        if now != before[i]:
            ctx.fail("operand-changed", "operand %d: %s" % (i, wl.diff(now, before[i])))
    if norm(ops.tables()) != tab:
        ctx.fail("table-changed", "a shared table changed")


def alternate_run(ctx):
    """Several generators over shared operands, advanced in any order, some abandoned, with other work in between."""
    ch = ctx.ch
    Pristine.start()
    specs = ops.gen_objects(ch, 1 + ch.pick(3, "objects"))
    objs = [ops.make(s) for s in specs]
    n = 2 + ch.pick(3, "generators")
    gens = [gen_stream_op(ch, len(objs)) for _ in range(n)]
    if ch.flip(25, "same generator"):
        gens = [gens[0]] * n
    ctx.summary = dict(objects=specs, generators=gens)
    refs = [isolated(stream_alone, specs, g) for g in gens]
    before = [norm(ops.full(ops.make(s))) for s in specs]
    tab = norm(ops.tables())
    W.reset(ctx, cpu=4, style=0)
    its = [open_it(g, objs) for g in gens]
    got = [[] for _ in gens]
    end = [None] * n
    live = list(range(n))
    order = []
    while live:
        k = live[ch.pick(len(live), "generator")]
        burst = ch.weighted([(3, 1), (2, 2), (1, 7)], "burst")
        order.append([k, burst])
        for _ in range(burst):
            r = attempt(next, its[k], None)
            if r[0] != "ok":
                end[k] = r
                live.remove(k)
                break
            if r[1] is None or len(got[k]) >= LIMIT:
                live.remove(k)
                break
            got[k].append(r[1])
        if len(order) > 3000:
            break
        c = ch.pick(40, "meanwhile")
        if c == 1 and k in live:
            its[k].close() if hasattr(its[k], "close") else None
            its[k] = None
            end[k] = "abandoned"
            live.remove(k)
            gc.collect()
            ctx.faults["abandoned generator"] += 1
        elif c == 2 and len(order) < 60:
            o = ops.gen_op(ch, len(objs), LIGHT)
            ref = Pristine.ask(ops.alone, specs, o)
            g = attempt(lambda: norm(ops.do(o, objs)))
            bad = same(g, ref)
            if bad:
                ctx.fail("differs-from-alone", "%s while generators are open: %s" % (brief(o), bad))
            ctx.probes["other work between steps"] += 1
    ctx.steps = len(order)
    ctx.nontrivial = len(order) > 2
    ctx.shape = [[g[0] for g in gens], order[:40]]
    ctx.log("order", order)
    for k in range(n):
        ctx.log("generator", k, norm(got[k]))
        if end[k] == "abandoned" or k in live:
            if refs[k][0] == "ok" and not wl.close(norm(got[k]), refs[k][1][:len(got[k])]):
                ctx.fail("differs-from-alone", "generator %d (%s) before it was abandoned: %s" % (
                    k, gens[k][0], wl.diff(norm(got[k]), refs[k][1][:len(got[k])])))
            continue
        g = end[k] if end[k] is not None else ["ok", norm(got[k])]
        bad = same(g, refs[k])
        if bad:
            ctx.fail("differs-from-alone", "generator %d of %d (%s): %s" % (k, n, gens[k][0], bad))
    check_operands(ctx, objs, before, tab)


@prop("C06")
def run_c06(ctx):
    how = ctx.ch.weighted([(40, "threads"), (25, "alternate"), (50, "few switches")], "how")
    if how == "alternate":
        alternate_run(ctx)
    else:
        threads_run(ctx, how != "threads")
