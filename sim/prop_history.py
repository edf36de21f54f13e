"""C07: histories of operations on shared operands in one process."""
import copy
import gc

import ops
import props
import simpool
import workloads as wl
from core import SimHang
from prop_pool import gen_pool, enter, leave, gen_stream, open_stream, serial
from props import Pristine, attempt, brief, norm, prop, same
from simpool import W


def rewrite(t, how):
    """A term simplifies or canonicalizes itself."""
    if how == 1:
        t.canonicalize_sympy()
    else:
        t.simplify()
    return norm(wl.dump_term(t))


def rewritten(specs, i, how):
    W.reset(None)
    return rewrite(ops.make(specs[i]), how)


@prop("C07")
def run_c07(ctx):
    ch = ctx.ch
    Pristine.start()
    specs = ops.gen_objects(ch, 2 + ch.pick(3, "objects"))
    objs = [ops.make(s) for s in specs]
    n_own = len(objs)
    n_steps = 2 + ch.pick(7, "steps")
    W.reset(ctx, cpu=4, style=1)
    # (values of equal objects: looking at the operands themselves would fill what they compute on first use)
    snap = [norm(ops.full(ops.make(s))) for s in specs]
    every = not ch.flip(40, "look at the end only")
    tab = norm(ops.tables())
    kept = []                       # earlier results: (text, object, value when returned)
    hist = []
    ctx.summary = dict(objects=specs, history=hist)
    for step in range(n_steps):
        kind = ch.weighted([(10, "op"), (2, "fails"), (2, "abandon"), (2, "parallel"), (3, "derive"), (3, "change")], "step")
        if kind == "op":
            o = ops.gen_op(ch, len(objs), before=[h[1] for h in hist if h[0] in ("op", "fails")])
            hist.append(["op", o])
            ref = Pristine.ask(ops.alone, specs, o)
            got = attempt(lambda: norm(ops.do(o, objs)))
            bad = same(got, ref)
            what = "operation %s" % brief(o)
        elif kind == "fails":
            # an operation that dies half way
            o = ops.gen_op(ch, len(objs), names=ops.LONG if ch.flip(50, "a long one") else None,
                           before=[h[1] for h in hist if h[0] in ("op", "fails")])
            if ch.flip(12, "console"):
                o = ops.gen_op(ch, len(objs), names=["print"])
                ops.console_limit = ch.pick(24, "writes")
                line = 1 << 60
            elif ch.pick(3, "where"):
                line = 1 + ch.pick(max(1, Pristine.ask(ops.lines_of, specs, o)[1]), "line")
            else:
                line = ch.spread(3000, "line")
            lf = simpool.LineFault(line, ch.of(["KeyboardInterrupt", "MemoryError"], "error"))
            hist.append(["fails", o, lf.n, lf.kind, ops.console_limit])
            with lf:
                got = attempt(lambda: norm(ops.do(o, objs)))
            if ops.console_limit is not None:
                ops.console_limit = None
                ctx.faults["console full"] += 1
            if lf.fired:
                ctx.faults["interrupted operation"] += 1
            bad = None
            what = "an operation (%s) interrupted at %s" % (o[0], lf.fired)
        elif kind == "change":
            # the caller gives an operand another value
            i = ch.pick(n_own, "operand")
            how = ch.pick(3, "how")
            if how == 0 or ops.kind_of(objs[i].sq_op) != "so" or objs[i].diagonal_indices:
                c = ch.of([0.125, -3.0, 1.0 / 7, 5.0], "coeff")
                hist.append(["coeff", i, c])
                objs[i].coeff = c
                specs[i] = ["C", specs[i], c]
            else:
                hist.append(["rewrite", i, how])
                x = copy.deepcopy(ops.make(specs[i]))
                r = attempt(rewrite, objs[i], how)
                want = Pristine.ask(rewritten, specs, i, how)
                if same(r, want):
                    ctx.fail("depends-on-history", "step %d: an operand that rewrites itself: %s" % (step, same(r, want)))
                y = attempt(ops.make, ["K", r[1]]) if r[0] == "ok" and r[1][1] else ["raise"]
                if y[0] == "ok" and norm(wl.dump_term(y[1])) == r[1]:
                    specs[i] = ["K", r[1]]
                    ops.bare[id(objs[i])] = (objs[i], ops.parts_of(objs[i]))
                else:               # (a term made anew would list its tensors in another order)
                    objs[i] = x
                    ops.bare[id(x)] = (x, ops.parts_of(x))
            snap[i] = norm(ops.full(copy.deepcopy(objs[i]), ops.parts_of(objs[i])))
            bad = None
            what = "a new value for operand %d" % i
        elif kind == "abandon":
            s = gen_stream(ch)
            k = ch.pick(4, "pieces")
            hist.append(["abandon", s, k])

            def drop():
                it = iter(open_stream(s))
                for _ in range(k):
                    if next(it, None) is None:
                        break
            attempt(drop)
            gc.collect()
            ctx.faults["abandoned stream"] += 1
            bad = None
            what = "an abandoned stream"
        else:
            spec = wl.gen_derivation(ch)
            n = 1 if kind == "derive" else 2
            hist.append([kind, spec])
            shared = [wl.build(o) for o in wl.operand_specs(spec)]
            before = [norm(ops.full(o)) for o in shared]
            ref = Pristine.ask(serial, spec)
            box = []

            def go():
                r = wl.call_derivation(spec, n, shared)
                box.append(r)
                return norm(wl.dump(r))
            got = attempt(go)
            bad = same(got, ref)
            what = "derivation %s" % brief(spec)
            if [norm(ops.full(o)) for o in shared] != before:
                ctx.fail("operand-changed", "%s changed its operands" % what)
            if box and ch.flip(30, "used up"):
                ops.use_up(box.pop())
            if box:
                kept.append((what, box[0], norm(wl.dump(box[0]))))
                r = box[0]
                flat = [t for v in r.values() for t in v] if isinstance(r, dict) else r
                if len(objs) < 8 and flat and ch.flip(50, "keep"):
                    t = flat[ch.pick(len(flat), "which") % len(flat)]
                    objs.append(t)
                    ops.bare[id(t)] = (t, ops.parts_of(t))
                    specs.append(["K", wl.dump_term(t)])
                    snap.append(norm(ops.full(t)))
        ctx.log("step", step, what)
        if bad:
            ctx.fail("depends-on-history", "step %d, %s, after %d other steps: %s" % (step, what, step, bad))
        if ops.touched or wl.Watch.changed:
            ctx.fail("argument-changed", "%s: %s" % (what, (ops.touched + wl.Watch.changed)[0]))
        for i, o in enumerate(objs if every or step == n_steps - 1 else ()):
            now = norm(ops.full(o))
            if now != snap[i]:
                ctx.fail("operand-changed", "%s changed operand %d: %s" % (what, i, wl.diff(now, snap[i])))
        if norm(ops.tables()) != tab:
            ctx.fail("table-changed", "%s changed a shared table" % what)
        for w, obj, val in kept:
            now = norm(wl.dump(obj))
            if now != val:
                ctx.fail("result-changed", "%s changed the result of %s: %s" % (what, w, wl.diff(now, val)))
    ctx.steps = n_steps
    ctx.nontrivial = n_steps > 1
    ctx.shape = [[h[0], h[1][0] if h[0] in ("op", "fails") else "", h[1][1] if h[0] == "op" else ""] for h in hist]

