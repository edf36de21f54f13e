"""Runs about files, directories, the console and clocks: C08 - C13."""
import hashlib
import io
import json
import os
import pickle
import platform
import random
import shutil
import signal
import socket
import stat
import sys
import time
import traceback

import ops
import props
import seam
import simpool
import workloads as wl
from core import HarnessError, SimInjected, derive
from props import attempt, brief, isolated, norm, prop, same
from simpool import W

try:
    import ambitsim
except ImportError:                  # the interpreter without numpy checks everything but the numbers
    ambitsim = None

SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


# ---------------------------------------------------------------- running something in a process of its own

_circumstances = [0, 0]


def elsewhere(k):
    """Another date, time zone, user, host and state of the random numbers: nothing a result may depend on."""
    c = seam.Clocks(mono=(5 + 1000 * k) * 10**9, real=(1700000000 + 118807 * k) * 10**9 + 123456789 * k)
    c.__enter__()
    seam.lib().seam_clock_tick(1000)
    os.environ.update(USER="user%d" % k, LOGNAME="user%d" % k, TZ="SIM%d" % (k % 23 - 11))
    time.tzset()
    random.seed(k)
    u = list(os.uname())
    u[1] = "host%d" % k
    u = os.uname_result(u) if hasattr(os, "uname_result") else tuple(u)
    os.uname = lambda: u
    socket.gethostname = lambda: u[1]
    platform.node = lambda: u[1]


def forked(fn, *args):
    """("done", value) or ("died", wait status): fn's value from a child process, at another time, that may die on the
    way."""
    r, w = os.pipe()
    _circumstances[1] += 1
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            elsewhere(_circumstances[0] + _circumstances[1])
            data = json.dumps(fn(*args)).encode()
            seam.off()
            os.set_blocking(w, True)
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        except BaseException:
            seam.off()
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st == 0 and buf:
        return "done", json.loads(buf.decode())
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137:
        return "died", st
    raise HarnessError("child process ended with status %d" % st)


def scratch(ctx):
    """The run's own directory; removed by the lane when the run is over."""
    d = os.path.join(SCRATCH, "run-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------- what is saved

_lists = {}


def list_source(k):
    d = wl.pkg()
    if k == 0:
        return d.single_commutator(d.hamiltonian_operator(2), d.cluster_operator(2, start=4, hole_label="c", particle_label="v"),
                                   max_cu=1, max_n_open=4)
    if k == 1:
        return d.linear_commutator_amp([d.hamiltonian_operator(1), d.hamiltonian_operator(2)], [1, 2], 1.0, 0, 6, 40,
                                       max_cu=1, single_reference=True, unitary=True)
    if k == 2:
        out = []
        for t in terms_list(1):
            out += list(t.expand_composite_indices(True))
        return d.combine_terms(out)
    if k == 3:
        ts = d.single_commutator(d.hamiltonian_operator(1), d.cluster_operator(2, start=10), max_cu=1, max_n_open=6)
        ts += d.single_commutator(d.hamiltonian_operator(2), d.cluster_operator(1, start=10), max_cu=1, max_n_open=4)
        return [t for t in ts if plain_ok(t)]
    if k == 4:
        ts = d.single_commutator(d.hamiltonian_operator(1), d.cluster_operator(3, start=10, hole_label="c", particle_label="v"),
                                 max_cu=1, max_n_open=6)
        out = []
        for t in ts:
            out += [x for x in t.expand_composite_indices(True)]
        return [t for t in out if plain_ok(t)]
    if k == 5:
        ts = d.single_commutator(d.hamiltonian_operator(2), d.cluster_operator(2, start=10, hole_label="c", particle_label="v"),
                                 max_cu=1, max_n_open=6, min_n_open=6)
        out = []
        for t in ts:
            out += [x for x in t.expand_composite_indices(True)]
        return [t for t in out if plain_ok(t)]
    if k == 6:
        ts = d.contract_terms([d.cluster_operator(1, 0, False, hole_label="c", particle_label="v"), d.hamiltonian_operator(2, 4),
                               d.cluster_operator(1, 10, True, hole_label="c", particle_label="v")], max_cu=1, max_n_open=4)
        return [t for t in ts if plain_ok(t)]
    ts = d.single_commutator(d.hamiltonian_operator(1), d.cluster_operator(1, start=10), max_cu=1, max_n_open=4)
    return ts                       # with densities: a save refuses, printing accepts


N_LISTS = 8


def plain_ok(t):
    return all(x.name in ("H", "T") and x.n_upper == x.n_lower for x in t.list_of_tensors) and \
        t.list_of_tensors and t.sq_op.n_cre == t.sq_op.n_ann and not t.diagonal_indices


def terms_list(k):
    if k not in _lists:
        _lists[k] = pickle.dumps(list_source(k))
    return pickle.loads(_lists[k])


def stock():
    for k in range(N_LISTS):
        terms_list(k)
    return _lists


def restock(s):
    _lists.update(s)
    if ambitsim:
        import numpy as np
        np.einsum("ab,bc->ac", np.zeros((2, 2)), np.zeros((2, 2)))


def gen_terms(ch, densities=False, t3=False):
    """A description of a list of terms to save or print."""
    if t3 and ch.flip(40, "made"):
        return dict(specs=wl.gen_made(ch, ch.spread(6, "terms"), ["ccc", "vvv"]), as_is=ch.flip(50, "as they are"))
    if t3:
        return dict(list=5, start=ch.pick(60, "start"), step=1 + ch.pick(5, "step"), n=ch.spread(12, "terms"), scale=ch.of([1.0, -0.5], "scale"))
    k = ch.weighted([(4, 0), (4, 1), (5, 2), (3, 3), (2, 4), (1, 5), (2, 6)] + ([(4, 7)] if densities else []), "list")
    if ch.flip(4, "nothing"):
        return dict(list=k, start=0, step=1, n=0, scale=1.0)
    if ch.flip(3, "a long list"):
        return dict(list=2, start=ch.pick(130, "start"), step=1 + ch.pick(5, "step"), n=60 + ch.pick(65, "terms"), scale=1.0)
    if ch.flip(30, "made"):
        made = []
        for _ in range(1 + ch.pick(3, "blocks")):
            made += wl.gen_made(ch, ch.spread(6, "terms"))
        return dict(specs=made, as_is=ch.flip(50, "as they are"))
    if ch.flip(15, "written out"):
        return dict(specs=[wl.gen_operand(ch, i, 2) for i in range(1 + ch.pick(3, "n"))])
    return dict(list=k, start=ch.pick(130, "start"), step=1 + ch.pick(5, "step"), n=ch.spread(24, "terms"),
                scale=ch.of([1.0, -0.5, 1.0 / 3.0, 3.0, 1.0 / 2880, -7.0 / 11, 1.0 / 40320], "scale"))


def get_terms(g):
    if "specs" in g:
        out = []
        for s in g["specs"]:
            s = list(s)
            if s[0] == "X":
                s[1] = "H"
            t = wl.build(s)
            if plain_ok(t):
                t = t if g.get("as_is") else t.canonicalize_sympy()
                if plain_ok(t):         # a term that vanished is not saved
                    out.append(t)
        return out
    ts = terms_list(g["list"])
    if not ts:
        return []
    out, seen = [], set()
    i = g["start"] % len(ts)
    while len(out) < min(g["n"], len(ts)):
        while i in seen:
            i = (i + 1) % len(ts)
        seen.add(i)
        t = ts[i]
        t.coeff *= g["scale"]
        out.append(t)
        i = (i + g["step"]) % len(ts)
    return out


def gen_save(ch):
    t3 = ch.flip(15, "t3")
    return dict(t3=t3, terms=gen_terms(ch, t3=t3), dagger=bool(ch.pick(2, "dagger")), destroy=bool(ch.pick(2, "destroy")),
                func=ch.of(["fn", "comm_H_T", "f2"], "func"), ns=ch.of(["NS", "MRDSRG_SO", "CCSD"], "ns"),
                where=ch.of(["out", "out/", "./out", "deep/er/out", "out dir", "ABS"], "where"))


def target_dir(s, base):
    return os.path.join(base, "out") if s["where"] == "ABS" else s["where"]


def real_dir(s, base):
    return os.path.normpath(os.path.join(base, target_dir(s, base)))


def do_save(s, base, terms=None):
    """Carry out the save (the process is in base)."""
    from dsrg_generator.write_forte_functions import save_direct_t3, save_terms_ambit_functions
    terms = get_terms(s["terms"]) if terms is None else terms
    if s["t3"]:
        cat = wl.pkg().categorize_contractions(terms)
        blocks = [b for b in cat if b == "cccvvv"] or sorted(cat)
        if not blocks:
            return None
        save_direct_t3(cat[blocks[0]], s["func"], s["ns"], target_dir(s, base))
    else:
        save_terms_ambit_functions(terms, s["func"], s["ns"], target_dir(s, base), s["dagger"], s["destroy"])
    return None


def tree(base):
    """Every file below base: {relative path: [kind, mode, digest or content]}."""
    out = {}
    for dp, dn, fn in os.walk(base):
        for n in dn + fn:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, base)
            if stat.S_ISDIR(st.st_mode):
                out[rel] = ["dir", st.st_mode & 0o777, ""]
            elif stat.S_ISLNK(st.st_mode):
                out[rel] = ["link", 0, os.readlink(p)]
            else:
                with open(p, "rb") as f:
                    out[rel] = ["file", st.st_mode & 0o777, f.read().decode("utf-8", "surrogateescape")]
    return out


def undisturbed(s, base):
    """(outcome, {file name: text}) of the save in an empty place of its own."""
    os.makedirs(real_dir(s, base))
    os.chdir(base)
    r = attempt(do_save, s, base)
    d = real_dir(s, base)
    files = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            files[n] = f.read().decode("utf-8", "surrogateescape")
    return [r, files, [wl.dump_term(t) for t in get_terms(s["terms"])]]


def prepare(ch, s, base, files):
    """The place a save meets: its directory with left-overs, and bystanders that are nobody's business."""
    d = real_dir(s, base)
    os.makedirs(d)
    junk = "x" * 50000 + "\n"
    for n in sorted(files):
        text = files[n]
        k = ch.pick(9, "left-over")
        if k == 0:
            continue
        if k == 1:
            left = junk
        elif k == 2:
            left = ""
        elif k == 3:
            left = "// other\n" * 3
        elif k == 4:                        # what a crash of the machine leaves: the length, but not the blocks
            left = "\0" * len(text.encode("utf-8", "surrogateescape"))
        elif k == 5 and text:               # an earlier version that differs in one place
            i = ch.pick(len(text), "place")
            left = text[:i] + ("#" if text[i] != "#" else "%") + text[i + 1:]
        elif k == 6:                        # an earlier version, longer or shorter
            left = text + "// more\n"
        elif k == 7:
            left = text[:ch.pick(len(text) + 1, "place")]
        else:
            left = text
        put(os.path.join(d, n), left)
        if ch.flip(30, "from the future"):
            os.utime(os.path.join(d, n), (4e9, 4e9))
    for n in ("README", s["func"] + "_zzzz.cc", s["func"] + ".cc.bak", s["func"] + ".cc~", "." + s["func"] + ".cc.swp",
              s["func"] + ".cc.tmp", s["func"] + "_functions.h.tmp", "temp"):
        put(os.path.join(d, n), "bystander " + n)
    for n in ("_ccccccccvvvvvvvv.cc", "_ccccccccaaaaaaaa.cc", "_notes.txt", "_ccccccccaaaaaaaa.h"):
        put(os.path.join(d, s["func"] + n), "")         # as an earlier save of other terms may have left them
    put(os.path.join(base, "bystander.cc"), "mine")
    put(os.path.join(base, s["func"] + ".cc"), "mine too")
    put(os.path.join(base, s["func"] + "_functions.h"), "mine as well")
    os.makedirs(os.path.join(base, "other"))
    put(os.path.join(base, "other", s["func"] + ".cc"), "in the other directory")


def put(path, text):
    with open(path, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
        f.write(text)


READS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "dsrg_generator")


def bystanders(before, after, allowed):
    """What changed that is not an output file."""
    for p in sorted(set(before) | set(after)):
        if p in allowed:
            continue
        if p not in after:
            return "%s was removed" % p
        if p not in before:
            return "%s was created" % p
        if before[p] != after[p]:
            return "%s was changed" % p
    return None


def outside(log, base):
    """Writing outside the run's own directory."""
    for l in log:
        k, _, p = l.partition(" ")
        if k in ("open-for-writing", "mkdir", "rename", "rename-from", "unlink", "truncate") and \
                not p.startswith(base + "/") and p != base and not p.startswith(("/dev/", "/proc/")):
            return l
    return None


BENIGN = ("short", "EINTR")


def gen_faults(ch, counts):
    """Fault plan for one save: list of (what, kind, nth, errno name or size)."""
    out = []
    n = ch.weighted([(3, 0), (5, 1), (1, 2)], "n_faults")
    for _ in range(n):
        what = ch.weighted([(4, "write-error"), (3, "open-error"), (2, "close-error"), (2, "disk-full"), (3, "short"),
                            (2, "EINTR"), (1, "template-open"), (1, "template-read")], "fault")
        if what == "write-error":
            out.append([what, "write", 1 + ch.pick(max(1, counts["write"]), "nth"), ch.of(["ENOSPC", "EIO", "EDQUOT"], "errno")])
        elif what == "open-error":
            out.append([what, "open-for-writing", 1 + ch.pick(max(1, counts["open-for-writing"]), "nth"),
                        ch.of(["EACCES", "EMFILE", "ENOSPC", "EROFS"], "errno")])
        elif what == "close-error":
            out.append([what, "close", 1 + ch.pick(max(1, counts["close"]), "nth"), ch.of(["EIO", "ENOSPC", "EDQUOT"], "errno")])
        elif what == "disk-full":
            out.append([what, "", ch.spread(max(2, counts["bytes"]), "bytes"), ""])
        elif what == "short":
            out.append([what, "write", 1 + ch.pick(max(1, counts["write"]), "nth"), ch.spread(2000, "size")])
        elif what == "EINTR":
            k = ch.of(["write", "open-for-writing"], "kind")
            out.append([what, k, 1 + ch.pick(max(1, counts[k]), "nth"), "EINTR"])
        elif what == "template-open":
            out.append([what, "open-for-reading", 1 + ch.pick(max(1, counts["open-for-reading"]), "nth"), ch.of(["EMFILE", "EIO", "EACCES"], "errno")])
        else:
            out.append([what, "read", 1 + ch.pick(max(1, counts["read"]), "nth"), "EIO"])
    return out


def arm(faults):
    for what, kind, nth, arg in faults:
        if what == "disk-full":
            seam.budget(nth)
        elif what == "short":
            seam.fault(kind, nth, seam.SHORT, arg)
        else:
            seam.fault(kind, nth, seam.ERRNO, seam.ERR[arg])


def counted(s, base):
    """How many calls of each kind an undisturbed save makes."""
    os.makedirs(real_dir(s, base))
    os.chdir(base)
    terms = get_terms(s["terms"])
    seam.on(base, READS)
    attempt(do_save, s, base, terms)
    seam.off()
    c = {k: seam.count(k) for k in seam.KINDS}
    c["total"] = seam.count()
    c["bytes"] = sum(len(v[2]) for v in tree(real_dir(s, base)).values())
    c["outside"] = outside(seam.log(), base)
    return c


def disturbed(s, base, faults):
    """One save under faults, in this process: [outcome, fired, log]."""
    os.chdir(base)
    terms = get_terms(s["terms"])
    seam.on(base, READS)
    arm(faults)
    r = attempt(do_save, s, base, terms)
    seam.off()
    return [r, seam.fired(), seam.log()]


def expected_paths(s, base, names):
    d = os.path.relpath(real_dir(s, base), base)
    return {os.path.join(d, n) for n in names}


def t3_tail():
    with open(os.path.join(READS, "forte_templates", "direct_t3_template")) as f:
        t = f.read()
    t = ambitsim.strip_comments(t)
    return t[t.find("C3.iterate("):t.rfind("}", 0, t.rfind("}"))]


def semantic(s, files, terms):
    """Do the files compute the terms?  A message or None."""
    if ambitsim is None:
        return None
    if s["t3"]:
        names = [n for n in files]
        if names != [s["func"] + "_direct_t3.cc"]:
            return "wrote %s" % names
        blk = [t for t in terms if block_of(t) == "cccvvv"] or None
        if blk is None:
            return None
        return ambitsim.judge_t3(files[names[0]], blk, s["func"], s["ns"], t3_tail(), 7)
    want = {s["func"] + ".cc", s["func"] + "_functions.h"} | {"%s_%s.cc" % (s["func"], block_of(t) or "0") for t in terms}
    if set(files) != want:
        return "wrote %s, should have written %s" % (sorted(files), sorted(want))
    return ambitsim.judge(files, terms, s["func"], s["ns"], s["dagger"], 7, 0.7)


def block_of(t):
    return "".join(i[0] for i in t[3] + t[2])


@prop("C08")
def run_c08(ctx):
    ch = ctx.ch
    s = gen_save(ch)
    base = scratch(ctx)
    ref_out, ref_files, terms = forked(undisturbed, s, os.path.join(base, "ref"))[1]
    counts = forked(counted, s, os.path.join(base, "count"))[1]
    ctx.summary = dict(save=s, terms=len(terms))
    ctx.log("undisturbed", ref_out, hashlib.sha256(json.dumps(ref_files, sort_keys=True).encode()).hexdigest())
    if ref_out[0] == "ok" and (terms or not s["t3"]):
        bad = semantic(s, ref_files, terms)
        if bad:
            ctx.fail("wrong-code", "%s" % bad)
        ctx.probes["saved code evaluated"] += 1
    rounds = 1 + ch.pick(3, "rounds")
    shapes = []
    for k in range(rounds):
        b = os.path.join(base, "r%d" % k)
        os.makedirs(b)
        prepare(ch, s, b, ref_files)
        faults = gen_faults(ch, counts)
        ctx.summary["faults"] = faults
        out, fired, log = forked(disturbed, s, b, faults)[1]
        ctx.steps += len(log)
        ctx.log(("round %s %s %s %s" % (k, faults, out, log)).replace(b, "$S"))
        for l in log:
            if l.startswith("FAULT"):
                ctx.faults[" ".join(l.split()[1:3]).split("#")[0].strip()] += 1
        d = real_dir(s, b)
        got = {n: v[2] for n, v in tree(d).items() if v[0] == "file"}
        shapes.append([[f[0] for f in faults], fired, out[0], [l.split()[0] for l in log if l.startswith("FAULT")]])
        if out[0] == "ok":
            if ref_out[0] != "ok":
                ctx.fail("depends-on-disk", "the save %s in an empty directory and returns here" % brief(ref_out))
            for n in ref_files:
                if n not in got:
                    ctx.fail("incomplete", "the save returned under %s, but %s is missing" % (faults, n))
                if got[n] != ref_files[n]:
                    ctx.fail("incomplete", "the save returned under %s, but %s has %d of %d characters or other text" % (
                        faults, n, len(got[n]), len(ref_files[n])))
            hard = [l for l in log if l.startswith("FAULT") and "action 2" not in l and "/4" != l[-2:]]
            if hard and any(x in hard[0] for x in ("write", "open", "close", "disk", "read")):
                ctx.fail("error-swallowed", "%s happened and the save returned" % hard)
        else:
            ctx.probes["save raised"] += 1
            hard = [l for l in log if l.startswith("FAULT") and "action 2" not in l and not l.endswith("/4")]
            if not hard and ref_out[0] == "ok":
                ctx.fail("spurious-error", "no operation failed (faults %s), yet %s" % (faults, brief(out)))
    ctx.nontrivial = bool(terms)
    ctx.shape = [s["t3"], len(ref_files), s["terms"].get("list"), len(terms), shapes]


# ---------------------------------------------------------------- C09

def crash_script(s, base, steps):
    """Saves in this process under the given disturbances, until one kills it; returns their outcomes."""
    out = []
    os.chdir(base)
    for st in steps:
        terms = get_terms(st["save"]["terms"])
        lf = None
        seam.on(base, READS)
        if st["how"] == "call":
            seam.any_call(st["nth"], st["action"], st["arg"])
        elif st["how"] == "line":
            lf = simpool.LineFault(st["nth"], st["kind"])
        elif st["how"] == "faults":
            arm(st["faults"])
        if lf:
            with lf:
                r = attempt(do_save, st["save"], base, terms)
        else:
            r = attempt(do_save, st["save"], base, terms)
        seam.off()
        out.append([r[0], r[1] if r[0] == "raise" else "", seam.fired() or (1 if lf and lf.fired else 0),
                    outside(seam.log(), base), lf.fired if lf else ""])
    return out


@prop("C09")
def run_c09(ctx):
    ch = ctx.ch
    s = gen_save(ch)
    base = scratch(ctx)
    ref_out, ref_files, terms = forked(undisturbed, s, os.path.join(base, "ref"))[1]
    counts = forked(counted, s, os.path.join(base, "count"))[1]
    if counts["outside"]:
        ctx.fail("touches-others", "an undisturbed save does %r" % counts["outside"])
    b = os.path.join(base, "w")
    os.makedirs(b)
    prepare(ch, s, b, ref_files)
    before = tree(b)
    steps = []
    allowed = expected_paths(s, b, ref_files)
    for _ in range(1 + ch.pick(3, "attempts")):
        sv = s
        if ch.flip(12, "another save"):
            sv = dict(gen_save(ch), where=s["where"])
            o, f, _ = forked(undisturbed, sv, os.path.join(base, "ref%d" % len(steps)))[1]
            allowed |= expected_paths(sv, b, f)
        how = ch.weighted([(6, "call"), (3, "line"), (3, "faults"), (1, "nothing")], "how")
        st = dict(save=sv, how=how)
        if how == "call":
            st["nth"] = 1 + ch.pick(max(1, counts["total"]), "nth")
            st["action"], st["arg"] = ch.weighted([(3, (seam.CRASH_BEFORE, 0)), (2, (seam.CRASH_AFTER, 0)),
                                                   (3, (seam.TORN_CRASH, -1)), (2, (seam.ERRNO, seam.ERR["EIO"]))], "action")
            if st["arg"] == -1:
                st["arg"] = ch.spread(3000, "size")
        elif how == "line":
            st["nth"] = ch.spread(20000, "line")
            st["kind"] = ch.of(["kill", "KeyboardInterrupt", "MemoryError"], "kind")
        elif how == "faults":
            st["faults"] = gen_faults(ch, counts)
        steps.append(st)
    ctx.summary = dict(save=s, attempts=steps, terms=len(terms))
    same_process = ch.flip(50, "same process")
    todo = list(steps)
    final = dict(save=s, how="nothing")
    died = 0
    hist = []
    last = None
    while True:
        batch = todo + [final] if same_process else todo[:1] or [final]
        k, v = forked(crash_script, s, b, batch)
        ctx.steps += 1
        ctx.log("process", [x["how"] for x in batch], k, v if k == "done" else "")
        if k == "died":
            died += 1
            ctx.faults["crash"] += 1
            # which step killed it is not known in a batch: start again from the next one
            todo = todo[1:]
            hist.append("crash")
        else:
            for x, st in zip(v, batch):
                if x[3]:
                    ctx.fail("touches-others", "%s writes outside: %s" % (st["how"], x[3]))
                if x[2]:
                    ctx.faults["failed save" if x[0] == "raise" else "disturbed save"] += 1
                hist.append([st["how"], x[0], x[1]])
            if batch[-1] is final:
                last = v[-1]
            else:
                todo = todo[1:]
        now = tree(b)
        bad = bystanders(before, now, allowed)
        if bad:
            ctx.fail("touches-others", "after %s: %s" % (hist[-3:], bad))
        if last is not None:
            break
    ctx.nontrivial = died > 0 or len(steps) > 0
    ctx.shape = [hist, [[x["how"], x.get("nth"), x.get("action")] for x in steps], s["t3"], len(ref_files)]
    if [last[0], last[1]] != [ref_out[0], ref_out[1] if ref_out[0] == "raise" else ""]:
        ctx.fail("repeat-differs", "after %s the repeated save %s instead of %s" % (hist, last[:2], brief(ref_out)))
    if ref_out[0] != "ok":
        return
    now = tree(b)
    for n in sorted(ref_files):
        p = os.path.join(os.path.relpath(real_dir(s, b), b), n)
        if p not in now:
            ctx.fail("repeat-differs", "after %s the repeated save has not written %s" % (hist, n))
        if now[p][2] != ref_files[n]:
            ctx.fail("repeat-differs", "after %s the repeated save wrote another %s (%d characters instead of %d)" % (
                hist, n, len(now[p][2]), len(ref_files[n])))


# ---------------------------------------------------------------- C10

class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def gen_scopes(ch, depth):
    out = []
    for _ in range(1 + ch.pick(3, "actions")):
        a = ch.weighted([(5, "scope"), (2, "wander"), (2, "raise"), (1, "nothing"), (1, "interrupt"), (1, "save"),
                         (1, "generator")], "action")
        if a == "scope" and depth < 4:
            out.append(dict(a="scope", name=ch.of(["x", "y", "x/z", "file", "new", "x", "../up", "no/such", ".", ""], "name"),
                            fault=ch.weighted([(10, None), (2, ["mkdir", "EACCES"]), (1, ["mkdir", "ENOSPC"]), (1, ["mkdir", "EROFS"]),
                                               (2, ["chdir", "EACCES"]), (1, ["chdir", "EIO"]), (1, ["chdir", "ENOENT"]),
                                               (1, ["mkdir", "EEXIST"])], "fault"),
                            leave=ch.weighted([(14, None), (1, "EACCES"), (1, "ENOENT")], "leave fault"),
                            twice=ch.flip(15, "twice"), early=ch.flip(20, "set up early"),
                            body=gen_scopes(ch, depth + 1), catch=ch.flip(60, "catch")))
        elif a == "generator" and depth < 4:
            out.append(dict(a="generator", name="g%d" % depth, close=ch.of(["close", "drop", "throw", "exhaust"], "how")))
        elif a == "wander":
            out.append(dict(a="wander", to=ch.of(["..", "x", "/", "BASE"], "to")))
        elif a == "raise":
            out.append(dict(a="raise", what=ch.of(["Boom", "BaseBoom", "OSError", "SystemExit", "StopIteration"], "what")))
        elif a == "interrupt":
            out.append(dict(a="raise", what="KeyboardInterrupt"))
        elif a == "save":
            out.append(dict(a="save", fail=ch.flip(60, "fails")))
    return out


class Scopes:
    def __init__(self, ctx, base):
        self.ctx = ctx
        self.base = base
        self.hist = []
        self.n = 0
        self.leave_failed = 0

    def chain(self, e):
        seen = []
        while e is not None and e not in seen:
            seen.append(e)
            e = e.__cause__ or e.__context__
        return seen

    def cwd(self):
        return os.getcwd()

    def body(self, acts):
        for a in acts:
            k = a["a"]
            if k == "scope":
                self.scope(a)
            elif k == "generator":
                self.generator(a)
            elif k == "wander":
                t = a["to"] if a["to"] != "BASE" else self.base
                try:
                    os.chdir(t)
                    self.hist.append("wander " + a["to"])
                except OSError:
                    pass
            elif k == "raise":
                self.hist.append("raise " + a["what"])
                raise {"Boom": Boom, "BaseBoom": BaseBoom, "OSError": OSError, "SystemExit": SystemExit, "StopIteration": StopIteration,
                       "KeyboardInterrupt": KeyboardInterrupt}[a["what"]]("from the body")
            elif k == "save":
                from dsrg_generator.write_forte_functions import save_terms_ambit_functions
                ts = terms_list(0)[:1]
                self.hist.append("save")
                if a["fail"]:
                    seam.fault("open-for-writing", seam.count("open-for-writing") + 1, seam.ERRNO, seam.ERR["ENOSPC"])
                try:
                    save_terms_ambit_functions(ts, "q", "NS", os.getcwd())
                except OSError:
                    self.ctx.faults["failed save in a scope"] += 1

    def scope(self, a, again=False):
        from dsrg_generator.helper.file_utils import ChangeDir
        ctx = self.ctx
        self.n += 1
        try:
            start = self.cwd()
        except OSError:
            return
        was = os.listdir(start)
        cd = ChangeDir(a["name"])
        if a["early"] and not again:
            try:
                os.chdir(self.base)
            except OSError:
                pass
        for rnd in range(2 if a["twice"] else 1):
            self.hist.append("enter %s" % a["name"])
            entered = []
            body_exc = None
            got = None
            fired0 = seam.fired()
            try:
                f = a["fault"]
                if f:
                    seam.fault(f[0], seam.count(f[0]) + 1, seam.ERRNO, seam.ERR[f[1]])
                with cd:
                    self.disarm()
                    entered.append(self.cwd())
                    inside = cd.get_cwd()
                    if os.path.realpath(inside) != os.path.realpath(entered[0]):
                        ctx.fail("wrong-directory", "inside the scope the process is in %s, get_cwd says %s" % (
                            self.rel(entered[0]), self.rel(inside)))
                    want = os.path.realpath(os.path.join(start, a["name"]))
                    if os.path.realpath(entered[0]) != want:
                        ctx.fail("wrong-directory", "the scope %r set up in %s runs in %s" % (a["name"], self.rel(start), self.rel(entered[0])))
                    try:
                        self.body(a["body"])
                    except BaseException as e:
                        body_exc = e
                        raise
                    finally:
                        if a["leave"]:
                            seam.fault("chdir", seam.count("chdir") + 1, seam.ERRNO, seam.ERR[a["leave"]])
                            ctx.faults["cannot leave"] += 1
            except props.Violation:
                raise
            except BaseException as e:
                got = e
            self.disarm()
            if seam.fired() > fired0:
                ctx.faults["directory operation failed"] += 1
            here = self.cwd()
            self.hist.append("left, %s" % type(got).__name__)
            if entered and a["leave"]:
                self.leave_failed += 1
                if got is None:
                    ctx.fail("leave-not-reported", "the directory could not be restored and nothing was raised")
                if body_exc is not None and not any(x is body_exc for x in self.chain(got)):
                    ctx.fail("exception-lost", "%r from the body is lost, %r is raised" % (body_exc, got))
                os.chdir(start)
                here = start
            else:
                if body_exc is not None and got is not body_exc:
                    ctx.fail("exception-lost", "the body raised %r, the caller got %r" % (body_exc, got))
                if body_exc is None and entered and got is not None:
                    ctx.fail("spurious-error", "the body ended normally, the scope raised %r" % got)
            if not entered and got is None:
                ctx.fail("not-reported", "the scope was not entered and nothing was raised")
            if not entered:
                ctx.probes["scope could not be entered"] += 1
            expect = start if entered or not a["early"] else (start, self.base)
            if a["early"] and not entered:
                ok = here in (start, self.base)
            else:
                ok = here == start
            if not ok:
                ctx.fail("directory-not-restored", "the scope %r was set up in %s (%s), afterwards the process is in %s; %s" % (
                    a["name"], self.rel(start), "entered" if entered else "not entered", self.rel(here), self.hist[-6:]))
            if got is not None and not a["catch"]:
                raise got
            if a["early"] and not entered:
                os.chdir(start)

    def generator(self, a):
        from dsrg_generator.helper.file_utils import ChangeDir
        start = self.cwd()

        def g():
            with ChangeDir(a["name"]):
                yield 1
                yield 2
        it = g()
        try:
            next(it)
        except (ValueError, OSError):
            return
        self.hist.append("generator " + a["close"])
        if a["close"] == "close":
            it.close()
        elif a["close"] == "throw":
            try:
                it.throw(Boom("thrown"))
                self.ctx.fail("exception-lost", "an exception thrown into the scope did not come out")
            except Boom:
                pass
        elif a["close"] == "exhaust":
            list(it)
        del it
        import gc
        gc.collect()
        if self.cwd() != start:
            self.ctx.fail("directory-not-restored", "a generator with an open scope was ended by %s, the process is in %s instead of %s" % (
                a["close"], self.rel(self.cwd()), self.rel(start)))

    def disarm(self):
        seam.lib().seam_clear()

    def rel(self, p):
        return p.replace(self.base, "$S")


@prop("C10")
def run_c10(ctx):
    ch = ctx.ch
    base = os.path.join(scratch(ctx), "cd")
    os.makedirs(os.path.join(base, "x"))
    put(os.path.join(base, "file"), "a file")
    prog = gen_scopes(ch, 0)
    ctx.summary = dict(program=prog)
    os.chdir(base)
    sc = Scopes(ctx, base)
    seam.on(base, "", True)
    try:
        try:
            sc.body(prog)
        except props.Violation:
            raise
        except BaseException as e:
            sc.hist.append("out: %s" % type(e).__name__)
    finally:
        seam.off()
        os.chdir("/")
    ctx.steps = sc.n
    ctx.log("history", sc.hist)
    ctx.nontrivial = sc.n > 0
    ctx.shape = sc.hist[:40]


# ---------------------------------------------------------------- C11

class FailingStream:
    """A console that takes a number of characters and then fails."""

    def __init__(self, room, err, torn, once=False):
        self.room, self.err, self.torn, self.once = room, err, torn, once
        self.text = ""
        self.failed = 0
        self.encoding = "utf-8"
        self.errors = "strict"
        self.after = 0

    def write(self, s):
        if self.failed and not self.once:
            self.after += 1
            raise self.error()
        if not self.failed and len(self.text) + len(s) > self.room:
            n = self.room - len(self.text) if self.torn else 0
            self.text += s[:n]
            self.failed += 1
            raise self.error(n)
        self.text += s
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def error(self, n=0):
        self.exc = {"EAGAIN": BlockingIOError(11, "write could not complete without blocking", n),
                    "EINTR": InterruptedError(4, "Interrupted system call"), "timeout": TimeoutError(110, "timed out"),
                    "encoding": UnicodeEncodeError("ascii", "x", 0, 1, "injected"), "ENOSPC": OSError(28, "No space left on device"), "EPIPE": BrokenPipeError(32, "Broken pipe"),
                    "EIO": OSError(5, "Input/output error"), "closed": SimInjected("I/O operation on closed file"),
                    "memory": MemoryError("injected"), "interrupt": KeyboardInterrupt("injected")}[self.err]
        return self.exc

    def flush(self):
        if self.failed and not self.once:
            raise self.error()

    def isatty(self):
        return False


def print_alone(kind, g):
    W.reset(None)
    d = wl.pkg()
    ts = get_terms(g)
    f = d.print_terms_latex if kind == "latex" else d.print_terms_ambit
    text = ops.captured(f, list(ts))
    parts = [[t.latex(delimiter=True), "".join(i.space for i in t.sq_op.indices(False)),
              wl.dump_term(t), t.ambit(), t.sq_op.latex_permute_format(*t.perm_partition_open())[1]] for t in ts]
    order = [i for i, _ in sorted(enumerate(ts), key=lambda p: p[1])]
    return [text, parts, order]


def judge_print(kind, text, parts, order):
    """Is the text of every term there exactly once and in order?"""
    if kind == "latex":
        blocks = []
        cur = None
        for l in text.split("\n"):
            if l == "\\begin{align}":
                cur = []
                blocks.append(cur)
            elif l == "\\end{align}":
                cur = None
            elif cur is not None:
                cur.append(l)
            elif l:
                return "unexpected line %r" % l
        lines = [l for b in blocks for l in b]
        strip = [x[:-2].rstrip() if x.endswith("\\\\") else x.rstrip() for x in lines]
        want = {}
        for p in parts:
            want.setdefault(p[0].rstrip(), 0)
            want[p[0].rstrip()] += 1
        got = {}
        for x in strip:
            got[x] = got.get(x, 0) + 1
        if got != want:
            miss = [k for k in want if got.get(k, 0) != want[k]] or [k for k in got if k not in want]
            return "%r appears %d times instead of %d" % (miss[0], got.get(miss[0], 0), want.get(miss[0], 0))
        names = []
        for p in parts:
            if p[1] not in names:
                names.append(p[1])
        if len(blocks) != len(names):
            return "%d blocks printed, there are %d" % (len(blocks), len(names))
        pos = {i: k for k, i in enumerate(order)}
        for nm, b in zip(names, blocks):
            mine = [i for i, p in enumerate(parts) if p[1] == nm]
            b = [x[:-2].rstrip() if x.endswith("\\\\") else x.rstrip() for x in b]
            if sorted(b) != sorted(parts[i][0].rstrip() for i in mine):
                return "block %s has other terms than it should" % nm
            groups = {}
            for i in mine:
                groups.setdefault(parts[i][4], []).append(i)
            rest = b
            for perm in list(groups):
                g = [parts[i][0].rstrip() for i in sorted(groups[perm], key=lambda i: pos[i])]
                idx = [k for k in range(len(rest) - len(g) + 1) if rest[k:k + len(g)] == g]
                if not idx:
                    return "the terms of block %s with permutation %r are not in order" % (nm, perm)
        return None
    if ambitsim is None:
        return None
    if any(len(p[2][2]) != len(p[2][3]) or any(len(x[2]) != len(x[3]) or len(x[1]) != 1 for x in p[2][1]) for p in parts):
        return None
    import numpy as np
    try:
        vals = ambitsim.Values(11)
        plain = [p[2] for p in parts]
        want = ambitsim.terms_value(plain, vals)
        env = {"temp": ambitsim.Tensor(None)}
        for p in plain:
            for _, name, up, _ in p[1]:
                n = "%s%d" % (name, len(up))
                t = ambitsim.Tensor(2 * len(up))
                t.arr[...] = vals.get(n)
                env[n] = t
            k = len(p[2])
            env["C%d" % k] = ambitsim.Scalar(0.0) if k == 0 else ambitsim.Tensor(2 * k)
        prog = ambitsim.Program({}, "")
        st = ambitsim.statements(ambitsim.strip_comments(text))
        n_terms = sum(1 for s in st if "* " in s)
        for s in st:
            prog.step(s, env, "the printed text")
        if n_terms != len(parts):
            return "%d products printed for %d terms" % (n_terms, len(parts))
        for k, ref in want.items():
            got = env["C%d" % k].v if k == 0 else env["C%d" % k].arr
            if not ambitsim.close(got, ref):
                return "the printed statements for C%d do not add up to the terms" % k
    except ambitsim.CodeError as e:
        return "the printed text is not valid: %s" % e
    return None


@prop("C11")
def run_c11(ctx):
    ch = ctx.ch
    kind = ch.of(["latex", "ambit"], "kind")
    g = gen_terms(ch, densities=True)
    ref = isolated(lambda: (elsewhere(1), print_alone(kind, g))[1])
    elsewhere(2)
    if ref[0] != "ok":
        ctx.fail("print-fails", brief(ref))
    full, parts, order = ref[1]
    ctx.summary = dict(kind=kind, terms=g, n=len(parts))
    bad = judge_print(kind, full, parts, order)
    if bad:
        ctx.fail("wrong-text", bad)
    d = wl.pkg()
    f = d.print_terms_latex if kind == "latex" else d.print_terms_ambit
    ts = get_terms(g)
    tries = []
    old = sys.stdout
    for _ in range(1 + ch.pick(5, "tries")):
        if ch.flip(25, "whole"):
            room = len(full) + 10
        else:
            room = ch.pick(len(full) + 1, "room")
        err = ch.of(["ENOSPC", "EPIPE", "EIO", "closed", "memory", "interrupt", "EAGAIN", "EINTR", "timeout", "encoding"], "err")
        st = FailingStream(room, err, bool(ch.pick(2, "torn")), ch.flip(40, "only once"))
        sys.stdout = st
        got = None
        try:
            try:
                f(list(ts))
            except BaseException as e:
                got = e
        finally:
            sys.stdout = old
        tries.append([room, err, st.failed])
        ctx.log("try", room, err, st.failed, type(got).__name__, len(st.text))
        if st.failed:
            ctx.faults["stream " + err] += 1
            if got is None and st.once and st.text == full:
                ctx.probes["failed write repeated with success"] += 1
                continue
            if got is None:
                ctx.fail("error-swallowed", "the stream failed (%s) after %d characters and printing returned" % (err, len(st.text)))
            if type(got) is not type(st.exc):
                ctx.fail("error-replaced", "the stream failed with %r, the caller got %r" % (st.exc, got))
            if not full.startswith(st.text):
                ctx.fail("not-a-prefix", "what was written before the failure is not the beginning of the text")
        else:
            if got is not None:
                ctx.fail("spurious-error", "the stream did not fail, printing raised %r" % got)
            if st.text != full:
                ctx.fail("text-differs", "printing again gave other text: %d characters instead of %d" % (len(st.text), len(full)))
    ctx.steps = len(tries)
    ctx.nontrivial = len(parts) > 0
    ctx.shape = [kind, g, tries]


# ---------------------------------------------------------------- C12

@prop("C12")
def run_c12(ctx):
    """Everything observable goes into the event log; the driver compares its digest between interpreters."""
    import prop_pool
    ch = ctx.ch
    _circumstances[0] = 50 * int(ctx.lane.get("hashseed") or 0) + 20 * (ctx.lane.get("impl") == "pypy")
    elsewhere(_circumstances[0])
    what = ch.weighted([(5, "derive"), (4, "ops"), (3, "save"), (2, "print"), (3, "stream"), (1, "parallel")], "what")
    W.reset(None)
    if what in ("derive", "parallel"):
        spec = wl.gen_derivation(ch)
        ctx.summary = dict(what=what, spec=spec)
        if what == "parallel":
            W.reset(ctx, cpu=4, style=2)
        r = attempt(lambda: wl.dump(wl.call_derivation(spec, 1 if what == "derive" else 2)))
        ctx.log(what, json.dumps(norm(r)))
    elif what == "ops":
        specs = ops.gen_objects(ch, 2)
        objs = [ops.make(s) for s in specs]
        names = sorted(set(ops.OPS) - {"iterate", "deepcopy", "save", "contract-parallel"})
        todo = [ops.gen_op(ch, 2, names) for _ in range(3)]
        ctx.summary = dict(what=what, objects=specs, ops=todo)
        for o in todo:
            ctx.log("op", json.dumps(norm(attempt(lambda: ops.do(o, objs)))))
    elif what == "save":
        s = gen_save(ch)
        ctx.summary = dict(what=what, save=s)
        out = forked(undisturbed, s, os.path.join(scratch(ctx), "ref"))[1]
        ctx.log("save", json.dumps(out))
    elif what == "print":
        g = gen_terms(ch, densities=True)
        ctx.summary = dict(what=what, terms=g)
        ctx.log("print", json.dumps(attempt(print_alone, "latex", g)), json.dumps(attempt(print_alone, "ambit", g)))
    else:
        s = prop_pool.gen_stream(ch)
        ctx.summary = dict(what=what, stream=s)
        r = attempt(lambda: [[prop_pool.plain_entry(e) for e in b] for b in prop_pool.open_stream(s)])
        ctx.log("stream", json.dumps(norm(r)))
    ctx.nontrivial = True
    ctx.shape = [what, ctx.digest()]


# ---------------------------------------------------------------- C13

def gen_blocks(ch, depth):
    out = []
    for _ in range(1 + ch.pick(3, "actions")):
        a = ch.weighted([(5, "time"), (4, "block"), (1, "raise")], "action")
        if a == "block" and depth < 4:
            out.append(dict(a="block", msg=ch.of(["step", "a b", "100", ""], "msg"), fmt=ch.of([None, "%0.3g", "%.6f", "%d", "%e"], "fmt"),
                            again=ch.flip(20, "again"), body=gen_blocks(ch, depth + 1), catch=ch.flip(60, "catch")))
        elif a == "raise":
            out.append(dict(a="raise", what=ch.of(["Boom", "BaseBoom", "KeyboardInterrupt", "SystemExit", "StopIteration", "GeneratorExit"], "what")))
        else:
            unit = ch.of([1, 1000, 10**6, 10**9, 3600 * 10**9], "unit")
            out.append(dict(a="time", ns=(1 + ch.pick(1000, "amount")) * unit, cpu=ch.of([0.5, 0.0, 1.0, 4.0], "cpu"),
                            step=ch.weighted([(3, 0), (2, -3600 * 10**9), (2, 86400 * 10**9), (1, -10**9), (1, -10**6)], "clock step")))
    return out


class SlowConsole(io.StringIO):
    """Writing to it takes time."""

    def __init__(self, clocks, ns):
        super().__init__()
        self.clocks, self.ns = clocks, ns

    def write(self, s):
        if self.ns:
            self.clocks.advance(self.ns, 0, 0)
        return super().write(s)


class Blocks:
    def __init__(self, ctx, clocks):
        self.ctx = ctx
        self.cl = clocks
        self.n = 0
        self.hist = []

    def body(self, acts):
        for a in acts:
            if a["a"] == "time":
                self.cl.advance(a["ns"], a["cpu"], a["step"])
                self.ctx.sim_ns += a["ns"]
                if a["step"]:
                    self.ctx.faults["wall clock stepped"] += 1
            elif a["a"] == "raise":
                raise {"Boom": Boom, "BaseBoom": BaseBoom, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
                       "StopIteration": StopIteration, "GeneratorExit": GeneratorExit}[a["what"]]("from the block")
            else:
                self.block(a)

    def block(self, a):
        from dsrg_generator.helper.Timer import Timer
        ctx = self.ctx
        self.n += 1
        t = Timer(a["msg"]) if a["fmt"] is None else Timer(a["msg"], a["fmt"])
        for _ in range(2 if a["again"] else 1):
            t0 = self.cl.mono
            exc = got = None
            pos = len(sys.stdout.getvalue())
            try:
                with t:
                    try:
                        self.body(a["body"])
                    except BaseException as e:
                        exc = e
                        raise
                    finally:
                        mark = len(sys.stdout.getvalue())
                        want = (self.cl.mono - t0) / 1e9
            except props.Violation:
                raise
            except BaseException as e:
                got = e
            text = sys.stdout.getvalue()[mark:]
            self.hist.append([a["msg"], want, type(got).__name__])
            if got is not exc:
                ctx.fail("exception-lost", "the block raised %r, the caller got %r" % (exc, got))
            if not isinstance(getattr(t, "time", None), (int, float)):
                ctx.fail("not-reported", "no time was recorded")
            if abs(t.time - want) > 2e-9 + 1e-9 * abs(want) + 1e-15 * self.cl.mono / 1e9:
                ctx.fail("wrong-time", "%.9f s recorded, %.9f s elapsed (wall clock stepped: %s)" % (
                    t.time, want, any(x.get("step") for x in a["body"])))
            exp = ("%s : " + (a["fmt"] or "%0.3g") + " seconds") % (a["msg"], t.time)
            if exp not in text:
                ctx.fail("not-reported", "printed %r, expected %r" % (text[-200:], exp))
            if got is not None and not a["catch"]:
                raise got


@prop("C13")
def run_c13(ctx):
    ch = ctx.ch
    prog = [dict(a="block", msg="outer", fmt=None, again=False, body=gen_blocks(ch, 0), catch=True)] + gen_blocks(ch, 0)
    ctx.summary = dict(program=prog)
    old = sys.stdout
    slow = ch.weighted([(3, 0), (1, 1000), (1, 3000000), (1, 7000000000)], "console takes")
    ctx.summary["console"] = slow
    with seam.Clocks() as cl:
        sys.stdout = SlowConsole(cl, slow)
        b = Blocks(ctx, cl)
        try:
            b.body(prog)
        except props.Violation:
            raise
        except BaseException as e:
            b.hist.append("out: " + type(e).__name__)
        finally:
            sys.stdout = old
    ctx.steps = b.n
    ctx.log("blocks", b.hist)
    ctx.nontrivial = b.n > 0
    ctx.shape = [[x[0] if isinstance(x, list) else x, x[2] if isinstance(x, list) else ""] for x in b.hist] + [ctx.sim_ns]
