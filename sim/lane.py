"""One lane of the simulator: a process that imports the package from the repository's working tree, with the
simulator behind its seams, and carries out simulated runs on request, each in a forked child of its own.

stdin: one JSON request per line {"prop", "seed" | "choices", "opts"}; stdout: one JSON answer per line."""
import collections
import collections.abc
import json
import os
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

for _n in collections.abc.__all__:            # the package uses names that newer interpreters moved
    if not hasattr(collections, _n):
        setattr(collections, _n, getattr(collections.abc, _n))

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import simpool                                 # noqa: E402
import simthreads                              # noqa: E402

simpool.install()
simthreads.install()
import workloads                               # noqa: E402
from core import Chooser, Ctx, HarnessError, Violation, derive  # noqa: E402
import props                                   # noqa: E402


def child_main(req, wfd):
    os.setpgid(0, 0)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.environ["COLUMNS"] = "80"
    os.environ["PWD"] = "/"            # what a parent left there; not where the lane is
    cpu = int(req.get("cpu_limit", 100))
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_DATA, (lim, lim))
    if "choices" in req:
        ch = Chooser(replay=req["choices"])
    else:
        ch = Chooser(seed=derive(req["prop"], req["seed"], req["run"]))
    ctx = Ctx(req["prop"], ch, LANE)
    ctx.opts = req.get("opts") or {}
    ans = {}
    try:
        props.run(ctx)
        ans["status"] = "ok"
    except Violation as v:
        ans.update(status="violation", cls=v.cls, msg=v.msg)
    except HarnessError as e:
        ans.update(status="harness", msg=str(e))
    except BaseException as e:
        ans.update(status="harness", msg="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    sys.settrace(None)
    ans.update(choices=ch.rec, labels=ch.labels if req.get("labels") else None, digest=ctx.digest(),
               faults=dict(ctx.faults), probes=dict(ctx.probes), claims=ctx.claims, known=ctx.known,
               shape=ctx.shape, nontrivial=ctx.nontrivial, summary=ctx.summary, steps=ctx.steps, sim_ns=ctx.sim_ns)
    if req.get("events"):
        ans["events"] = ctx.events
    data = json.dumps(ans).encode()
    data = struct.pack(">Q", len(data)) + data
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    try:
        props.cleanup()
    except BaseException:
        pass
    os._exit(0)


def read_answer(rfd, limit):
    buf = b""
    need = None
    end = time.monotonic() + limit
    while True:
        left = end - time.monotonic()
        if left <= 0:
            return None, "timeout"
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            return None, "timeout"
        part = os.read(rfd, 1 << 20)
        if not part:
            return None, "died"
        buf += part
        if need is None and len(buf) >= 8:
            need = 8 + struct.unpack(">Q", buf[:8])[0]
        if need is not None and len(buf) >= need:
            return json.loads(buf[8:need].decode()), "ok"


def serve(req):
    t0 = time.monotonic()
    if req["prop"] in ("C01", "C02", "C03", "C04") and simpool.ZYGOTE is None:
        simpool.start_zygote()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            child_main(req, wfd)
        finally:
            os._exit(3)
    os.close(wfd)
    ans, how = read_answer(rfd, req.get("wall_limit", 300))
    os.close(rfd)
    reaped = False
    if ans is not None:
        for _ in range(400):                   # it cleans up after itself; normally gone at once
            if os.waitpid(pid, os.WNOHANG)[0]:
                reaped = True
                break
            time.sleep(0.002)
    try:
        os.killpg(pid, signal.SIGKILL)         # whatever the run left behind
    except OSError:
        pass
    if not reaped:
        _, st = os.waitpid(pid, 0)
        if ans is None:
            if how == "died" and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                how = "timeout"
            ans = {"status": how, "msg": "run ended without an answer (%s, wait status %d)" % (how, st)}
    shutil.rmtree(os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "run-%d" % pid), ignore_errors=True)
    ans["wall"] = time.monotonic() - t0
    return ans


LANE = {}


def settle_process():
    """The same dispositions however the check was started (shells start background jobs with interrupts ignored)."""
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    for s in (signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGHUP, signal.SIGQUIT, signal.SIGUSR1, signal.SIGUSR2):
        signal.signal(s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    os.umask(0o022)


def main():
    global LANE
    settle_process()
    LANE = {"impl": sys.implementation.name, "hashseed": os.environ.get("PYTHONHASHSEED", "random"),
            "version": "%d.%d" % sys.version_info[:2], "optimize": sys.flags.optimize}
    if sys.argv[1:2] == ["--zygote"]:
        workloads.pkg()
        simpool.zygote_main(sys.argv[2])
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        workloads.pkg()
        props.warm()
        out.write(json.dumps({"status": "ready", "lane": LANE}) + "\n")
    except BaseException as e:
        out.write(json.dumps({"status": "import-error",
                              "msg": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}) + "\n")
        out.flush()
        return
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        ans = serve(json.loads(line))
        out.write(json.dumps(ans) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
