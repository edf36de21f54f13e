"""Drives the simulated runs of one property over several lanes, minimises and confirms violations, writes the
evidence.  Usage: driver.py PROP [--tier quick|thorough] [--replay FILE] [--runs N]"""
import argparse
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
SEAM = os.path.join(VERIF, "build", "simseam.so")
sys.path.insert(0, HERE)
import plans  # noqa: E402

CPY = os.environ.get("VERIF_CPYTHON") or "/opt/veriftools/pyvenv/bin/python"
PYPY = os.environ.get("VERIF_PYPY") or "/opt/venv/bin/python"


def build_seam():
    """Compile the seam library if it is missing or older than its source."""
    src = os.path.join(HERE, "simseam.c")
    if os.path.exists(SEAM) and os.path.getmtime(SEAM) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(SEAM), exist_ok=True)
    tmp = "%s.%d" % (SEAM, os.getpid())
    subprocess.run([os.environ.get("CC", "gcc"), "-O1", "-shared", "-fPIC", "-o", tmp, src], check=True)
    os.replace(tmp, SEAM)


SCRATCH = None


def scratch_base():
    """Where simulated runs keep their files; removed at the end."""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="dsrgsim-")
    return SCRATCH


class LaneDead(Exception):
    pass


class Lane:
    def __init__(self, spec):
        self.spec = spec
        self.proc = None

    def start(self):
        impl, hs = self.spec[0], self.spec[1]
        env = {k: os.environ[k] for k in ("PATH", "HOME", "LD_LIBRARY_PATH", "TMPDIR") if k in os.environ}
        env.update(PYTHONHASHSEED=str(hs), VERIF_REPO=REPO, LC_ALL="C.UTF-8", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        env["LD_PRELOAD"] = SEAM
        env["VERIF_SCRATCH"] = scratch_base()
        exe = {"cpython": CPY, "pypy": PYPY}[impl]
        # without the JIT, PyPy reports the same lines to a trace function in every run (and short runs are faster)
        jit = ["--jit", "off"] if impl == "pypy" else []
        self.proc = subprocess.Popen([exe] + jit + ["-B", "-W", "ignore", os.path.join(HERE, "lane.py")], env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=VERIF,
                                     start_new_session=True)
        line = self.proc.stdout.readline()
        if not line:
            raise LaneDead("lane %r did not start" % (self.spec,))
        self.hello = json.loads(line.decode())
        if self.hello["status"] != "ready":
            raise LaneDead("lane %r: %s" % (self.spec, self.hello.get("msg")))

    def ask(self, req):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps(req).encode() + b"\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except OSError:
            line = b""
        if not line:
            self.stop()
            raise LaneDead("lane %r died" % (self.spec,))
        return json.loads(line.decode())

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
            except OSError:
                pass
            try:
                os.killpg(self.proc.pid, 9)
            except OSError:
                pass
            self.proc.wait()
            self.proc = None


BAD = ("violation", "timeout", "died", "harness")


def outcome(ans):
    """(class, message) of a bad answer, None of a good one."""
    st = ans["status"]
    if st == "ok":
        return None
    if st == "violation":
        return ans["cls"], ans["msg"]
    if st == "timeout":
        return "no-progress", "the run did not end within its limit of CPU and wall time"
    if st == "died":
        return "process-died", ans.get("msg", "")
    return "unexpected-error", ans.get("msg", "")


class Driver:
    def __init__(self, prop, tier, seed, runs=None, budget=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = plans.plan(prop, tier)
        if runs:
            self.plan["runs"] = runs
        if budget:
            self.plan["budget"] = budget
        self.lanes = [Lane(s) for s in self.plan["lanes"]]
        self.lock = threading.Lock()
        self.answers = 0
        self.faults, self.probes, self.known = Counter(), Counter(), {}
        self.shapes, self.samples = set(), []
        self.nontrivial = 0
        self.steps = 0
        self.sim_ns = 0
        self.bad = []
        self.harness = []
        self.stop = False
        self.t0 = time.monotonic()
        self.groups = {}
        self.per_lane = Counter()
        self.choices = 0
        self.unrepeated = []

    # ---- exploring
    def requests(self):
        """(lane number, request) of every run, in order."""
        p = self.plan
        for name in p.get("scenarios", []):
            yield 0, dict(prop=self.prop, seed=self.seed, run="scenario-" + name, opts=dict(scenario=name))
        slow = [i for i, s in enumerate(p["lanes"]) if s[0] == "pypy"]
        fast = [i for i, s in enumerate(p["lanes"]) if s[0] != "pypy"]
        every = p.get("pypy_every", 40)
        if p.get("mode") == "compare":           # the same run on every lane; the digests must agree
            for r in range(p["runs"]):
                for k in range(len(p["lanes"])):
                    if k in slow and r % every:
                        continue
                    yield k, dict(prop=self.prop, seed=self.seed, run=r)
            return
        nf = ns = 0
        for r in range(p["runs"]):
            if slow and r % every == every - 1:
                yield slow[ns % len(slow)], dict(prop=self.prop, seed=self.seed, run=r)
                ns += 1
            else:
                yield fast[nf % len(fast)], dict(prop=self.prop, seed=self.seed, run=r)
                nf += 1

    def work(self, lane, k, todo):
        for req in todo:
            if self.stop or time.monotonic() - self.t0 > self.plan["budget"]:
                break
            req = dict(req, cpu_limit=self.plan.get("cpu_limit", 60), wall_limit=self.plan.get("wall_limit", 200))
            ans = None
            for _ in range(2):
                try:
                    ans = lane.ask(req)
                    break
                except LaneDead as e:
                    err = str(e)
            if ans is None:
                with self.lock:
                    self.harness.append(err)
                    self.stop = True
                return
            if ans["status"] not in ("ok", "violation"):
                # a run that gave no answer counts only if it does so again, in a process of its own
                try:
                    again = self.ask_fresh(lane.spec, req)
                except LaneDead as e:
                    again = ans
                if again["status"] != ans["status"]:
                    with self.lock:
                        self.unrepeated.append(dict(run=req["run"], lane=lane.spec, status=ans["status"], msg=str(ans.get("msg"))[-400:]))
                    ans = again
            with self.lock:
                self.note(lane, k, req, ans)

    def note(self, lane, k, req, ans):
        self.answers += 1
        self.per_lane[lane.spec[0]] += 1
        self.faults.update(ans.get("faults") or {})
        self.probes.update(ans.get("probes") or {})
        self.steps += ans.get("steps") or 0
        self.sim_ns += ans.get("sim_ns") or 0
        self.choices += len(ans.get("choices") or ())
        for fid, text in (ans.get("known") or {}).items():
            self.known.setdefault(fid, dict(text=text, lane=lane.spec, req=req, choices=ans.get("choices")))
        if ans.get("nontrivial"):
            self.nontrivial += 1
            self.shapes.add(json.dumps(ans.get("shape"), sort_keys=True))
            if len(self.samples) < 3 and ans.get("summary") is not None and ans["status"] == "ok":
                s = json.dumps(ans["summary"])
                if len(s) < 3000:
                    self.samples.append(dict(run=req["run"], lane=lane.spec, case=ans["summary"]))
        if self.plan.get("mode") == "compare" and not str(req["run"]).startswith("scenario") and ans["status"] == "ok":
            g = self.groups.setdefault(req["run"], {})
            g[k] = ans["digest"]
            if len(set(g.values())) > 1:
                self.bad.append(dict(lane=lane.spec, req=req, ans=dict(ans, status="violation", cls="differs-between-interpreters",
                                     msg="run %r: %s" % (req["run"], {json.dumps(self.plan["lanes"][i]): v for i, v in g.items()})),
                                     compare=[self.plan["lanes"][i] for i in sorted(g)]))
                self.stop = True
                return
        if outcome(ans):
            self.bad.append(dict(lane=lane.spec, req=req, ans=ans))
            self.stop = True

    def explore(self):
        todo = [[] for _ in self.lanes]
        for k, req in self.requests():
            todo[k].append(req)
        ts = []
        for k, lane in enumerate(self.lanes):
            t = threading.Thread(target=self.work, args=(lane, k, todo[k]))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
        self.planned = sum(len(t) for t in todo)

    # ---- reproducing
    def ask_fresh(self, lane_spec, req, lane=None):
        own = lane is None
        lane = lane or Lane(lane_spec)
        try:
            return lane.ask(dict(req, cpu_limit=self.plan.get("cpu_limit", 60), wall_limit=self.plan.get("wall_limit", 200)))
        finally:
            if own:
                lane.stop()

    def judge(self, item, choices, lanes=None):
        """Run the choices again; (class, message, answer) or None."""
        req = {k: v for k, v in item["req"].items() if k in ("prop", "opts")}
        req["choices"] = choices
        req["events"] = bool(lanes is None)
        if item.get("compare"):
            digests, last = {}, None
            for n, spec in enumerate(item["compare"]):
                a = self.ask_fresh(spec, req, lanes[n] if lanes else None)
                if outcome(a):
                    return outcome(a) + (a,)
                digests[json.dumps(spec)] = a["digest"]
                last = a
            if len(set(digests.values())) > 1:
                return "differs-between-interpreters", "outputs differ: %s; %s" % (digests, json.dumps(last.get("summary"))[:600]), last
            return None
        a = self.ask_fresh(item["lane"], req, lanes[0] if lanes else None)
        o = outcome(a)
        return o + (a,) if o else None

    def minimise(self, item, choices, cls, budget):
        lanes = [Lane(s) for s in (item.get("compare") or [item["lane"]])]
        end = time.monotonic() + budget
        best = list(choices)
        tries = 0

        def ok(c):
            nonlocal tries
            if time.monotonic() > end:
                return None
            tries += 1
            try:
                r = self.judge(item, c, lanes)
            except LaneDead:
                return None
            return r is not None and r[0] == cls
        try:
            # shorten from the end
            n = len(best)
            step = n // 2
            while step >= 1 and time.monotonic() < end:
                if len(best) - step >= 0 and ok(best[:len(best) - step]):
                    best = best[:len(best) - step]
                else:
                    step //= 2
            size = max(1, len(best) // 2)
            while size >= 1 and time.monotonic() < end:
                i = 0
                changed = False
                while i < len(best) and time.monotonic() < end:
                    seg = best[i:i + size]
                    if any(seg):
                        c = best[:i] + [0] * len(seg) + best[i + size:]
                        if ok(c):
                            best = c
                            changed = True
                    c = best[:i] + best[i + size:]
                    if len(best) < 400 and ok(c):
                        best = c
                        changed = True
                        continue
                    i += size
                if size == 1 and not changed:
                    break
                size = size // 2 if size > 1 else 1
            for i in range(len(best)):
                while best[i] > 0 and time.monotonic() < end:
                    c = best[:i] + [best[i] // 2] + best[i + 1:]
                    if ok(c):
                        best = c
                        continue
                    c = best[:i] + [best[i] - 1] + best[i + 1:]
                    if best[i] <= 8 and ok(c):
                        best = c
                        continue
                    break
            while best and best[-1] == 0:
                best.pop()
        finally:
            for l in lanes:
                l.stop()
        return best, tries

    def report(self, item):
        o = outcome(item["ans"])
        choices = item["ans"].get("choices")
        if choices is None:              # it ended without an answer: run it again from its seed
            again = self.ask_fresh(item["lane"], {k: v for k, v in item["req"].items()})
            o2 = outcome(again)
            if o2 is None:
                return None
            path = self.write(item, None, o2, again, "from the seed", 0)
            return path, o2
        confirmed = None
        for _ in range(3):
            try:
                r = self.judge(item, choices)
            except LaneDead:
                r = None
            if r is not None:
                confirmed = r
                break
        if confirmed is None:
            if item["ans"]["status"] == "harness":
                return None
            path = self.write(item, choices, o, item["ans"], "seen once, did not show again in 3 repetitions", 0)
            return path, o
        cls = confirmed[0]
        best, tries = self.minimise(item, choices, cls, self.plan.get("minimise", 60))
        r = self.judge(item, best)
        if r is None or r[0] != cls:
            best, r = choices, confirmed
        path = self.write(item, best, r[:2], r[2], "replayed in a fresh process with the same outcome", tries)
        return path, r[:2]

    def write(self, item, choices, o, ans, note, tries):
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "replay_%s_%s_%s.json" % (self.prop, self.seed, item["req"].get("run")))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, seed=self.seed, run=item["req"].get("run"), lane=item["lane"],
                           compare=item.get("compare"), opts=item["req"].get("opts"), choices=choices, cls=o[0],
                           message=o[1], case=ans.get("summary"), trace=(ans.get("events") or [])[-400:],
                           original_choices=len(item["ans"].get("choices") or ()), minimisation_runs=tries,
                           confirmation=note), f, indent=1)
        return path

    # ---- ends
    def findings(self):
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                return json.load(f)
        except OSError:
            return []

    def finish(self):
        listed = {e["id"]: e for e in self.findings() if e["property"] == self.prop and e["status"] == "known"}
        code = 0
        violations = 0
        for fid, k in sorted(self.known.items()):
            if fid in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, fid, listed[fid]["what"]))
            else:
                self.bad.append(dict(lane=k["lane"], req=k["req"], ans=dict(status="violation", cls="finding-" + fid, msg=k["text"], choices=k["choices"])))
        if self.harness:
            print("ERROR: " + "; ".join(self.harness[:3]))
            code = 2
        for item in self.bad[:1]:
            try:
                r = self.report(item)
            except LaneDead as e:
                r = None
                print("ERROR: %s" % e)
            if r is None:
                print("ERROR: a run failed once and could not be repeated: %s" % (outcome(item["ans"]),))
                code = code or 2
            else:
                path, o = r
                violations += 1
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  %s: %s" % (o[0], str(o[1])[-1500:]))
                code = 1
        for l in self.lanes:
            l.stop()
        wall = time.monotonic() - self.t0
        self.evidence(wall, violations)
        print("%s %s: %d runs in %.1f s, %d non-trivial, %d distinct; faults %s; exit %d" % (
            self.prop, self.tier, self.answers, wall, self.nontrivial, len(self.shapes), dict(self.faults), code))
        return code

    def evidence(self, wall, violations):
        p = self.plan
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=p["level"], wall_s=round(wall, 2),
                  violations=violations, assumptions=p["assumptions"],
                  coverage=dict(evaluations=self.answers, distinct_nontrivial=len(self.shapes), rule=p["rule"],
                                samples=self.samples or [dict(note="no sample small enough")],
                                runs_planned=self.planned, runs_nontrivial=self.nontrivial,
                                runs_per_hour=int(self.answers / max(wall, 1e-6) * 3600),
                                seeds="VERIF_SEED=%d, runs 0..%d" % (self.seed, p["runs"] - 1),
                                scheduler_steps=self.steps, decisions_drawn=self.choices,
                                simulated_seconds=round(self.sim_ns / 1e9, 3),
                                faults_fired=dict(self.faults), probes=dict(self.probes),
                                runs_per_interpreter=dict(self.per_lane),
                                lanes=[list(s) for s in p["lanes"]],
                                real_components=p["real"], stubbed_components=p["stub"],
                                known_findings_met=sorted(self.known),
                                runs_without_answer_that_had_one_when_repeated=self.unrepeated))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    d = Driver(r["property"], "quick", r["seed"])
    item = dict(lane=r["lane"], compare=r.get("compare"), req=dict(prop=r["property"], opts=r.get("opts"), seed=r["seed"], run=r["run"]))
    if r["choices"] is None:
        a = d.ask_fresh(r["lane"], dict(item["req"], events=True))
        o = outcome(a)
    else:
        o = d.judge(item, r["choices"])
        a = o[2] if o else None
    if o is None:
        print("the replay shows no violation")
        return 0
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    print("  %s: %s" % (o[0], o[1]))
    for e in (a or {}).get("events") or []:
        print("   ", e[:300])
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    build_seam()
    scratch_base()
    code = 2
    try:
        if a.replay:
            code = replay(a.replay)
        else:
            seed = int(os.environ.get("VERIF_SEED", "1"))
            d = Driver(a.prop, a.tier, seed, a.runs, a.budget)
            d.explore()
            code = d.finish()
    finally:
        if SCRATCH is not None:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
