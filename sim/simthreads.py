"""Simulated threads: real threads of which exactly one runs at a time.  A trace function counts executed lines (or
bytecode instructions) of the package and gives the baton to a thread of the scheduler's choice whenever the current
quantum is used up, so every interleaving of the package's code is a sequence of choices.  Locks made by code under
test are simulated too: waiting for one gives the baton away, and if nobody can run, that is a deadlock."""
import _thread
import os
import sys
import threading

from core import SimHang

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "dsrg_generator") + os.sep

CURRENT = None          # the running Threads object, if any
_real_lock = _thread.allocate_lock


class Killed(BaseException):
    """Unwinds a simulated thread when the run is over."""


class Threads:
    def __init__(self, ctx, style, opcodes=False, max_steps=1500000, lengths=None, switches=0):
        self.lengths = lengths  # style 5: steps each thread takes alone, and how many switches to make
        self.budget = switches
        self.hot = []           # steps of each thread at which something shared has just changed
        self.done = []          # steps of each thread so far
        self.ctx = ctx
        self.style = style
        self.opcodes = opcodes
        self.tasks = []
        self.batons = []
        self.state = []         # "ready", "blocked", "done"
        self.waits = []         # what a blocked thread waits for (a callable)
        self.results = []
        self.cur = None
        self.left = 0
        self.steps = 0
        self.max_steps = max_steps
        self.switches = []      # (line where, from, to)
        self.idents = {}
        self.main = _real_lock()
        self.main.acquire()
        self.hang = None
        self.killing = False

    def spawn(self, fn):
        k = len(self.tasks)
        self.tasks.append(fn)
        b = _real_lock()
        b.acquire()
        self.batons.append(b)
        self.state.append("ready")
        self.waits.append(None)
        self.results.append(None)
        self.done.append(0)
        self.hot.append([])
        return k

    # ---- scheduling
    def quantum(self):
        ch = self.ctx.ch
        if self.style == 0:                        # long stretches
            return 200 + ch.spread(20000, "quantum")
        if self.style == 1:                        # anything
            return ch.spread(3000, "quantum")
        if self.style == 2:                        # fine
            return 1 + ch.pick(12, "quantum")
        if self.style == 3:                        # bursts of single steps between long stretches
            return 1 if ch.flip(70, "single") else ch.spread(2000, "quantum")
        if self.style == 5:                        # few switches, anywhere
            if self.budget <= 0:
                return 1 << 40
            self.budget -= 1
            hot = [h - self.done[self.cur] for h in self.hot[self.cur] if h > self.done[self.cur]]
            if hot and ch.flip(60, "at a write"):
                return hot[ch.pick(len(hot), "which")] + ch.pick(2, "later")
            return 1 + ch.pick(max(1, self.lengths[self.cur]), "switch after")
        return ch.spread(200, "quantum")

    def ready(self):
        out = []
        for i, s in enumerate(self.state):
            if s == "ready" or (s == "blocked" and self.waits[i]()):
                out.append(i)
        return out

    def choose(self, me=None):
        r = self.ready()
        if self.style == 5 and len(r) > 1 and me in r:
            r.remove(me)
        if not r:
            return None
        return r[self.ctx.ch.pick(len(r), "thread")] if len(r) > 1 else r[0]

    def pass_to(self, nxt, me):
        self.cur = nxt
        self.left = self.quantum() if len(self.ready()) > 1 or self.state[nxt] == "blocked" else 1 << 40
        if nxt != me:
            self.batons[nxt].release()
            if me is not None:
                self.batons[me].acquire()
                if self.killing:
                    raise Killed()

    def preempt(self, frame):
        me = self.cur
        nxt = self.choose(me)
        if nxt is None:
            nxt = me
        if nxt != me:
            self.switches.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno or 0, me, nxt))
        self.pass_to(nxt, me)

    def block(self, cond, what):
        """The running thread waits until cond() holds."""
        me = self.cur
        while not cond():
            self.state[me] = "blocked"
            self.waits[me] = cond
            nxt = self.choose()
            if nxt is None:
                self.hang = what
                self.state[me] = "ready"
                raise SimHang("deadlock: every thread waits, thread %d for %s" % (me, what))
            self.pass_to(nxt, me)
            self.state[me] = "ready"
            self.waits[me] = None

    # ---- tracing
    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG) or self.steps > self.max_steps:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.steps += 1
            self.done[self.cur] += 1
            self.left -= 1
            if self.left <= 0:
                if self.steps > self.max_steps:
                    self.left = 1 << 40         # no more switches; the rest runs to its end, new frames untraced
                else:
                    self.preempt(frame)
        return self._local

    def _main(self, k):
        self.batons[k].acquire()
        self.idents[_thread.get_ident()] = k
        try:
            if not self.killing:
                sys.settrace(self._global)
                try:
                    self.results[k] = ["ok", self.tasks[k]()]
                except SimHang as e:
                    self.results[k] = ["hang", str(e)]
                except Killed:
                    self.results[k] = ["hang", "waits forever"]
                except BaseException as e:
                    self.results[k] = ["raise", type(e).__name__, str(e)]
                sys.settrace(None)
        finally:
            sys.settrace(None)
            self.idents.pop(_thread.get_ident(), None)
            self.state[k] = "done"
            if self.killing:
                self.main.release()
            else:
                if self.hang is not None:
                    self.killing = True
                    self.main.release()
                else:
                    nxt = self.choose()
                    if nxt is not None:
                        self.pass_to(nxt, None)
                    else:
                        if any(s != "done" for s in self.state):
                            self.hang = "a thread ended while every other one waits"
                        self.killing = True
                        self.main.release()

    def run(self):
        """Run every thread to its end; their outcomes in order."""
        global CURRENT
        CURRENT = self
        old = sys.getswitchinterval()
        try:
            ts = []
            for k in range(len(self.tasks)):
                t = threading.Thread(target=self._main, args=(k,), daemon=True)
                t.start()
                ts.append(t)
            first = self.choose()
            self.pass_to(first, None)
            self.main.acquire()
            for k, s in enumerate(self.state):
                if s != "done":
                    self.batons[k].release()
                    self.main.acquire()
            for t in ts:
                t.join()
        finally:
            CURRENT = None
            sys.setswitchinterval(old)
        return self.results

    def inside(self):
        return _thread.get_ident() in self.idents


CONTAINERS = (dict, list, set, bytearray)


def reachable(objs):
    """The package's objects that can be reached from the given ones."""
    seen, todo = {}, list(objs)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        if isinstance(x, (list, tuple, set, frozenset)):
            seen[id(x)] = x
            todo += list(x)
        elif isinstance(x, dict):
            seen[id(x)] = x
            todo += list(x.values())
        elif type(x).__module__.startswith("dsrg_generator"):
            seen[id(x)] = x
            todo += list(getattr(x, "__dict__", {}).values())
    return seen


def shared_containers():
    """Containers every thread can reach: of modules, classes and functions of the package."""
    out = {}
    for name, m in list(sys.modules.items()):
        if not name.startswith("dsrg_generator") or m is None:
            continue
        for v in list(vars(m).values()):
            for w in [v] + (list(vars(v).values()) if isinstance(v, type) and v.__module__.startswith("dsrg_generator") else []):
                w = getattr(w, "__func__", w)
                w = getattr(w, "fget", w)
                for x in [w] + list(getattr(w, "__defaults__", None) or ()) + \
                        [c.cell_contents for c in getattr(w, "__closure__", None) or () if _filled(c)]:
                    if isinstance(x, CONTAINERS):
                        out[id(x)] = x
                if callable(w) and isinstance(getattr(w, "__dict__", None), dict) and not isinstance(w, type):
                    out[id(w.__dict__)] = w.__dict__
    return list(out.values())


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class Writes:
    """Counts the steps of a program and notes those at which shared state has just changed."""

    def __init__(self, objs, opcodes):
        self.shared = reachable(objs)
        self.common = shared_containers()
        self.opcodes = opcodes
        self.steps = 0
        self.writes = []
        self.sizes = list(map(len, self.common))

    @staticmethod
    def state(x):
        d = x if isinstance(x, dict) else getattr(x, "__dict__", None)
        if d is None:
            return len(x)
        return [(id(v), len(v)) if isinstance(v, CONTAINERS) else id(v) for v in list(d.values())]

    def look(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        n = frame.f_code.co_argcount
        v = frame.f_locals
        mine = [v[a] for a in frame.f_code.co_varnames[:n] if id(v.get(a)) in self.shared]
        mine += [x for y in mine for x in getattr(y, "__dict__", {}).values() if isinstance(x, CONTAINERS)]
        mine.append(frame.f_globals)
        last = [self.state(x) for x in mine]

        def local(frame, event, arg):
            nonlocal last
            if event == "line" or event == "opcode":
                self.steps += 1
            elif event != "return":
                return local
            now = [self.state(x) for x in mine]
            sizes = list(map(len, self.common))
            if now != last or sizes != self.sizes:
                last = now
                self.sizes = sizes
                self.writes.append(self.steps + (event == "return"))
            return local
        return local


def count_steps(fn, objs, opcodes):
    """(value, steps the package took, steps just after shared state changed)."""
    c = Writes(objs, opcodes)
    sys.settrace(c.look)
    try:
        return fn(), c.steps, c.writes[:500]
    finally:
        sys.settrace(None)


class SimLock:
    """threading.Lock for code under test."""

    def __init__(self):
        self._real = _real_lock()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        c = CURRENT
        if c is not None and c.inside():
            if self._owner is None and not self._real.locked():
                pass
            elif not blocking:
                return False
            else:
                c.block(lambda: not self._real.locked(), "a lock")
            self._owner = c.cur
            return self._real.acquire(False)
        return self._real.acquire(blocking, timeout)

    def release(self):
        self._owner = None
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_lock()
        self._owner = None


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._who = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._who == me:
            self._n += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._who = me
            self._n = 1
            return True
        return False

    def release(self):
        if self._who != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._who = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self._who == _thread.get_ident()

    def _release_save(self):
        n = self._n
        self._n = 0
        self._who = None
        self._lock.release()
        return n

    def _acquire_restore(self, n):
        self._lock.acquire()
        self._who = _thread.get_ident()
        self._n = n

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._who = None
        self._n = 0


def install():
    """Locks made from here on are simulated when a simulated thread uses them."""
    import collections
    import concurrent.futures       # noqa: F401  (made with real locks)
    import inspect                  # noqa: F401
    import logging                  # noqa: F401
    import queue                    # noqa: F401
    import random                   # noqa: F401
    import tempfile                 # noqa: F401
    real = threading.RLock

    def own():
        threading._active_limbo_lock = real()       # the threading module's own business
    os.register_at_fork(after_in_child=own)
    threading.Lock = SimLock
    threading.RLock = SimRLock
