"""A deterministic stand-in for multiprocessing.Pool.

Workers are real child processes (forked from the caller, or - start method "spawn" - from an interpreter of its own with
another hash seed), tasks and results cross a pipe pickled, but nothing happens unless the
simulator's scheduler says so: feeding the task queue, a worker taking a task, a worker finishing it and its
result being delivered are separate events chosen one at a time.  The visible behaviour follows CPython's
Pool: chunking, one failing item fails its chunk, flattened chunk iterators end on error, unpicklable
tasks/results become errors, replaced workers, terminate on leaving the with-block, a lost task means the
iterator waits forever (reported as SimHang)."""
import errno
import gc
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import multiprocessing.process
import os
import pickle
import resource
import select
import signal
import socket
import struct
import subprocess
import sys
import threading
import weakref
from collections import deque
from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError, mapstar, starmapstar

from core import SimHang, SimInjected

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "dsrg_generator") + os.sep

EXC = {
    "MemoryError": lambda: MemoryError("injected"),
    "SimInjected": lambda: SimInjected("injected"),
    "OSError": lambda: OSError(errno.ENOMEM, "injected: Cannot allocate memory"),
    "RecursionError": lambda: RecursionError("injected"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "PicklingError": lambda: pickle.PicklingError("injected"),
    "ProcessError": lambda: multiprocessing.ProcessError("injected"),
    "TimedOut": lambda: multiprocessing.TimeoutError("injected"),
}
OTHERS = ["ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "ZeroDivisionError", "OverflowError",
          "AssertionError", "EOFError", "BrokenPipeError", "ConnectionResetError", "TimeoutError", "NotImplementedError",
          "ImportError", "UnicodeError", "BlockingIOError", "BufferError", "SystemError", "PicklingError", "ProcessError",
          "TimedOut"]
for _k in OTHERS:
    EXC.setdefault(_k, lambda _c=getattr(__import__("builtins"), _k, None): _c("injected"))


class LineFault:
    """Raise (or die) at the n-th executed line of the package in this process/thread."""

    def __init__(self, nth, kind, only=None):
        self.n = nth
        self.kind = kind
        self.count = 0
        self.fired = None
        self.only = only

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(PKG):
            return None
        if self.only is not None and not fn.endswith(self.only):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" and self.fired is None:
            self.count += 1
            if self.count >= self.n:
                self.fired = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                if self.kind == "kill":
                    os._exit(137)
                sys.settrace(None)
                raise EXC[self.kind]()
        return self._local

    def __enter__(self):
        self.count = 0
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class World:
    """What the simulator controls.  One per process; reset for each run."""

    def __init__(self):
        self.in_worker = False
        self.zygote = None
        self.reset(None)

    def reset(self, ctx, cpu=4, start_method="fork", maxtasks=None, style=0, faults=None, enabled=True):
        self.ctx = ctx
        self.cpu = cpu
        self.start_method = start_method
        self.maxtasks = maxtasks        # override of maxtasksperchild
        self.style = style
        self.victim = 0
        self.faults = dict(faults or {})   # task ordinal -> (kind, nth)
        self.fork_fail = None           # number of the worker start that fails
        self.interrupt_wait = None      # number of the wait that is interrupted
        self.task_pickle_fail = None    # ordinal of the task whose transfer fails
        self._pools = []                # weak references, in order of creation
        self._keep = {}                 # pools with unfinished jobs stay alive, as with the real handler threads
        self.n_started = 0
        self.n_tasks = 0
        self.n_waits = 0
        self.max_alive = 0
        self.steps = 0
        self.deliveries = []            # order in which task ordinals were delivered
        self.fired = []
        self.pool_args = []
        self.step_limit = 2000000

    def pick(self, n, label):
        if self.ctx is None:
            return 0
        return self.ctx.ch.pick(n, label)

    def log(self, *a):
        if self.ctx is not None:
            self.ctx.log(*a)

    @property
    def pools(self):
        out = []
        for r in self._pools:
            p = r()
            if p is not None:
                out.append(p)
        return out

    def track(self, pool):
        if pool._jobs and pool._state != "TERMINATE":
            self._keep[id(pool)] = pool
        else:
            self._keep.pop(id(pool), None)

    # ---- scheduling
    def enabled_events(self):
        fin, take, feed = [], [], []
        for p in self.pools:
            if p._state == "TERMINATE":
                continue
            for w in p._pool:
                if w.task is not None:
                    fin.append((w.task[1], "finish", p, w))
            if p._queue:
                for w in p._pool:
                    if w.task is None and not w.gone:
                        take.append((w.id, "take", p, w))
            for job in p._feeding:
                feed.append((job.id, "feed", p, job))
        fin.sort(key=lambda e: e[0])
        return fin, take, feed

    def step(self):
        """Let one scheduled event happen.  False if nothing can happen."""
        fin, take, feed = self.enabled_events()
        if not (fin or take or feed):
            return False
        self.steps += 1
        if self.steps > self.step_limit:
            raise SimHang("step limit")
        st = self.style
        if st == 0:                     # first in, first out
            ev = (fin + take + feed)[0] if not take else (take + fin + feed)[0]
        elif st == 1:                   # anything
            evs = fin + take + feed
            ev = evs[self.pick(len(evs), "ev")]
        elif st == 2:                   # one worker is stalled as long as others can work
            evs = [e for e in fin + take if e[3].slot != self.victim] + feed
            if not evs:
                evs = fin + take
            ev = evs[self.pick(len(evs), "ev")]
        elif st == 3:                   # newest first
            evs = feed or take or fin[::-1]
            ev = evs[0]
            if self.pick(8, "ev") == 7:
                evs = fin + take + feed
                ev = evs[self.pick(len(evs), "ev2")]
        else:                           # all pieces taken and computed before any is handed back, then any order
            evs = (feed or take) or fin
            ev = evs[self.pick(len(evs), "ev")]
        _, kind, p, obj = ev
        if kind == "feed":
            p._feed(obj)
        elif kind == "take":
            p._take(obj)
        else:
            p._finish(obj)
        return True

    def wait(self, cond, what):
        self.n_waits += 1
        if self.interrupt_wait is not None and self.n_waits == self.interrupt_wait:
            self.fired.append(("interrupt-wait", self.n_waits))
            self.log("interrupt at wait", self.n_waits)
            raise KeyboardInterrupt("injected")
        # the caller is slow: things happen although it could go on already
        if self.style:
            for _ in range(self.pick(3, "lag")):
                if not self.step():
                    break
        while not cond():
            if not self.step():
                raise SimHang("waiting for %s: nothing can happen any more" % what)

    # ---- workers
    def alive(self):
        out = []
        for p in self.pools:
            out += [w.pid for w in p._pool if not w.gone]
        return out

    def start_worker(self, pool, slot):
        self.n_started += 1
        if self.fork_fail is not None and self.n_started == self.fork_fail:
            self.fired.append(("fork-fail", self.n_started))
            self.log("worker start", self.n_started, "fails")
            raise BlockingIOError(errno.EAGAIN, "injected: Resource temporarily unavailable")
        w = Worker(self, pool, slot, self.n_started)
        return w

    def note_alive(self):
        n = len(self.alive())
        if n > self.max_alive:
            self.max_alive = n

    def kill_all(self):
        for p in list(self.pools):
            p._kill()


W = World()


def _send(sock, data):
    sock.sendall(struct.pack(">Q", len(data)) + data)


def _recv(sock):
    def need(n):
        buf = b""
        while len(buf) < n:
            part = sock.recv(min(n - len(buf), 1 << 20))
            if not part:
                return None
            buf += part
        return buf
    head = need(8)
    if head is None:
        return None
    return need(struct.unpack(">Q", head)[0])


def _worker_main(sock, ident, initializer, initargs):
    """The loop of a worker process (never returns)."""
    try:
        sys.settrace(None)
        threading.settrace(None)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        W.in_worker = True
        import simthreads
        simthreads.CURRENT = None
        W.ctx = None
        W._pools = []
        W._keep = {}
        cur = multiprocessing.process.current_process()
        try:
            cur._config = dict(cur._config, daemon=True)
            cur._name = "ForkPoolWorker-%d" % ident
        except Exception:
            pass
        if initializer is not None:
            initializer(*initargs)
        while True:
            data = _recv(sock)
            if data is None:
                os._exit(0)
            fault, blob = pickle.loads(data)
            job, i, func, args, kwds = pickle.loads(blob)
            lf = None
            try:
                if fault is not None and fault[0] != "result-transfer":
                    lf = LineFault(fault[1], fault[0])
                    with lf:
                        res = (True, func(*args, **kwds))
                else:
                    res = (True, func(*args, **kwds))
            except Exception as e:
                res = (False, ExceptionWithTraceback(e, e.__traceback__))
            try:
                if fault is not None and fault[0] == "result-transfer":
                    raise pickle.PicklingError("injected: result cannot be pickled")
                out = pickle.dumps((job, i, res), 2)
            except Exception as e:
                out = pickle.dumps((job, i, (False, MaybeEncodingError(e, res[1]))), 2)
            fired = lf.fired if lf is not None else (
                "result" if fault is not None and fault[0] == "result-transfer" else None)
            _send(sock, pickle.dumps((fired, out), 2))
    except BaseException:
        pass
    finally:
        os._exit(1)


ZYGOTE = None            # address of the process that "spawn" workers come from, and what keeps it alive


def start_zygote():
    """Start an interpreter of its own, with another hash seed, that imports the package and does nothing else; workers
    of the start methods "spawn" and "forkserver" are forked from it."""
    global ZYGOTE
    addr = "\0dsrgsim-zygote-%d" % os.getpid()
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(int(env.get("PYTHONHASHSEED") or 0) + 101)
    jit = ["--jit", "off"] if sys.implementation.name == "pypy" else []
    lane = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lane.py")
    p = subprocess.Popen([sys.executable] + jit + ["-B", "-W", "ignore", lane, "--zygote", addr[1:]], env=env,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    if p.stdout.readline().strip() != b"ready":
        raise RuntimeError("the process for spawned workers did not start")
    p.stdout.close()
    ZYGOTE = (addr, p)
    return ZYGOTE


def zygote_main(name):
    """Serve sessions, one per run, until standard input ends."""
    lst = socket.socket(socket.AF_UNIX)
    lst.bind("\0" + name)
    lst.listen(8)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    os.write(1, b"ready\n")
    os.close(1)
    os.open(os.devnull, os.O_WRONLY)
    while True:
        r, _, _ = select.select([lst, 0], [], [])
        if 0 in r:
            os._exit(0)
        c, _ = lst.accept()
        if os.fork() == 0:
            try:
                lst.close()
                null = os.open(os.devnull, os.O_RDONLY)
                os.dup2(null, 0)
                os.close(null)
                zygote_session(c)
            finally:
                os._exit(1)
        c.close()


def zygote_session(cmd):
    group, addr, limits = pickle.loads(_recv(cmd))
    os.setpgid(0, group)
    for k, v in limits:
        resource.setrlimit(k, v)
    _send(cmd, b"ok")
    while True:
        d = _recv(cmd)
        if d is None:
            os._exit(0)
        ident, init = pickle.loads(d)
        pid = os.fork()
        if pid == 0:
            cmd.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            s = socket.socket(socket.AF_UNIX)
            s.connect(addr)
            _worker_main(s, ident, *init)
        _send(cmd, str(pid).encode())


class Zygote:
    """A run's session with the process that "spawn" workers come from."""

    def __init__(self):
        z = ZYGOTE or start_zygote()
        self.addr = "\0dsrgsim-%d" % os.getpid()
        self.lst = socket.socket(socket.AF_UNIX)
        self.lst.bind(self.addr)
        self.lst.listen(4)
        self.cmd = socket.socket(socket.AF_UNIX)
        self.cmd.connect(z[0])
        limits = [(k, resource.getrlimit(k)) for k in (resource.RLIMIT_CPU, resource.RLIMIT_DATA)]
        _send(self.cmd, pickle.dumps((os.getpgid(0), self.addr, limits), 2))
        _recv(self.cmd)

    def start(self, ident, init):
        _send(self.cmd, pickle.dumps((ident, init), 2))
        pid = int(_recv(self.cmd))
        sock, _ = self.lst.accept()
        return pid, sock

    def close(self):
        try:
            self.cmd.close()
            self.lst.close()
        except OSError:
            pass


class Worker:
    def __init__(self, world, pool, slot, ident):
        self.world = world
        self.slot = slot
        self.id = ident
        self.task = None
        self.done = 0
        self.gone = False
        self.child = True
        self.name = "SimPoolWorker-%d" % (ident + 1)
        self.daemon = True
        init = (pool._initializer, pool._initargs)
        if pool._start_method in ("spawn", "forkserver"):
            if world.zygote is None:
                world.zygote = Zygote()
            self.pid, self.sock = world.zygote.start(ident, init)
            self.child = False
        else:
            a, b = socket.socketpair()
            others = [w.sock for p in world.pools for w in p._pool if not w.gone]
            self.pid = os.fork()
            if self.pid == 0:
                a.close()
                for s in others:
                    try:
                        s.close()
                    except OSError:
                        pass
                _worker_main(b, ident, *init)
            b.close()
            self.sock = a

    def is_alive(self):
        return not self.gone

    @property
    def exitcode(self):
        return None if not self.gone else -signal.SIGKILL

    def terminate(self):
        os.kill(self.pid, signal.SIGTERM)

    def join(self, timeout=None):
        pass

    def stop(self):
        if self.gone:
            return
        self.gone = True
        try:
            self.sock.close()
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        if self.child:
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass


class Job:
    _next = itertools.count()

    def __init__(self, pool):
        self.pool = pool
        self.id = next(Job._next)
        pool._jobs[self.id] = self
        W.track(pool)


class IMapIt(Job):
    """imap / imap_unordered iterator."""

    def __init__(self, pool, ordered):
        Job.__init__(self, pool)
        self.ordered = ordered
        self.items = deque()
        self.index = 0
        self.length = None
        self.unsorted = {}

    def __iter__(self):
        return self

    def _set(self, i, obj):
        if not self.ordered:
            self.items.append(obj)
            self.index += 1
        else:
            if self.index == i:
                self.items.append(obj)
                self.index += 1
                while self.index in self.unsorted:
                    self.items.append(self.unsorted.pop(self.index))
                    self.index += 1
            else:
                self.unsorted[i] = obj
        if self.index == self.length:
            self.pool and self.pool._drop(self.id)

    def _set_length(self, n):
        self.length = n

    def next(self, timeout=None):
        def ready():
            return bool(self.items) or self.index == self.length
        try:
            W.wait(ready, "the next result")
        except SimHang:
            if timeout is not None:
                raise multiprocessing.TimeoutError
            raise
        if self.items:
            ok, val = self.items.popleft()
        else:
            self.pool = None
            raise StopIteration
        if ok:
            return val
        raise val

    __next__ = next


class AsyncResult(Job):
    def __init__(self, pool, callback=None, error_callback=None):
        Job.__init__(self, pool)
        self._cb, self._ecb = callback, error_callback
        self._done = False
        self._ok, self._value = True, None

    def _complete(self):
        self._done = True
        if self._ok and self._cb:
            self._cb(self._value)
        if not self._ok and self._ecb:
            self._ecb(self._value)
        self.pool._drop(self.id)

    def _set(self, i, obj):
        self._ok, self._value = obj
        self._complete()

    def _set_length(self, n):
        pass

    def ready(self):
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError("not ready")
        return self._ok

    def wait(self, timeout=None):
        try:
            W.wait(lambda: self._done, "a result")
        except SimHang:
            if timeout is None:
                raise

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            raise multiprocessing.TimeoutError
        if self._ok:
            return self._value
        raise self._value


class MapResult(AsyncResult):
    def __init__(self, pool, chunksize, length, callback, error_callback):
        AsyncResult.__init__(self, pool, callback, error_callback)
        self._value = [None] * length
        self._chunksize = chunksize
        self._left = 0 if chunksize <= 0 else length // chunksize + bool(length % chunksize)
        if length == 0:
            self._done = True
            pool._drop(self.id)

    def _set(self, i, obj):
        self._left -= 1
        ok, res = obj
        if ok and self._ok:
            self._value[i * self._chunksize:(i + 1) * self._chunksize] = res
        elif not ok and self._ok:
            self._ok, self._value = False, res
        if self._left == 0:
            self._complete()


def _reraise(ex):
    raise ex


class Feeder:
    def __init__(self, job, gen, set_length):
        self.id = job.id
        self.job = job
        self.gen = gen
        self.set_length = set_length


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None,
                 _method=None):
        if W.in_worker:
            raise AssertionError("daemonic processes are not allowed to have children")
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if maxtasksperchild is not None and (not isinstance(maxtasksperchild, int) or maxtasksperchild <= 0):
            raise ValueError("maxtasksperchild must be a positive int or None")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._initializer, self._initargs = initializer, initargs
        self._start_method = _method or W.start_method
        self._processes = processes
        self._maxtasks = W.maxtasks if W.maxtasks is not None else maxtasksperchild
        self._state = "RUN"
        self._queue = deque()
        self._feeding = []
        self._jobs = {}
        self._pool = []
        W.pool_args.append(processes)
        W._pools.append(weakref.ref(self))
        W.log("pool", processes)
        try:
            for slot in range(processes):
                self._pool.append(W.start_worker(self, slot))
                W.note_alive()
        except Exception:
            self._kill()
            raise
        self._fin = weakref.finalize(self, _finalize, list(self._pool))
        self._fin.atexit = False

    def _drop(self, job_id):
        self._jobs.pop(job_id, None)
        W.track(self)

    # ---- scheduler side
    def _feed(self, f):
        try:
            task = next(f.gen)
        except StopIteration:
            self._feeding.remove(f)
            f.set_length()
            return
        job, i = task[:2]
        W.n_tasks += 1
        ordinal = W.n_tasks
        try:
            if W.task_pickle_fail == ordinal:
                W.fired.append(("task-transfer", ordinal))
                raise pickle.PicklingError("injected: task cannot be pickled")
            blob = pickle.dumps(task, 2)
        except Exception as e:
            if job in self._jobs:
                self._jobs[job]._set(i, (False, e))
            return
        self._queue.append((ordinal, blob))

    def _take(self, w):
        ordinal, blob = self._queue.popleft()
        fault = W.faults.get(ordinal)
        w.task = (W.steps, ordinal, fault)
        W.log("take", w.slot, ordinal)
        _send(w.sock, pickle.dumps((fault, blob), 2))

    def _finish(self, w):
        _, ordinal, fault = w.task
        data = _recv(w.sock)
        w.task = None
        if data is None:               # the worker died: its task is lost, a new worker takes its place
            W.fired.append((fault[0] if fault else "died", ordinal))
            W.log("worker", w.slot, "died with task", ordinal)
            w.stop()
            self._replace(w)
            return
        fired, out = pickle.loads(data)
        if fired is not None:
            W.fired.append((fault[0], ordinal))
            W.log("fault", fault[0], "in task", ordinal, "at", fired)
        W.log("finish", w.slot, ordinal)
        W.deliveries.append(ordinal)
        job, i, obj = pickle.loads(out)
        w.done += 1
        if job in self._jobs:
            self._jobs[job]._set(i, obj)
        if self._maxtasks is not None and w.done >= self._maxtasks:
            w.stop()
            self._replace(w)

    def _replace(self, w):
        k = self._pool.index(w)
        self._pool.pop(k)
        if self._state == "RUN" or self._queue or self._feeding or self._jobs:
            try:
                n = W.start_worker(self, w.slot)
            except OSError:            # as in the real pool: it goes on with fewer workers
                return
            self._pool.insert(k, n)
            self._fin.detach()
            self._fin = weakref.finalize(self, _finalize, list(self._pool))
            self._fin.atexit = False
            W.note_alive()

    def _kill(self):
        self._state = "TERMINATE"
        for w in self._pool:
            w.stop()
        self._queue.clear()
        self._feeding = []
        W.track(self)

    # ---- caller side
    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    @staticmethod
    def _get_tasks(func, it, size):
        it = iter(it)
        while 1:
            x = tuple(itertools.islice(it, size))
            if not x:
                return
            yield (func, x)

    def _guarded(self, job, func, iterable, kw=None):
        i = -1
        try:
            for i, x in enumerate(iterable):
                yield (job.id, i, func, (x,), {})
        except Exception as e:
            yield (job.id, i + 1, _reraise, (e,), {})

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        if chunksize == 1:
            job = IMapIt(self, ordered)
            gen = _Counted(self._guarded(job, func, iterable))
            self._feeding.append(Feeder(job, gen, lambda: _set_len(job, gen.n)))
            return job
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+, not {0:n}".format(chunksize))
        job = IMapIt(self, ordered)
        gen = _Counted(self._guarded(job, mapstar, SimPool._get_tasks(func, iterable, chunksize)))
        self._feeding.append(Feeder(job, gen, lambda: _set_len(job, gen.n)))
        return (item for chunk in job for item in chunk)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def _map_async(self, func, iterable, mapper, chunksize=None, callback=None, error_callback=None):
        self._check()
        if not hasattr(iterable, "__len__"):
            iterable = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(iterable), len(self._pool) * 4)
            if extra:
                chunksize += 1
        if len(iterable) == 0:
            chunksize = 0
        res = MapResult(self, chunksize, len(iterable), callback, error_callback)
        if len(iterable):
            gen = self._guarded(res, mapper, SimPool._get_tasks(func, iterable, chunksize))
            self._feeding.append(Feeder(res, gen, lambda: None))
        return res

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, mapstar, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, starmapstar, chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        res = AsyncResult(self, callback, error_callback)
        self._feeding.append(Feeder(res, iter([(res.id, 0, func, args, kwds)]), lambda: None))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._state == "CLOSE":
            W.wait(lambda: not self._jobs and not self._queue and not self._feeding, "the pool to finish")
        self._kill()

    def terminate(self):
        self._kill()
        W.log("terminate")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class _Counted:
    def __init__(self, gen):
        self.gen = gen
        self.n = 0

    def __next__(self):
        x = next(self.gen)
        self.n += 1
        return x


def _set_len(job, n):
    job._set_length(n)
    if job.index == n and job.pool is not None:
        job.pool._drop(job.id)


def _finalize(workers):
    for w in workers:
        w.stop()


def install():
    """Put the simulator behind the seams (before the package is imported)."""
    real_cpu = os.cpu_count

    def cpu_count():
        return W.cpu

    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool

    def ctx_pool(self, *a, **k):
        m = getattr(self, "_name", None)
        return SimPool(*a, _method=m if m in ("fork", "spawn", "forkserver") else None, **k)

    multiprocessing.context.BaseContext.Pool = ctx_pool
    multiprocessing.context.BaseContext.cpu_count = lambda self: W.cpu
    multiprocessing.cpu_count = cpu_count
    os.cpu_count = cpu_count
    return real_cpu
