"""The simulated runs, one function per property."""
import gc
import json
import os
import pickle
import signal
import struct
import sys
import traceback

import simpool
import workloads as wl
from core import HarnessError, SimHang, SimInjected, Violation, derive, Chooser
from simpool import W

RUNS = {}


def prop(name):
    def deco(f):
        RUNS[name] = f
        return f
    return deco


def run(ctx):
    name = ctx.opts.get("scenario") or ctx.prop
    RUNS[name](ctx)


def warm():
    """Make the stock of terms the requests draw from.  A child makes it, so that runs and references start in a
    process in which the package has done nothing but being imported."""
    import ops
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump([ops.stock(), prop_io.stock()], f, 2)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    if os.waitpid(pid, 0)[1] != 0:
        raise RuntimeError("the package cannot make the terms the requests draw from")
    a, b = pickle.loads(data)
    ops.restock(a)
    prop_io.restock(b)
    os.environ.pop(prop_pool.HOOK, None)


def cleanup():
    W.kill_all()
    Pristine.stop()
    if W.zygote is not None:
        W.zygote.close()
        W.zygote = None


# ---------------------------------------------------------------- helpers shared by the properties

def isolated(fn, *args):
    """Evaluate fn in a pristine copy of this process (a fork); returns its value, a plain JSON value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            sys.settrace(None)
            try:
                ans = ["ok", fn(*args)]
            except Exception as e:
                ans = ["raise", type(e).__name__, str(e)]
            data = json.dumps(ans).encode()
            os.set_blocking(w, True)
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not buf:
        raise HarnessError("reference computation failed (wait status %d)" % st)
    return json.loads(buf.decode())


class Pristine:
    """A copy of the process as it was when the run began; references are worked out in forks of it, whatever the
    run has done to its own process by then."""
    pid = None

    @classmethod
    def start(cls):
        cls.r, w = os.pipe()
        r, cls.w = os.pipe()
        cls.pid = os.fork()
        if cls.pid == 0:
            try:
                os.close(cls.r)
                os.close(cls.w)
                src = os.fdopen(r, "rb")
                while True:
                    fn, args = pickle.load(src)
                    data = json.dumps(isolated(fn, *args)).encode()
                    data = struct.pack(">Q", len(data)) + data
                    while data:
                        data = data[os.write(w, data):]
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(w)
        os.close(r)

    @classmethod
    def ask(cls, fn, *args):
        data = pickle.dumps((fn, args), 2)
        while data:
            data = data[os.write(cls.w, data):]
        buf = b""
        while len(buf) < 8 or len(buf) < 8 + struct.unpack(">Q", buf[:8])[0]:
            part = os.read(cls.r, 1 << 20)
            if not part:
                raise HarnessError("reference computation failed")
            buf += part
        return json.loads(buf[8:].decode())

    @classmethod
    def stop(cls):
        if cls.pid:
            try:
                os.kill(cls.pid, signal.SIGKILL)
                os.waitpid(cls.pid, 0)
            except OSError:
                pass
            cls.pid = None


def attempt(fn, *args):
    """Evaluate fn here; same form as isolated()."""
    try:
        return ["ok", fn(*args)]
    except SimHang as e:
        return ["hang", str(e)]
    except (KeyboardInterrupt, SystemExit) as e:
        return ["raise", type(e).__name__, str(e)]
    except Exception as e:
        return ["raise", type(e).__name__, str(e)]


def norm(x):
    """Through JSON, so that values from here and from another process compare alike."""
    return json.loads(json.dumps(x))


def same(a, b):
    """Are two outcomes equal up to rounding?  Returns a message or None."""
    if a[0] != b[0]:
        return "%s instead of %s" % (brief(a), brief(b))
    if a[0] == "raise":
        return None if a[1] == b[1] else "%s instead of %s" % (brief(a), brief(b))
    x, y = norm(a[1]), norm(b[1])
    if wl.close(x, y):
        return None
    x, y = wl.drop_ghosts(x), wl.drop_ghosts(y)
    if wl.close(x, y):
        return None
    return wl.diff(x, y)


def brief(a):
    s = repr(a)
    return s if len(s) < 300 else s[:300] + "..."


import prop_pool      # noqa: E402,F401
import prop_history   # noqa: E402,F401
import prop_threads   # noqa: E402,F401
import prop_io        # noqa: E402,F401
