"""Python side of simseam.c."""
import ctypes
import errno
import os

from core import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(VERIF, "build", "simseam.so")
KINDS = ["open-for-writing", "open-for-reading", "write", "read", "close", "mkdir", "chdir", "rename", "unlink",
         "truncate", "fsync"]
K = {n: i for i, n in enumerate(KINDS)}
ERRNO, SHORT, CRASH_BEFORE, CRASH_AFTER, TORN_CRASH = 1, 2, 3, 4, 5
MONO, REAL, CPU, TCPU, RAW, BOOT = 1, 0, 2, 3, 4, 7

_lib = None


def lib():
    global _lib
    if _lib is None:
        if PATH not in os.environ.get("LD_PRELOAD", ""):
            raise HarnessError("the seam library is not loaded")
        _lib = ctypes.CDLL(PATH)
        _lib.seam_log.restype = ctypes.c_char_p
        _lib.seam_count.restype = ctypes.c_long
        _lib.seam_clock_set.argtypes = [ctypes.c_int, ctypes.c_int64]
        _lib.seam_clock_get.restype = ctypes.c_int64
        _lib.seam_clock_tick.argtypes = [ctypes.c_int64]
        _lib.seam_budget.argtypes = [ctypes.c_long]
        _lib.seam_clock_reads.restype = ctypes.c_long
    return _lib


def on(prefix, readprefix="", anydir=False):
    lib().seam_on(prefix.encode(), readprefix.encode(), 1 if anydir else 0)


def off():
    lib().seam_off()


def fault(kind, nth, action, arg=0):
    lib().seam_fault(K[kind], nth, action, arg)


def any_call(nth, action, arg=0):
    lib().seam_any(nth, action, arg)


def budget(n):
    lib().seam_budget(n)


def fired():
    return lib().seam_fired()


def count(kind=None):
    return lib().seam_count(-1 if kind is None else K[kind])


def log():
    return lib().seam_log().decode("utf-8", "replace").split("\n")[:-1]


class Clocks:
    """Simulated clocks; the process sees only these."""

    def __init__(self, mono=5 * 10**9, real=1700000000 * 10**9):
        self.mono, self.real, self.cpu = mono, real, 10**9

    def _push(self):
        l = lib()
        for k in (MONO, RAW, BOOT, 5, 6):
            l.seam_clock_set(k, self.mono)
        l.seam_clock_set(5, self.real)           # CLOCK_REALTIME_COARSE
        l.seam_clock_set(REAL, self.real)
        l.seam_clock_set(CPU, self.cpu)
        l.seam_clock_set(TCPU, self.cpu)

    def __enter__(self):
        self._push()
        lib().seam_clock(1)
        return self

    def __exit__(self, *a):
        lib().seam_clock(0)
        return False

    def advance(self, ns, cpu_share=0.5, step=0):
        self.mono += ns
        self.real += ns + step
        self.cpu += int(ns * cpu_share)
        self._push()


ERR = {n: getattr(errno, n) for n in ("ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS", "EDQUOT", "EINTR", "ENFILE",
                                      "ENOENT", "EPERM", "ENOMEM", "EBUSY", "EEXIST", "ENOTDIR", "ELOOP", "ENAMETOOLONG")}
