"""Core of the simulator: the seeded chooser every decision goes through, the run context and the
violation / known-finding plumbing.  Python 3.9 compatible, standard library only (it also runs on PyPy)."""
import hashlib
from collections import Counter

MASK = (1 << 64) - 1


class Rng:
    """splitmix64: one integer decides everything, identically on every interpreter."""

    def __init__(self, seed):
        self.s = seed & MASK

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n


def derive(*parts):
    """Derive a 64-bit seed from any printable parts."""
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Chooser:
    """All choices of a run.  With a seed it draws them, with a list it replays them (0 after its end);
    0 is always the simplest alternative, so shrinking means zeroing and deleting entries."""

    def __init__(self, seed=None, replay=None):
        self.rng = Rng(seed) if seed is not None else None
        self.replay = replay
        self.rec = []
        self.labels = []

    def pick(self, n, label=""):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.rec)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            v = max(0, min(int(v), n - 1))
        else:
            v = self.rng.below(n)
        self.rec.append(v)
        self.labels.append(label)
        return v

    def flip(self, percent, label=""):
        """True with the given probability; the simple outcome is False."""
        return self.pick(100, label) >= 100 - percent

    def of(self, seq, label=""):
        return seq[self.pick(len(seq), label)]

    def weighted(self, pairs, label=""):
        """pairs: [(weight, item)], the first is the simplest."""
        tot = sum(w for w, _ in pairs)
        r = self.pick(tot, label)
        for w, item in pairs:
            if r < w:
                return item
            r -= w
        return pairs[0][1]

    def spread(self, n, label=""):
        """An integer in [1, n], small and large ones about equally likely (log-uniform)."""
        if n <= 1:
            return 1
        bits = n.bit_length()
        b = self.pick(bits, label)
        lo, hi = 1 << b, min(n, (1 << (b + 1)) - 1)
        if lo > n:
            return n
        return lo + self.pick(hi - lo + 1, label)


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


class SimInjected(RuntimeError):
    """An error injected by the simulator."""


class SimHang(BaseException):
    """The simulated process would wait forever (nothing can make progress)."""


class Ctx:
    """One simulated run."""

    def __init__(self, prop, chooser, lane, cache=None):
        self.prop = prop
        self.ch = chooser
        self.lane = lane              # lane description (interpreter, hash seed, ...)
        self.cache = cache if cache is not None else {}
        self.new_cache = {}
        self.events = []              # the event log; its hash is compared by the determinism test
        self.faults = Counter()       # fault kinds that actually fired
        self.probes = Counter()       # "this rare condition was reached"
        self.claims = []              # to be decided by the oracle process
        self.known = {}               # known findings met: id -> text
        self.shape = None             # what makes this run distinct (for the evidence)
        self.nontrivial = False
        self.summary = None
        self.steps = 0                # scheduler steps (simulated time)
        self.sim_ns = 0

    def log(self, *a):
        self.events.append(" ".join(str(x) for x in a))

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(e.encode("utf-8", "replace"))
            h.update(b"\n")
        return h.hexdigest()[:16]
