"""Reference model of the contraction enumerator: generalized Wick contractions of a list of normal-ordered
operators, written from the definition (no code of the package is used).

An operator is (cre, ann): lists of index names such as "h0".  A contraction is reported in a normal form,
(densities, cre, ann) -> sign, where densities is a sorted tuple of (kind, uppers, lowers) with uppers, lowers,
cre and ann sorted by name; the sign absorbs every reordering."""

SPACES = {"c": "c", "v": "v", "a": "a", "h": "ca", "p": "av", "g": "cav"}


def overlap(x, y):
    return bool(set(SPACES[x[0]]) & set(SPACES[y[0]]))


def parity(seq):
    seq = list(seq)
    s = 1
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i] > seq[j]:
                s = -s
    return s


def sort_sign(names):
    order = sorted(range(len(names)), key=lambda k: names[k])
    return parity(order), tuple(names[k] for k in order)


def subsets(items, k):
    if k == 0:
        yield ()
        return
    for n, x in enumerate(items):
        for rest in subsets(items[n + 1:], k - 1):
            yield (x,) + rest


def effective_cu(ops, max_cu):
    nc = sum(1 for cre, _ in ops for i in cre if i[0] not in "cv")
    na = sum(1 for _, ann in ops for i in ann if i[0] not in "cv")
    allowed = max(1, min(nc, na))
    return allowed if max_cu < 1 or max_cu > allowed else max_cu


class Model:
    def __init__(self, ops, max_cu):
        self.ops = ops
        self.micro = []                 # (operator, "u"/"l", name) in the order of the product
        for k, (cre, ann) in enumerate(ops):
            for i in cre:
                self.micro.append((k, "u", i))
            for i in reversed(ann):
                self.micro.append((k, "l", i))
        self.n = len(self.micro)
        self.max_cu = effective_cu(ops, max_cu)
        self.elem = self._elementary()
        self.by_first = {}
        for e in self.elem:
            self.by_first.setdefault(min(e[1]), []).append(e)

    def _elementary(self):
        """[(kind, positions (upper..., lower...), upper positions, lower positions)]"""
        ups = [p for p in range(self.n) if self.micro[p][1] == "u"]
        los = [p for p in range(self.n) if self.micro[p][1] == "l"]
        out = []
        for u in ups:
            for l in los:
                ku, _, iu = self.micro[u]
                kl, _, il = self.micro[l]
                if ku == kl or not overlap(iu, il):
                    continue
                if ku < kl and iu[0] != "v" and il[0] != "v":
                    out.append(("L", (u, l), (u,), (l,)))
                if kl < ku and iu[0] != "c" and il[0] != "c":
                    out.append(("E", (u, l), (u,), (l,)))
        au = [p for p in ups if self.micro[p][2][0] not in "cv"]
        al = [p for p in los if self.micro[p][2][0] not in "cv"]
        for k in range(2, self.max_cu + 1):
            for us in subsets(au, k):
                for ls in subsets(al, k):
                    if len(set(self.micro[p][0] for p in us + ls)) == 1:
                        continue
                    out.append(("L", us + ls, us, ls))
        return out

    def composites(self, max_open, min_open, limit=None):
        """Every set of disjoint elementary contractions leaving an allowed number of operators open."""
        state = [0]

        def rec(p, used, n_open, chosen):
            while p < self.n and p in used:
                p += 1
            if p == self.n:
                if min_open <= n_open:
                    state[0] += 1
                    if limit is not None and state[0] > limit:
                        raise OverflowError
                    yield list(chosen)
                return
            for e in self.by_first.get(p, ()):
                pos = e[1]
                if any(q in used for q in pos):
                    continue
                chosen.append(e)
                for q in pos:
                    used.add(q)
                yield from rec(p + 1, used, n_open, chosen)
                for q in pos:
                    used.discard(q)
                chosen.pop()
            if n_open < max_open:
                yield from rec(p + 1, used, n_open + 1, chosen)

        yield from rec(0, set(), 0, [])

    def category(self, e):
        return tuple(self.micro[q][0] for q in e[2]) + tuple(self.micro[q][0] for q in e[3])

    def connected(self, chosen):
        """(is it one connected piece over all operators with a pairwise contraction, is it found incrementally)"""
        if not any(len(e[1]) == 2 for e in chosen):
            return False, False
        comp = list(range(len(self.ops)))

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        cats = []
        for e in chosen:
            c = self.category(e)
            cats.append(c)
            for k in c[1:]:
                comp[find(k)] = find(c[0])
        if len(set(find(k) for k in range(len(self.ops)))) != 1:
            return False, False
        # the implementation adds categories in ascending order and wants each one to touch the earlier ones
        cats.sort(key=lambda c: (len(c), c))
        seen = set(cats[0])
        for c in cats[1:]:
            if seen.isdisjoint(c):
                return True, False
            seen |= set(c)
        return True, True

    def entries(self, chosen, expand_hole):
        """The reported entries of one composite contraction: [(normal form, sign)]."""
        order = []
        for e in chosen:
            if e[0] == "E":
                order += [e[3][0], e[2][0]]
            else:
                order += list(e[2]) + list(reversed(e[3]))
        used = set(order)
        ou = sorted([self.micro[p][2], p] for p in range(self.n) if p not in used and self.micro[p][1] == "u")
        ol = sorted([self.micro[p][2], p] for p in range(self.n) if p not in used and self.micro[p][1] == "l")
        order += [p for _, p in ou] + [p for _, p in reversed(ol)]
        sign = parity(order)
        cre, ann = tuple(i for i, _ in ou), tuple(i for i, _ in ol)
        alts = [(sign, [])]
        for e in chosen:
            su, us = sort_sign([self.micro[p][2] for p in e[2]])
            sl, ls = sort_sign([self.micro[p][2] for p in e[3]])
            if e[0] == "E" and expand_hole:
                new = []
                for s, ds in alts:
                    new.append((s * su * sl, ds + [("K", us, ls)]))
                    if us[0][0] != "v" and ls[0][0] != "v":
                        new.append((-s * su * sl, ds + [("L", us, ls)]))
                alts = new
            else:
                alts = [(s * su * sl, ds + [(e[0], us, ls)]) for s, ds in alts]
        return [((tuple(sorted(ds)), cre, ann), s) for s, ds in alts]



def reference(ops, max_cu, max_open, min_open, connected, expand_hole, limit=60000):
    """{normal form: [signs]} of all allowed contractions, and of those found incrementally."""
    m = Model(ops, max_cu)
    full, inc = {}, {}
    for chosen in m.composites(max_open, min_open, limit):
        if connected:
            ok, found = m.connected(chosen)
            if not ok:
                continue
        else:
            found = True
        for k, s in m.entries(chosen, expand_hole):
            full.setdefault(k, []).append(s)
            if found:
                inc.setdefault(k, []).append(s)
    for t in (full, inc):
        for v in t.values():
            v.sort()
    return full, inc
