"""Requests to the package: a small description language (plain lists, so that it can be stored, hashed and
understood by the independent oracle), a generator driven by the chooser, and the code that carries a request
out on the real package."""
import json

_pkg = None


def pkg():
    global _pkg
    if _pkg is None:
        import dsrg_generator as d
        import dsrg_generator.write_forte_functions
        import dsrg_generator.helper.file_utils
        import dsrg_generator.helper.Timer
        import dsrg_generator.phys_op_contraction
        import dsrg_generator.sqop_contraction
        _pkg = d
    return _pkg


def key(spec):
    return json.dumps(spec, sort_keys=True)


# ---------------------------------------------------------------- operands
# ["H", k, start]                             hamiltonian_operator
# ["T", k, start, excitation, hole, part, c]  cluster_operator
# ["X", name, cre, ann, coeff]                tensor name^{ann}_{cre} a^{cre}_{ann} with explicit indices

def build(o):
    d = pkg()
    if o[0] == "H":
        return d.hamiltonian_operator(o[1], start=o[2])
    if o[0] == "T":
        return d.cluster_operator(o[1], start=o[2], excitation=o[3], hole_label=o[4], particle_label=o[5],
                                  scale_factor=o[6])
    if o[0] == "X":
        t = d.Tensor.make_tensor("H", list(o[3]), list(o[2]), "so", o[1])
        return d.Term([t], d.SecondQuantizedOperator(list(o[2]), list(o[3])), o[4])
    if o[0] == "F":      # several tensors: ["F", [[kind, name, upper, lower]...], cre, ann, coeff]
        ts = [d.Tensor.make_tensor(k, list(u), list(l), "so") if n is None else
              d.Tensor.make_tensor(k, list(u), list(l), "so", n) for k, n, u, l in o[1]]
        return d.Term(ts, d.SecondQuantizedOperator(list(o[2]), list(o[3])), o[4])
    raise ValueError(o)


def op_sizes(o):
    if o[0] in "HT":
        return o[1], o[1]
    if o[0] == "S":
        return len(o[1]), len(o[2])
    return len(o[2]), len(o[3])


def gen_operand(ch, slot, max_body=2):
    """An operand whose index numbers are disjoint from those of other slots."""
    start = 10 * slot
    kind = ch.weighted([(4, "T"), (3, "H"), (3, "X")], "operand")
    if kind == "H":
        return ["H", 1 + (ch.pick(2, "body") if max_body > 1 else 0), start]
    if kind == "T":
        k = 1 + (ch.pick(2, "body") if max_body > 1 else 0)
        hp = ch.of([["c", "v"], ["h", "p"], ["c", "v"]], "hp")
        return ["T", k, start, not ch.flip(35, "deexc"), hp[0], hp[1], ch.of([1.0, -1.0, 0.5], "scale")]
    nu = 1 + (ch.pick(2, "ncre") if max_body > 1 else 0)
    nl = nu
    sp = ch.of(["a", "aaa", "cav", "hpg", "gcv", "aag", "hhp", "ppa"], "spaces")
    num = start
    cre, ann = [], []
    for _ in range(nu):
        cre.append("%s%d" % (ch.of(sp, "sp"), num))
        num += 1
    for _ in range(nl):
        ann.append("%s%d" % (ch.of(sp, "sp"), num))
        num += 1
    return ["X", ch.of(["V", "W"], "name"), cre, ann, ch.of([1.0, 0.25, -0.5, 1.0 / 3.0], "coeff")]


BLOCKS = [["cc", "vv"], ["vv", "cc"], ["cv", "cv"], ["c", "v"], ["", ""], ["ccc", "vvv"], ["aa", "aa"], ["gg", "gg"],
          ["ca", "av"], ["hh", "pp"], ["cca", "avv"], ["a", "a"], ["cg", "gv"], ["vvv", "ccc"]]


def gen_made(ch, n, block=None, names="HT", most=3):
    """n terms of one block, each a product of one to four tensors that share the open indices in any way and are
    linked by contracted indices: ["F", tensors, cre, ann, coeff]."""
    cre, ann = block or ch.of(BLOCKS, "block")
    cre = ["%s%d" % (s, i) for i, s in enumerate(cre)]
    ann = ["%s%d" % (s, i + len(cre)) for i, s in enumerate(ann)]
    out = []
    for _ in range(n):
        for _ in range(20):
            m = 1 + ch.pick(4 if cre else 3, "tensors")
            if not cre and m == 1:
                m = 2
            ts = [[[], []] for _ in range(m)]
            for k, group in ((1, cre), (0, ann)):
                for i in group:
                    ts[ch.pick(m, "where")][k].append(i)
            num = 20

            def link(a, b):
                """An index contracted between the upper part of a and the lower part of b."""
                nonlocal num
                i = "%s%d" % (ch.of("cvagh", "space"), num)
                num += 1
                ts[a][0].append(i)
                ts[b][1].append(i)
            up = [a for a in range(m) for _ in range(max(0, len(ts[a][1]) - len(ts[a][0])))]
            lo = [a for a in range(m) for _ in range(max(0, len(ts[a][0]) - len(ts[a][1])))]
            for a, b in zip(up, lo):
                link(a, b)
            for a in range(m):
                if not ts[a][0] and m > 1:
                    b = (a + 1 + ch.pick(m - 1, "partner")) % m
                    link(a, b)
                    link(b, a)
            if m > 1 and ch.flip(30, "more links"):
                a = ch.pick(m, "from")
                b = (a + 1 + ch.pick(m - 1, "partner")) % m
                link(a, b)
                link(b, a)
            if all(1 <= len(t[0]) <= most for t in ts):
                break
        else:
            ts = [[list(ann), list(cre)]]
        out.append(["F", [["H" if not amplitude(u, l) else ch.of(names, "name"), None, u, l] for u, l in ts], cre, ann,
                    ch.of([1.0, -0.5, 0.25, 1.0 / 3.0, -1.0 / 1440, 5.0 / 7], "coeff")])
    return out


def amplitude(upper, lower):
    """Whether a cluster amplitude may have these indices: one side holes only, the other particles only."""
    a, b = {i[0] for i in upper}, {i[0] for i in lower}
    hole, part = set("cha"), set("vpa")
    return (a <= hole and b <= part or a <= part and b <= hole) and a | b != {"a"}


def gen_limits(ch):
    max_open = ch.weighted([(4, 6), (2, 4), (2, 2), (1, 0), (1, 8)], "max_open")
    min_open = ch.weighted([(5, 0), (2, 2), (1, 4)], "min_open")
    if min_open > max_open:
        min_open = max_open
    return dict(max_cu=ch.weighted([(3, 1), (3, 2), (3, 3), (1, 4)], "max_cu"), max_n_open=max_open,
                min_n_open=min_open)


SCALES = [1.0, 0.5, -1.0, 1.0 / 3.0, 2.5]


def n_ops_total(ops):
    return sum(sum(op_sizes(o)) for o in ops)


def gen_product(ch, budget=12):
    """operands of one product, bounded in size so that one derivation stays small"""
    n = ch.weighted([(6, 2), (3, 3), (1, 4)], "n_operands")
    ops = []
    for i in range(n):
        left = budget - n_ops_total(ops) - 2 * (n - i - 1)
        big = n == 2 or (n == 3 and estimate(ops, 1)[0] <= 2 and left >= 4)
        ops.append(gen_operand(ch, i, 2 if big else 1))
        if n == 3 and i == 2 and estimate(ops, 1)[0] > 6 and sum(op_sizes(ops[2])) > 2:
            ops[2] = ["T", 1, 20, True, "h", "p", 1.0]
    return ops


def estimate(ops, max_cu, max_open=6):
    """A rough size of the contraction problem."""
    act = 0
    tot = 0
    for o in ops:
        if o[0] == "H":
            act += 2 * o[1]
        elif o[0] == "T":
            act += 2 * o[1] if o[4] == "h" else 0
        elif o[0] == "S":
            act += sum(1 for i in o[1] + o[2] if i[0] not in "cv")
        else:
            act += sum(1 for i in o[2] + o[3] if i[0] not in "cv")
        tot += sum(op_sizes(o))
    return act, tot


def gen_derivation(ch, heavy=False):
    """A derivation request."""
    fam = ch.weighted([(5, "single_commutator"), (5, "contract_terms"), (2, "linear_commutator"),
                       (1, "linear_commutator_amp"), (2, "recursive_single_commutator"), (1, "bch_cc_rsc"),
                       (1, "nested_commutator_cc")], "family")
    kw = gen_limits(ch)
    kw["hermitian_tensor"] = not ch.flip(25, "nonherm")
    kw["for_commutator"] = not ch.flip(30, "general")
    if fam == "contract_terms":
        ops = gen_product(ch)
        act, tot = estimate(ops, kw["max_cu"])
        if act > 6 and kw["max_cu"] > 2:
            kw["max_cu"] = 2
        if act > 7 or (tot > 8 and not kw["for_commutator"]):
            kw["max_cu"] = 1
        if tot > 8 and act > 4:
            kw["max_cu"] = 1
            kw["for_commutator"] = True
        if tot > 8 and kw["max_n_open"] > 4 and act > 6:
            kw["max_n_open"] = 4
            kw["min_n_open"] = min(kw["min_n_open"], 4)
        kw["expand_hole"] = not ch.flip(20, "keephole")
        kw["scale_factor"] = ch.of(SCALES, "scale")
        return dict(fn=fam, ops=ops, kw=kw)
    if fam == "single_commutator":
        ops = [gen_operand(ch, 0), gen_operand(ch, 1)]
        act, tot = estimate(ops, kw["max_cu"])
        if act >= 7 and not heavy:
            kw["max_cu"] = 1
            if not kw["for_commutator"] or act > 7:
                kw["max_n_open"] = min(kw["max_n_open"], 2)
                kw["min_n_open"] = min(kw["min_n_open"], 2)
        kw["expand_hole"] = not ch.flip(20, "keephole")
        kw["scale_factor"] = ch.of(SCALES, "scale")
        return dict(fn=fam, ops=ops, kw=kw)
    if fam == "linear_commutator":
        nl, nr = 1 + ch.pick(2, "nl"), 1 + ch.pick(2, "nr")
        left = [gen_operand(ch, i, 1) for i in range(nl)]
        right = [gen_operand(ch, 4 + i, 1) for i in range(nr)]
        return dict(fn=fam, left=left, right=right, scale=ch.of(SCALES, "scale"), kw=kw)
    if fam == "linear_commutator_amp":
        left = [gen_operand(ch, i, 1) for i in range(1 + ch.pick(2, "nl"))]
        kw["unitary"] = bool(ch.pick(2, "unitary"))
        kw["single_reference"] = not ch.flip(40, "mr")
        return dict(fn=fam, left=left, levels=ch.of([[1], [1, 2]], "levels") if kw["single_reference"] else [1],
                    scale=ch.of(SCALES, "scale"), start=40, kw=kw)
    if fam == "recursive_single_commutator":
        n = 2 + ch.pick(2, "n")
        ops = [gen_operand(ch, i, 1) for i in range(n)]
        lv = kw.pop("max_cu")
        no = [kw.pop("min_n_open"), kw.pop("max_n_open")]
        kw["expand_hole"] = True
        out = dict(fn=fam, ops=ops, cu=lv, opens=no, kw=kw)
        if ch.flip(40, "limits per level"):
            out["per level"] = True
        return out
    if fam == "bch_cc_rsc":
        n = 1 + ch.pick(2, "n")
        sr = not ch.flip(20, "mr")
        lv = kw.pop("max_cu")
        lv = lv if sr else 1
        no = [0, kw.pop("max_n_open")]
        kw.pop("min_n_open")
        kw["single_reference"] = sr
        kw["unitary"] = bool(ch.pick(2, "unitary")) if n == 1 else False
        if not sr:
            no[1] = min(no[1], 2)
            n = 1
        if n == 2:
            no[1] = min(no[1], 2)
        return dict(fn=fam, n=n, levels=[1], cu=lv, opens=no, kw=kw)
    n = 1 + ch.pick(2, "n")
    kw["single_reference"] = True
    kw["unitary"] = bool(ch.pick(2, "unitary")) if n == 1 else ch.flip(25, "unitary squared")
    lv = ch.of([[1], [1, 2]], "levels") if n == 1 else [1]
    if n == 2:
        kw["max_cu"] = 1
        most = 2 if kw["unitary"] else 4
        kw["max_n_open"] = min(kw["max_n_open"], most)
        kw["min_n_open"] = min(kw["min_n_open"], most)
        if kw["unitary"]:
            kw["for_commutator"] = True
    if not kw["for_commutator"] and n == 2:
        kw["max_n_open"], kw["min_n_open"] = 2, min(2, kw["min_n_open"])
    return dict(fn=fam, n=n, levels=lv, kw=kw)


def call_derivation(spec, n_process=1, operands=None):
    """Carry out a derivation.  operands: already built Term objects (shared), in order of appearance."""
    d = pkg()
    fn, kw = spec["fn"], dict(spec["kw"])
    it = iter(operands) if operands is not None else None

    args = Watch(fn)

    def b(o):
        return next(it) if it is not None else build(o)

    kw["n_process"] = n_process
    with args:
        return call(d, spec, fn, kw, b, args)


class Watch:
    """Lists handed to the package: they belong to the caller and may not change."""
    changed = []

    def __init__(self, what):
        self.what = what
        self.seen = []

    def __call__(self, x):
        self.seen.append((x, list(x)))
        return x

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for x, y in self.seen:
            if len(x) != len(y) or any(i is not j for i, j in zip(x, y)):
                Watch.changed.append("%s changed a list it was given" % self.what)


def call(d, spec, fn, kw, b, a):
    if fn == "contract_terms":
        return d.contract_terms(a([b(o) for o in spec["ops"]]), **kw)
    if fn == "single_commutator":
        l, r = spec["ops"]
        l = b(l)
        r = b(r)
        return d.single_commutator(l, r, **kw)
    if fn == "linear_commutator":
        left = a([b(o) for o in spec["left"]])
        right = a([b(o) for o in spec["right"]])
        lo, hi = kw.pop("min_n_open"), kw.pop("max_n_open")
        return d.linear_commutator(left, right, spec["scale"], lo, hi, **kw)
    if fn == "linear_commutator_amp":
        left = a([b(o) for o in spec["left"]])
        lo, hi = kw.pop("min_n_open"), kw.pop("max_n_open")
        return d.linear_commutator_amp(left, a(list(spec["levels"])), spec["scale"], lo, hi, spec["start"], **kw)
    if fn == "recursive_single_commutator":
        ops = a([b(o) for o in spec["ops"]])
        if spec.get("per level"):
            n = len(ops) - 1
            return d.recursive_single_commutator(ops, a([spec["cu"]] * n), a([tuple(spec["opens"])] * n), **kw)
        return d.recursive_single_commutator(ops, spec["cu"], tuple(spec["opens"]), **kw)
    if fn == "bch_cc_rsc":
        return d.bch_cc_rsc(spec["n"], a(list(spec["levels"])), spec["cu"], tuple(spec["opens"]), **kw)
    if fn == "nested_commutator_cc":
        return d.nested_commutator_cc(spec["n"], a(list(spec["levels"])), **kw)
    raise ValueError(fn)


def operand_specs(spec):
    if "ops" in spec:
        return list(spec["ops"])
    return list(spec.get("left", [])) + list(spec.get("right", []))


# ---------------------------------------------------------------- plain values of results

def dump_tensor(t):
    return [type(t).__name__, t.name, [i.name for i in t.upper_indices.indices],
            [i.name for i in t.lower_indices.indices]]


def dump_term(t):
    return [t.coeff, [dump_tensor(x) for x in t.list_of_tensors], [i.name for i in t.sq_op.cre_ops.indices],
            [i.name for i in t.sq_op.ann_ops.indices], t.sq_op.indices_type.__name__]


def dump(x):
    """A plain value for any result of the package (exact)."""
    d = pkg()
    if isinstance(x, d.Term):
        return ["Term"] + dump_term(x)
    if isinstance(x, d.Tensor):
        return ["Tensor"] + dump_tensor(x)
    if isinstance(x, d.SecondQuantizedOperator):
        return ["SQ", [i.name for i in x.cre_ops.indices], [i.name for i in x.ann_ops.indices],
                x.indices_type.__name__]
    if isinstance(x, d.Indices):
        return ["Indices", type(x).__name__, [i.name for i in x.indices]]
    if isinstance(x, d.Index):
        return ["Index", x.name]
    if isinstance(x, dict):
        return ["dict", [[dump(k), dump(v)] for k, v in x.items()]]
    if isinstance(x, (set, frozenset)):
        return ["set", sorted((dump(v) for v in x), key=repr)]
    if isinstance(x, tuple):
        return ["tuple"] + [dump(v) for v in x]
    if isinstance(x, list):
        return ["list"] + [dump(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if type(x).__name__ == "IndicesPair":
        return ["Pair", dump(x.upper_indices), dump(x.lower_indices)]
    return ["repr", type(x).__name__, repr(x)]


def close(a, b):
    """Equal up to rounding of floating point numbers."""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def is_ghost(d):
    return isinstance(d, list) and len(d) > 1 and d[0] == "Term" and abs(d[1]) < 1e-11


def drop_ghosts(d):
    """Remove terms that are zero up to rounding."""
    if isinstance(d, list):
        return [drop_ghosts(x) for x in d if not is_ghost(x)]
    return d


def diff(a, b, path=""):
    """First difference of two dumps, for messages."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d entries instead of %d" % (path or "result", len(a) - 1, len(b) - 1)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if close(a, b) else "%s: %r instead of %r" % (path, a, b)
