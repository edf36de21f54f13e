"""Operations on shared operands, for the history (C07), concurrency (C06) and reproducibility (C12) runs.
None of them asks an operand to simplify or canonicalize itself, so none may change it."""
import copy
import io
import json
import pickle
import sys
import threading

import workloads as wl


# ---------------------------------------------------------------- the pool of shared objects

DERIVED = [
    dict(fn="contract_terms", ops=[["H", 1, 0], ["T", 1, 10, True, "h", "p", 1.0]],
         kw=dict(max_cu=1, max_n_open=6, min_n_open=0)),
    dict(fn="contract_terms", ops=[["H", 2, 0], ["T", 1, 10, True, "c", "v", 1.0]],
         kw=dict(max_cu=1, max_n_open=6, min_n_open=0, for_commutator=True)),
    dict(fn="single_commutator", ops=[["H", 2, 0], ["T", 2, 10, True, "c", "v", 1.0]],
         kw=dict(max_cu=1, max_n_open=4, min_n_open=0)),
    dict(fn="contract_terms", ops=[["T", 1, 0, False, "h", "p", 1.0], ["H", 1, 10], ["T", 1, 20, True, "h", "p", 1.0]],
         kw=dict(max_cu=2, max_n_open=2, min_n_open=0, for_commutator=True)),
    dict(fn="single_commutator", ops=[["H", 1, 0], ["T", 2, 10, True, "h", "p", 1.0]],
         kw=dict(max_cu=2, max_n_open=6, min_n_open=2)),
]
_derived = {}


def derived(k):
    """Terms of a small derivation (computed once per process; every user gets fresh copies)."""
    if k not in _derived:
        _derived[k] = pickle.dumps(wl.call_derivation(DERIVED[k], 1))
    return pickle.loads(_derived[k])


def stock():
    for k in range(len(DERIVED)):
        derived(k)
    for w in SPIN:
        ts = spin_sources(w)
        for k in range(len(ts)):
            spin_cases(w, k, ts)
    return [_derived, _spin]


def spin_sources(which):
    return [t for t in derived(which) if t.sq_op.n_ops + sum(x.size for x in t.list_of_tensors) <= 8]


def restock(s):
    _derived.update(s[0])
    _spin.update(s[1])


SPIN = [0, 1, 2]                        # derivations whose terms are spin-integrated by default


def gen_objects(ch, n):
    """Specs of n shared terms: plain operands and terms out of derivations; spin-integrated or spin-adapted terms."""
    out = []
    kind = ch.weighted([(8, "so"), (2, "si"), (1, "sa")], "kind of indices")
    for s in range(n):
        if kind != "so":
            out.append(["I" if kind == "si" else "A", ch.of(SPIN, "which"), ch.pick(24, "term"), ch.pick(6, "case"),
                        ch.pick(2, "fresh")])
        elif ch.flip(55, "derived"):
            out.append(["D", ch.pick(len(DERIVED), "which"), ch.pick(24, "term"), ch.pick(2, "fresh")])
        elif ch.flip(8, "diagonal"):
            i = "%s%d" % (ch.of("gacvhp", "space"), s)
            out.append(["F", [["H", None, [i], [i]]], [i], [i], 1.0])
        elif ch.flip(15, "two tensors"):
            out.append(["F", [["H", None, ["a%d" % (10 * s), "p1"], ["c0", "g%d" % (10 * s)]],
                              ["T", None, ["c0"], ["v5"]]], ["g%d" % (10 * s), "v5"], ["a%d" % (10 * s), "p1"], 0.5])
        else:
            out.append(wl.gen_operand(ch, s, 2))
    return out


_spin = {}


def spin_cases(which, k, ts):
    """Spin-integrated cases of a term (computed once per process; fresh copies)."""
    if (which, k) not in _spin:
        cases = list(ts[k].generate_spin_cases_naive())
        _spin[which, k] = pickle.dumps([cases, [next(iter(t.generate_singlet_adaptation())) for t in cases]])
    return pickle.loads(_spin[which, k])


def fresh(t):
    """An equal term no request has worked on yet: made from names only."""
    d = wl.pkg()
    if t.diagonal_indices:
        return t
    ts = [x.__class__([i.name for i in x.upper_indices], [i.name for i in x.lower_indices], kind_of(x), x.name, x.priority)
          for x in t.list_of_tensors]
    o = t.sq_op
    return d.Term(ts, d.SecondQuantizedOperator([i.name for i in o.cre_ops], [i.name for i in o.ann_ops], kind_of(o)), t.coeff)


def make(o):
    t = make_term(o)
    bare[id(t)] = (t, parts_of(t))
    return t


bare = {}               # tensors, operators and index lists that were never part of a term, for each operand


def parts_of(t):
    d = wl.pkg()
    out = []
    for x in t.list_of_tensors + [t.sq_op]:
        u, v = [i.name for i in x.upper_indices], [i.name for i in x.lower_indices]
        y = x.__class__(u, v, kind_of(x), x.name, x.priority) if isinstance(x, d.Tensor) else \
            d.SecondQuantizedOperator(u, v, kind_of(x))
        out.append([y, x.indices_type(u), x.indices_type(v), x.indices_type(v[::-1] + [i for i in u if i not in v])])
    return out


def make_term(o):
    if o[0] in "DIA" and o[-1]:
        return fresh(make_term(o[:-1] + [0]))
    if o[0] == "C":                      # with another coefficient
        t = make_term(o[1])
        t.coeff = o[2]
        return t
    if o[0] == "D":
        ts = derived(o[1])
        return ts[o[2] % len(ts)]
    if o[0] in "IA":
        ts = spin_sources(o[1])
        cases = spin_cases(o[1], o[2] % len(ts), ts)[o[0] == "A"]
        return cases[o[3] % len(cases)]
    if o[0] == "K":                      # written out in full, as in a dump
        v = o[1]
        from dsrg_generator.Tensor import Tensor
        d = wl.pkg()
        known = {c.__name__: c for c in Tensor.subclasses.values()}
        ts = [known[c](up, lo, "so", name) for c, name, up, lo in v[1]]
        return d.Term(ts, d.SecondQuantizedOperator(v[2], v[3]), v[0])
    return wl.build(o)


# ---------------------------------------------------------------- complete values of operands

def full(x, parts=None):
    """Everything observable about an operand."""
    d = wl.pkg()
    out = [wl.dump(x)]
    if isinstance(x, d.Term):
        out.append(sorted(i.name for i in x.indices_set))
        out.append(sorted([getattr(k, "name", str(k)), v] for k, v in dict(x.diagonal_indices).items())
                   if x.diagonal_indices else [])
        out.append(sorted(x.next_index_number.items()))
        for t in x.list_of_tensors:
            out.append(full(t))
        out.append(full(x.sq_op))
        if id(x) in bare and bare[id(x)][0] is x:
            out.append(full(bare[id(x)][1]))
        elif parts is not None:
            out.append(full(parts))
    elif isinstance(x, (d.Tensor, d.SecondQuantizedOperator)):
        out.append([full(x.upper_indices), full(x.lower_indices), x.n_upper, x.n_lower,
                    sorted(i.name for i in x.indices_set)])
        if isinstance(x, d.Tensor):
            out.append([x.name, x.priority])
    elif isinstance(x, d.Indices):
        out.append([x.size, sorted(i.name for i in x.indices_set)])
        for a in ("alpha_indices", "beta_indices", "spin_count", "spin_pure"):
            try:
                v = getattr(x, a)
            except TypeError:
                v = "TypeError"
            out.append([i.name for i in v] if a.endswith("indices") and v != "TypeError" else v)
    elif isinstance(x, (list, tuple)):
        out.append([full(y) for y in x])
    return out


TABLES = ["so_space", "space_priority_so", "space_relation_so", "space_priority_a", "space_relation_a", "mo_space_b",
          "space_priority_b", "space_relation_b", "mo_space", "space_priority", "space_relation"]


def tables():
    """The shared tables."""
    import dsrg_generator.mo_space as mo
    d = wl.pkg()
    out = {}
    for k in TABLES:                    # (anything else in there is the package's own business)
        if hasattr(mo, k):
            out[k] = plain(getattr(mo, k))
    for c in (d.Tensor, d.Indices):
        for a in ("subclasses", "subclasses_alias"):
            if hasattr(c, a):
                out[c.__name__ + "." + a] = plain(getattr(c, a))
    return out


def plain(v):
    if isinstance(v, dict):
        return ["dict"] + sorted([str(k), plain(x)] for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted(str(x) for x in v)
    if isinstance(v, (list, tuple)):
        return ["seq"] + [plain(x) for x in v]
    return getattr(v, "__name__", None) or repr(v)


# ---------------------------------------------------------------- operations

OPS = {}


def op(name, weight=3, gen=None):
    def deco(f):
        OPS[name] = (weight, gen, f)
        return f
    return deco


class Console:
    """Stand-in for the console: every thread that captures its output has a buffer of its own."""

    def __init__(self, base):
        self.base = base
        self.own = {}

    def _here(self):
        return self.own.get(threading.get_ident(), self.base)

    def write(self, s):
        return self._here().write(s)

    def flush(self):
        pass

    def __getattr__(self, name):
        return getattr(self._here(), name)


console_limit = None                # number of writes until the console fails


class Full(io.StringIO):
    n = 0

    def write(self, s):
        self.n += 1
        if self.n > console_limit:
            raise OSError(28, "No space left on device")
        return io.StringIO.write(self, s)


def captured(f, *a):
    """What f prints (the console is a stand-in the simulator owns)."""
    old = sys.stdout
    if not isinstance(old, Console):
        sys.stdout = Console(old)
    con = sys.stdout
    me = threading.get_ident()
    con.own[me] = s = Full() if console_limit is not None else io.StringIO()
    try:
        f(*a)
    finally:
        con.own.pop(me, None)
        if con is not old and not con.own:
            sys.stdout = old
    return s.getvalue()


touched = []


class Args:
    """Lists and maps handed to the package; what it does with them shows afterwards."""

    def __init__(self, what):
        self.what = what
        self.seen = []

    def __call__(self, x):
        self.seen.append((x, self.shape(x)))
        return x

    def shape(self, x):
        if isinstance(x, dict):
            return [(k if isinstance(k, (str, int)) else id(k), self.shape(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [self.shape(v) for v in x]
        return x if isinstance(x, (str, int, float)) else id(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for x, before in self.seen:
            if self.shape(x) != before:
                touched.append("an argument of %s was changed" % self.what)


def take(x):
    """The value of a result; then the caller uses the result up: it belongs to the caller."""
    out = wl.dump(x)
    use_up(x)
    return out


def use_up(x):
    d = wl.pkg()
    if isinstance(x, d.Term):
        x.coeff = 77.0
        x.void_self()
    elif isinstance(x, list):
        for y in x:
            use_up(y)
        x.clear()
    elif isinstance(x, dict):
        for y in x.values():
            use_up(y)
        x.clear()
    elif isinstance(x, tuple):
        for y in x:
            use_up(y)


def copy_of(t):
    return wl.pkg().Term.from_term(t)


def g_flags(ch):
    return [ch.pick(2, "flag"), ch.pick(2, "flag"), ch.pick(2, "flag")]


@op("latex", 4, g_flags)
def _(ts, p):
    return [t.latex(bool(p[0]), bool(p[1]), bool(p[2])) for t in ts]


@op("ambit", 4, g_flags)
def _(ts, p):
    return [t.ambit("C", bool(p[0]), bool(p[1]), bool(p[2])) for t in ts]


@op("str")
def _(ts, p):
    return [str(t) for t in ts] + [str(x) for t in ts for x in t.list_of_tensors] + [str(t.sq_op) for t in ts] + \
        [t.hash_term() for t in ts]


@op("compare", 4)
def _(ts, p):
    out = []
    for a in ts:
        for b in ts:
            for f in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "almost_equal"):
                try:
                    out.append(bool(getattr(a, f)(b)))
                except TypeError as e:
                    out.append("TypeError")
            out.append(hash(a) == hash(b))
    return out


@op("sort")
def _(ts, p):
    return wl.dump(sorted(ts))


@op("iterate", 4)
def _(ts, p):
    out = []
    for t in ts:
        for x in t.list_of_tensors + [t.sq_op]:
            for u in x.upper_indices:
                for v in x.upper_indices:
                    out.append(u.name + v.name)
                for w in x.lower_indices:
                    out.append(u.name + w.name)
            out.append([i.name for i in x.lower_indices[::-1]])
            out.append([len(x.upper_indices), x.upper_indices == x.upper_indices, hash(x.upper_indices) ==
                        hash(x.upper_indices.clone())])
    return out


@op("indices")
def _(ts, p):
    out = []
    for t in ts:
        o = t.sq_op
        for x in (o.cre_ops, o.ann_ops):
            c, s = x.canonicalize()
            out.append([wl.dump(c), s, x.latex(), x.ambit(), x.count_index_space(["c", "v", "a"])])
            out.append(x.count_permutations(c))
            out.append([x.is_permutation(c), x.any_overlap(c)])
            out.append([j.name for j in x if j in c])
        out.append(wl.dump(o.cre_ops + o.cre_ops.__class__([])))
    return out


@op("tensors")
def _(ts, p):
    out = []
    for t in ts:
        for x in t.list_of_tensors:
            out.append([wl.dump(x.clone()), wl.dump(x.canonicalize()[0]), x.canonicalize()[1], x.latex(), x.ambit()])
            out.append([x.any_overlapped_indices(y) for y in t.list_of_tensors])
            try:
                out.append(wl.dump(x.downgrade_indices()))
            except Exception as e:
                out.append(type(e).__name__)
            b, g = x.base_strong_generating_set()
            out.append([list(b), [list(i.array_form) if hasattr(i, "array_form") else list(i) for i in g]])
            if hasattr(x, "expand"):
                out.append(wl.dump(x.expand()))
    return out


@op("operators")
def _(ts, p):
    out = []
    for t in ts:
        o = t.sq_op
        c, a = t.perm_partition_open()
        out.append([wl.dump(c), wl.dump(a), o.n_multiset_permutation(c, a), list(o.latex_permute_format(c, a))])
        out.append([list(x) for x in o.ambit_permute_format(c, a)])
        out.append([o.is_possible_excitation(), o.is_particle_conserving(), o.is_empty(), o.n_body if o.is_particle_conserving() else 0])
        out.append(wl.dump(o.clone(True)))
        k, s = o.canonicalize()
        out.append([wl.dump(k), s])
    return out


@op("canonical-copy", 5, g_flags)
def _(ts, p):
    out = []
    for t in ts:
        c = copy_of(t)
        r = c.canonicalize_sympy(bool(p[0]), bool(p[1]), bool(p[2]))
        out.append(wl.dump(r))
        use_up(r)
        use_up(c)
    return out


@op("simple-copy", 3, g_flags)
def _(ts, p):
    out = []
    for t in ts:
        out.append(wl.dump(copy_of(t).canonicalize_simple(bool(p[0]), bool(p[1]))))
    return out


@op("simplify-copy", 2, g_flags)
def _(ts, p):
    out = []
    for t in ts:
        c = copy_of(t)
        c.simplify(bool(p[0]), bool(p[1]))
        out.append(wl.dump(c))
    return out


@op("deepcopy", 1)
def _(ts, p):
    return wl.dump(copy.deepcopy(ts)) + wl.dump(pickle.loads(pickle.dumps(ts)))


@op("from_term", 2, g_flags)
def _(ts, p):
    d = wl.pkg()
    return [take(d.Term.from_term(t, bool(p[0]), False)) for t in ts] + [take(t.void()) for t in ts]


@op("combine", 4)
def _(ts, p):
    d = wl.pkg()
    with Args("combine_terms") as a:
        return take(d.combine_terms(a(list(ts) + [ts[0]])))


@op("expand", 3, g_flags)
def _(ts, p):
    return [take(list(t.expand_composite_indices(bool(p[0]), 3 * p[1]))) for t in ts if t.sq_op.n_ops <= 4]


@op("ddca", 2, g_flags)
def _(ts, p):
    return [take(list(t.make_ddca(1 + p[1], 1 + p[2], bool(p[0])))) for t in ts if t.sq_op.n_ops <= 4]


@op("excitation", 2, g_flags)
def _(ts, p):
    return [take(t.make_excitation(bool(p[0]))) for t in ts]


@op("diagonal", 3, g_flags)
def _(ts, p):
    out = []
    for t in ts:
        if t.sq_op.n_cre == 1 and t.sq_op.n_ann == 1:
            out.append(take(one_body(t, bool(p[0]))))
    d = wl.pkg()
    out.append(take(d.diagonal_fock_operator(bool(p[0]))) if p[1] else [])
    return out


def one_body(t, sr):
    try:
        return list(t.make_one_body_diagonal(sr))
    except (NotImplementedError, ValueError):
        return []


@op("hamiltonians", 1, g_flags)
def _(ts, p):
    d = wl.pkg()
    if p[0]:
        return [take(d.dyall_hamiltonian())]
    return [take(d.fink_hamiltonian(bool(p[1])))]


@op("spin", 2)
def _(ts, p):
    out = []
    for t in ts:
        if t.sq_op.n_ops + sum(x.size for x in t.list_of_tensors) <= 8:
            cases = list(t.generate_spin_cases_naive())
            out.append(wl.dump(cases))
            if cases:
                out.append(wl.dump(list(cases[0].generate_singlet_adaptation())))
                out.append(wl.dump(list(cases[-1].generate_singlet_adaptation(False))))
            use_up(cases)
    return out


@op("gradient", 1)
def _(ts, p):
    return [take(list(t.gradient_t())) for t in ts if t.sq_op.n_ops == 0]


@op("cost", 2)
def _(ts, p):
    out = []
    for t in ts:
        if 1 <= t.n_tensors <= 4:
            a, b = t.optimal_contraction_cost()
            out.append([str(a[0]), str(b[0]), len(list(t.contraction_paths()))])
    return out


def g_contract(ch):
    return dict(max_cu=ch.weighted([(3, 1), (2, 2)], "cu"), max_n_open=ch.of([4, 2, 6], "open"), min_n_open=0,
                for_commutator=not ch.flip(30, "general"), expand_hole=not ch.flip(30, "keephole"))


def small(ts, n=8):
    """Operands that give a small contraction problem: shared index labels would be ambiguous."""
    out, seen, tot = [], set(), 0
    for t in ts:
        names = set(i.name for i in t.indices_set)
        k = t.sq_op.n_ops
        if k == 0 or names & seen or tot + k > n:
            continue
        seen |= names
        tot += k
        out.append(t)
    return out


def two(ts, n):
    """At least two operands with labels of their own: the shared ones, and a new one if needed."""
    out = small(ts, n)
    if len(out) < 2:
        d = wl.pkg()
        ty = kind_of(ts[0].sq_op)
        if ty == "so":
            out = out + [d.cluster_operator(1, start=60), d.hamiltonian_operator(1, start=70)]
    return out


@op("contract", 5, g_contract)
def _(ts, p):
    d = wl.pkg()
    s = two(ts, 6)[:3]
    if not s:
        return None
    with Args("contract_terms") as a:
        return take(d.contract_terms(a(s), scale_factor=0.5, **p))


@op("contract-parallel", 1, g_contract)
def _(ts, p):
    d = wl.pkg()
    s = small(ts, 6)[:2]
    if not s:
        return None
    return wl.dump(d.contract_terms(s, n_process=2, **p))


@op("commutator", 5, g_contract)
def _(ts, p):
    d = wl.pkg()
    s = two(ts, 6)[:2]
    if len(s) < 2:
        return None
    return take(d.single_commutator(s[0], s[1], **p))


@op("stream", 4, g_contract)
def _(ts, p):
    d = wl.pkg()
    s = two(ts, 8)[:3]
    if not s:
        return None
    return [[e[0], [wl.dump_tensor(x) for x in e[1]], wl.dump(e[2])]
            for b in d.compute_operator_contractions([t.sq_op for t in s], **p) for e in b]


@op("elementary", 2, g_contract)
def _(ts, p):
    d = wl.pkg()
    s = [t.sq_op for t in small(ts)[:3]]
    if not s:
        return None
    return [wl.dump(d.compute_elementary_contractions_list(s, p["max_cu"]))]


@op("categorize", 3)
def _(ts, p):
    d = wl.pkg()
    with Args("categorize_contractions") as a:
        r = d.categorize_contractions(a(list(ts)))
    out = [[k, [[q, wl.dump(v)] for q, v in m.items()]] for k, m in r.items()]
    for m in r.values():
        for v in m.values():
            v.clear()
        m.clear()
    r.clear()
    return out


@op("print", 3)
def _(ts, p):
    d = wl.pkg()
    with Args("print") as a:
        return [captured(d.print_terms_latex, a(list(ts))), captured(d.print_terms_ambit, a(list(ts)))]


def g_save(ch):
    return [ch.pick(2, "dagger"), ch.pick(2, "destroy")]


@op("save", 2, g_save)
def _(ts, p):
    import os
    import shutil
    import tempfile
    from dsrg_generator.write_forte_functions import save_terms_ambit_functions
    path = tempfile.mkdtemp(prefix="dsrgsim")
    try:
        ts = [t for t in ts if t.sq_op.is_particle_conserving() and not t.diagonal_indices and
              all(x.name in "HT" for x in t.list_of_tensors)]
        with Args("save_terms_ambit_functions") as a:
            save_terms_ambit_functions(a(list(ts)), "fn", "NS", path, bool(p[0]), bool(p[1]))
        out = []
        for f in sorted(os.listdir(path)):
            with open(os.path.join(path, f)) as h:
                out.append([f, h.read()])
        return out
    finally:
        shutil.rmtree(path)


@op("operators-lists", 1, g_flags)
def _(ts, p):
    d = wl.pkg()
    return [take(d.cluster_operators([1, 2], 4 * p[0], bool(p[1]), bool(p[2]))),
            take(d.hamiltonian_operator(2, 3 * p[0])), take(d.cluster_operator(2, p[0], bool(p[1])))]


@op("adapt", 2, g_flags)
def _(ts, p):
    """Spin adaptation of spin-integrated terms."""
    out = []
    for t in ts:
        if t.sq_op.indices_type.__name__ == "IndicesSpinIntegrated":
            out.append(take(list(t.generate_singlet_adaptation(bool(p[0])))))
            for x in t.list_of_tensors + [t.sq_op]:
                u = x.upper_indices
                out.append([[i.name for i in u.alpha_indices], [i.name for i in u.beta_indices], list(u.spin_count),
                            u.spin_pure, u.n_alpha(), u.n_beta()])
                with Args("generate_singlet_adaptation") as a:
                    rep = a({i: i for i in x.indices_set})
                    out.append([[s, [i.name for i in b], [i.name for i in c]]
                                for s, b, c in x.generate_singlet_adaptation(rep, bool(p[0]))])
    return out


@op("compare-parts", 2)
def _(ts, p):
    out = []
    parts = [x for t in ts for x in t.list_of_tensors]
    names = ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__")
    for group in (parts, [t.sq_op for t in ts], [x.upper_indices for x in parts], [i for x in parts[:2] for i in x.indices()]):
        for a in group[:5]:
            for b in group[:5]:
                for f in names:
                    try:
                        out.append(getattr(a, f)(b))
                    except TypeError:
                        out.append("TypeError")
                if hash(a) == hash(b):
                    out.append("same hash")
    return out


@op("pairs", 1, g_flags)
def _(ts, p):
    from dsrg_generator.IndicesPair import IndicesPair
    out = []
    for t in ts:
        for x in t.list_of_tensors[:2] + [t.sq_op]:
            y = IndicesPair(x.upper_indices, x.lower_indices)
            out.append([y.latex(), y.ambit(bool(p[0])), wl.dump(y.canonicalize()[0]), y.canonicalize()[1], str(y)])
            out.append([wl.dump(y.clone(bool(p[1]))), y == x if type(x) is IndicesPair else None])
            if kind_of(x) == "so" and x.size <= 4 and x.n_upper == x.n_lower:
                out.append([wl.dump(z) for z in y.generate_spin_cases(bool(p[2]))])
                out.append([wl.dump(z) for z in x.upper_indices.generate_spin_cases()])
    return out


ON_LISTS = [
    lambda x, y: x.is_permutation(y), lambda x, y: x.any_overlap(y), lambda x, y: [i in y for i in x],
    lambda x, y: wl.dump(x.canonicalize()[0]), lambda x, y: x.canonicalize()[1],
    lambda x, y: x.count_permutations(x.__class__([i.name for i in x][::-1])), lambda x, y: x.latex(True),
    lambda x, y: x.ambit(), lambda x, y: x == y, lambda x, y: x < y, lambda x, y: hash(x) == hash(x.clone()),
    lambda x, y: wl.dump(x + x.__class__([])), lambda x, y: [x.size, len(x), [i.name for i in x], [i.name for i in x[-1:]]],
    lambda x, y: x.n_beta(), lambda x, y: [list(x.spin_count), x.spin_pure, [i.name for i in x.beta_indices]],
    lambda x, y: [i.name for i in x.alpha_indices] + [x.n_alpha()],
    lambda x, y: [wl.dump(z) for z in x.generate_spin_cases()] if x.size < 4 else 0,
    lambda x, y: [list(z) for z in x.ambit_permute_format([[i] for i in x])] if x.size < 4 else 0,
    lambda x, y: list(x.latex_permute_format([list(x)[:1], list(x)[1:]])), lambda x, y: sorted(i.name for i in x.indices_set),
    lambda x, y: x.n_multiset_permutation([list(x)[:1], list(x)[1:]]), lambda x, y: x.count_index_space(["c", "a"]),
]
ON_PAIRS = [
    lambda x: [x.latex(), str(x)], lambda x: x.ambit(), lambda x: wl.dump(x.canonicalize()[0]),
    lambda x: sorted(i.name for i in x.indices_set), lambda x: sorted(i.name for i in x.diagonal_indices()),
    lambda x: [x.size, x.n_upper, x.n_lower, x.is_empty()], lambda x: x.n_body, lambda x: wl.dump(x.clone()),
    lambda x: [i.name for i in x.indices()], lambda x: x == x.clone(), lambda x: hash(x) == hash(x.clone()),
    lambda x: x.is_spin_conserving(), lambda x: [str(g) for g in x.base_strong_generating_set()[1]] if x.size <= 6 else 0,
    lambda x: wl.dump(list(x.generate_spin_cases())) if x.size <= 4 else 0,
    lambda x: [[s, [i.name for i in u], [i.name for i in v]] for s, u, v in
               x.generate_singlet_adaptation({i: i for i in x.indices_set})] if x.size <= 4 else 0,
    lambda x: wl.dump(x.downgrade_indices()), lambda x: x.is_possible_excitation(), lambda x: x.is_all_active(),
]


def tried(f, *a):
    try:
        return f(*a)
    except (TypeError, ValueError, NotImplementedError, AttributeError) as e:
        return type(e).__name__


def g_bare(ch):
    return [[ch.pick(len(ON_LISTS), "what") for _ in range(1 + ch.pick(3, "how many"))],
            [ch.pick(len(ON_PAIRS), "what") for _ in range(ch.pick(3, "how many"))], ch.pick(2, "pairs first")]


@op("bare parts", 4, g_bare)
def _(ts, p):
    """Tensors, operators and index lists that no term has worked on yet."""
    out = []
    for t in ts:
        for x, u, v, w in bare[id(t)][1] if id(t) in bare and bare[id(t)][0] is t else []:
            for k in ((1, 0) if p[2] else (0, 1)):
                if k == 0:
                    out += [tried(ON_LISTS[i], *ab) for i in p[0] for ab in ((u, v), (u, w), (w, v), (x.upper_indices, u))]
                else:
                    out += [tried(ON_PAIRS[i], x) for i in p[1]]
    return out


BAD_REQUESTS = [
    lambda d, t: d.Term(t.list_of_tensors[:-1], t.sq_op, 1.0),
    lambda d, t: d.Term([t.sq_op], t.sq_op, 1.0),
    lambda d, t: d.Term(t.list_of_tensors + t.list_of_tensors, t.sq_op, 1.0),
    lambda d, t: d.Term(t.list_of_tensors, t.sq_op, "x"),
    lambda d, t: d.contract_terms([t, 1]),
    lambda d, t: d.contract_terms([]),
    lambda d, t: d.combine_terms(t),
    lambda d, t: d.combine_terms([t, 3]),
    lambda d, t: t < 1,
    lambda d, t: t.ambit(5),
    lambda d, t: d.single_commutator(t, 5),
    lambda d, t: d.recursive_single_commutator([t], 1, (0, 2)),
    lambda d, t: d.recursive_single_commutator([t, t], [1, 2], (0, 2)),
    lambda d, t: d.Tensor.make_tensor("nonsense", "a0", "a1"),
    lambda d, t: d.Indices.make_indices(["a0", "a0"], "so"),
    lambda d, t: d.Indices.make_indices(["q0"], "so"),
    lambda d, t: d.mo_space.find_space_label({"x"}),
    lambda d, t: d.mo_space.find_space_label(set()),
    lambda d, t: t.sq_op.cre_ops.count_permutations(t.sq_op.ann_ops),
    lambda d, t: t.sq_op.cre_ops.count_index_space(["x"]),
    lambda d, t: d.print_terms_latex([t, 4]),
    lambda d, t: list(t.generate_singlet_adaptation()),
    lambda d, t: list(t.gradient_t()),
    lambda d, t: t.canonicalize() if t.diagonal_indices else None,
    lambda d, t: list(d.compute_operator_contractions([t.sq_op, "a0"])),
    lambda d, t: d.bch_cc_rsc(1, ["a"], 1, (0, 2)),
    lambda d, t: d.nested_commutator_cc(1.5, [1]),
]


@op("bad request", 2, lambda ch: [ch.pick(len(BAD_REQUESTS), "which"), ch.pick(len(BAD_REQUESTS), "which")])
def _(ts, p):
    """Requests that raise, on shared operands."""
    d = wl.pkg()
    out = []
    for k in p:
        for t in ts:
            try:
                out.append([k, wl.dump(BAD_REQUESTS[k](d, t))])
            except Exception as e:
                out.append([k, type(e).__name__])
    return out


@op("direct t3", 1)
def _(ts, p):
    import os
    import shutil
    import tempfile
    from dsrg_generator.write_forte_functions import save_direct_t3
    d = wl.pkg()
    ts = [t for t in ts if t.sq_op.is_particle_conserving() and all(x.name in "HT" for x in t.list_of_tensors)]
    if not ts:
        return None
    cat = list(d.categorize_contractions(list(ts)).values())[0]
    path = tempfile.mkdtemp(prefix="dsrgsim")
    try:
        with Args("save_direct_t3") as a:
            save_direct_t3(a(cat), "fn", "NS", path)
        out = []
        for f in sorted(os.listdir(path)):
            with open(os.path.join(path, f)) as h:
                out.append([f, h.read()])
        return out
    finally:
        shutil.rmtree(path)


@op("hessian", 1)
def _(ts, p):
    out = []
    for t in ts:
        try:
            out.append(wl.dump(t.diagonal_hessian_t()))
        except NotImplementedError:
            out.append("NotImplementedError")
    return out


@op("build", 3, g_flags)
def _(ts, p):
    """New objects out of the parts of old ones, handed over in lists of the caller."""
    d = wl.pkg()
    out = []
    with Args("a constructor") as a:
        for t in ts:
            parts = list(t.list_of_tensors)
            if p[0]:
                parts.reverse()
            out.append(take(d.Term(a(parts), t.sq_op, t.coeff)))
            for x in parts[:2] + [t.sq_op]:
                u = a(x.upper_indices.indices[::-1])
                l = a([i.name for i in x.lower_indices])
                out.append(wl.dump(x.upper_indices.__class__(u)))
                out.append(wl.dump(x.upper_indices.__class__(l)))
                if isinstance(x, d.Tensor):
                    out.append(wl.dump(x.from_indices(u, a(list(x.lower_indices.indices)), kind_of(x))))
    return out


def kind_of(x):
    return {"IndicesSpinOrbital": "so", "IndicesSpinIntegrated": "si", "IndicesSpinAdapted": "sa"}[x.indices_type.__name__]


@op("permutations", 2)
def _(ts, p):
    out = []
    for t in ts:
        o = t.sq_op
        with Args("permutation formats") as a:
            c, b = t.perm_partition_open()
            a(c)
            a(b)
            out.append([o.exist_permute_format(c, b), o.n_multiset_permutation(c, b)])
            out.append([[s, x, y] for s, x, y in o.permute_indices(c, b, cre_first=True)])
            out.append([list(x) for x in o.ambit_permute_format(c, b)])
        for q in (c, b):
            for r in q:
                r.clear()
            q.clear()
    return out


@op("spaces", 1)
def _(ts, p):
    import dsrg_generator.mo_space as mo
    out = []
    for t in ts:
        for x in t.list_of_tensors:
            for i in x.indices():
                try:
                    out.append(mo.find_space_label(mo.space_relation[i.space]))
                except ValueError:
                    out.append("ValueError")
            c = mo.MOSpaceCounter({k: n for n, k in enumerate(sorted(set(i.space for i in x.indices())))})
            out.append([str(c), list(c.parsed_counter), c.overall_scaling])
    return out


@op("costs", 2)
def _(ts, p):
    """Counters of orbital spaces, compared and sorted."""
    import dsrg_generator.mo_space as mo
    from collections import Counter
    cs = []
    for t in ts:
        groups = [[i.space for i in x.indices()] for x in t.list_of_tensors[:3]] + \
            [[i.space for x in t.list_of_tensors for i in x.indices()]]
        cs += [mo.MOSpaceCounter(Counter(g)) for g in groups]
    out = [[a == b, a != b, a < b, a <= b, a > b, a >= b] for a in cs for b in cs]
    out.append([str(c) for c in sorted(cs)])
    out.append([sorted(c.raw_counter.items()) for c in cs])
    out.append(tried(lambda: cs[0] == 1))
    return out


@op("small parts", 2, g_flags)
def _(ts, p):
    """Index operations, downgraded hole densities and deltas, empty terms."""
    from dsrg_generator.helper.integer_partition import integer_partition, integer_separation
    d = wl.pkg()
    out = [[list(x) for x in integer_partition(n)] for n in (1, 4, 6)] + [integer_separation(5, bool(p[0]))]
    for t in ts:
        out.append([t.is_possible_excitation(), t.is_void()])
        for x in t.list_of_tensors:
            out.append([[i.to_beta().name, i.to_alpha().name, i.is_beta()] for i in x.indices()[:2]])
            out.append([repr(x.upper_indices), repr(x)])
            if x.n_upper == 1 and x.n_lower == 1 and kind_of(x) == "so":
                for kind in ("C", "K", "L"):
                    y = tried(d.Tensor.make_tensor, kind, x.upper_indices, x.lower_indices)
                    out.append([wl.dump(y), tried(lambda: wl.dump(y.downgrade_indices())), tried(lambda: wl.dump(y.expand()))])
        e = tried(d.Term.make_empty) if p[1] else tried(t.void)
        out.append(wl.dump(e))
        if p[2]:
            out.append(tried(lambda: wl.dump(t.diagonal_hessian_t())))
            out.append(tried(lambda: [wl.dump(x) for x in t.gradient_t()]))
    return out


@op("categorized", 2, g_contract)
def _(ts, p):
    """The categorized elementary contractions and their combinations, step by step."""
    from collections import Counter
    d = wl.pkg()
    import dsrg_generator.sqop_contraction as sc
    s = [t.sq_op for t in two(ts, 8)[:2]]
    if len(s) < 2 or not hasattr(sc, "ElementaryContractionCategorized"):
        return None
    with Args("the enumeration of contractions") as a:
        e = sc.compute_elementary_contractions_categorized(a(s), p["max_cu"])
        seq = sorted(e.keys(), key=lambda x: (len(x), x), reverse=True)
        x = sc.ElementaryContractionCategorized(e, a(seq))
        comp = x.compatible_elementary_contractions()
        out = []
        for k in seq[:4]:
            target = a(Counter([k]))
            out.append([list(c) for c in x.composite_contractions(target, comp)][:50])
        if len(seq) > 1:
            out.append([list(c) for c in x.composite_contractions(a(Counter(seq[-2:])), comp)][:50])
    return out


def gen_op(ch, n_obj, names=None, before=()):
    """An operation; perhaps one that was asked for before, with the same or other parameters."""
    names = names or sorted(OPS)
    if before and ch.flip(30, "again"):
        o = before[ch.pick(len(before), "which")]
        name, refs, p = o
        if ch.flip(30, "other operands"):
            refs = [ch.pick(n_obj, "operand") for _ in refs]
        if OPS[name][1] and ch.flip(60, "other parameters"):
            p = OPS[name][1](ch)
        return [name, refs, p]
    name = ch.weighted([(OPS[k][0], k) for k in names], "op")
    k = 1 + ch.pick(3, "operands")
    refs = [ch.pick(n_obj, "operand") for _ in range(k)]
    g = OPS[name][1]
    return [name, refs, g(ch) if g else None]


def do(o, objs):
    """Carry out one operation on the shared objects; its plain result."""
    name, refs, p = o
    return OPS[name][2]([objs[r] for r in refs], p)


# operations that go over whole lists and objects, step by step
LONG = ["print", "save", "direct t3", "ambit", "latex", "expand", "combine", "sort", "permutations", "canonical-copy",
        "excitation", "contract", "commutator"]


def lines_of(specs, o):
    """How many lines of the package the operation executes (called through isolated())."""
    import simpool
    objs = {r: make(specs[r]) for r in o[1]}
    with simpool.LineFault(1 << 60, "KeyboardInterrupt") as lf:
        try:
            do(o, objs)
        except Exception:
            pass
    return lf.count


def alone(specs, o):
    """The same in a pristine process with operands of its own (called through isolated())."""
    from simpool import W
    W.reset(None)
    name, refs, p = o
    objs = {r: make(specs[r]) for r in refs}
    return do(o, objs)
