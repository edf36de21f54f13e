"""What saved code means: a small interpreter for the generated C++ / ambit functions, and an independent evaluation
of the terms they were generated from, both on random tensors.  Uses numpy; independent of the package except for
reading the attributes of terms."""
import itertools
import math
import re

import numpy as np

SPACE = {"c": (0, 2), "a": (2, 4), "v": (4, 6), "h": (0, 4), "p": (2, 6), "g": (0, 6)}
DIM = 6
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


class CodeError(Exception):
    """The generated code would not compile or not run."""


def sign(perm):
    s = 1
    p = list(perm)
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


def antisymmetrize(x, n):
    """Sum over all permutations of the first n and of the last n axes, with signs."""
    out = np.zeros_like(x)
    for p in itertools.permutations(range(n)):
        out += sign(p) * np.transpose(x, list(p) + list(range(n, 2 * n)))
    res = np.zeros_like(x)
    for p in itertools.permutations(range(n)):
        res += sign(p) * np.transpose(out, list(range(n)) + [n + i for i in p])
    return res


class Values:
    """Random antisymmetric tensors H1, H2, ..., T1, ...; small integers, so that sums are nearly exact."""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.t = {}

    def get(self, name):
        if name not in self.t:
            n = int(name[1:])
            x = self.rng.integers(-3, 4, size=(DIM,) * (2 * n)).astype(float)
            self.t[name] = antisymmetrize(x, n) / max(1, math.factorial(n)) if n > 1 else x
        return self.t[name]


def rng_of(label):
    if not label or label[0] not in SPACE or not label[1:].isdigit():
        raise CodeError("unknown index %r" % label)
    return SPACE[label[0]]


def part_of(arr, labels):
    return arr[tuple(slice(*rng_of(l)) for l in labels)]


def product(factors, out_labels):
    """Sum of a product of tensors [(array, labels)] over the labels not in out_labels; a full-size array."""
    names = {}
    for _, ls in factors:
        for l in ls:
            names.setdefault(l, LETTERS[len(names)])
    for l in out_labels:
        if l not in names:
            raise CodeError("index %s of the result does not appear on the right-hand side" % l)
    if len(set(out_labels)) != len(out_labels):
        raise CodeError("repeated index in the result %s" % (out_labels,))
    args = []
    for arr, ls in factors:
        if arr.ndim != len(ls):
            raise CodeError("tensor of rank %d with indices %s" % (arr.ndim, ls))
        args.append(part_of(arr, ls))
    eq = ",".join("".join(names[l] for l in ls) for _, ls in factors) + "->" + "".join(names[l] for l in out_labels)
    return np.einsum(eq, *args, optimize=len(args) > 2)


# ---------------------------------------------------------------- terms

def spaces(labels):
    out = set()
    for l in labels:
        out |= {"c": {"c"}, "a": {"a"}, "v": {"v"}, "h": {"c", "a"}, "p": {"a", "v"}, "g": {"c", "a", "v"}}[l[0]]
    return out


def term_value(plain, vals):
    """plain: dump_term of a term.  (number of open pairs, array in the order annihilation, creation)."""
    coeff, tensors, cre, ann, _ = plain
    fs = []
    for cls, name, up, lo in tensors:
        arr = vals.get("%s%d" % (name, len(up)))
        if cls == "ClusterAmplitude" and ("v" in spaces(up) or "c" in spaces(lo)):
            fs.append((arr, lo + up))          # stored with the hole indices first
        else:
            fs.append((arr, up + lo))
    n = len(cre)
    x = np.zeros((DIM,) * (2 * n))
    labels = ann + cre
    part = coeff * product(fs, labels)
    if n == 0:
        return 0, x + part
    x[tuple(slice(*rng_of(l)) for l in labels)] += part
    return n, antisymmetrize(x, n)


def terms_value(terms, vals):
    out = {}
    for t in terms:
        n, x = term_value(t, vals)
        out[n] = out[n] + x if n in out else x
    return out


# ---------------------------------------------------------------- code

class Tensor:
    def __init__(self, rank, blocks=None):
        self.arr = np.zeros((DIM,) * rank) if rank is not None else None
        self.rank = rank
        self.mask = None
        if blocks is not None:
            self.mask = np.zeros((DIM,) * rank, dtype=bool)
            for b in blocks:
                self.mask[tuple(slice(*SPACE[c]) for c in b)] = True

    def check(self, labels, what):
        if self.arr is None:
            raise CodeError("%s is used before it is built" % what)
        if self.arr.ndim != len(labels):
            raise CodeError("%s of rank %d with indices %s" % (what, self.arr.ndim, labels))
        if self.mask is not None and not part_of(self.mask, labels).all():
            raise CodeError("%s has no block for indices %s" % (what, labels))


class Scalar:
    def __init__(self, v):
        self.v = float(v)


DEF = re.compile(r"void\s+(\w+)::(\w+)\s*\(([^()]*)\)\s*\{")
DECL = re.compile(r"void\s+(\w+)\s*\(([^()]*)\)\s*;")


def params(text):
    out = []
    for p in text.split(","):
        p = " ".join(p.split())
        if not p and "," not in text:
            continue
        m = re.fullmatch(r"(double|BlockedTensor)\s*(&?)\s*(\w+)", p)
        if not m:
            raise CodeError("parameter %r" % p)
        out.append((m.group(1) + m.group(2), m.group(3)))
    return out


def strip_comments(s):
    return re.sub(r"//[^\n]*", "", s)


def braces(text, start):
    """End of the block whose opening brace is at start; strings are skipped."""
    depth, i, instr = 0, start, False
    while i < len(text):
        c = text[i]
        if c == '"':
            instr = not instr
        elif not instr:
            if c == "{":
                depth += 1
            elif c == "}":
                depth -= 1
                if depth == 0:
                    return i
        i += 1
    raise CodeError("unbalanced braces")


def parse_file(text, header):
    """Functions defined in one .cc file: {name: (namespace, params, body)}; checks the frame around them."""
    lines = text.split("\n")
    if not lines or lines[0].strip() != '#include "mrdsrg-so/%s.h"' % header.lower():
        raise CodeError("first line is %r" % (lines[0] if lines else ""))
    t = strip_comments(text)
    m = re.search(r"using\s+namespace\s+psi\s*;", t)
    n = re.search(r"namespace\s+forte\s*\{", t)
    if not m or not n:
        raise CodeError("the namespaces are missing")
    end = braces(t, n.end() - 1)
    if t[end + 1:].strip():
        raise CodeError("text after the end of the namespace: %r" % t[end + 1:].strip()[:80])
    body = t[n.end():end]
    out = {}
    pos = 0
    while True:
        rest = body[pos:]
        if not rest.strip():
            break
        d = DEF.search(rest)
        if not d or rest[:d.start()].strip():
            raise CodeError("unexpected text %r" % rest.strip()[:80])
        e = braces(rest, d.end() - 1)
        if d.group(2) in out:
            raise CodeError("%s defined twice" % d.group(2))
        out[d.group(2)] = (d.group(1), params(d.group(3)), rest[d.end():e])
        pos += e + 1
    return out


def statements(body):
    out, cur, instr, depth = [], "", False, 0
    for c in body:
        if c == '"':
            instr = not instr
        if not instr:
            if c in "{(":
                depth += 1
            elif c in "})":
                depth -= 1
        if c == ";" and not instr and depth == 0:
            out.append(" ".join(cur.split()))
            cur = ""
        else:
            cur += c
    if cur.strip():
        raise CodeError("statement without end: %r" % cur.strip()[:80])
    return [s for s in out if s]


TOK = re.compile(r'\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?)|([A-Za-z_]\w*)|(\["[^"]*"\])|([-+*/()]))')


def tokens(s):
    out, i = [], 0
    while i < len(s):
        if s[i:].strip() == "":
            break
        m = TOK.match(s, i)
        if not m:
            raise CodeError("cannot read %r" % s[i:i + 40])
        out.append(m.groups())
        i = m.end()
    return out


class Expr:
    """expr := term {(+|-) term}; term := factor {(*|/) factor}; factor := number | name[labels] | (expr) | -factor.
    A value is a list of summands (coefficient, [(name, labels)])."""

    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.v = self.expr()
        if self.i != len(self.t):
            raise CodeError("cannot read %r" % text[:80])

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None, None, None)

    def expr(self):
        v = self.term()
        while self.peek()[3] in ("+", "-"):
            op = self.peek()[3]
            self.i += 1
            w = self.term()
            v = v + [((-c if op == "-" else c), f) for c, f in w]
        return v

    def term(self):
        v = self.factor()
        while self.peek()[3] in ("*", "/"):
            op = self.peek()[3]
            self.i += 1
            w = self.factor()
            if op == "/":
                if any(f for _, f in w) or len(w) != 1 or w[0][0] == 0:
                    raise CodeError("division by a tensor or zero")
                v = [(c / w[0][0], f) for c, f in v]
            else:
                v = [(c * d, f + g) for c, f in v for d, g in w]
        return v

    def factor(self):
        num, name, lab, op = self.peek()
        if num is not None:
            self.i += 1
            if "." not in num and "e" not in num.lower():
                return [(int(num), [])]          # integer literal: int / int would truncate
            return [(float(num), [])]
        if name is not None:
            self.i += 1
            l = self.peek()[2]
            if l is not None:
                self.i += 1
                inner = l[2:-2]
                ls = inner.split(",") if inner else []
                return [(1.0, [(name, ls)])]
            return [(1.0, [(name, None)])]
        if op == "(":
            self.i += 1
            v = self.expr()
            if self.peek()[3] != ")":
                raise CodeError("missing )")
            self.i += 1
            return v
        if op == "-":
            self.i += 1
            return [(-c, f) for c, f in self.factor()]
        raise CodeError("cannot read expression")


class Program:
    def __init__(self, functions, namespace):
        self.f = functions
        self.ns = namespace
        self.calls = []

    def call(self, name, args):
        if name not in self.f:
            raise CodeError("%s is called but not defined" % name)
        ns, ps, body = self.f[name]
        if ns != self.ns:
            raise CodeError("%s belongs to %s, not %s" % (name, ns, self.ns))
        if len(ps) != len(args):
            raise CodeError("%s called with %d arguments, it has %d parameters" % (name, len(args), len(ps)))
        env = {}
        for (ty, p), a in zip(ps, args):
            if ty.startswith("double") != isinstance(a, Scalar):
                raise CodeError("%s: argument %s of the wrong type" % (name, p))
            if p in env:
                raise CodeError("%s: parameter %s twice" % (name, p))
            env[p] = a if ty.endswith("&") else (Scalar(a.v) if isinstance(a, Scalar) else a)
        for s in statements(body):
            self.step(s, env, name)

    def look(self, env, n):
        if n not in env:
            raise CodeError("%s is not declared" % n)
        return env[n]

    def eval(self, text, env, labels):
        """Value of a right-hand side: an array over the labels, or a number."""
        tot = 0.0
        for c, fs in Expr(text).v:
            facs = []
            for n, ls in fs:
                v = self.look(env, n)
                if isinstance(v, Scalar):
                    if ls:
                        raise CodeError("%s is a number" % n)
                    c = c * v.v
                else:
                    if ls is None:
                        raise CodeError("%s without indices" % n)
                    v.check(ls, n)
                    facs.append((v.arr, ls))
            if facs:
                tot = tot + c * product(facs, labels)
            elif labels:
                raise CodeError("a number assigned to a tensor")
            else:
                tot = tot + c
        return tot

    def step(self, s, env, where):
        m = re.fullmatch(r"BlockedTensor (\w+)", s)
        if m:
            if m.group(1) in env:
                raise CodeError("%s declared twice" % m.group(1))
            env[m.group(1)] = Tensor(None)
            return
        m = re.fullmatch(r'(BlockedTensor )?(\w+) ?= ?(?:ambit::)?BlockedTensor::build\((?:ambit::)?CoreTensor, ?"[^"]*", ?\{ ?(.*?) ?\}\)', s)
        if m:
            blocks = re.findall(r'"([^"]*)"', m.group(3))
            if not blocks or any(not b or set(b) - set(SPACE) for b in blocks) or len({len(b) for b in blocks}) != 1:
                raise CodeError("build with blocks %s" % m.group(3))
            if m.group(1):
                if m.group(2) in env:
                    raise CodeError("%s declared twice" % m.group(2))
            else:
                if isinstance(self.look(env, m.group(2)), Scalar):
                    raise CodeError("%s is a number" % m.group(2))
            env[m.group(2)] = Tensor(len(blocks[0]), blocks)
            return
        m = re.fullmatch(r"(\w+)\.zero\( ?\)", s)
        if m:
            v = self.look(env, m.group(1))
            if isinstance(v, Scalar) or v.arr is None:
                raise CodeError("%s.zero()" % m.group(1))
            v.arr[...] = 0.0
            return
        m = re.fullmatch(r"(\w+)\.scale\((.*)\)", s)
        if m:
            v = self.look(env, m.group(1))
            if isinstance(v, Scalar) or v.arr is None:
                raise CodeError("%s.scale()" % m.group(1))
            v.arr *= self.eval(m.group(2), env, [])
            return
        m = re.fullmatch(r"(\w+) ?\(([\w, ]*)\)", s)
        if m:
            args = [a.strip() for a in m.group(2).split(",") if a.strip()]
            self.calls.append(m.group(1))
            self.call(m.group(1), [self.look(env, a) for a in args])
            return
        m = re.fullmatch(r"(\w+) ?(\[\"[^\"]*\"\])? ?([-+*/]?=) ?(.*)", s)
        if m:
            n, lab, op, rhs = m.groups()
            v = self.look(env, n)
            if isinstance(v, Scalar):
                if lab:
                    raise CodeError("%s is a number" % n)
                x = float(self.eval(rhs, env, []))
                v.v = {"=": x, "+=": v.v + x, "-=": v.v - x, "*=": v.v * x, "/=": v.v / x if x else 0.0}[op]
                return
            if not lab:
                raise CodeError("%s without indices in %r" % (n, s))
            ls = lab[2:-2].split(",")
            v.check(ls, n)
            x = self.eval(rhs, env, ls)
            sl = tuple(slice(*rng_of(l)) for l in ls)
            if op == "=":
                v.arr[sl] = x
            elif op == "+=":
                v.arr[sl] += x
            elif op == "-=":
                v.arr[sl] -= x
            else:
                raise CodeError("operator %s on a tensor" % op)
            return
        raise CodeError("cannot read statement %r in %s" % (s[:120], where))


def close(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9 * max(1.0, float(np.max(np.abs(b))) if np.size(b) else 1.0))


def judge(files, terms, func, namespace, dagger, seed, factor):
    """Do the saved files compute exactly these terms?  A message, or None.
    files: {name: text}; terms: plain terms.  destroy_h only changes where intermediates live."""
    vals = Values(seed)
    funcs = {}
    try:
        for name in sorted(files):
            if name.endswith(".cc"):
                fs = parse_file(files[name], namespace)
                if set(fs) != {name[:-3]}:
                    return "%s defines %s" % (name, sorted(fs))
                for k, v in fs.items():
                    funcs[k] = v
        head = files.get(func + "_functions.h")
        if head is None:
            return "no declarations were written"
        decl = {}
        rest = strip_comments(head)
        for m in DECL.finditer(rest):
            if m.group(1) in decl:
                return "%s declared twice" % m.group(1)
            decl[m.group(1)] = params(m.group(2))
        if DECL.sub("", rest).strip():
            return "declarations contain %r" % DECL.sub("", rest).strip()[:80]
        for k, (_, ps, _) in funcs.items():
            if k not in decl:
                return "%s is defined but not declared" % k
            if [t for t, _ in decl[k]] != [t for t, _ in ps] or [n for _, n in decl[k]] != [n for _, n in ps]:
                return "%s is declared with %s and defined with %s" % (k, decl[k], ps)
        for k in decl:
            if k not in funcs:
                return "%s is declared but not defined" % k
        if func not in funcs:
            return "%s is not defined" % func
        ps = funcs[func][1]
        want = terms_value(terms, vals)
        env_args = []
        out = {}
        for ty, n in ps:
            if n == "factor":
                if ty != "double":
                    return "factor is %s" % ty
                env_args.append(Scalar(factor))
            elif n == "C0":
                if ty != "double&":
                    return "C0 is passed as %s, its value cannot come back" % ty
                out[0] = Scalar(1234.5)
                env_args.append(out[0])
            elif n[0] == "C":
                if ty != "BlockedTensor&":
                    return "%s is %s" % (n, ty)
                k = int(n[1:])
                t = Tensor(2 * k)
                t.arr[...] = 77.0                    # whatever was there before
                out[k] = t
                env_args.append(t)
            else:
                t = Tensor(2 * int(n[1:]))
                t.arr[...] = vals.get(n)
                env_args.append(t)
        for k in want:
            if k not in out:
                return "the function has no result C%d" % k
        p = Program(funcs, namespace)
        p.call(func, env_args)
        uncalled = set(funcs) - {func} - set(p.calls)
        if uncalled:
            return "%s is never called" % sorted(uncalled)
        for k in sorted(out):
            got = out[k].v if k == 0 else out[k].arr
            ref = want.get(k)
            if ref is None:
                ref = np.zeros((DIM,) * (2 * k))
            ref = ref * factor
            if dagger:
                ref = ref + (ref if k == 0 else np.transpose(ref, list(range(k, 2 * k)) + list(range(k))))
            if not close(got, ref):
                return "C%d differs from the saved equations by up to %.3g" % (k, float(np.max(np.abs(got - ref))))
    except CodeError as e:
        return "the code is not valid: %s" % e
    return None


def judge_t3(text, terms, func, namespace, tail, seed):
    """The same for save_direct_t3: the part before the amplitudes are updated must compute the saved terms."""
    vals = Values(seed)
    try:
        fs = parse_file(text, namespace)
        if set(fs) != {func + "_direct_t3"}:
            return "defines %s" % sorted(fs)
        ns, ps, body = fs[func + "_direct_t3"]
        if ns != namespace:
            return "the function belongs to %s" % ns
        cut = body.find("C3.iterate(")
        if cut < 0:
            return "the update of the amplitudes is missing"
        if " ".join(body[cut:].split()) != " ".join(tail.split()):
            return "the update of the amplitudes is incomplete"
        env_args = []
        need = set()
        for _, tensors, _, _, _ in terms:
            for _, name, up, _ in tensors:
                need.add("%s%d" % (name, len(up)))
        have = [n for _, n in ps]
        if sorted(have) != sorted(need):
            return "the parameters are %s, the equations use %s" % (have, sorted(need))
        for ty, n in ps:
            t = Tensor(2 * int(n[1:]))
            t.arr[...] = vals.get(n)
            env_args.append(t)
        keep = {}

        class P(Program):
            def step(self, s, env, where):
                Program.step(self, s, env, where)
                keep.update(env)
        P({func: (ns, ps, body[:cut])}, namespace).call(func, env_args)
        want = terms_value(terms, vals)
        ref = want.get(3, np.zeros((DIM,) * 6))
        blk = tuple(slice(*SPACE[c]) for c in "cccvvv")
        if "C3" not in keep:
            return "no C3"
        if not close(keep["C3"].arr[blk], ref[blk]):
            return "C3 differs from the saved equations by up to %.3g" % float(np.max(np.abs(keep["C3"].arr[blk] - ref[blk])))
    except CodeError as e:
        return "the code is not valid: %s" % e
    return None
