"""Random interpretation of tensor terms.

Two terms with different canonical keys may still denote the same function.  To separate real
differences from lost normalisation, both are interpreted over random small sizes and random
entries (opaque library functions become hashed functions of their interpreted arguments).  Only
terms are interpreted; no code of the repository is involved.
"""
import cmath
import hashlib
import itertools
import math
import time
from fractions import Fraction as Fr
from . import ten as T
from .poly import P, Poly


class NoEval(Exception):
    pass


class TooBig(NoEval):
    pass


BASIC = {"abs", "eq0", "pos", "mod2", "pow", "exp", "log2", "floordiv", "mod", "trunc", "ceil", "floor", "exists", "val",
         "rint", "sin", "cos", "tan", "sign", "angle", "max", "min", "any", "sum", "kronseq", "arcsin", "arccos", "arctan",
         "tanh", "sinh", "cosh", "inv", "det"}


def h01(*k):
    d = hashlib.sha256(repr(k).encode()).digest()
    return int.from_bytes(d[:6], "big") / float(1 << 48)


def rnd(v):
    """Rounded representative used for hashing."""
    if isinstance(v, (int, bool)):
        return v
    if isinstance(v, Fr):
        v = float(v)
    if isinstance(v, complex) or isinstance(v, float):
        z = complex(v)
        s = max(abs(z), 1e-12)
        def r(x):
            if abs(x) < 1e-7 * max(1.0, s):
                return 0.0
            return float("%.6g" % x)
        return (r(z.real), r(z.imag))
    return v


def lower_bounds(facts):
    """Least value of each size that a fact bounds on its own."""
    out = {}
    for f in facts:
        ss = [x for x in f.symbols(deep=False)]
        if len(ss) == 1 and ss[0].kind == "v":
            s = ss[0]
            r = (f - P(s)).as_int()
            if r is not None:
                out[s.key] = max(out.get(s.key, -r), -r)
    return out


class Env:
    def __init__(self, seed, sizes=None, budget=2000000, constraints=(), maxsize=3):
        self.seed, self.sizes, self.budget = seed, dict(sizes or {}), budget
        self.cache = {}
        self.maxsize = maxsize
        self.small = False      # draw entries from a few small values, so that tests for zero go both ways
        self.used = set()
        self.deadline = time.time() + 5
        self.low = lower_bounds(constraints)

    # -------------------------------------------------------------- integers
    def sym(self, s, le):
        if s in le:
            return le[s]
        if s.kind == "v":
            if s.key in self.sizes:
                return self.sizes[s.key]
            from .seqs import SIZES
            from .loops import SELECT
            if s.key in SIZES:
                v = self.ten0(SIZES[s.key], {})
                self.sizes[s.key] = self.asint(v)
                return self.sizes[s.key]
            if s.key in SELECT:
                return self.select(SELECT[s.key], le)
            lo = 1 if "pos" in s.flags else 0 if "nn" in s.flags else -2
            lo = max(lo, self.low.get(s.key, lo))
            v = lo + int(h01(self.seed, "size", s.key) * self.maxsize)
            self.sizes[s.key] = v
            return v
        if s.kind == "num":
            return Fr(s.name)
        if s.kind == "app":
            from .loops import SELECT
            if s.key in SELECT:
                return self.select(SELECT[s.key], le)
            args = [self.poly(a, le) for a in s.args]
            if s.name == "pow":
                return args[0] ** args[1]
            if s.name == "idiv":
                return args[0] // args[1]
            if s.name.startswith("trirow") or s.name.startswith("tricol"):
                k = int(s.name[6:])
                y, r = args[0], 0
                while True:
                    w = max(0, r + 1 - k)
                    if len(args) > 1:
                        w = min(w, args[1])
                    if y < w:
                        break
                    y -= w
                    r += 1
                return r if s.name.startswith("trirow") else y
            for k, v in SELECT.items():
                if v[0] and s.name == k.split("(")[0]:
                    return self.select((v[0], v[1], list(s.args)), le)
            raise NoEval("size function " + s.name)
        raise NoEval("free index " + s.key)

    def select(self, x, le):
        kind, body, order = x
        n = self.poly(body.axes[0][0].dim, le)
        le2 = dict(le)
        vals = []
        for i in range(int(n)):
            vals.append(self.entry(body, [(i,)], le2))
        if kind == "first":
            for i, v in enumerate(vals):
                if abs(v) > 1e-9:
                    return i
            return int(n)
        if kind == "last":
            for i in reversed(range(len(vals))):
                if abs(vals[i]) > 1e-9:
                    return i
            return 0
        if kind in ("argmin", "argmax"):
            if not vals:
                return 0
            f = min if kind == "argmin" else max
            return vals.index(f(vals, key=lambda z: complex(z).real))
        raise NoEval("select " + kind)

    def asint(self, v):
        z = complex(v)
        k = round(z.real)
        if abs(z - k) > 1e-9:
            raise NoEval("non-integer size")
        return k

    def poly(self, p, le):
        """Value of a polynomial: int, Fraction or complex."""
        p = P(p)
        tot = 0
        for m, c in p.terms.items():
            v = c[0] if c[1] == 0 else complex(c[0], c[1])
            for s, e in m:
                b = self.sym(s, le)
                x = self.poly(e, le) if isinstance(e, Poly) else e
                if isinstance(x, Fr) and x.denominator == 1:
                    x = int(x)
                if isinstance(x, Fr):
                    b = float(b) ** float(x)
                elif x < 0:
                    if b == 0:
                        raise NoEval("division by zero")
                    b = Fr(b) ** x if not isinstance(b, (float, complex)) else b ** x
                else:
                    if abs(x) > 64:
                        raise TooBig("exponent")
                    b = b ** x
                v = v * b
            tot = tot + v
        if isinstance(tot, Fr) and tot.denominator == 1:
            return int(tot)
        return tot

    def dim(self, d, le):
        v = self.poly(d, le)
        if isinstance(v, Fr) or not isinstance(v, int):
            z = complex(v)
            if abs(z - round(z.real)) > 1e-9:
                raise NoEval("fractional dimension")
            v = round(z.real)
        return v

    # -------------------------------------------------------------- tensors
    def legrange(self, l, le):
        n = self.dim(l.dim, le)
        r = range(n)
        if l.extra is not None:
            out = []
            for y in r:
                le2 = dict(le)
                le2[l.extra.l] = y
                if abs(self.ten0(l.extra.T, le2)) > 1e-9:
                    out.append(y)
            return out
        return r

    def shape(self, t, le=None):
        le = le or {}
        out = []
        for ax in t.axes:
            n = 1
            for l in ax:
                n *= len(self.legrange(l, le))
            out.append(n)
        return out

    def entry(self, t, idx, le):
        """Entry of a Ten; idx per axis is an int or a tuple of leg positions."""
        le = dict(le)
        for ax, i in zip(t.axes, idx):
            rs = [self.legrange(l, le) for l in ax]
            if isinstance(i, tuple):
                for l, r, k in zip(ax, rs, i):
                    le[l] = r[k]
                continue
            for l, r in reversed(list(zip(ax, rs))):
                le[l] = r[i % len(r)]
                i //= len(r)
        return self.ten0(t, le)

    def ten0(self, t, le):
        tot = 0
        for q in t.terms:
            tot = tot + self.term(q, le)
        return tot

    def term(self, q, le):
        bound = list(q.bound)
        c = self.poly(q.coef, le)
        if not bound:
            acc = c * self.poly(q.lm, le)
            for f in q.fs:
                self.spend()
                v = self.factor(f, le)
                if abs(v) == 0:
                    return 0
                acc = acc * v
            return acc
        if len(bound) > 2 and all(self.static(l, bound) for l in bound) and not (set(q.lm.legs()) & set(bound)):
            return c * self.poly(q.lm, le) * self.eliminate(bound, list(q.fs), le)
        fs = list(q.fs)

        def go(k, le, acc, todo):
            # evaluate factors whose legs are all assigned
            rest = []
            rem = set(bound[k:])
            for f in todo:
                if f.legs() & rem:
                    rest.append(f)
                    continue
                self.spend()
                v = self.factor(f, le)
                if abs(v) == 0:
                    return 0
                acc = acc * v
            if k == len(bound):
                return acc * self.poly(q.lm, le)
            tot = 0
            l = bound[k]
            for y in self.legrange(l, le):
                le2 = dict(le)
                le2[l] = y
                tot = tot + go(k + 1, le2, acc, rest)
            return tot
        return go(0, le, c, fs)

    def spend(self):
        self.budget -= 1
        if self.budget < 0 or (self.budget & 255 == 0 and time.time() > self.deadline):
            raise TooBig("term too large")

    def static(self, l, bound):
        if l.extra is not None:
            return False
        return not (set(l.dim.legs()) & set(bound))

    def eliminate(self, bound, fs, le):
        """Sum over the bound legs of the product of the factors, one leg at a time."""
        rng = {l: list(self.legrange(l, le)) for l in bound}
        bs = set(bound)
        tabs = []           # (tuple of legs, {values: number})
        acc = 1
        for f in fs:
            ls = tuple(sorted(f.legs() & bs, key=bound.index))
            if not ls:
                self.spend()
                acc = acc * self.factor(f, le)
                if abs(acc) == 0:
                    return 0
                continue
            tab = {}
            for vs in itertools.product(*[rng[l] for l in ls]):
                self.spend()
                le2 = dict(le)
                le2.update(zip(ls, vs))
                v = self.factor(f, le2)
                if abs(v) != 0:
                    tab[vs] = v
            tabs.append((ls, tab))
        todo = list(bound)
        while todo:
            def cost(l):
                s = {x for ls, _ in tabs if l in ls for x in ls}
                n = 1
                for x in s:
                    n *= max(1, len(rng[x]))
                return n
            l = min(todo, key=cost)
            todo.remove(l)
            mine = [t for t in tabs if l in t[0]]
            tabs = [t for t in tabs if l not in t[0]]
            if not mine:
                acc = acc * len(rng[l])
                continue
            cur = mine[0]
            for nx in sorted(mine[1:], key=lambda t: len(t[0])):
                cur = self.join(cur, nx)
            k = cur[0].index(l)
            ls = cur[0][:k] + cur[0][k + 1:]
            out = {}
            for vs, v in cur[1].items():
                w = vs[:k] + vs[k + 1:]
                out[w] = out.get(w, 0) + v
            if not ls:
                acc = acc * out.get((), 0)
                if abs(acc) == 0:
                    return 0
            else:
                tabs.append((ls, out))
        return acc

    def join(self, x, y):
        lx, tx = x
        ly, ty = y
        common = [l for l in ly if l in lx]
        ci, cj = [lx.index(l) for l in common], [ly.index(l) for l in common]
        rest = [k for k in range(len(ly)) if ly[k] not in lx]
        idx = {}
        for vs, v in ty.items():
            idx.setdefault(tuple(vs[k] for k in cj), []).append((tuple(vs[k] for k in rest), v))
        out = {}
        for vs, v in tx.items():
            for w, u in idx.get(tuple(vs[k] for k in ci), ()):
                self.spend()
                out[vs + w] = v * u
        return (lx + tuple(ly[k] for k in rest), out)

    def factor(self, f, le):
        idx = [self.poly(p, le) for p in f.idx]
        if f.atom is T.DELTA or f.atom.key == "δ":
            return 1 if idx[0] == 0 else 0
        idx = [self.ix(i) for i in idx]
        v = self.atom(f.atom, tuple(idx))
        if f.conj:
            v = complex(v).conjugate() if isinstance(v, complex) else v
        e = f.exp
        if isinstance(e, Poly):
            e = self.poly(e, le)
        if e != 1:
            if isinstance(e, Fr) and e.denominator == 1:
                e = int(e)
            if isinstance(e, Fr):
                z = complex(v)
                v = (z.real ** float(e)) if z.imag == 0 and z.real >= 0 else z ** float(e)
            else:
                if v == 0 and e < 0:
                    raise NoEval("division by zero")
                if isinstance(v, int) and e < 0:
                    v = Fr(v)
                v = v ** e
        return v

    def ix(self, v):
        if isinstance(v, int):
            return v
        return self.asint(v)

    def inrange(self, a, idx):
        for i, d in zip(idx, a.dims):
            try:
                n = self.dim(d, {})
            except NoEval:
                continue
            if not 0 <= i < n:
                return False
        return True

    def atom(self, a, idx):
        k = (a.key, idx)
        if k in self.cache:
            return self.cache[k]
        v = self._atom(a, idx)
        self.cache[k] = v
        return v

    def _atom(self, a, idx):
        if a.kind == "in":
            if a.key == "π":
                return math.pi
            if a.key == "∞":
                return 1e30
            if a.key == "ln2":
                return math.log(2)
            return self.draw(("in", a.key, idx), a.flags)
        if a.kind == "tpow":
            n = self.dim(a.n, {})
            dims = [self.dim(d, {}) for d in a.base.dims]
            v, rest = 1, list(idx)
            for _ in range(n):
                cur = [r % d for r, d in zip(rest, dims)]
                rest = [r // d for r, d in zip(rest, dims)]
                v = v * self.atom(a.base, tuple(cur))
            return v
        le = dict(zip(a.params, idx[:len(a.params)]))
        out = idx[len(a.params):]
        nm = a.fname
        if nm in BASIC and nm not in ("exists", "max", "min", "any", "sum", "kronseq", "inv", "det"):
            args = [self.ten0(x, le) for x in a.args]
            return self.basic(nm, args, a)
        if nm == "exists":
            t = a.args[0]
            for k in itertools.product(*[range(n) for n in self.shape(t, le)]):
                if abs(self.entry(t, k, le)) > 1e-9:
                    return 1
            return 0
        if nm in ("max", "min"):
            t = a.args[0]
            vs = [complex(self.entry(t, k, le)).real for k in itertools.product(*[range(n) for n in self.shape(t, le)])]
            if not vs:
                raise NoEval("max of nothing")
            return max(vs) if nm == "max" else min(vs)
        if nm == "kronseq":
            t = a.args[0]
            n = self.shape(t, le)
            v, rest = 1, list(out)
            for j in reversed(range(n[0])):
                cur = [r % d for r, d in zip(rest, n[1:])]
                rest = [r // d for r, d in zip(rest, n[1:])]
                v = v * self.entry(t, [j] + cur, le)
            return v
        self.used.add(nm)
        return self.draw(("app", nm, repr(a.extra), self.digest(a, le), out), a.flags)

    def digest(self, a, le):
        hs = []
        for t in a.args:
            if isinstance(t, T.Ten):
                sh = self.shape(t, le)
                tot = 1
                for n in sh:
                    tot *= n
                pos = range(tot) if tot <= 48 else sorted({int(h01("pos", tot, i) * tot) for i in range(48)})
                vals = []
                for p in pos:
                    ix = []
                    for n in reversed(sh):
                        ix.append(p % n)
                        p //= n
                    vals.append(rnd(self.entry(t, list(reversed(ix)), le)))
                hs.append((tuple(sh), tuple(vals)))
            else:
                hs.append(rnd(self.poly(t, le)))
        return tuple(hs)

    def draw(self, key, flags):
        u = h01(self.seed, key)
        w = h01(self.seed, key, "im")
        if flags & {"bit", "ind"}:
            return 1 if u < 0.5 else 0
        if "int" in flags:
            return int(u * 4) if "nn" in flags else int(u * 7) - 3
        if self.small and not key[0] == "app":
            return (0, 1)[int(u * 2)] if "nn" in flags else (0, 0, 1, 1, 1, -1)[int(u * 6)] if "real" in flags else (0, 0, 1, 1, 1, -1, 1j)[int(u * 7)]
        if "nn" in flags:
            return (1 + int(u * 15)) / 8.0
        if "real" in flags:
            return (int(u * 30) - 15) / 8.0 + 1 / 16.0
        return complex((int(u * 30) - 15) / 8.0 + 1 / 16.0, (int(w * 30) - 15) / 8.0 + 1 / 16.0)

    def basic(self, nm, args, a):
        x = args[0]
        z = complex(x)
        re = z.real
        if nm == "abs":
            return abs(z) if z.imag else abs(x)
        if nm == "eq0":
            return 1 if abs(z) < 1e-9 else 0
        if nm == "pos":
            return 1 if re > 1e-9 else 0
        if nm == "mod2":
            return self.asint(x) % 2
        if nm == "val":
            return x
        if nm == "pow":
            if z == 0:
                if complex(args[1]).real < 0:
                    raise NoEval("division by zero")
                return 0 if complex(args[1]) != 0 else 1
            e = args[1]
            return z ** (float(e) if not isinstance(e, complex) else e)
        if nm == "exp":
            if abs(re) > 200:
                raise NoEval("exp range")
            return cmath.exp(z) if z.imag else math.exp(re)
        if nm == "log2":
            if z == 0:
                raise NoEval("log of zero")
            r = cmath.log(z) / math.log(2)
            return r.real if z.imag == 0 and re > 0 else r
        if nm == "floordiv":
            y = complex(args[1]).real
            if y == 0:
                raise NoEval("division by zero")
            return math.floor(re / y + 1e-12)
        if nm == "mod":
            y = complex(args[1]).real
            if y == 0:
                raise NoEval("division by zero")
            return re - y * math.floor(re / y + 1e-12)
        if nm == "trunc":
            return int(re + (1e-9 if re > 0 else -1e-9))
        if nm == "ceil":
            return math.ceil(re - 1e-9)
        if nm == "floor":
            return math.floor(re + 1e-9)
        if nm == "rint":
            return round(re)
        if nm == "sign":
            return (re > 0) - (re < 0)
        if nm == "angle":
            return cmath.phase(z)
        f = getattr(cmath, {"arcsin": "asin", "arccos": "acos", "arctan": "atan"}.get(nm, nm), None)
        if f is None:
            raise NoEval(nm)
        r = f(z)
        return r.real if abs(r.imag) < 1e-13 else r


def funs(t, seen=None):
    """Opaque function symbols occurring in a term."""
    out = set()
    for a in T.atoms_of(t).values():
        if a.kind == "app":
            out.add(a.fname)
        elif a.kind == "in":
            out.add("in:" + a.key)
        elif a.kind == "tpow":
            out.add("in:" + a.base.key)
    return out


LIMIT = 12      # seconds for one comparison


def compare(x, y, facts=(), samples=10, sizes=None, seed0=0):
    """'same' (agree on every sample), ('diff', witness) or 'unknown'."""
    ok = bad = 0
    wit = None
    tests = bool((funs(x) | funs(y)) & {"eq0", "pos", "exists"})
    if tests:
        samples = samples * 3
    end = time.time() + LIMIT
    for s in range(samples * 3):
        if ok + bad >= samples or bad >= 2 or time.time() > end:
            break
        env = Env((seed0, s), sizes, maxsize=2 if s % 2 else 3, constraints=facts)
        env.small = tests and s % 3 == 2
        try:
            if not all(complex(env.poly(f, {})).real >= 0 for f in facts):
                continue
            sx, sy = env.shape(x), env.shape(y)
            if sx != sy:
                return ("diff", "shapes %s and %s for sizes %s" % (sx, sy, show_sizes(env)))
            tot = 1
            for n in sx:
                tot *= n
            if tot == 0:
                continue
            pos = range(tot) if tot <= 24 else sorted({int(h01("p", s, i) * tot) for i in range(24)})
            d = None
            for p in pos:
                ix = []
                for n in reversed(sx):
                    ix.append(p % n)
                    p //= n
                ix.reverse()
                a, b = complex(env.entry(x, ix, {})), complex(env.entry(y, ix, {}))
                if not (abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))):
                    d = "entry %s: %s instead of %s for sizes %s" % (ix, short(a), short(b), show_sizes(env))
                    break
            if d is None:
                ok += 1
            else:
                bad += 1
                wit = d
        except (NoEval, OverflowError, ZeroDivisionError, RecursionError):
            continue
    if bad >= 2 or (bad and not ok):
        return ("diff", wit)
    if bad:
        # polynomials in inputs that are all zeros and ones evaluate exactly
        return ("diff", wit) if all(f.startswith("in:") for f in funs(x) | funs(y)) else "unknown"
    return "same" if ok >= 3 else "unknown"


def short(z):
    return "%.4g%+.4gj" % (z.real, z.imag) if z.imag else "%.4g" % z.real


def show_sizes(env):
    return "{" + ", ".join("%s=%s" % (k.lstrip("$")[:24], v) for k, v in sorted(env.sizes.items())[:12]) + "}"


def holds_somewhere(t, facts=(), samples=40, seed0=0, more=0):
    """A sample on which the indicator holds, or None; 'unknown' if never evaluable (more: extra seconds of sampling)."""
    n = 0
    end = time.time() + more
    for s in range(samples if not more else 100 * samples):
        if s >= samples and time.time() > end:
            break
        env = Env((seed0, "g", s), None, maxsize=(2 + s % 3) if s % 2 else 1 + (s // 2) % 3, constraints=facts)
        env.small = s % 2 == 0
        try:
            if not all(complex(env.poly(f, {})).real >= 0 for f in facts):
                continue
            v = env.ten0(t, {})
            n += 1
            if abs(complex(v)) > 1e-9:
                return show_sizes(env)
        except (NoEval, OverflowError, ZeroDivisionError, RecursionError):
            continue
    return None if n else "unknown"
