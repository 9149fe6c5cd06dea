"""Tensor provenance terms.

A Ten describes an array (or a scalar, with no axes) as a finite sum of products of entries of
input arrays, with explicit index legs, bound (summed) legs, conjugation flags and Kronecker
deltas.  All sizes are symbolic.  The canonical string of a Ten (key) does not depend on how the
expression was written: einsum, matmul, loops, kron and transpositions of the same contraction
get the same key.  This is value numbering, not execution: no entry ever has a value.
"""
from fractions import Fraction as Fr
import itertools
import math
from .poly import (Poly, Sym, P, sym, leg, app, numsym, ONE, ZERO, cmul, cinv, cstr, expadd, expmul,
                   expstr, nonneg, nonneg0, Facts, sign, REBUILD, cadd)


class Undecided(Exception):
    """The analysis cannot represent the construct (never a verdict)."""


class ShapeErr(Exception):
    """The construct combines sizes that differ for generic inputs."""


class Atom:
    __slots__ = ("key", "kind", "ndim", "dims", "flags", "base", "n", "fname", "params", "args", "extra")

    def __repr__(self):
        return self.key

    def __eq__(self, o):
        return isinstance(o, Atom) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


def atom_in(name, dims, flags=()):
    a = Atom()
    a.key, a.kind, a.ndim, a.dims, a.flags = name, "in", len(dims), tuple(P(d) for d in dims), frozenset(flags)
    a.base = a.n = a.fname = a.params = a.args = a.extra = None
    return a


DELTA = atom_in("δ", (P(1),), ("real", "ind"))


def atom_tpow(base, n):
    n = P(n)
    if base.kind == "tpow":
        return atom_tpow(base.base, base.n * n)
    if n.as_int() == 1:
        return base
    a = Atom()
    a.key = "%s⊗^[%s]" % (base.key, n.sid())
    a.kind, a.ndim, a.flags = "tpow", base.ndim, base.flags
    dd = []
    for d in base.dims:
        q = d.pow(n)
        dd.append(q if q is not None else Poly.of(app("pow", d, n, flags=("pos",))))
    a.dims = tuple(dd)
    a.base, a.n = base, n
    a.fname = a.params = a.args = a.extra = None
    return a


class Factor:
    __slots__ = ("atom", "conj", "idx", "exp")

    def __init__(self, atom, conj, idx, exp=1):
        self.atom, self.conj, self.idx, self.exp = atom, conj, tuple(idx), exp

    def legs(self):
        s = set()
        for p in self.idx:
            s |= p.legs()
        return s

    def subst(self, mp):
        return Factor(self.atom, self.conj, [p.subst(mp) for p in self.idx], self.exp)

    def __repr__(self):
        return "%s%s[%s]%s" % (self.atom.key, "*" if self.conj else "", ",".join(map(repr, self.idx)),
                               "" if self.exp == 1 else "^%s" % self.exp)


class Term:
    """coef (leg-free Poly) * lm (monomial in legs) * factors, summed over bound legs."""
    __slots__ = ("coef", "lm", "fs", "bound")

    def __init__(self, coef, lm, fs, bound):
        self.coef, self.lm, self.fs, self.bound = coef, lm, tuple(fs), tuple(bound)

    def legs(self):
        s = set(self.lm.legs())
        for f in self.fs:
            s |= f.legs()
        return s

    def subst(self, mp):
        return Term(self.coef.subst(mp), self.lm.subst(mp), [f.subst(mp) for f in self.fs], self.bound)

    def __repr__(self):
        return "%s·%s·%s Σ%s" % (self.coef, self.lm, self.fs, [(b, b.dim) for b in self.bound])


class Ten:
    __slots__ = ("axes", "terms", "_key", "flags")

    def __init__(self, axes, terms, flags=()):
        self.axes, self.terms, self._key, self.flags = tuple(tuple(a) for a in axes), tuple(terms), None, frozenset(flags)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(axdim(a) for a in self.axes)

    def key(self):
        if self._key is None:
            self._key = ten_key(self)
        return self._key

    def __repr__(self):
        return self.key()


def axdim(a):
    d = P(1)
    for l in a:
        d = d * l.dim
    return d


# ------------------------------------------------------------------------------- building
def const(c):
    c = P(c)
    return mk((), [Term(c, P(1), (), ())])


def from_poly(p):
    return mk((), [Term(P(p), P(1), (), ())])


def entry(atom):
    """The whole array of an input atom."""
    ls = [leg(d) for d in atom.dims]
    return mk([(l,) for l in ls], [Term(P(1), P(1), [Factor(atom, False, [P(l) for l in ls])], ())])


def inp(name, *dims, flags=()):
    return entry(atom_in(name, dims, flags))


def scalar_atom(name, flags=()):
    return inp(name, flags=flags)


def zeros(shape):
    return mk([(leg(d),) for d in shape], [])


def full(shape, p):
    return mk([(leg(d),) for d in shape], [Term(P(p), P(1), (), ())])


def eye(n, m=None, k=0):
    a, b = leg(P(n)), leg(P(n if m is None else m))
    return mk([(a,), (b,)], [Term(P(1), P(1), [Factor(DELTA, False, [P(b) - P(a) - P(k)])], ())])


def delta(p):
    """Indicator of p == 0 for an index polynomial."""
    return mk((), [Term(P(1), P(1), [Factor(DELTA, False, [P(p)])], ())])


# --------------------------------------------------------------------------- normalisation
def _comb(p, a, b):
    """p depends on a and b only through a*dim(b)+b: the coefficient of b, else None."""
    s = p.symbols()
    if a not in s and b not in s:
        return P(0)
    ca = p.coeff(a)
    cb = p.coeff(b)
    if ca is None or cb is None:
        return None
    if ca[0].symbols() & {a, b} or cb[0].symbols() & {a, b}:
        return None
    if (ca[0] - cb[0] * b.dim).is_zero():
        return cb[0]
    return None


def _in_range(p, dim, facts=None):
    return nonneg(p, facts) and nonneg(P(dim) - 1 - p, facts)


_FACTS = [Facts()]


def cur_facts():
    return _FACTS[-1]


class with_facts:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        _FACTS.append(self.f)

    def __exit__(self, *a):
        _FACTS.pop()


def norm_term(t, axlegs):
    """Normalise one term: list of terms (possibly empty)."""
    coef, lm, fs, bound = t.coef, t.lm, list(t.fs), list(t.bound)
    # split a leg monomial with several monomials
    allc = coef * lm
    if allc.is_zero():
        return []
    groups = {}
    for m, c in allc.terms.items():
        lpart = tuple((s, e) for s, e in m if s.kind == "leg" or (s.kind == "app" and any(a.legs() for a in s.args))
                      or (isinstance(e, Poly) and e.legs()))
        rest = tuple((s, e) for s, e in m if (s, e) not in lpart)
        groups.setdefault(lpart, {})
        groups[lpart][rest] = c
    if len(groups) > 1:
        out = []
        for lp, cs in groups.items():
            out += norm_term(Term(Poly(cs), Poly({lp: ONE}), fs, bound), axlegs)
        return out
    (lp, cs), = groups.items()
    coef, lm = Poly(cs), Poly({lp: ONE})
    changed = True
    while changed:
        changed = False
        # conj flags
        nf = []
        for f in fs:
            if f.conj:
                if "real" in f.atom.flags:
                    f = Factor(f.atom, False, f.idx, f.exp)
                elif "herm" in f.atom.flags:
                    i = f.idx
                    f = Factor(f.atom, False, i[:-2] + (i[-1], i[-2]), f.exp)
            nf.append(f)
        fs = nf
        # deltas
        for k, f in enumerate(fs):
            if f.atom is not DELTA:
                continue
            p = f.idx[0]
            c = p.const()
            if c is not None:
                if c == ZERO:
                    fs.pop(k)
                    changed = True
                    break
                return []
            if not p.legs():
                s = sign(p, cur_facts())
                if s in ("+", "-"):
                    return []
            else:
                if nonneg(p - 1, cur_facts()) or nonneg(-p - 1, cur_facts()):
                    return []
            q = _primitive(p)
            if q is None:
                return []
            if q is not p:
                fs = list(fs)
                fs[k] = Factor(DELTA, False, [q])
                changed = True
                break
            if any(g.atom is DELTA and j > k and (_never(p - g.idx[0]) or _never(p + g.idx[0])) for j, g in enumerate(fs)):
                return []
            for l in p.legs() & set(bound):
                # a small index under a nonlinear condition is enumerated
                n = l.dim.as_int()
                if n is not None and n <= 8 and l.extra is None and p.degree_in(l) not in (0, 1) and not any(l in x.dim.symbols() for x in bound):
                    out = []
                    for v in range(n):
                        mp = {l: P(v)}
                        out += norm_term(Term(coef, lm.subst(mp), [g.subst(mp) for g in fs], [b for b in bound if b is not l]), axlegs)
                    return out
            done = False
            for l in sorted(p.legs() & set(bound), key=lambda s: s.key):
                ca = p.coeff(l)
                if ca is None:
                    continue
                cc = ca[0].as_fr()
                if cc not in (1, -1):
                    continue
                if l in ca[1].symbols():
                    continue
                sol = ca[1] * (-cc)
                if l.extra is not None:
                    continue
                if any(l in x.dim.symbols() for x in bound if x is not l):
                    pass
                if not _in_range(sol, l.dim, cur_facts()):
                    continue
                mp = {l: sol}
                fs = [g.subst(mp) for j, g in enumerate(fs) if j != k]
                lm = lm.subst(mp)
                bound = [b for b in bound if b is not l]
                if any(l in b.dim.symbols() for b in bound):
                    nb = {}
                    for b in bound:
                        if l in b.dim.symbols():
                            nb[b] = leg(b.dim.subst(mp), b.extra)
                    mp2 = {x: P(y) for x, y in nb.items()}
                    fs = [g.subst(mp2) for g in fs]
                    lm = lm.subst(mp2)
                    bound = [nb.get(b, b) for b in bound]
                return norm_term(Term(coef, lm, fs, bound), axlegs)
            # composite digits: delta(y - (a*D + b)) with y free/param and a, b bound: keep
            # delta((a-c)*D + (b-d)) with matching ranges splits
            sp = _split_delta(p)
            if sp is not None:
                fs = [g for j, g in enumerate(fs) if j != k] + [Factor(DELTA, False, [q]) for q in sp]
                changed = True
                break
        if changed:
            continue
        # merge equal factors
        d = {}
        order = []
        for f in fs:
            kk = (f.atom.key, f.conj, tuple(p.sid() for p in f.idx))
            if f.atom is DELTA:
                q = f.idx[0]
                if (-q).sid() < q.sid():
                    f = Factor(DELTA, False, [-q])
                    kk = (f.atom.key, f.conj, ((-q).sid(),))
            if kk in d:
                g = d[kk]
                if "ind" in f.atom.flags or "bit" in f.atom.flags:
                    continue
                d[kk] = Factor(g.atom, g.conj, g.idx, expadd(g.exp, f.exp))
            else:
                d[kk] = f
                order.append(kk)
        nf = []
        for kk in order:
            f = d[kk]
            if f.exp == 0:
                continue
            if ("ind" in f.atom.flags or "bit" in f.atom.flags) and isinstance(f.exp, int) and f.exp > 1:
                f = Factor(f.atom, f.conj, f.idx, 1)
            nf.append(f)
        if len(nf) != len(fs):
            changed = True
        fs = nf
        # merge composite bound pairs
        ps = [p for f in fs for p in f.idx] + [lm]
        for a, b in itertools.permutations(bound, 2):
            if a.extra is not None or b.extra is not None:
                continue
            if a.dim.legs() or b.dim.legs() or any(x.dim.legs() & {a, b} for x in bound):
                continue
            used = False
            ok = True
            for p in ps:
                c = _comb(p, a, b)
                if c is None:
                    ok = False
                    break
                if not c.is_zero():
                    used = True
            if ok and used:
                y = leg(a.dim * b.dim)
                mp = {a: P(0), b: P(y)}
                fs = [f.subst(mp) for f in fs]
                lm = lm.subst(mp)
                bound = [x for x in bound if x is not a and x is not b] + [y]
                changed = True
                break
        if changed:
            continue
        # unit-size and unused bound legs
        for b in list(bound):
            if b.dim.as_int() == 1 and b.extra is None:
                mp = {b: P(0)}
                return norm_term(Term(coef, lm.subst(mp), [f.subst(mp) for f in fs],
                                      [x for x in bound if x is not b]), axlegs)
            if b.dim.as_int() == 0:
                return []
            used = any(b in p.symbols() for f in fs for p in f.idx) or any(b in x.dim.symbols() for x in bound)
            if not used and b.extra is None:
                d = lm.degree_in(b)
                nb = [x for x in bound if x is not b]
                if d == 0:
                    return norm_term(Term(coef, lm * b.dim, fs, nb), axlegs)
                if d in (1, 2):
                    rest = Poly({tuple((s, e) for s, e in lp2 if s is not b): c for lp2, c in lm.terms.items()})
                    N = b.dim
                    s = (N * (N - 1) * P(Fr(1, 2))) if d == 1 else (N * (N - 1) * (N * 2 - 1) * P(Fr(1, 6)))
                    return norm_term(Term(coef, rest * s, fs, nb), axlegs)
    if coef.is_zero():
        return []
    for k, f in enumerate(fs):
        if f.atom.kind == "app":
            R = _specialise(f)
            if R is not None:
                rest = [g for j, g in enumerate(fs) if j != k]
                out = []
                for q in freshen(R).terms:
                    out += norm_term(Term(coef * q.coef, lm * q.lm, rest + list(q.fs), list(bound) + list(q.bound)), axlegs)
                return out
    return [Term(coef, lm, fs, bound)]


def _intpoly(p):
    for m, c in p.terms.items():
        for s, e in m:
            if s.kind == "num" or isinstance(e, Fr) or (isinstance(e, int) and e < 0) or isinstance(e, Poly):
                return False
    return True


def _primitive(p):
    """p with integer coefficients without a common factor; None if p is never zero."""
    if not _intpoly(p):
        return p
    den, g, c0 = 1, 0, 0
    for m, c in p.terms.items():
        if c[1] != 0:
            return p
        den = den * c[0].denominator // math.gcd(den, c[0].denominator)
    for m, c in p.terms.items():
        v = int(c[0] * den)
        if m == ():
            c0 = v
        else:
            g = math.gcd(g, v)
    if g == 0:
        return p
    if c0 % g:
        return None
    if den == 1 and g == 1:
        return p
    return p * P(Fr(den, g))


def _never(p):
    """p (a difference of two conditions) is a non-zero constant or never zero by divisibility."""
    if p.is_zero():
        return False
    c = p.as_fr()
    if c is not None:
        return c != 0
    if _primitive(p) is None:
        return True
    return (nonneg(p - 1) or nonneg(-p - 1))


_DELTAS = {}


def _ndeltas(T):
    return sum(1 for t in T.terms for f in t.fs if f.atom is DELTA)


def _specialise(f):
    """Elementwise function of a piecewise argument (deltas) at a particular index: take the piece."""
    a = f.atom
    if not a.params or len(a.dims) != len(a.params) or a.key.startswith("kronseq"):
        return None
    if a.key not in _DELTAS:
        _DELTAS[a.key] = sum(_ndeltas(x) for x in a.args if isinstance(x, Ten))
    n = _DELTAS[a.key]
    if not n:
        return None
    mp = dict(zip(a.params, f.idx))
    if all(p.symbols() and len(p.terms) == 1 and p.as_fr() is None and len(p.legs()) == 1 and
           (P(next(iter(p.legs()))) - p).is_zero() and (next(iter(p.legs())).dim - q.dim).is_zero() for q, p in mp.items()):
        return None         # plain reindexing gives nothing new
    args = []
    for x in a.args:
        if not isinstance(x, Ten):
            return None
        x = freshen(x)
        x = rename(x, mp)
        args.append(mk(x.axes, x.terms, x.flags))
    if sum(_ndeltas(x) for x in args) >= n:
        return None
    R = _rebuild(a, args)
    if R.ndim:
        return None
    if f.conj:
        R = conjugate(R)
    if f.exp != 1:
        R = power(R, f.exp)
    return R


def _split_delta(p):
    """delta((a-c)*D+(b-d)) with |b-d| < D  ->  [a-c, b-d]; None when it does not apply."""
    ls = sorted(p.legs(), key=lambda s: s.key)
    if len(ls) < 3:
        return None
    cs = {}
    rest = p
    for l in ls:
        ca = p.coeff(l)
        if ca is None or ca[0].legs():
            return None
        cs[l] = ca[0]
    r0 = p.subst({l: P(0) for l in ls})
    if not r0.is_zero():
        return None
    units = [l for l in ls if cs[l].as_fr() in (1, -1)]
    big = [l for l in ls if l not in units]
    if not units or not big:
        return None
    lo = sum((P(l) * cs[l] for l in units), P(0))
    hi = p - lo
    # D: common divisor
    D = None
    for l in units:
        if D is None or nonneg(l.dim - D):
            D = l.dim
    pos = [l for l in units if cs[l].as_fr() == 1]
    neg = [l for l in units if cs[l].as_fr() == -1]
    if len(pos) > 1 or len(neg) > 1:
        return None
    if any(not (l.dim - D).is_zero() for l in units):
        return None
    q = P(0)
    for l in big:
        c = cs[l].div(D)
        if c is None or not c.is_integral():
            return None
        q = q + P(l) * c
    return [q, lo]


def mk(axes, terms, flags=()):
    """Build and normalise a Ten."""
    axes = [tuple(a) for a in axes]
    # unit axes
    mp = {}
    nax = []
    for a in axes:
        na = []
        for l in a:
            if l.dim.as_int() == 1 and l.extra is None:
                mp[l] = P(0)
            else:
                na.append(l)
        nax.append(tuple(na))
    axes = nax
    if mp:
        terms = [t.subst(mp) for t in terms]
    axl = {l for a in axes for l in a}
    out = []
    for t in terms:
        out += norm_term(t, axl)
    # deltas between axis legs and others were kept; merge composite axis legs
    again = True
    while again:
        again = False
        for ai, a in enumerate(axes):
            for k in range(len(a) - 1):
                x, y = a[k], a[k + 1]
                if x.extra is not None or y.extra is not None:
                    continue
                ok = True
                for t in out:
                    for p in [q for f in t.fs for q in f.idx] + [t.lm] + [b.dim for b in t.bound]:
                        if _comb(p, x, y) is None:
                            ok = False
                            break
                    if not ok:
                        break
                if ok:
                    z = leg(x.dim * y.dim)
                    m2 = {x: P(0), y: P(z)}
                    out = [t.subst(m2) for t in out]
                    axes[ai] = a[:k] + (z,) + a[k + 2:]
                    again = True
                    break
            if again:
                break
    axes, out = _fuse_tpow(axes, out)
    axes, out = _delta_merge(axes, out)
    # combine like terms
    lab = _axlab(axes)
    acc = {}
    order = []
    for t in out:
        s = struct_key(t, lab)
        if s in acc:
            acc[s] = Term(acc[s].coef + t.coef, t.lm, t.fs, t.bound)
        else:
            acc[s] = t
            order.append(s)
    out = [acc[s] for s in order if not acc[s].coef.is_zero()]
    r = Ten(axes, out, flags)
    return r


def _delta_merge(axes, terms):
    return axes, terms


def _fam(a):
    if a.kind == "tpow":
        return a.base.key
    return a.key


def _fuse_tpow(axes, terms):
    if len(terms) != 1:
        return axes, terms
    t = terms[0]
    fs = list(t.fs)
    for i in range(len(fs)):
        for j in range(len(fs)):
            if i == j:
                continue
            f, g = fs[i], fs[j]
            if "tp" not in f.atom.flags or _fam(f.atom) != _fam(g.atom) or f.conj != g.conj or f.exp != 1 or g.exp != 1:
                continue
            pairs = []
            ok = True
            for p, q in zip(f.idx, g.idx):
                a = [s for s in p.legs()]
                b = [s for s in q.legs()]
                if len(a) != 1 or len(b) != 1 or not (p - P(a[0])).is_zero() or not (q - P(b[0])).is_zero():
                    ok = False
                    break
                pairs.append((a[0], b[0]))
            if not ok or len({x for pr in pairs for x in pr}) != 2 * len(pairs):
                continue
            anycomb = False
            for a, b in pairs:
                for k, h in enumerate(fs):
                    if k in (i, j):
                        continue
                    for p in h.idx:
                        c = _comb(p, a, b)
                        if c is None:
                            ok = False
                        elif not c.is_zero():
                            anycomb = True
                c = _comb(t.lm, a, b)
                if c is None:
                    ok = False
                inax = [(ax, ax.index(a)) for ax in axes if a in ax]
                if inax:
                    ax, k = inax[0]
                    if not (k + 1 < len(ax) and ax[k + 1] is b):
                        ok = False
                    else:
                        anycomb = True
                elif any(b in ax for ax in axes):
                    ok = False
                elif not (a in t.bound and b in t.bound):
                    ok = False
            if not ok or not anycomb:
                continue
            base = f.atom.base if f.atom.kind == "tpow" else f.atom
            n1 = f.atom.n if f.atom.kind == "tpow" else P(1)
            n2 = g.atom.n if g.atom.kind == "tpow" else P(1)
            na = atom_tpow(base, n1 + n2)
            mp = {}
            ys = []
            axes2 = [tuple(x) for x in axes]
            bound = list(t.bound)
            for (a, b), d in zip(pairs, na.dims):
                y = leg(d)
                mp[a] = P(0)
                mp[b] = P(y)
                ys.append(y)
                if a in bound:
                    bound = [x for x in bound if x is not a and x is not b] + [y]
                else:
                    n2x = []
                    for ax in axes2:
                        if a in ax:
                            k = ax.index(a)
                            ax = ax[:k] + (y,) + ax[k + 2:]
                        n2x.append(ax)
                    axes2 = n2x
            nfs = [h.subst(mp) for k, h in enumerate(fs) if k not in (i, j)]
            nfs.append(Factor(na, f.conj, [P(y) for y in ys]))
            nt = norm_term(Term(t.coef, t.lm.subst(mp), nfs, bound), {l for a in axes2 for l in a})
            return _fuse_tpow(axes2, nt)
    return axes, terms


# ----------------------------------------------------------------------------- canonical keys
def _axlab(axes):
    lab = {}
    for i, a in enumerate(axes):
        for j, l in enumerate(a):
            lab[l] = "A%d" % i if len(a) == 1 else "A%d.%d" % (i, j)
    return lab


def _fstr(f, lab):
    ids = [p.sid(lab) for p in f.idx]
    if f.atom is DELTA:
        ids = [min(f.idx[0].sid(lab), (-f.idx[0]).sid(lab))]
    return "%s%s[%s]%s" % (f.atom.key, "*" if f.conj else "", ",".join(ids),
                           "" if f.exp == 1 else "^%s" % expstr(f.exp, lab))


def _tstr(t, lab):
    fs = sorted(_fstr(f, lab) for f in t.fs)
    b = sorted("%s<%s%s" % (lab[x], x.dim.sid(lab), "" if x.extra is None else "|" + x.extra.fkey(lab)) for x in t.bound)
    return "%s{%s}Σ(%s)" % ("" if t.lm.const() == ONE else t.lm.sid(lab), "·".join(fs), ",".join(b))


def _refine(t, lab, bound, color):
    """Colour refinement of the bound legs of a term."""
    while True:
        L = dict(lab)
        L.update({b: "c%s" % color[b] for b in bound})
        sig = {}
        for b in bound:
            M = dict(L)
            M[b] = "@"
            occ = sorted(_fstr(f, M) for f in t.fs if b in f.legs())
            if b in t.lm.symbols():
                occ.append("lm" + t.lm.sid(M))
            for x in bound:
                if x is not b and b in x.dim.symbols():
                    occ.append("dim" + x.dim.sid(M))
            sig[b] = (color[b], b.dim.sid(L), "" if b.extra is None else b.extra.fkey(L), tuple(occ))
        ranks = {s: i for i, s in enumerate(sorted(set(sig.values())))}
        new = {b: "%03d" % ranks[sig[b]] for b in bound}
        if len(set(new.values())) == len(set(color.values())):
            return new
        color = new


def _best(t, lab, bound, color):
    color = _refine(t, lab, bound, color)
    classes = {}
    for b in bound:
        classes.setdefault(color[b], []).append(b)
    multi = sorted(c for c, bs in classes.items() if len(bs) > 1)
    if not multi:
        order = sorted(bound, key=lambda b: color[b])
        L = dict(lab)
        L.update({b: "b%d" % i for i, b in enumerate(order)})
        return _tstr(t, L)
    best = None
    for b in classes[multi[0]]:
        c2 = dict(color)
        c2[b] = multi[0] + "!"
        s = _best(t, lab, bound, c2)
        if best is None or s < best:
            best = s
    return best


def struct_key(t, lab):
    if not t.bound:
        return _tstr(t, lab)
    return _best(t, lab, list(t.bound), {b: "000" for b in t.bound})


def body_key(t, lab):
    return "%s|%s" % (t.coef.sid(lab), struct_key(t, lab))


def ten_key(T, lab0=None):
    lab = _axlab(T.axes)
    if lab0:
        lab.update(lab0)
    dims = []
    for a in T.axes:
        dims.append("*".join("%s%s" % (l.dim.sid(lab), "" if l.extra is None else "|" + l.extra.fkey(lab)) for l in a) or "1")
    ts = sorted(body_key(t, lab) for t in T.terms)
    return "[%s]%s" % (",".join(dims), " + ".join(ts) if ts else "0")


def free_legs(T):
    """Context legs: legs that are neither axes nor bound."""
    ax = {l for a in T.axes for l in a}
    out = set()
    for t in T.terms:
        out |= (t.legs() | {x for b in t.bound for x in b.dim.legs()}) - set(t.bound)
        out |= t.coef.legs()
    for l in ax:
        out |= l.dim.legs()
    return out - ax


def canon_open(tens, params):
    """Joint key of several Tens with `params` unlabelled: (key, ordered params)."""
    params = list(params)
    # colour params jointly
    color = {p: "000" for p in params}
    sig0 = None
    while True:
        lab = {p: "q" + color[p] for p in params}
        sig = {}
        for p in params:
            M = dict(lab)
            M[p] = "@"
            sig[p] = (color[p], p.dim.sid(M), tuple(ten_key(T, M) for T in tens))
        ranks = {s: i for i, s in enumerate(sorted(set(sig.values())))}
        new = {p: "%03d" % ranks[sig[p]] for p in params}
        if len(set(new.values())) == len(set(color.values())):
            color = new
            break
        color = new
    groups = {}
    for p in params:
        groups.setdefault(color[p], []).append(p)
    gl = [groups[c] for c in sorted(groups)]
    best = None
    n = 0
    for perms in itertools.product(*[list(itertools.permutations(g)) for g in gl]):
        n += 1
        if n > 130:
            break
        order = [p for g in perms for p in g]
        lab = {p: "p%d" % i for i, p in enumerate(order)}
        k = ";".join(ten_key(T, lab) for T in tens) + "@" + ",".join(p.dim.sid(lab) for p in order)
        if best is None or k < best[0]:
            best = (k, order)
    return best if best is not None else (";".join(ten_key(T) for T in tens) + "@", [])


# -------------------------------------------------------------------------------- renaming
def rename(T, mp):
    """Substitute legs/symbols by index polynomials (context legs, symbols; not own legs)."""
    if not mp:
        return T
    hit = False
    for t in T.terms:
        if (t.coef.symbols() | t.lm.symbols() | {s for f in t.fs for p in f.idx for s in p.symbols()}
                | {s for b in t.bound for s in b.dim.symbols()} | _deep_syms(t)) & set(mp):
            hit = True
            break
    if not hit:
        for a in T.axes:
            for l in a:
                if l.dim.symbols() & set(mp) or (l.extra is not None and l.extra.syms() & set(mp)):
                    hit = True
    if not hit:
        return T
    axmap = {}
    naxes = []
    for a in T.axes:
        na = []
        for l in a:
            if l.dim.symbols() & set(mp) or (l.extra is not None and l.extra.syms() & set(mp)):
                y = leg(l.dim.subst(mp), l.extra.subst(mp) if l.extra is not None else None)
                axmap[l] = P(y)
                na.append(y)
            else:
                na.append(l)
        naxes.append(tuple(na))
    m = dict(mp)
    m.update(axmap)
    out = []
    for t in T.terms:
        bm = {}
        nb = []
        for b in t.bound:
            if b.dim.symbols() & set(m):
                y = leg(b.dim.subst(m), b.extra)
                bm[b] = P(y)
                nb.append(y)
            else:
                nb.append(b)
        mm = dict(m)
        mm.update(bm)
        cur = [Term(t.coef.subst(mm), t.lm.subst(mm), (), nb)]
        extra = []
        fs = []
        for f in t.fs:
            r = _subst_factor(f, mm)
            if isinstance(r, Factor):
                fs.append(r)
            else:
                extra.append(r)
        cur = Term(cur[0].coef, cur[0].lm, fs, nb)
        if extra:
            tt = [cur]
            for e in extra:
                tt = [Term(x.coef * y.coef, x.lm * y.lm, x.fs + y.fs, x.bound + y.bound) for x in tt
                      for y in freshen(e).terms]
            out += tt
        else:
            out.append(cur)
    return mk(naxes, out, T.flags)


def _deep_syms(t):
    s = set()
    for f in t.fs:
        s |= atom_syms(f.atom)
        if isinstance(f.exp, Poly):
            s |= f.exp.symbols()
    return s


_asyms = {}


def atom_syms(a):
    """Integer symbols an atom depends on (through App arguments, tensor powers, sizes)."""
    if a.key in _asyms and a.kind != "in":
        return _asyms[a.key]
    s = set()
    if a.kind == "tpow":
        s |= a.n.symbols() | atom_syms(a.base)
    if a.kind == "app":
        for T in a.args:
            if isinstance(T, Ten):
                for t in T.terms:
                    s |= t.coef.symbols() | t.lm.symbols() | _deep_syms(t)
                    for f in t.fs:
                        for p in f.idx:
                            s |= p.symbols()
                    for b in t.bound:
                        s |= b.dim.symbols()
                for ax in T.axes:
                    for l in ax:
                        s |= l.dim.symbols()
            elif isinstance(T, Poly):
                s |= T.symbols()
        s -= set(a.params)
        s = {x for x in s if x.kind != "leg"} | {x for x in s if x.kind == "leg" and False}
    for d in a.dims:
        s |= {x for x in d.symbols() if x.kind != "leg"}
    if a.kind != "in":
        _asyms[a.key] = s
    return s


def _subst_factor(f, mp):
    idx = [p.subst(mp) for p in f.idx]
    e = f.exp.subst(mp) if isinstance(f.exp, Poly) else f.exp
    a = f.atom
    if not (atom_syms(a) & set(mp)):
        return Factor(a, f.conj, idx, e)
    if a.kind == "in":
        b = atom_in(a.key, [d.subst(mp) for d in a.dims], a.flags)
        return Factor(b, f.conj, idx, e)
    if a.kind == "tpow":
        b = atom_tpow(a.base, a.n.subst(mp))
        return Factor(b, f.conj, idx, e)
    if a.kind == "app":
        return _reapply(a, [rename(T, mp) if isinstance(T, Ten) else (T.subst(mp) if isinstance(T, Poly) else T)
                            for T in a.args], f.conj, idx, e, mp)
    raise Undecided("substitution in " + a.key)


def _reapply(a, nargs, conj, idx, e, mp):
    """Rebuild an App atom after its arguments changed; result is a scalar Ten."""
    np_ = len(a.params)
    par = {}
    for p in a.params:
        par[p] = leg(p.dim.subst(mp))
    ren = {p: P(l) for p, l in par.items()}
    nargs = [rename(T, ren) if isinstance(T, Ten) else T for T in nargs]
    T = APP_REBUILD(a, nargs)
    # T: own axes (ndim - nparams) with context legs = new params
    own = idx[np_:]
    T = freshen(T)
    if len(own) != T.ndim:
        raise Undecided("rebuild of " + a.fname)
    m = {}
    for p, i in zip(a.params, idx[:np_]):
        m[par[p]] = i
    T = rename(T, m)
    for ax, i in zip(T.axes, own):
        pass
    T = index_all(T, own)
    if conj:
        T = conjugate(T)
    if e != 1:
        T = power(T, e)
    return T


APP_REBUILD = None  # set below


def index_all(T, idx):
    """Scalar entry of T at the given index polynomials (no range checks)."""
    T = freshen(T)
    mp = {}
    extra = []
    bound = []
    for ax, i in zip(T.axes, idx):
        if len(ax) == 1:
            mp[ax[0]] = P(i)
        elif len(ax) == 0:
            continue
        else:
            v = P(0)
            for l in ax:
                v = v * l.dim + P(l)
                bound.append(l)
            extra.append(Factor(DELTA, False, [v - P(i)]))
    terms = [Term(t.coef.subst(mp), t.lm.subst(mp), [f.subst(mp) for f in t.fs] + extra, t.bound + tuple(bound))
             for t in T.terms]
    return mk((), terms, T.flags)


def freshen(T):
    mp = {}
    naxes = []
    for a in T.axes:
        na = []
        for l in a:
            y = leg(l.dim, l.extra)
            mp[l] = P(y)
            na.append(y)
        naxes.append(tuple(na))
    ts = []
    for t in T.terms:
        m2 = dict(mp)
        nb = []
        pend = list(t.bound)
        for b in pend:
            y = leg(b.dim, b.extra)
            m2[b] = P(y)
            nb.append(y)
        # dims of bound legs may mention other legs
        fix = {}
        for i, y in enumerate(nb):
            if y.dim.symbols() & set(m2):
                z = leg(y.dim.subst(m2), y.extra)
                fix[y] = P(z)
                nb[i] = z
        t2 = t.subst(m2)
        if fix:
            t2 = t2.subst(fix)
        ts.append(Term(t2.coef, t2.lm, t2.fs, nb))
    r = Ten(naxes, ts, T.flags)
    return r


# ----------------------------------------------------------------------------- operations
def scale(T, p):
    p = P(p)
    return mk(T.axes, [Term(t.coef * p, t.lm, t.fs, t.bound) for t in T.terms])


def neg(T):
    return scale(T, -1)


def _unify(T1, T2, pairs):
    """Identify axis pairs [(i of T1, j of T2)] ; returns (T1', T2') sharing legs on those axes."""
    T1, T2 = freshen(T1), freshen(T2)
    for i, j in pairs:
        T1, T2 = _unify_axis(T1, i, T2, j)
    return T1, T2


def _sub_axis(T, ax, newlegs, mp):
    axes = list(T.axes)
    axes[ax] = tuple(newlegs)
    return Ten(axes, [t.subst(mp) for t in T.terms], T.flags)


def _unify_axis(T1, i, T2, j):
    a, b = T1.axes[i], T2.axes[j]
    d1, d2 = axdim(a), axdim(b)
    if not (d1 - d2).is_zero():
        s = sign(d1 - d2, cur_facts())
        raise ShapeErr("sizes %s and %s combined" % (d1, d2))
    if len(a) == 1 and len(b) == 1:
        fa = a[0].extra.fkey({a[0]: "@"}) if a[0].extra is not None else None
        fb = b[0].extra.fkey({b[0]: "@"}) if b[0].extra is not None else None
        if fa != fb:
            raise Undecided("differently filtered axes combined")
    if [l.dim for l in a] == [l.dim for l in b]:
        return T1, _sub_axis(T2, j, a, {y: P(x) for x, y in zip(a, b)})
    if len(b) == 1:
        v = P(0)
        for l in a:
            v = v * l.dim + P(l)
        return T1, _sub_axis(T2, j, a, {b[0]: v})
    if len(a) == 1:
        v = P(0)
        for l in b:
            v = v * l.dim + P(l)
        return _sub_axis(T1, i, b, {a[0]: v}), T2
    # general: common refinement from the left
    la, lb = list(a), list(b)
    na, nb, m1, m2 = [], [], {}, {}
    out = []
    while la and lb:
        x, y = la[0], lb[0]
        if (x.dim - y.dim).is_zero():
            out.append(x)
            m2[y] = P(x)
            la.pop(0)
            lb.pop(0)
            continue
        q = x.dim.div(y.dim)
        if q is not None and q.is_integral():
            # x = (y', r)
            r = leg(q)
            out.append(y)
            m1[x] = P(y) * q + P(r)
            la[0] = r
            lb.pop(0)
            continue
        q = y.dim.div(x.dim)
        if q is not None and q.is_integral():
            r = leg(q)
            out.append(x)
            m2[y] = P(x) * q + P(r)
            lb[0] = r
            la.pop(0)
            continue
        raise Undecided("axes factored differently")

    def close(m):
        for _ in range(4):
            m = {k: v.subst(m) if not (v.symbols() & {k}) else v for k, v in m.items()}
        return m
    m1, m2 = close(m1), close(m2)
    return _sub_axis(T1, i, out, m1), _sub_axis(T2, j, out, m2)


def _prod_terms(A, B):
    return [Term(x.coef * y.coef, x.lm * y.lm, x.fs + y.fs, x.bound + y.bound) for x in A for y in B]


def broadcast(T1, T2):
    """Align from the right; unit axes broadcast."""
    T1, T2 = freshen(T1), freshen(T2)
    n = max(T1.ndim, T2.ndim)
    a1 = [()] * (n - T1.ndim) + list(T1.axes)
    a2 = [()] * (n - T2.ndim) + list(T2.axes)
    T1 = Ten(a1, T1.terms, T1.flags)
    T2 = Ten(a2, T2.terms, T2.flags)
    for k in range(n):
        if T1.axes[k] == () or T2.axes[k] == ():
            continue
        T1, T2 = _unify_axis(T1, k, T2, k)
    axes = [x if x != () else y for x, y in zip(T1.axes, T2.axes)]
    return T1, T2, axes


def add(T1, T2):
    T1, T2, axes = broadcast(T1, T2)
    return mk(axes, T1.terms + T2.terms)


def sub(T1, T2):
    return add(T1, neg(T2))


def mul(T1, T2):
    T1, T2, axes = broadcast(T1, T2)
    return mk(axes, _prod_terms(T1.terms, T2.terms))


def conjugate(T):
    out = []
    for t in T.terms:
        c = Poly({m: (x[0], -x[1]) for m, x in t.coef.terms.items()})
        fs = []
        for f in t.fs:
            if f.atom.kind == "app" and "real" not in f.atom.flags and f.atom.fname in ("pow", "val") and False:
                pass
            fs.append(Factor(f.atom, not f.conj, f.idx, f.exp))
        out.append(Term(c, t.lm, fs, t.bound))
    return mk(T.axes, out)


def transpose(T, perm=None):
    perm = list(perm) if perm is not None else list(range(T.ndim))[::-1]
    perm = [p % T.ndim for p in perm] if T.ndim else perm
    return mk([T.axes[p] for p in perm], T.terms)


def _sumfilter(t, ls):
    """Terms after binding the legs ls (adding filters as indicator factors)."""
    terms = [Term(t.coef, t.lm, t.fs, t.bound + tuple(l for l in ls))]
    return terms


def sum_axes(T, axs):
    axs = [a % T.ndim for a in axs]
    T = freshen(T)
    ls = [l for a in axs for l in T.axes[a]]
    terms = []
    for t in T.terms:
        terms += bind(t, ls)
    return mk([a for i, a in enumerate(T.axes) if i not in axs], terms)


def bind(t, ls):
    """Bind legs of a term, turning index filters into indicator factors."""
    cur = [t]
    nl = []
    mp = {}
    for l in ls:
        if l.extra is not None:
            y = leg(l.dim)
            F = l.extra.at(y)
            mp[l] = P(y)
            nl.append(y)
            cur = [Term(x.coef * y2.coef, x.lm * y2.lm, x.fs + y2.fs, x.bound + y2.bound)
                   for x in cur for y2 in freshen(F).terms]
        else:
            nl.append(l)
    cur = [Term(x.coef, x.lm.subst(mp), [f.subst(mp) for f in x.fs], x.bound + tuple(nl)) for x in cur] if mp else \
        [Term(x.coef, x.lm, x.fs, x.bound + tuple(nl)) for x in cur]
    return cur


def sum_leg(T, l):
    """Sum over a context leg."""
    T2 = freshen(T)
    terms = []
    y = leg(l.dim, l.extra)
    for t in T2.terms:
        terms += bind(t.subst({l: P(y)}) if not t.coef.legs() else
                      Term(P(1), t.lm * t.coef, t.fs, t.bound).subst({l: P(y)}), [y])
    # each term must have its own bound legs; mk/norm handles shared leg objects per term
    return mk(T2.axes, terms)


def einsum(spec, *Ts):
    ins, out = spec.replace(" ", "").split("->") if "->" in spec else (spec.replace(" ", ""), None)
    ins = ins.split(",")
    if out is None:
        from collections import Counter
        c = Counter("".join(ins))
        out = "".join(sorted(x for x in c if c[x] == 1))
    if len(ins) != len(Ts):
        raise ShapeErr("einsum operand count")
    if "." in spec:
        raise Undecided("einsum ellipsis")
    acc = const(1)
    names = []
    for s, T in zip(ins, Ts):
        if len(s) != T.ndim:
            raise ShapeErr("einsum '%s' on a %d-dimensional operand" % (s, T.ndim))
        T = freshen(T)
        # diagonalise repeated indices inside one operand
        seen = {}
        k = 0
        while k < len(s):
            if s[k] in seen:
                T = _diag(T, seen[s[k]], k)
                s = s[:k] + s[k + 1:]
            else:
                seen[s[k]] = k
                k += 1
        # align with accumulated legs
        acc = freshen(acc)
        T = freshen(T)
        for k, ch in enumerate(s):
            if ch in names:
                acc, T = _unify_axis(acc, names.index(ch), T, k)
        axes = list(acc.axes)
        for k, ch in enumerate(s):
            if ch not in names:
                names.append(ch)
                axes.append(T.axes[k])
        acc = mk(axes, _prod_terms(acc.terms, T.terms)) if False else Ten(axes, _prod_terms(acc.terms, T.terms))
    drop = [k for k, ch in enumerate(names) if ch not in out]
    ls = [l for k in drop for l in acc.axes[k]]
    terms = []
    for t in acc.terms:
        terms += bind(t, ls)
    try:
        axes = [acc.axes[names.index(ch)] for ch in out]
    except ValueError:
        raise ShapeErr("einsum output index")
    return mk(axes, terms)


def _diag(T, i, j):
    """Identify axis j with axis i of the same Ten."""
    a, b = T.axes[i], T.axes[j]
    if not (axdim(a) - axdim(b)).is_zero():
        raise ShapeErr("diagonal of sizes %s and %s" % (axdim(a), axdim(b)))
    if [l.dim for l in a] == [l.dim for l in b]:
        mp = {y: P(x) for x, y in zip(a, b)}
        axes = [x for k, x in enumerate(T.axes) if k != j]
        return Ten(axes, [t.subst(mp) for t in T.terms])
    if len(b) == 1:
        v = P(0)
        for l in a:
            v = v * l.dim + P(l)
        axes = [x for k, x in enumerate(T.axes) if k != j]
        return Ten(axes, [t.subst({b[0]: v}) for t in T.terms])
    if len(a) == 1:
        v = P(0)
        for l in b:
            v = v * l.dim + P(l)
        axes = list(T.axes)
        axes[i] = b
        axes = [x for k, x in enumerate(axes) if k != j]
        return Ten(axes, [t.subst({a[0]: v}) for t in T.terms])
    va, vb = P(0), P(0)
    for l in a:
        va = va * l.dim + P(l)
    for l in b:
        vb = vb * l.dim + P(l)
    axes = [x for k, x in enumerate(T.axes) if k != j]
    return Ten(axes, [Term(t.coef, t.lm, t.fs + (Factor(DELTA, False, [va - vb]),), t.bound + tuple(b)) for t in T.terms])


def trace(T, a1=0, a2=1, off=0):
    a1, a2 = a1 % T.ndim, a2 % T.ndim
    if a1 == a2:
        raise ShapeErr("trace over one axis")
    T = freshen(T)
    i, j = min(a1, a2), max(a1, a2)
    T = _diag(T, i, j)
    return sum_axes(Ten(T.axes, T.terms), [i])


_EIN = "abcdefghijklmnopqrstuvwxyz"


def tensordot(A, B, ax):
    if isinstance(ax, int):
        x = list(range(A.ndim - ax, A.ndim))
        y = list(range(ax))
    else:
        x, y = ax
        x = [x] if isinstance(x, int) else list(x)
        y = [y] if isinstance(y, int) else list(y)
    x = [k % A.ndim for k in x]
    y = [k % B.ndim for k in y]
    sa = list(_EIN[:A.ndim])
    sb = list(_EIN[A.ndim:A.ndim + B.ndim])
    for i, j in zip(x, y):
        sb[j] = sa[i]
    out = [c for k, c in enumerate(sa) if k not in x] + [c for k, c in enumerate(sb) if k not in y]
    return einsum("%s,%s->%s" % ("".join(sa), "".join(sb), "".join(out)), A, B)


def matmul(A, B):
    if A.ndim == 0 or B.ndim == 0:
        raise ShapeErr("matmul of a scalar")
    if A.ndim == 1 and B.ndim == 1:
        return einsum("a,a->", A, B)
    if B.ndim == 1:
        s = _EIN[:A.ndim]
        return einsum("%s,%s->%s" % (s, s[-1], s[:-1]), A, B)
    if A.ndim == 1:
        s = _EIN[:B.ndim]
        return einsum("%s,%s->%s" % (s[-2], s, s[:-2] + s[-1]), A, B)
    n = max(A.ndim, B.ndim) - 2
    bl = _EIN[:n]
    # unit batch axes broadcast
    sa = bl[n - (A.ndim - 2):]
    sb = bl[n - (B.ndim - 2):]
    ua = [k for k in range(A.ndim - 2) if A.axes[k] == () and B.ndim - 2 >= A.ndim - 2 - k and
          B.axes[B.ndim - 2 - (A.ndim - 2 - k)] != ()]
    ub = [k for k in range(B.ndim - 2) if B.axes[k] == () and A.ndim - 2 >= B.ndim - 2 - k and
          A.axes[A.ndim - 2 - (B.ndim - 2 - k)] != ()]
    if ua:
        A = mk([x for k, x in enumerate(A.axes) if k not in ua], A.terms)
        sa = "".join(c for k, c in enumerate(sa) if k not in ua)
    if ub:
        B = mk([x for k, x in enumerate(B.axes) if k not in ub], B.terms)
        sb = "".join(c for k, c in enumerate(sb) if k not in ub)
    return einsum("%sxy,%syz->%sxz" % (sa, sb, bl), A, B)


def dot(A, B):
    if A.ndim == 0 or B.ndim == 0:
        return mul(A, B)
    if B.ndim <= 2:
        return tensordot(A, B, ([A.ndim - 1], [max(B.ndim - 2, 0)]))
    return tensordot(A, B, ([A.ndim - 1], [B.ndim - 2]))


def kron(A, B):
    A, B = freshen(A), freshen(B)
    n = max(A.ndim, B.ndim)
    a = [()] * (n - A.ndim) + list(A.axes)
    b = [()] * (n - B.ndim) + list(B.axes)
    return mk([x + y for x, y in zip(a, b)], _prod_terms(A.terms, B.terms))


def outer(A, B):
    A, B = freshen(A), freshen(B)
    A = reshape(A, [None])
    B = reshape(B, [None])
    return mk([A.axes[0], B.axes[0]], _prod_terms(A.terms, B.terms))


def reshape(T, shape, order="C"):
    """shape: list of Poly, or None for -1."""
    T = freshen(T)
    shape = [P(s) if s is not None else None for s in shape]
    total = P(1)
    for a in T.axes:
        total = total * axdim(a)
    if any(s is None for s in shape):
        k = shape.index(None)
        q = total
        for i, s in enumerate(shape):
            if i != k:
                q = q.div(s)
                if q is None:
                    raise Undecided("reshape with -1")
        shape[k] = q
    prod = P(1)
    for s in shape:
        prod = prod * s
    if not (prod - total).is_zero():
        raise ShapeErr("reshape of %s entries to %s" % (total, prod))
    if total.is_zero():
        return zeros(shape)
    axes = list(T.axes)
    shp = list(shape)
    if order == "F":
        axes = axes[::-1]
        shp = shp[::-1]
    legs = [l for a in axes for l in a]
    if any(l.extra is not None for l in legs) and not (len(shp) == 1 and len(legs) == 1):
        raise Undecided("reshape of a filtered array")
    mp = {}
    out = []
    legs = list(legs)
    for s in shp:
        cur = []
        have = P(1)
        while not (have - s).is_zero():
            if not legs:
                raise Undecided("reshape boundary")
            l = legs.pop(0)
            need = s.div(have)
            if need is None:
                raise Undecided("reshape boundary")
            q = need.div(l.dim)
            if q is not None and q.is_integral():
                cur.append(l)
                have = have * l.dim
                continue
            q = l.dim.div(need)
            if q is not None and q.is_integral():
                x, y = leg(need), leg(q)
                mp[l] = P(x) * q + P(y)
                cur.append(x)
                legs.insert(0, y)
                have = have * need
                continue
            raise Undecided("reshape boundary %s vs %s" % (l.dim, need))
        out.append(tuple(cur))
    # remaining unit legs
    if order == "F":
        out = out[::-1]
    for _ in range(5):
        mp = {k: v.subst({x: y for x, y in mp.items() if x is not k}) for k, v in mp.items()}
    return mk(out, [t.subst(mp) for t in T.terms])


def _at(p):
    """(leg, value) of a delta argument that says "this leg has this constant value", else None."""
    ts = p.terms
    if len(ts) > 2:
        return None
    l, s, c = None, 0, 0
    for m, q in ts.items():
        if q[1] != 0:
            return None
        if m == ():
            c = q[0]
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "leg" and abs(q[0]) == 1 and l is None:
            l, s = m[0][0], q[0]
        else:
            return None
    return None if l is None else (l, -c * s)


def _pick(T, ax, k):
    """T[..., k, ...] of an array listed entry by entry along an axis, else None."""
    a = T.axes[ax]
    if len(a) != 1 or a[0].extra is not None or any(len(x) > 1 for x in T.axes) or not 0 <= k < (a[0].dim.as_int() or 0):
        return None
    out = []
    for t in T.terms:
        hit = None
        for i, f in enumerate(t.fs):
            if f.atom is DELTA and len(f.idx) == 1:
                v = _at(f.idx[0])
                if v is not None and v[0] is a[0]:
                    hit = (i, v[1])
                    break
        if hit is None:
            return None
        if hit[1] != k:
            continue
        t2 = Term(t.coef, t.lm, t.fs[:hit[0]] + t.fs[hit[0] + 1:], t.bound)
        if a[0] in t2.legs() or any(a[0] in b.dim.legs() for b in t.bound):
            return None
        out.append(t2)
    return Ten([x for i, x in enumerate(T.axes) if i != ax], out)


def index_axis(T, ax, p):
    """T[..., p, ...] with an index polynomial on axis ax (drops the axis)."""
    k = p if isinstance(p, int) else P(p).as_int()
    if k is not None:
        r = _pick(T, ax, k)
        if r is not None:
            return freshen(r)
    T = freshen(T)
    a = T.axes[ax]
    p = P(p)
    axes = [x for k, x in enumerate(T.axes) if k != ax]
    if len(a) == 0:
        return mk(axes, T.terms)
    if len(a) == 1:
        if a[0].extra is not None:
            raise Undecided("index into a filtered axis")
        return mk(axes, [t.subst({a[0]: p}) for t in T.terms])
    v = P(0)
    for l in a:
        v = v * l.dim + P(l)
    return mk(axes, [Term(t.coef, t.lm, t.fs + (Factor(DELTA, False, [v - p]),), t.bound + a) for t in T.terms])


def slice_axis(T, ax, start, stop, step=1):
    """T[start:stop:step] on one axis; bounds are index polynomials within range."""
    T = freshen(T)
    a = T.axes[ax]
    d = axdim(a)
    start, stop = P(start), P(stop)
    if step == -1:
        y = leg(d)
        new = d - 1 - P(y)
    elif step != 1:
        q = (stop - start)
        if not isinstance(step, int) or step < 1:
            raise Undecided("strided slice")
        for j in range(step):       # ceil(q / step)
            n = (q + j) * P(Fr(1, step))
            if n.is_integral():
                break
        else:
            raise Undecided("strided slice")
        y = leg(n)
        new = start + P(y) * step
    else:
        y = leg(stop - start)
        new = start + P(y)
        if start.is_zero() and (stop - d).is_zero():
            return T
    axes = list(T.axes)
    axes[ax] = (y,)
    if len(a) == 1:
        if a[0].extra is not None:
            raise Undecided("slice of a filtered axis")
        return mk(axes, [t.subst({a[0]: new}) for t in T.terms])
    v = P(0)
    for l in a:
        v = v * l.dim + P(l)
    return mk(axes, [Term(t.coef, t.lm, t.fs + (Factor(DELTA, False, [v - new]),), t.bound + a) for t in T.terms])


def stack_leg(T, l, N=None):
    """Turn a context leg into a new leading axis."""
    T = freshen(T)
    y = leg(l.dim, l.extra)
    return mk([(y,)] + list(T.axes), [_tsub(t, {l: P(y)}) for t in T.terms])


def _tsub(t, mp):
    if t.coef.legs():
        return Term(P(1), (t.coef * t.lm).subst(mp), [f.subst(mp) for f in t.fs], t.bound)
    return t.subst(mp)


def stack_list(Ts):
    """np.array([T0, T1, ...]) of a concrete list."""
    n = len(Ts)
    if n == 1:
        T = Ts[0]
        return mk([()] + list(T.axes), T.terms)
    y = leg(P(n))
    out = None
    first = freshen(Ts[0])
    axes = None
    terms = []
    for k, T in enumerate(Ts):
        T = freshen(T)
        if k == 0:
            base = T
        else:
            for j in range(base.ndim):
                if T.ndim != base.ndim:
                    raise ShapeErr("ragged array")
                if base.axes[j] == () and T.axes[j] == ():
                    continue
                base, T = _unify_axis(base, j, T, j)
        terms += [Term(t.coef, t.lm, t.fs + (Factor(DELTA, False, [P(y) - k]),), t.bound) for t in T.terms]
    # a later unification may have refined base axes; only safe when no refinement happened
    return mk([(y,)] + list(base.axes), terms)


# -------------------------------------------------------------------------- opaque functions
def _params_of(tens):
    s = set()
    for T in tens:
        s |= free_legs(T)
    return s


def app_atom(fname, tens, outdims, flags=(), extra=None, keyf=None):
    """Opaque function of whole (closed up to context legs) tensors.

    Returns a Ten whose axes are outdims; context legs of the arguments become parameters."""
    params = sorted(_params_of(tens), key=lambda s: s.key)
    k, order = canon_open(tens, params)
    a = Atom()
    a.kind = "app"
    a.fname = fname
    a.extra = extra
    a.key = "%s%s⟨%s⟩" % (fname, "" if extra is None else "{%s}" % (extra,), k)
    a.params = tuple(order)
    a.args = tuple(tens)
    a.dims = tuple(p.dim for p in order) + tuple(P(d) for d in outdims)
    a.ndim = len(a.dims)
    a.flags = frozenset(flags)
    a.base = a.n = None
    ls = [leg(d) for d in outdims]
    return mk([(l,) for l in ls], [Term(P(1), P(1), [Factor(a, False, [P(p) for p in order] + [P(l) for l in ls])], ())])


def elem(fname, *Ts, flags=(), extra=None):
    """Elementwise opaque function."""
    Ts = list(Ts)
    axes = ()
    acc = Ts[0]
    outs = [freshen(acc)]
    axes = outs[0].axes
    for T in Ts[1:]:
        base = Ten(axes, ())
        b2, T2, ax2 = broadcast(base, T)
        # keep first operand's legs
        m = {}
        if len(b2.axes) != len(axes):
            n = len(ax2)
        ren = {}
        for old, new in zip(axes, b2.axes[len(b2.axes) - len(axes):]):
            if len(old) != len(new):
                raise Undecided("elementwise function of differently factored axes")
            for x, y in zip(old, new):
                ren[x] = P(y)
        outs = [Ten(o.axes, [t.subst(ren) for t in o.terms]) for o in outs]
        axes = ax2
        outs.append(T2)
    scal = [mk((), o.terms) for o in outs]
    R = elem_scalar(fname, scal, flags, extra)
    return mk(axes, freshen_bound(R).terms)


def freshen_bound(T):
    return freshen(T)


def elem_scalar(fname, scal, flags=(), extra=None):
    return app_atom(fname, scal, (), flags, extra)


def single(T):
    """The only term of a Ten, or None."""
    return T.terms[0] if len(T.terms) == 1 else None


def as_poly(T):
    """Index polynomial of a scalar Ten without array entries, else None."""
    if not isinstance(T, Ten) or T.axes:
        return None
    r = P(0)
    for t in T.terms:
        if t.bound:
            return None
        if t.fs:
            return None
        r = r + t.coef * t.lm
    return r


def is_real(T):
    for t in T.terms:
        for m, c in t.coef.terms.items():
            if c[1] != 0:
                return False
        for f in t.fs:
            if "real" not in f.atom.flags and "bit" not in f.atom.flags and "ind" not in f.atom.flags:
                return _real_by_conj(T)
    return True


def _real_by_conj(T):
    return conjugate(T).key() == T.key()


def lead(T):
    """(sign-carrying rational coefficient) of the first canonical term."""
    lab = _axlab(T.axes)
    best = None
    for t in T.terms:
        k = struct_key(t, lab) + "|" + "+".join(sorted(_mono_sid(m) for m in t.coef.terms))
        if best is None or k < best[0]:
            m = min(t.coef.terms, key=_mono_sid)
            best = (k, t.coef.terms[m])
    return best[1] if best else None


def _mono_sid(m):
    return Poly({m: ONE}).sid()


def tabs(T):
    r = by_entry(tabs, T)
    if r is not None:
        return r
    c = as_poly(T)
    if c is not None and c.as_fr() is not None:
        return const(abs(c.as_fr()))
    t = single(T)
    if T.axes == () or True:
        if t is not None and not t.bound and not t.coef.legs() and t.lm.const() == ONE:
            k = t.coef.as_fr()
            if k is not None and all("nn" in f.atom.flags or "ind" in f.atom.flags or "bit" in f.atom.flags for f in t.fs):
                return T if k >= 0 else neg(T)
            cc = t.coef.const()
            if cc is not None and cc != ONE and cc != ZERO:
                n2 = cc[0] * cc[0] + cc[1] * cc[1]
                r = P(n2).pow(Fr(1, 2)) if not (cc[1] == 0) else P(abs(cc[0]))
                rest = mk(T.axes, [Term(P(1), t.lm, t.fs, t.bound)])
                return scale(tabs(rest), r)
    if not T.terms:
        return T
    L = lead(T)
    if L is not None and L[1] == 0 and L[0] < 0:
        T = neg(T)
    # conj-invariance: |z| = |conj z|
    C = conjugate(T)
    if C.key() < T.key():
        T = C
    return elem("abs", T, flags=("real", "nn"))


def real(T):
    return scale(add(T, conjugate(T)), Fr(1, 2))


def imag(T):
    return scale(sub(T, conjugate(T)), Poly({(): (Fr(0), Fr(-1, 2))}))


def power(T, e):
    if isinstance(e, Poly):
        c = e.as_fr()
        if c is not None:
            e = int(c) if c.denominator == 1 else c
    if isinstance(e, Fr) and e.denominator == 1:
        e = int(e)
    p = as_poly(T)
    if p is not None and not (p.legs() and not isinstance(e, int)):
        q = p.pow(e)
        if q is not None:
            return from_poly(q)
    if e == 1:
        return T
    if isinstance(e, int) and e == 0:
        return full(T.shape, 1)
    t = single(T)
    if t is not None and not t.bound and t.lm.const() == ONE:
        cp = t.coef.pow(e)
        if cp is not None:
            if isinstance(e, int) and e > 0:
                if e % 2 == 0 and any(f.atom.kind == "app" and f.atom.fname == "abs" for f in t.fs):
                    pass
                else:
                    return mk(T.axes, [Term(cp, P(1), [Factor(f.atom, f.conj, f.idx, expmul(f.exp, e)) for f in t.fs], ())])
            else:
                if all(f.exp == 1 or "nn" in f.atom.flags for f in t.fs):
                    return mk(T.axes, [Term(cp, P(1), [Factor(f.atom, f.conj, f.idx, expmul(f.exp, e)) for f in t.fs], ())])
    if isinstance(e, int) and 0 < e <= 6:
        if e % 2 == 0:
            sq = _square(T)
            return power(sq, e // 2)
        r = T
        for _ in range(e - 1):
            r = mul(r, T)
        return r
    # general: opaque value with an exponent, leading coefficient pulled out
    if isinstance(e, (int, Fr)):
        L = lead(T)
        c = P(1)
        if L is not None and L != ONE:
            if isinstance(e, int) or (L[1] == 0 and L[0] > 0):
                q = Poly({(): L}).pow(e)
                if q is not None:
                    c = q
                    T = scale(T, Poly({(): cinv(L)}))
        t = single(T)
        if t is not None and not t.bound and t.fs and all(f.exp == 1 for f in t.fs) and t.coef.const() == ONE and t.lm.const() == ONE:
            return scale(mk(T.axes, [Term(P(1), P(1), [Factor(f.atom, f.conj, f.idx, e) for f in t.fs], ())]), c)
        V = elem("val", T, flags=("real",) if is_real(T) else ())
        tt = V.terms[0]
        V = mk(V.axes, [Term(tt.coef, tt.lm, [Factor(f.atom, f.conj, f.idx, e) for f in tt.fs], tt.bound)])
        return scale(V, c)
    return elem("pow", T, from_poly(P(e)))


def _square(T):
    """T*T with |z|^2 = z conj(z)."""
    t = single(T)
    if t is not None and not t.bound and t.lm.const() == ONE:
        out = mk(T.axes, [Term(t.coef * t.coef, P(1), (), ())])
        for f in t.fs:
            if f.atom.kind == "app" and f.atom.fname == "abs" and f.exp == 1:
                A = f.atom.args[0]
                mp = {p: i for p, i in zip(f.atom.params, f.idx)}
                A = rename(A, mp)
                z = _ctxmul(A, conjugate(A))
            else:
                z = Ten((), [Term(P(1), P(1), [Factor(f.atom, f.conj, f.idx, expmul(f.exp, 2))], ())])
            z = freshen(z)
            out = mk(out.axes, _prod_terms(out.terms, z.terms))
        return out
    return mul(T, T)


def _ctxmul(A, B):
    A, B = freshen(A), freshen(B)
    return mk((), _prod_terms(A.terms, B.terms))


def div(A, B):
    """A / B elementwise."""
    return mul(A, power(B, -1))


# ----------------------------------------------------------------------- indicators (booleans)
def _bits(T):
    """Bit factors of a scalar Ten that is a polynomial in bits with rational coefficients."""
    bits = {}
    for t in T.terms:
        if t.bound or t.coef.as_fr() is None or t.lm.const() != ONE:
            return None
        for f in t.fs:
            if not ("bit" in f.atom.flags or "ind" in f.atom.flags) or f.exp != 1 or f.conj:
                return None
            bits[_fstr(f, {})] = f
    return bits if len(bits) <= 5 else None


def truth(T, pred):
    """Indicator of pred(value) for a Ten that is a polynomial in few bits; None otherwise."""
    bits = _bits(T)
    if bits is None:
        return None
    ks = sorted(bits)
    out = []
    for vals in itertools.product((0, 1), repeat=len(ks)):
        v = dict(zip(ks, vals))
        s = Fr(0)
        for t in T.terms:
            x = t.coef.as_fr()
            for f in t.fs:
                x *= v[_fstr(f, {})]
            s += x
        if pred(s):
            term = [Term(P(1), P(1), (), ())]
            for k in ks:
                f = bits[k]
                if v[k]:
                    term = [Term(x.coef, x.lm, x.fs + (f,), ()) for x in term]
                else:
                    term = term + [Term(-x.coef, x.lm, x.fs + (f,), ()) for x in term]
            out += term
    return mk((), out, ("bool",))


def _intlike(T):
    """Entries known to be integers."""
    for t in T.terms:
        if not (t.coef * t.lm).is_integral():
            return False
        for f in t.fs:
            if not (f.atom.flags & {"bit", "ind", "int"}):
                return False
    return True


def eq0(T):
    """Indicator of T == 0, elementwise."""
    if T.axes:
        r = by_entry(lambda v: sub(const(1), eq0(v)), T)
        if r is not None:
            return _bool(sub(full(T.shape, 1), r))
        return _pointwise(eq0, T)
    p = as_poly(T)
    if p is not None:
        c = p.const()
        if c is not None:
            return const(1 if c == ZERO else 0)
        return Ten((), delta(p).terms, ("bool",))
    r = truth(T, lambda v: v == 0)
    if r is not None:
        return r
    L = lead(T)
    T = scale(T, Poly({(): cinv(L)}))
    t = single(T)
    if t is not None and not t.bound and len(t.fs) == 1 and t.fs[0].atom.kind == "app" and t.fs[0].atom.fname == "abs":
        return eq0(rename(t.fs[0].atom.args[0], dict(zip(t.fs[0].atom.params, t.fs[0].idx))))
    return Ten((), elem("eq0", T, flags=("ind", "real", "nn")).terms, ("bool",))


def pos(T):
    """Indicator of T > 0 (T real), elementwise."""
    if T.axes:
        r = by_entry(pos, T)
        if r is not None:
            return _bool(r)
        return _pointwise(pos, T)
    p = as_poly(T)
    if p is not None:
        c = p.as_fr()
        if c is not None:
            return const(1 if c > 0 else 0)
        s = None
        if nonneg(p - 1, cur_facts()):
            return const(1)
        if nonneg(-p, cur_facts()):
            return const(0)
    r = truth(T, lambda v: v > 0)
    if r is not None:
        return r
    r = _tiny(T)
    if r is not None:
        return r
    L = lead(T)
    if L[1] != 0:
        raise Undecided("order of complex values")
    T = scale(T, P(1 / abs(L[0])))
    if L[0] < 0:
        if p is not None or _intlike(T):
            d = 1
            for q in T.terms:
                for c in (q.coef * q.lm).terms.values():
                    d = d * c[0].denominator // math.gcd(d, c[0].denominator)
            return lnot(pos(add(const(1), neg(scale(T, P(d))))))
    return Ten((), elem("pos", T, flags=("ind", "real", "nn")).terms, ("bool",))


TINY = Fr(1, 1000)


def _tiny(T):
    """A magnitude compared with a tolerance is read as compared with zero."""
    c = m = None
    for t in T.terms:
        if t.bound or t.lm.as_int() != 1:
            return None
        if not t.fs:
            c = t.coef.as_fr()
            if c is None:
                return None
        elif len(t.fs) == 1 and t.fs[0].atom.kind == "app" and t.fs[0].atom.fname == "abs" and t.fs[0].exp == 1 and m is None:
            m = t
        else:
            return None
    if c is None or m is None:
        return None
    k = m.coef.as_fr()
    if k is None or not 0 < abs(c / k) <= TINY or (c > 0) == (k > 0):
        return None
    f = m.fs[0]
    z = eq0(Ten((), [Term(P(1), P(1), [f], ())]))
    return z if c > 0 else lnot(z)


def _intscale(T):
    return all((t.coef * t.lm).is_integral() for t in T.terms)


def nonneg_ind(T):
    """Indicator of T >= 0."""
    return lnot(pos(neg(T)))


def _pointwise(f, T):
    T = freshen(T)
    R = f(Ten((), mk((), T.terms).terms))
    return mk(T.axes, freshen(R).terms, ("bool",))


def lnot(T):
    return Ten(T.axes, sub(full(T.shape, 1), T).terms if not T.axes else sub(full(T.shape, 1), T).terms, ("bool",)) \
        if not T.axes else _bool(sub(full(T.shape, 1), T))


def _bool(T):
    return Ten(T.axes, T.terms, ("bool",))


def land(A, B):
    return _bool(mul(A, B))


def lor(A, B):
    return lnot(land(lnot(A), lnot(B)))


def ite(c, a, b):
    """Elementwise if-then-else with scalar condition."""
    return add(mul(c, a), mul(lnot(c), b))


def exists(T, legs):
    """Indicator that the indicator T holds for some value of the context legs."""
    T = mk((), T.terms)
    p = as_poly(T)
    if p is not None and p.const() is not None:
        if p.const() == ZERO:
            return const(0)
        return const(1) if all(nonneg(l.dim - 1, cur_facts()) for l in legs) else pos(from_poly(legs[0].dim))
    fl = free_legs(T)
    legs = [l for l in legs if l in fl]
    if not legs:
        return T
    vs = grid(T.terms, legs)
    if vs is not None:
        return const(1 if any(v != ZERO for v in vs) else 0)
    # nested existential: flatten
    t = single(T)
    if t is not None and not t.bound and t.coef.const() == ONE and t.lm.const() == ONE and len(t.fs) == 1 \
            and t.fs[0].atom.kind == "app" and t.fs[0].atom.fname == "exists":
        f = t.fs[0]
        A = rename(f.atom.args[0], dict(zip(f.atom.params, f.idx)))
        A = freshen(A)
        ql = []
        mp = {}
        for a in A.axes:
            for l in a:
                y = leg(l.dim)
                mp[l] = P(y)
                ql.append(y)
        body = Ten((), [x.subst(mp) for x in A.terms])
        return exists(body, list(legs) + ql)
    # pull out factors common to all terms that do not depend on the legs
    # closed body: quantified legs become axes in canonical order
    k, order = canon_open([T], [l for l in fl])
    ql = [l for l in order if l in legs]
    mp = {}
    ax = []
    for l in ql:
        y = leg(l.dim)
        mp[l] = P(y)
        ax.append((y,))
    body = Ten(ax, [_tsub(x, mp) for x in freshen(T).terms])
    r = app_atom("exists", [body], (), ("ind", "real", "nn"))
    return _bool(r)


# -------------------------------------------------------------------------- mod 2
def listed(T):
    """[(position deltas, scalar Ten)] of an array given entry by entry (entries not listed are zero), else None."""
    legs = {}
    for a in T.axes:
        if any(l.extra is not None for l in a):
            return None
        for l in a:
            legs[l] = len(legs)
    grp = {}
    for t in T.terms:
        pos, fs, rest = [None] * len(legs), [None] * len(legs), []
        for f in t.fs:
            v = _at(f.idx[0]) if f.atom is DELTA and len(f.idx) == 1 else None
            if v is not None and v[0] in legs and pos[legs[v[0]]] is None:
                pos[legs[v[0]]], fs[legs[v[0]]] = v[1], f
            else:
                rest.append(f)
        if None in pos:
            return None
        t2 = Term(t.coef, t.lm, rest, t.bound)
        if any(l in legs for l in t2.legs()):
            return None
        grp.setdefault(tuple(pos), (fs, []))[1].append(t2)
    return [(fs, Ten((), ts)) for fs, ts in grp.values()]


def listwise(T, fn):
    """fn applied to each entry of an array given entry by entry (fn maps zero to zero), else None."""
    L = listed(T)
    if L is None:
        return None
    out = []
    for fs, v in L:
        out += [Term(t.coef, t.lm, list(fs) + list(t.fs), t.bound) for t in freshen(fn(v)).terms]
    return Ten(T.axes, out)


def grid(terms, legs, limit=4096, points=False):
    """Values of a sum of constants placed by deltas over all values of some legs: [(re, im)] (points: with all positions), or None."""
    n = 1
    dims = []
    for l in legs:
        d = l.dim.as_int()
        if d is None or l.extra is not None:
            return None
        dims.append(d)
        n *= d
    if n > limit or len(terms) * 2 > limit:
        return None
    ix = {l: i for i, l in enumerate(legs)}
    acc = {}
    wild = []
    for t in terms:
        c = t.coef.const()
        if c is None or t.bound or t.lm.const() != ONE:
            return None
        pos = [None] * len(legs)
        dead = False
        lin = []
        for f in t.fs:
            v = _at(f.idx[0]) if f.atom is DELTA and len(f.idx) == 1 else None
            if v is None or v[0] not in ix:
                q = _linear(f.idx[0], ix) if f.atom is DELTA and len(f.idx) == 1 else None
                if q is None:
                    return None
                lin.append(q)
                continue
            i = ix[v[0]]
            dead = dead or pos[i] not in (None, v[1]) or not 0 <= v[1] < dims[i]
            pos[i] = v[1]
        if dead:
            continue
        if None in pos or lin:
            wild.append((pos, c, lin))
        else:
            q = acc.get(tuple(pos), ZERO)
            acc[tuple(pos)] = (q[0] + c[0], q[1] + c[1])
    if not wild and not points:
        return list(acc.values()) + ([ZERO] if len(acc) < n else [])
    out = []
    import itertools as _it
    pts = list(_it.product(*[range(d) for d in dims]))
    for pt in pts:
        v = acc.get(pt, ZERO)
        for pos, c, lin in wild:
            if all(a is None or a == b for a, b in zip(pos, pt)) and all(c0 + sum(k * pt[i] for i, k in ks) == 0 for c0, ks in lin):
                v = (v[0] + c[0], v[1] + c[1])
        out.append(v)
    return (out, pts) if points else out


def _linear(p, ix):
    """(constant, [(leg number, coefficient)]) of a delta argument linear in the given legs, else None."""
    c0, ks = Fr(0), []
    for m, q in p.terms.items():
        if q[1] != 0:
            return None
        if m == ():
            c0 = q[0]
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in ix:
            ks.append((ix[m[0][0]], q[0]))
        else:
            return None
    return c0, ks


def constants(T):
    """The values occurring in an array of constants, or None."""
    return grid(T.terms, [l for a in T.axes for l in a])


def by_entry(f, T):
    """Elementwise f of a listed array of constants, or None."""
    if not T.axes or len(T.terms) < 2 or any(t.coef.const() is None for t in T.terms):
        return None
    L = listed(T)
    if L is not None and any(t.fs or t.bound or t.lm.const() != ONE for _, v in L for t in v.terms):
        return None
    if L is None:
        legs = [l for a in T.axes for l in a]
        vs = grid(T.terms, legs, 400, True)
        if vs is None:
            return None
        out = [Term(Poly({(): v}), P(1), [Factor(DELTA, False, [P(k) - P(l)]) for l, k in zip(legs, pt)], ())
               for v, pt in zip(*vs) if v != ZERO]
        T = Ten(T.axes, out)
    return freshen(listwise(T, f))


def mod2(T):
    """Elementwise value modulo two of an integer-valued Ten."""
    if T.axes:
        R = listwise(T, mod2)
        if R is not None:
            return freshen(R)
        T = freshen(T)
        R = mod2(Ten((), mk((), T.terms).terms))
        return mk(T.axes, freshen(R).terms)
    # strip inner mod2 and reduce coefficients
    terms = []
    stack = list(T.terms)
    changed = True
    while stack:
        t = stack.pop()
        hit = None
        if t.coef.is_integral():
            for k, f in enumerate(t.fs):
                if f.atom.kind == "app" and f.atom.fname == "mod2" and isinstance(f.exp, int):
                    hit = k
                    break
        if hit is None:
            terms.append(t)
            continue
        f = t.fs[hit]
        A = rename(f.atom.args[0], dict(zip(f.atom.params, f.idx)))
        rest = [g for k, g in enumerate(t.fs) if k != hit]
        for x in freshen(A).terms:
            stack.append(Term(t.coef * x.coef, t.lm * x.lm, list(rest) + list(x.fs), t.bound + x.bound))
    T = mk((), terms)
    red = []
    for t in T.terms:
        d = {}
        for m, c in t.coef.terms.items():
            if c[1] == 0 and c[0].denominator == 1:
                if c[0] % 2 == 0:
                    continue
                d[m] = ONE
            else:
                d[m] = c
        if d:
            red.append(Term(Poly(d), t.lm, t.fs, t.bound))
    T = mk((), red)
    if not T.terms:
        return T
    t = single(T)
    if t is not None and not t.bound and t.coef.const() == ONE and t.lm.const() == ONE and all(
            f.atom.flags & {"bit", "ind"} for f in t.fs):
        return T
    r = truth(T, lambda v: v % 2 == 1)
    if r is not None:
        return Ten((), r.terms)
    return elem("mod2", T, flags=("bit", "real", "nn", "int"))


# --------------------------------------------------------------------------- rebuild registry
def _rebuild(a, args):
    n = a.fname
    if n == "abs":
        return tabs(args[0])
    if n == "mod2":
        return mod2(args[0])
    if n == "eq0":
        return eq0(args[0])
    if n == "pos":
        return pos(args[0])
    if n == "exists":
        A = freshen(args[0])
        ql = [l for ax in A.axes for l in ax]
        mp = {l: P(leg(l.dim)) for l in ql}
        ls = [list(v.legs())[0] for v in mp.values()]
        return exists(Ten((), [t.subst(mp) for t in A.terms]), ls)
    np_ = len(a.params)
    # generic: same own dims
    od = a.dims[np_:]
    return app_atom(n, args, od, a.flags, a.extra)


APP_REBUILD = _rebuild


# ---------------------------------------------------------------------- substitution of atoms
def subst_atom(T, fn):
    """Replace factors: fn(factor) -> None (keep) or a scalar Ten; descends into App arguments."""
    terms = []
    hit = False
    for t in T.terms:
        fs = []
        extra = []
        for f in t.fs:
            r = fn(f)
            if r is not None:
                hit = True
                r = freshen(r)
                if f.conj:
                    r = conjugate(r)
                if f.exp != 1:
                    r = power(r, f.exp)
                extra.append(r)
                continue
            if f.atom.kind == "app":
                na = []
                ch = False
                for A in f.atom.args:
                    if isinstance(A, Ten):
                        B = subst_atom(A, fn)
                        if B is not A:
                            ch = True
                        na.append(B)
                    else:
                        na.append(A)
                if ch:
                    hit = True
                    extra.append(_reapply(f.atom, na, f.conj, f.idx, f.exp, {}))
                    continue
            fs.append(f)
        cur = [Term(t.coef, t.lm, fs, t.bound)]
        for e in extra:
            cur = [Term(x.coef * y.coef, x.lm * y.lm, x.fs + y.fs, x.bound + y.bound) for x in cur
                   for y in freshen(e).terms]
        terms += cur
    if not hit:
        return T
    return mk(T.axes, terms, T.flags)


def atoms_of(T, out=None):
    """All atoms of a Ten, descending into App arguments."""
    if out is None:
        out = {}
    for t in T.terms:
        for f in t.fs:
            if f.atom.key not in out:
                out[f.atom.key] = f.atom
                if f.atom.kind == "app":
                    for A in f.atom.args:
                        if isinstance(A, Ten):
                            atoms_of(A, out)
                if f.atom.kind == "tpow":
                    out.setdefault(f.atom.base.key, f.atom.base)
    return out


class Filter:
    """Index filter of a leg: indicator as a function of the leg."""

    def __init__(self, T, l):
        self.T, self.l = T, l     # scalar indicator Ten with context leg l

    def at(self, y):
        return rename(self.T, {self.l: P(y)})

    def fkey(self, lab):
        m = {self.l: "@"}
        for k, v in lab.items():
            if k is not self.l:
                m[k] = v
        return ten_key(self.T, m)

    def syms(self):
        s = set()
        for t in self.T.terms:
            s |= t.coef.symbols() | t.lm.symbols() | _deep_syms(t)
            for f in t.fs:
                for p in f.idx:
                    s |= p.symbols()
        return s - {self.l}

    def subst(self, mp):
        return Filter(rename(self.T, {k: v for k, v in mp.items() if k is not self.l}), self.l)
