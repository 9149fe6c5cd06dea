"""Exact polynomials over integer symbols (sizes, loop counters, index legs).

A Poly is a finite sum of monomials with complex-rational coefficients.  Exponents may be
integers, fractions or themselves polynomials (so that d**n is a monomial), which is what sizes
of n-fold tensor powers need.
"""
from fractions import Fraction as Fr
import itertools
from math import gcd

_intern = {}
_cnt = itertools.count()


class Sym:
    """Interned symbol.  kind: 'v' (free variable), 'leg' (index leg), 'app' (opaque function)."""
    __slots__ = ("key", "kind", "name", "args", "flags", "dim", "extra")

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


def sym(name, flags=("pos",)):
    """Integer variable; flag 'pos' means it is known to be at least one, 'nn' at least zero."""
    k = "$" + name
    if k not in _intern:
        s = Sym()
        s.key, s.kind, s.name, s.args, s.flags, s.dim, s.extra = k, "v", name, (), frozenset(flags), None, None
        _intern[k] = s
    return _intern[k]


def numsym(q):
    """A rational number used as the base of a symbolic power."""
    k = "#" + str(q)
    if k not in _intern:
        s = Sym()
        s.key, s.kind, s.name, s.args, s.flags, s.dim, s.extra = k, "num", q, (), frozenset(("pos",)), None, None
        _intern[k] = s
    return _intern[k]


def leg(dim, filt=None, tag=""):
    """Fresh index leg ranging over 0..dim-1 (filt: an index filter, see ten.py)."""
    s = Sym()
    i = next(_cnt)
    s.key, s.kind, s.name, s.args, s.flags, s.dim, s.extra = "~%06d" % i, "leg", tag, (), frozenset(), dim, filt
    return s


def app(name, *args, flags=(), extra=None):
    k = "%s(%s)" % (name, ",".join(a.sid() for a in args)) + ("" if extra is None else "{%s}" % extra)
    if k not in _intern:
        s = Sym()
        s.key, s.kind, s.name, s.args, s.flags, s.dim, s.extra = k, "app", name, tuple(args), frozenset(flags), None, extra
        _intern[k] = s
    return _intern[k]


# ---- complex rationals as (re, im)
ZERO = (Fr(0), Fr(0))
ONE = (Fr(1), Fr(0))


def cnum(x):
    if isinstance(x, tuple):
        return x
    if isinstance(x, bool):
        return (Fr(int(x)), Fr(0))
    if isinstance(x, int) or isinstance(x, Fr):
        return (Fr(x), Fr(0))
    if isinstance(x, float):
        return (Fr(repr(x)), Fr(0))
    if isinstance(x, complex):
        return (Fr(repr(x.real)), Fr(repr(x.imag)))
    raise TypeError(x)


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)


def cstr(a):
    if a[1] == 0:
        return str(a[0])
    return "(%s,%s)" % a


def _is0(e):
    return e == 0 if not isinstance(e, Poly) else e.is_zero()


def expadd(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        r = P(a) + P(b)
        c = r.const()
        if c is not None and c[1] == 0:
            return int(c[0]) if c[0].denominator == 1 else c[0]
        return r
    r = Fr(a) + Fr(b)
    return int(r) if r.denominator == 1 else r


def expmul(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        r = P(a) * P(b)
        c = r.const()
        if c is not None and c[1] == 0:
            return int(c[0]) if c[0].denominator == 1 else c[0]
        return r
    r = Fr(a) * Fr(b)
    return int(r) if r.denominator == 1 else r


def expstr(e, lab=None):
    return e.sid(lab) if isinstance(e, Poly) else str(e)


def mono_mul(m1, m2):
    d = dict(m1)
    for s, e in m2:
        if s in d:
            d[s] = expadd(d[s], e)
        else:
            d[s] = e
    return d


def _norm_mono(d):
    """dict -> (coef factor, monomial tuple); splits constant parts of powers of numbers."""
    c = ONE
    out = []
    for s, e in d.items():
        if _is0(e):
            continue
        if s.kind == "num" and isinstance(e, Poly):
            k = e.terms.get((), ZERO)
            if k != ZERO and k[1] == 0 and k[0].denominator == 1:
                base = Fr(s.name)
                c = cmul(c, (base ** int(k[0]), Fr(0)))
                e = e - P(k)
                if e.is_zero():
                    continue
        elif s.kind == "num" and isinstance(e, int):
            c = cmul(c, (Fr(s.name) ** e, Fr(0)))
            continue
        out.append((s, e))
    out.sort(key=lambda x: x[0].key)
    return c, tuple(out)


class Poly:
    __slots__ = ("terms", "_sid")

    def __init__(self, terms):
        self.terms = terms
        self._sid = None

    # -- construction
    @staticmethod
    def of(s):
        return Poly({((s, 1),): ONE})

    def is_zero(self):
        return not self.terms

    def const(self):
        """The constant value as a complex rational, or None."""
        if not self.terms:
            return ZERO
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def as_int(self):
        c = self.const()
        if c is None or c[1] != 0 or c[0].denominator != 1:
            return None
        return int(c[0])

    def as_fr(self):
        c = self.const()
        if c is None or c[1] != 0:
            return None
        return c[0]

    def __add__(self, o):
        o = P(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            n = cadd(t.get(m, ZERO), c)
            if n == ZERO:
                t.pop(m, None)
            else:
                t[m] = n
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                k, m = _norm_mono(mono_mul(m1, m2))
                n = cadd(t.get(m, ZERO), cmul(cmul(c1, c2), k))
                if n == ZERO:
                    t.pop(m, None)
                else:
                    t[m] = n
        return Poly(t)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (Poly, int, Fr)):
            return NotImplemented
        return self.terms == P(o).terms

    def __hash__(self):
        return hash(frozenset(self.terms.items()))

    def inv(self):
        """Reciprocal, or None when it is not a monomial."""
        if len(self.terms) != 1:
            return None
        (m, c), = self.terms.items()
        k, mm = _norm_mono({s: expmul(e, -1) for s, e in m})
        return Poly({mm: cmul(cinv(c), k)})

    def pow(self, e):
        """Power with integer, fraction or polynomial exponent; None when not representable."""
        if isinstance(e, Poly):
            c = e.const()
            if c is not None and c[1] == 0:
                e = int(c[0]) if c[0].denominator == 1 else c[0]
        if isinstance(e, int) and e >= 0:
            if e > 12 and len(self.terms) > 1:
                return None
            r = P(1)
            for _ in range(e):
                r = r * self
            return r
        if len(self.terms) != 1:
            return None
        (m, c), = self.terms.items()
        d = {s: expmul(x, e) for s, x in m}
        if c != ONE:
            if c[1] != 0:
                return None
            if isinstance(e, int):
                c2 = (c[0] ** e, Fr(0))
                k, mm = _norm_mono(d)
                return Poly({mm: cmul(c2, k)})
            if c[0] <= 0:
                return None
            ns = numsym(c[0])
            d[ns] = expadd(d.get(ns, 0), e)
        k, mm = _norm_mono(d)
        return Poly({mm: k})

    def symbols(self, deep=True):
        out = set()
        for m in self.terms:
            for s, e in m:
                out.add(s)
                if deep and isinstance(e, Poly):
                    out |= e.symbols()
                if deep and s.kind == "app":
                    for a in s.args:
                        out |= a.symbols()
        return out

    def legs(self):
        return {s for s in self.symbols() if s.kind == "leg"}

    def subst(self, mp):
        if not mp:
            return self
        if not (self.symbols() & set(mp)):
            return self
        r = P(0)
        for m, c in self.terms.items():
            t = Poly({(): c})
            for s, e in m:
                b = mp.get(s)
                if b is None and s.kind == "app":
                    na = [a.subst(mp) for a in s.args]
                    if any(x is not y for x, y in zip(na, s.args)):
                        b = rebuild_app(s, na)
                if isinstance(e, Poly):
                    e = e.subst(mp)
                if b is None:
                    b = Poly.of(s)
                else:
                    b = P(b)
                if isinstance(e, int) and e == 1:
                    t = t * b
                else:
                    q = b.pow(e)
                    if q is None:
                        q = Poly.of(app("pow", b, P(e)))
                    t = t * q
            r = r + t
        return r

    def degree_in(self, s):
        d = 0
        for m in self.terms:
            for x, e in m:
                if x is s:
                    if not isinstance(e, int) or e < 0:
                        return None
                    d = max(d, e)
                elif s in Poly({((x, e),): ONE}).symbols():
                    return None
        return d

    def coeff(self, s):
        """For a polynomial affine in s: (coefficient, rest), else None."""
        if self.degree_in(s) not in (0, 1):
            return None
        a, b = {}, {}
        for m, c in self.terms.items():
            if any(x is s for x, e in m):
                a[tuple((x, e) for x, e in m if x is not s)] = c
            else:
                b[m] = c
        return Poly(a), Poly(b)

    def div(self, o):
        """Exact quotient when o is a monomial (or self a multiple of o), else None."""
        o = P(o)
        if o.is_zero():
            return None
        i = o.inv()
        if i is not None:
            return self * i
        # try constant multiple
        if self.is_zero():
            return P(0)
        m = min(o.terms, key=str)
        if m in self.terms:
            k = cmul(self.terms[m], cinv(o.terms[m]))
            if (self - o * Poly({(): k})).is_zero():
                return Poly({(): k})
        # single-variable-free attempt: self == o * mono
        for m2 in self.terms:
            for m1 in o.terms:
                q = Poly({m2: self.terms[m2]}) * Poly({m1: o.terms[m1]}).inv()
                if (o * q - self).is_zero():
                    return q
        return None

    def is_integral(self):
        """All coefficients integers and exponents non-negative (value is an integer)."""
        den = 1
        for m, c in self.terms.items():
            if c[1] != 0:
                return False
            den = den * c[0].denominator // gcd(den, c[0].denominator)
            for s, e in m:
                if isinstance(e, Fr) or (isinstance(e, int) and e < 0):
                    return False
                if isinstance(e, Poly) and not nonneg(e):
                    return False
        if den == 1:
            return True
        # integer-valued although its coefficients are not: try every residue of its symbols
        ss = sorted({s for m in self.terms for s, _ in m}, key=lambda s: s.key)
        if den ** len(ss) > 300 or any(isinstance(e, Poly) for m in self.terms for _, e in m) or any(s.kind == "num" for s in ss):
            return False
        for vs in itertools.product(range(den), repeat=len(ss)):
            v = dict(zip(ss, vs))
            tot = 0
            for m, c in self.terms.items():
                x = c[0] * den
                for s, e in m:
                    x *= v[s] ** e
                tot += x
            if tot % den:
                return False
        return True

    def sid(self, lab=None):
        """Canonical string; lab maps legs to labels."""
        if lab is None and self._sid is not None:
            return self._sid
        parts = []
        for m, c in self.terms.items():
            ms = []
            for s, e in m:
                if lab is not None and s in lab:
                    b = lab[s]
                elif s.kind == "app" and lab is not None:
                    b = "%s(%s)" % (s.name, ",".join(a.sid(lab) for a in s.args)) + (
                        "" if s.extra is None else "{%s}" % s.extra)
                else:
                    b = s.key
                ms.append(b if (isinstance(e, int) and e == 1) else "%s^[%s]" % (b, expstr(e, lab)))
            ms.sort()
            parts.append((cstr(c) if c != ONE or not ms else "") + ("*" if c != ONE and ms else "") + "*".join(ms))
        parts.sort()
        r = "+".join(parts) if parts else "0"
        if lab is None:
            self._sid = r
        return r

    def __repr__(self):
        return self.sid()


REBUILD = {}


def rebuild_app(s, args):
    f = REBUILD.get(s.name)
    if f is not None and s.extra is None:
        return f(*args)
    return Poly.of(app(s.name, *args, flags=s.flags, extra=s.extra))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Sym):
        return Poly.of(x)
    c = cnum(x)
    return Poly({} if c == ZERO else {(): c})


# ------------------------------------------------------------------ arithmetic facts
class Facts:
    """Known integer inequalities (each polynomial >= 0) used to decide comparisons."""

    def __init__(self, ge=()):
        self.ge = list(ge)

    def add(self, *ps):
        return Facts(self.ge + [P(p) for p in ps])


def _lower(p, depth=0):
    """Lower bound polynomial after eliminating legs (0..dim-1), or None."""
    p = P(p)
    for _ in range(8):
        ls = [s for s in p.legs()]
        if not ls:
            return p
        done = False
        for l in sorted(ls, key=lambda s: s.key, reverse=True):
            ca = p.coeff(l)
            if ca is None:
                continue
            c, r = ca
            if nonneg0(c):
                p = r
                done = True
                break
            if nonneg0(-c):
                p = r + c * (P(l.dim) - 1)
                done = True
                break
        if not done:
            return None
    return None


def nonneg0(p):
    """Provable non-negativity using only 'pos' flags."""
    p = P(p)
    if p.is_zero():
        return True
    mp = {}
    for s in p.symbols(deep=False):
        if s.kind == "v" and "pos" in s.flags:
            if all(isinstance(e, int) and e > 0 for m in p.terms for x, e in m if x is s):
                mp[s] = P(sym(s.name + "'", flags=("nn",))) + 1
    q = p.subst(mp) if mp else p
    base = Fr(0)
    for m, c in q.terms.items():
        if c[1] != 0:
            return False
        okpos = all(_symnn(s, e) for s, e in m)
        if not okpos:
            return False
        if m == ():
            base += c[0]
        elif c[0] < 0:
            return False
        else:
            # powers of numbers/pos symbols are >= 1
            if all(_symge1(s, e) for s, e in m):
                base += c[0]
    return base >= 0


def _symnn(s, e):
    return bool(s.flags & {"pos", "nn"}) or s.kind == "num"


def _symge1(s, e):
    if s.kind == "num":
        return Fr(s.name) >= 1
    return "pos" in s.flags


def nonneg(p, facts=None):
    """Provable p >= 0 for integer symbols."""
    p = _lower(p)
    if p is None:
        return False
    if nonneg0(p):
        return True
    if facts is not None and facts.ge:
        gs = facts.ge
        for g in gs:
            for k in (1, 2, Fr(1, 2)):
                if nonneg0(p - g * k):
                    return True
        # multiply a fact by a symbol of p (d*(n-m-1) >= 0)
        ext = list(gs)
        for g in gs:
            for s in p.symbols(deep=False):
                if "pos" in s.flags and s.kind in ("v",):
                    ext.append(g * P(s))
        if any(isinstance(e, Poly) for m in p.terms for _, e in m):
            for g in gs:
                for m in p.terms:
                    for m2 in g.terms:
                        if not m2:
                            continue
                        q = Poly({m: ONE}).div(Poly({m2: ONE}))
                        if q is None or not q.is_integral() or q.legs() or q.as_int() is not None or not nonneg0(q):
                            continue
                        if nonneg0(p - g * q):
                            return True
        for a in range(len(ext)):
            if nonneg0(p - ext[a]):
                return True
            for b in range(a, len(ext)):
                if nonneg0(p - ext[a] - ext[b]):
                    return True
    return False


def sign(p, facts=None):
    """'0', '+' (>0), '-' (<0), '>=' , '<=' or None."""
    p = P(p)
    if p.is_zero():
        return "0"
    if nonneg(p - 1, facts):
        return "+"
    if nonneg(-p - 1, facts):
        return "-"
    if nonneg(p, facts):
        return ">="
    if nonneg(-p, facts):
        return "<="
    return None
