"""Abstract values and abstract state of the interpreter (gated single-assignment form)."""
import itertools
from fractions import Fraction as Fr
from .poly import Poly, P, sym, leg, Facts
from . import ten as T
from .ten import Ten, Undecided, ShapeErr

_cnt = itertools.count(1)


def fresh():
    return next(_cnt)


class Top:
    """Unknown value, with the reason the analysis lost it."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "⊤(%s)" % self.why


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(("ref", self.a))

    def __repr__(self):
        return "@%d" % self.a


class Gam:
    """Gated choice between two values that cannot be merged structurally."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "γ(%s;%r;%r)" % (self.c.key(), self.a, self.b)


class FuncV:
    def __init__(self, node, module, fid, qual, cls=None, defaults=(), kwdefaults=None):
        self.node, self.module, self.fid, self.qual, self.cls = node, module, fid, qual, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}

    def __repr__(self):
        return "func:" + self.qual


class ClassV:
    def __init__(self, name, module, bases, members, node):
        self.name, self.module, self.bases, self.members, self.node = name, module, bases, members, node

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def __repr__(self):
        return "class:" + self.name


class Member:
    """Class member: kind in method/static/class/property/const."""

    def __init__(self, kind, val, setter=None):
        self.kind, self.val, self.setter = kind, val, setter


class BoundM:
    def __init__(self, recv, func):
        self.recv, self.func = recv, func


class ModV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "module:" + self.name


class Lib:
    """Library function or class by canonical dotted name."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "lib:" + self.name


class LibM:
    """Bound library method."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return "method:%s of %r" % (self.name, self.recv)


class PyFn:
    """Analysis-supplied callable: fn(interp, st, args, kwargs) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "pyfn:" + self.name


class Obj:
    """Opaque library object with a kind and immutable fields."""

    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def __repr__(self):
        return "<%s %s>" % (self.kind, ",".join("%s=%r" % kv for kv in sorted(self.f.items())))


class Rng:
    """range(a, b, step)"""

    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step


class SliceV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Iter:
    """An immutable iterable given by list segments."""

    def __init__(self, segs):
        self.segs = tuple(segs)


# ------------------------------------------------------------------ list segments
class It:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "It(%r)" % (self.v,)


class Loop:
    __slots__ = ("leg", "segs")

    def __init__(self, l, segs):
        self.leg, self.segs = l, tuple(segs)

    def __repr__(self):
        return "Loop(%r<%r:%r)" % (self.leg, self.leg.dim, self.segs)


class Cond:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b=()):
        self.c, self.a, self.b = c, tuple(a), tuple(b)

    def __repr__(self):
        return "Cond(%s:%r:%r)" % (self.c.key(), self.a, self.b)


class PhiSeg:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "φlist%s" % self.id


# ------------------------------------------------------------------ heap objects
class HArr:
    """kind: nd, coo (pydata sparse), sp (scipy sparse), mat (numpy matrix); dt: i, f, c, b or None."""
    __slots__ = ("ten", "kind", "dt", "tag", "base", "view", "put")

    def __init__(self, t, kind="nd", dt=None, tag=None, base=None, view=None, put=None):
        self.ten, self.kind, self.dt, self.tag, self.base, self.view, self.put = t, kind, dt, tag, base, view, put

    def with_ten(self, t):
        return HArr(t, self.kind, self.dt, self.tag)


class HList:
    __slots__ = ("segs", "kind", "tag")

    def __init__(self, segs, kind="list", tag=None):
        self.segs, self.kind, self.tag = tuple(segs), kind, tag


class HDict:
    __slots__ = ("items", "tag", "open")

    def __init__(self, items, tag=None, open_=None):
        self.items, self.tag, self.open = dict(items), tag, open_


class HInst:
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, attrs, tag=None):
        self.cls, self.attrs, self.tag = cls, dict(attrs), tag


# ------------------------------------------------------------------ effects
class Eff:
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return "%s%r" % (self.kind, self.args)


TRUE = Ten((), T.const(1).terms, ("bool",))
FALSE = Ten((), T.const(0).terms, ("bool",))


def num(x):
    return T.const(x)


def boolv(b):
    return TRUE if b else FALSE


def cbool(t):
    """Concrete truth of an indicator, or None."""
    p = T.as_poly(t)
    if p is not None:
        c = p.const()
        if c is not None:
            return c != (0, 0)
    return None


def ival(v):
    """Concrete python int of a value, or None."""
    if isinstance(v, Ten):
        p = T.as_poly(v)
        return p.as_int() if p is not None else None
    return None


def ipoly(v):
    if isinstance(v, Ten):
        return T.as_poly(v)
    return None


class FactSet:
    def __init__(self, ge=None, truth=None, sub=None):
        self.ge = list(ge or [])
        self.truth = dict(truth or {})

    def copy(self):
        return FactSet(self.ge, self.truth)

    def poly(self):
        return Facts(self.ge)

    def assume(self, c, val):
        """Record that the indicator c has the truth value val."""
        k = c.key()
        self.truth[k] = val
        self.truth[T.lnot(c).key()] = not val
        if not val:
            n = T.lnot(c)
        else:
            n = c
        # n holds
        t = T.single(n)
        if t is not None and not t.bound and t.coef.const() == T.ONE and t.lm.const() == T.ONE and len(t.fs) > 1:
            for f in t.fs:
                g = T.mk((), [T.Term(P(1), P(1), [f], ())])
                self.assume(g, True)
        for c2, sgn in ((n, True), (T.lnot(n), False)):
            t = T.single(c2)
            if t is not None and not t.bound and t.coef.const() == T.ONE and t.lm.const() == T.ONE and len(t.fs) == 1:
                f = t.fs[0]
                if f.atom.kind == "app" and f.atom.fname == "pos" and f.exp == 1:
                    a = T.rename(f.atom.args[0], dict(zip(f.atom.params, f.idx)))
                    p = T.as_poly(a)
                    if p is not None:
                        if sgn:
                            self.ge.append(p - 1 if p.is_integral() else p)
                        else:
                            self.ge.append(-p)
                elif f.atom is T.DELTA and f.exp == 1 and sgn:
                    self.ge.append(f.idx[0])
                    self.ge.append(-f.idx[0])

    def known(self, c):
        b = cbool(c)
        if b is not None:
            return b
        k = c.key()
        if k in self.truth:
            return self.truth[k]
        # product of indicators with a false factor / all true
        t = T.single(c)
        if t is not None and not t.bound and t.coef.const() == T.ONE and t.lm.const() == T.ONE and len(t.fs) > 1:
            vs = []
            for f in t.fs:
                vs.append(self.truth.get(T.mk((), [T.Term(P(1), P(1), [f], ())]).key()))
            if any(v is False for v in vs):
                return False
            if all(v is True for v in vs):
                return True
        return None


class State:
    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.trace = ()
        self.facts = FactSet()
        self.pc = TRUE
        self.rng = 0
        self.ctx = ()           # enclosing symbolic loop legs
        self.controls = ()

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.trace, s.pc, s.rng, s.ctx, s.controls = self.trace, self.pc, self.rng, self.ctx, self.controls
        s.facts = self.facts.copy()
        return s

    def new(self, h):
        a = fresh()
        self.heap[a] = h
        return Ref(a)
