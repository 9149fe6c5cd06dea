"""Symbolic sequences (lists, tuples, strings, iterables) as segments."""
from .poly import P, leg, Poly
from . import poly as PL
from . import ten as T
from .ten import Ten, Undecided, ShapeErr
from .vals import *


class SStr:
    """Immutable string given by character segments (characters: one-letter str or gates of them)."""

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return "SStr%r" % (self.segs,)


def _IE():
    from .interp import AbsRaise
    return AbsRaise


# ------------------------------------------------------------------ substitution of loop legs
def subst_val(I, st, v, mp, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, Ten):
        if not (T.free_legs(v) & set(mp)):
            return v
        r = T.rename(v, mp)
        return Ten(r.axes, r.terms, v.flags)
    if isinstance(v, tuple):
        return tuple(subst_val(I, st, x, mp, memo) for x in v)
    if isinstance(v, Gam):
        c = subst_val(I, st, v.c, mp, memo)
        a, b = subst_val(I, st, v.a, mp, memo), subst_val(I, st, v.b, mp, memo)
        k = st.facts.known(c)
        return a if k is True else b if k is False else Gam(c, a, b)
    if isinstance(v, SStr):
        return SStr(subst_segs(I, st, v.segs, mp, memo))
    if isinstance(v, Iter):
        return Iter(subst_segs(I, st, v.segs, mp, memo))
    if isinstance(v, Rng):
        return Rng(*[subst_val(I, st, x, mp, memo) for x in (v.a, v.b, v.step)])
    if isinstance(v, Obj):
        return Obj(v.kind, **{k: subst_val(I, st, x, mp, memo) for k, x in v.f.items()})
    if isinstance(v, Eff):
        return Eff(v.kind, *[subst_val(I, st, x, mp, memo) for x in v.args])
    if isinstance(v, Ref):
        if v.a in memo:
            return memo[v.a]
        o = st.heap[v.a]
        if not uses_legs(I, st, v, set(mp)):
            memo[v.a] = v
            return v
        if isinstance(o, HArr):
            t = I.arr_ten(st, v)
            r = st.new(HArr(subst_val(I, st, t, mp, memo) if t is not None else None, o.kind, o.dt, None))
        elif isinstance(o, HList):
            r = st.new(HList((), o.kind))
            memo[v.a] = r
            st.heap[r.a] = HList(subst_segs(I, st, o.segs, mp, memo), o.kind)
        elif isinstance(o, HDict):
            r = st.new(HDict({}))
            memo[v.a] = r
            st.heap[r.a] = HDict({k: subst_val(I, st, x, mp, memo) for k, x in o.items.items()}, None, o.open)
        elif isinstance(o, HInst):
            r = st.new(HInst(o.cls, {}))
            memo[v.a] = r
            st.heap[r.a] = HInst(o.cls, {k: subst_val(I, st, x, mp, memo) for k, x in o.attrs.items()})
        else:
            return v
        memo[v.a] = r
        return r
    return v


def subst_segs(I, st, segs, mp, memo=None):
    out = []
    for s in segs:
        if isinstance(s, It):
            out.append(It(subst_val(I, st, s.v, mp, memo)))
        elif isinstance(s, Loop):
            d = s.leg.dim.subst(mp)
            if d is not s.leg.dim and not (d - s.leg.dim).is_zero() or s.leg.extra is not None:
                y = leg(d, s.leg.extra.subst(mp) if s.leg.extra is not None else None)
                m2 = dict(mp)
                m2[s.leg] = P(y)
                out.append(Loop(y, subst_segs(I, st, s.segs, m2, {})))
            else:
                out.append(Loop(s.leg, subst_segs(I, st, s.segs, mp, memo)))
        elif isinstance(s, Cond):
            c = subst_val(I, st, s.c, mp, memo)
            k = st.facts.known(c)
            a, b = subst_segs(I, st, s.a, mp, memo), subst_segs(I, st, s.b, mp, memo)
            if k is True:
                out += a
            elif k is False:
                out += b
            else:
                out.append(Cond(c, a, b))
        else:
            out.append(s)
    return tuple(out)


def uses_legs(I, st, v, legs, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, Ten):
        return bool(T.free_legs(v) & legs)
    if isinstance(v, tuple):
        return any(uses_legs(I, st, x, legs, seen) for x in v)
    if isinstance(v, Gam):
        return any(uses_legs(I, st, x, legs, seen) for x in (v.c, v.a, v.b))
    if isinstance(v, (SStr, Iter)):
        return segs_use(I, st, v.segs, legs, seen)
    if isinstance(v, Rng):
        return any(uses_legs(I, st, x, legs, seen) for x in (v.a, v.b, v.step))
    if isinstance(v, Obj):
        return any(uses_legs(I, st, x, legs, seen) for x in v.f.values())
    if isinstance(v, Eff):
        return any(uses_legs(I, st, x, legs, seen) for x in v.args)
    if isinstance(v, Ref):
        if v.a in seen:
            return False
        seen.add(v.a)
        o = st.heap.get(v.a)
        if isinstance(o, HArr):
            try:
                t = I.arr_ten(st, v)
            except (Undecided, ShapeErr):
                return False
            return t is not None and bool(T.free_legs(t) & legs)
        if isinstance(o, HList):
            return segs_use(I, st, o.segs, legs, seen)
        if isinstance(o, HDict):
            return any(uses_legs(I, st, x, legs, seen) for x in o.items.values())
        if isinstance(o, HInst):
            return any(uses_legs(I, st, x, legs, seen) for x in o.attrs.values())
    return False


def segs_use(I, st, segs, legs, seen=None):
    for s in segs:
        if isinstance(s, It) and uses_legs(I, st, s.v, legs, seen):
            return True
        if isinstance(s, Loop) and ((s.leg.dim.legs() & legs) or segs_use(I, st, s.segs, legs, seen)):
            return True
        if isinstance(s, Cond) and (uses_legs(I, st, s.c, legs) or segs_use(I, st, s.a, legs, seen) or segs_use(I, st, s.b, legs, seen)):
            return True
    return False


# ------------------------------------------------------------------ building segments
def segs_of(I, st, v):
    """Segments of any iterable value."""
    AbsRaise = _IE()
    if isinstance(v, Iter) or isinstance(v, SStr):
        return v.segs
    if isinstance(v, tuple):
        return tuple(It(x) for x in v)
    if isinstance(v, str):
        return tuple(It(c) for c in v)
    if isinstance(v, Rng):
        return range_segs(I, st, v)
    if isinstance(v, Ref):
        o = st.heap[v.a]
        if isinstance(o, HList):
            return o.segs
        if isinstance(o, HDict):
            if o.open is not None:
                raise Undecided("iteration over an open dictionary")
            return tuple(It(k) for k in o.items)
        if isinstance(o, HArr):
            return arr_segs(I, st, v)
        if isinstance(o, HInst):
            m = o.cls.lookup("__iter__")
            if m is not None:
                return segs_of(I, st, I.call_func(m.val, [v], {}, st, None))
            raise AbsRaise("TypeError", "object is not iterable")
    if isinstance(v, Ten):
        if v.ndim == 0:
            raise AbsRaise("TypeError", "iteration over a number")
        return arr_segs(I, st, st.new(HArr(v)))
    if isinstance(v, Gam):
        a, b = segs_of(I, st, v.a), segs_of(I, st, v.b)
        return (Cond(v.c, a, b),)
    if isinstance(v, Top):
        raise Undecided(v.why)
    if v is None:
        raise AbsRaise("TypeError", "iteration over None")
    from . import models
    return models.lib_iter(I, st, v)


def arr_segs(I, st, ref):
    t = I.arr_ten(st, ref)
    if t is None:
        raise Undecided("iteration over unknown array")
    if t.ndim == 0:
        raise _IE()("TypeError", "iteration over a 0-d array")
    d = T.axdim(t.axes[0])
    n = d.as_int()
    if n is not None and n <= 24 and not any(l.extra is not None for l in t.axes[0]):
        return tuple(It(I.new_view(st, ref, (lambda k: lambda b: T.index_axis(b, 0, P(k)))(k), row_put(P(k)))) for k in range(n))
    if len(t.axes[0]) == 1 and t.axes[0][0].extra is not None:
        y = leg(d, t.axes[0][0].extra)
        x = t.axes[0][0]
        r = T.freshen(t)
        r = T.mk(r.axes[1:], [T._tsub(q, {r.axes[0][0]: P(y)}) for q in r.terms])
        return (Loop(y, (It(I.new_arr(st, r)),)),)
    l = leg(d)
    return (Loop(l, (It(I.new_view(st, ref, lambda b: T.index_axis(b, 0, P(l)), row_put(P(l)))),)),)


def row_put(p):
    def put(b, row):
        from . import models
        return models.store_ten(b, [("i", p)] + [("all",)] * (b.ndim - 1), row)
    return put


def range_segs(I, st, r):
    a, b, s = T.as_poly(r.a), T.as_poly(r.b), T.as_poly(r.step)
    if a is None or b is None or s is None:
        # a data-dependent bound: an opaque size
        if a is None:
            raise Undecided("range with data-dependent start")
        if s is None or s.as_int() not in (1, -1):
            raise Undecided("range with data-dependent step")
        if b is None:
            b = as_size(r.b)
    step = s.as_int()
    if step is None or step == 0:
        raise Undecided("range step")
    ia, ib = a.as_int(), b.as_int()
    if ia is not None and ib is not None:
        rr = range(ia, ib, step)
        if len(rr) <= 40:
            return tuple(It(num(k)) for k in rr)
    n = (b - a) if step > 0 else (a - b)
    if abs(step) != 1:
        q = n.div(P(abs(step)))
        if q is None or not q.is_integral():
            raise Undecided("strided range")
        n = q
    k = n.as_int()
    if k is not None and k <= 0:
        return ()
    if k is not None and k <= 40:
        return tuple(It(T.from_poly(a + P(j * step))) for j in range(k))
    if PL.nonneg(-n, T.cur_facts()):
        return ()
    l = leg(n)
    return (Loop(l, (It(T.from_poly(a + P(l) * step)),)),)


def as_size(t):
    """A size symbol standing for an integer-valued scalar Ten."""
    p = T.as_poly(t)
    if p is not None:
        return p
    s = PL.sym("⟦" + t.key() + "⟧", flags=("nn",))
    SIZES[s.key] = t
    return P(s)


SIZES = {}


def size_ten(p):
    """Expand opaque size symbols back (inverse of as_size)."""
    return T.from_poly(p)


# ------------------------------------------------------------------ measures
def length(I, st, segs):
    """Length as a scalar Ten."""
    tot = T.const(0)
    for s in segs:
        tot = T.add(tot, seg_len(I, st, s))
    return tot


def seg_len(I, st, s):
    if isinstance(s, It):
        return num(1)
    if isinstance(s, Loop):
        n = length(I, st, s.segs)
        if s.leg.extra is not None or s.leg in T.free_legs(n) or T.as_poly(n) is None:
            return T.sum_leg(n, s.leg)
        return T.from_poly(T.as_poly(n) * s.leg.dim)
    if isinstance(s, Cond):
        a, b = length(I, st, s.a), length(I, st, s.b)
        if a.key() == b.key():
            return a
        return T.ite(s.c, a, b)
    if isinstance(s, PhiSeg):
        raise Undecided("length of a list under construction")
    raise Undecided("length")


def seg_len_poly(I, st, s):
    p = T.as_poly(seg_len(I, st, s))
    if p is None:
        raise Undecided("data-dependent length")
    return p


def concrete(I, st, segs, limit=64):
    """Python list of the values if the structure is concrete."""
    out = []
    for s in segs:
        if isinstance(s, It):
            out.append(s.v)
        elif isinstance(s, Loop):
            n = s.leg.dim.as_int()
            if n is None or n > limit or s.leg.extra is not None:
                return None
            for k in range(n):
                v = concrete(I, st, subst_segs(I, st, s.segs, {s.leg: P(k)}), limit)
                if v is None:
                    return None
                out += v
        elif isinstance(s, Cond):
            a, b = concrete(I, st, s.a, limit), concrete(I, st, s.b, limit)
            if a is None or b is None or len(a) != len(b):
                return None
            out += [I.merge_val(s.c, st, x, st, y, st) for x, y in zip(a, b)]
        else:
            return None
        if len(out) > limit:
            return None
    return out


# ------------------------------------------------------------------ conversion to arrays
def to_ten(I, st, segs):
    pieces = []
    for s in segs:
        pieces.append(piece_ten(I, st, s))
    if not pieces:
        l = leg(P(0))
        return T.mk([(l,)], [])
    return concat(pieces, 0)


def piece_ten(I, st, s):
    if isinstance(s, It):
        t = I.ten(st, s.v)
        return T.mk([()] + list(t.axes), t.terms)
    if isinstance(s, Loop):
        if s.leg.extra is None and len(s.segs) == 1 and isinstance(s.segs[0], Cond) and s.segs[0].b == () \
                and len(s.segs[0].a) == 1 and isinstance(s.segs[0].a[0], It):
            # filtered comprehension: a masked axis
            c = s.segs[0].c
            t = I.ten(st, s.segs[0].a[0].v)
            l2 = leg(s.leg.dim, T.Filter(T.mk((), c.terms), s.leg))
            t = T.freshen(t)
            return T.mk([(l2,)] + list(t.axes), [T._tsub(q, {s.leg: P(l2)}) for q in t.terms])
        t = to_ten(I, st, s.segs)
        r = T.stack_leg(t, s.leg)
        if T.axdim(t.axes[0]).as_int() == 1:
            return T.mk([r.axes[0]] + list(r.axes[2:]), r.terms)
        return T.mk([r.axes[0] + r.axes[1]] + list(r.axes[2:]), r.terms)
    if isinstance(s, Cond):
        a, b = to_ten(I, st, s.a), to_ten(I, st, s.b)
        for p, q in zip(a.shape, b.shape):
            if not (p - q).is_zero():
                raise Undecided("list whose length depends on data")
        return T.ite(s.c, a, b)
    raise Undecided("list under construction")


def concat(pieces, axis):
    """Concatenate Tens along an axis."""
    if len(pieces) == 1:
        return pieces[0]
    AbsRaise = _IE()
    nd = pieces[0].ndim
    if any(p.ndim != nd for p in pieces):
        raise AbsRaise("ValueError", "ragged concatenation")
    axis %= nd
    pieces = [p for p in pieces if T.axdim(p.axes[axis]).as_int() != 0] or pieces[:1]
    if len(pieces) == 1:
        return pieces[0]
    tot = P(0)
    base = None
    parts = []
    for t in pieces:
        t = T.freshen(t)
        if any(l.extra is not None for l in t.axes[axis]):
            raise Undecided("concatenation of filtered arrays")
        for j in range(nd):
            if j != axis and not (T.axdim(t.axes[j]) - T.axdim(pieces[0].axes[j])).is_zero():
                raise ShapeErr("concatenation of different shapes")
        off = tot
        tot = tot + T.axdim(t.axes[axis])
        parts.append((off, t))
    y = leg(tot)
    base = None
    done = []
    for off, t in parts:
        if base is None:
            base = t
        else:
            for j in range(nd):
                if j != axis and not (base.axes[j] == () and t.axes[j] == ()):
                    old = base.axes[j]
                    base, t = T._unify_axis(base, j, t, j)
                    if base.axes[j] != old:
                        # refined: earlier parts must follow; redo with the refined axes
                        mpx = _refine_map(old, base.axes[j])
                        done = [(o, ax, [x.subst(mpx) for x in ts]) for o, ax, ts in done]
        done.append((off, t.axes[axis], t.terms))
    terms = []
    for off, ax, ts in done:
        v = P(0)
        for l in ax:
            v = v * l.dim + P(l)
        for q in ts:
            fsx = T.Factor(T.DELTA, False, [P(y) - off - v])
            terms.append(T.Term(q.coef, q.lm, q.fs + (fsx,), tuple(q.bound) + tuple(ax)))
    axes = [base.axes[j] if j != axis else (y,) for j in range(nd)]
    return T.mk(axes, terms)


def _refine_map(old, new):
    """Substitution rewriting the legs of an axis by its refinement."""
    mp = {}
    new = list(new)
    for l in old:
        if new and new[0] is l:
            new.pop(0)
            continue
        v = P(0)
        have = P(1)
        while new and not (have - l.dim).is_zero():
            z = new.pop(0)
            v = v * z.dim + P(z)
            have = have * z.dim
        mp[l] = v
    return mp


# ------------------------------------------------------------------ indexing
def index(I, st, segs, p):
    """Element at index p (Poly); negative constants count from the end."""
    AbsRaise = _IE()
    c = p.as_int()
    vs = None
    if c is not None and c < 0:
        n = T.as_poly(length(I, st, segs))
        if n is None:
            # walk from the end
            k = -c
            for s in reversed(segs):
                if isinstance(s, It):
                    k -= 1
                    if k == 0:
                        return s.v
                else:
                    break
            raise Undecided("negative index")
        p = n + p
        if p.as_int() is not None and p.as_int() < 0:
            raise AbsRaise("IndexError", "list index out of range")
    off = P(0)
    F = T.cur_facts()
    for s in segs:
        n = T.as_poly(seg_len(I, st, s))
        if n is None:
            break
        q = p - off
        if PL.nonneg(q, F) and PL.nonneg(n - 1 - q, F):
            return index_seg(I, st, s, q, n)
        if not PL.nonneg(q - n, F):
            break
        off = off + n
    else:
        raise AbsRaise("IndexError", "list index out of range")
    # single loop: assume the index is in range
    if len(segs) == 1:
        return index_seg(I, st, segs[0], p, None)
    if all(isinstance(s, It) for s in segs):
        r = segs[-1].v
        for k in range(len(segs) - 2, -1, -1):
            r = I.merge_val(T.eq0(T.from_poly(p - k)), st, segs[k].v, st, r, st)
        return r
    try:
        t = to_ten(I, st, segs)
    except AbsRaise:
        raise Undecided("index into a mixed list")
    return I.new_arr(st, T.index_axis(t, 0, p))


def index_seg(I, st, s, q, n):
    if isinstance(s, It):
        return s.v
    if isinstance(s, Loop):
        if s.leg.extra is not None:
            raise Undecided("index into a filtered list")
        if len(s.segs) == 1 and isinstance(s.segs[0], It):
            return subst_val(I, st, s.segs[0].v, {s.leg: q})
        m = T.as_poly(length(I, st, s.segs))
        if m is not None and s.leg not in m.symbols():
            hi, lo = divmod_poly(q, m)
            if hi is not None:
                return index(I, st, subst_segs(I, st, s.segs, {s.leg: hi}), lo)
        t = piece_ten(I, st, s)
        return I.new_arr(st, T.index_axis(t, 0, q))
    if isinstance(s, Cond):
        a, b = index(I, st, s.a, q), index(I, st, s.b, q)
        return I.merge_val(s.c, st, a, st, b, st)
    raise Undecided("index into a list under construction")


def divmod_poly(p, m):
    """p = m*hi + lo with 0 <= lo < m, or (None, None)."""
    F = T.cur_facts()
    hi, lo = P(0), P(0)
    for mono, c in p.terms.items():
        q = Poly({mono: c})
        d = q.div(m)
        if d is not None and d.is_integral():
            hi = hi + d
        else:
            lo = lo + q
    if PL.nonneg(lo, F) and PL.nonneg(m - 1 - lo, F):
        return hi, lo
    if PL.nonneg(lo + m, F) and PL.nonneg(-1 - lo, F):
        return hi - 1, lo + m
    return None, None


def slice_segs(I, st, segs, a, b):
    """segs[a:b] for polynomial bounds."""
    F = T.cur_facts()
    n = T.as_poly(length(I, st, segs))
    if n is None:
        raise Undecided("slice of a list of data-dependent length")

    def norm(x, dflt):
        if x is None:
            return dflt
        if PL.nonneg(-x - 1, F):
            x = n + x
            return x if PL.nonneg(x, F) else P(0)
        return x
    a, b = norm(a, P(0)), norm(b, n)
    if PL.nonneg(b - n, F):
        b = n
    if PL.nonneg(a - b, F):
        return ()
    out = []
    off = P(0)
    for s in segs:
        m = seg_len_poly(I, st, s)
        lo, hi = off, off + m
        off = hi
        if PL.nonneg(a - hi, F) or PL.nonneg(lo - b, F):
            continue
        if PL.nonneg(lo - a, F) and PL.nonneg(b - hi, F):
            out.append(s)
            continue
        s0 = P(0) if PL.nonneg(lo - a, F) else (a - lo if PL.nonneg(a - lo, F) else None)
        e0 = m if PL.nonneg(b - hi, F) else (b - lo if PL.nonneg(hi - b, F) else None)
        if s0 is None or e0 is None:
            raise Undecided("slice boundary")
        if isinstance(s, Loop) and len(s.segs) == 1 and isinstance(s.segs[0], It) and s.leg.extra is None:
            y = leg(e0 - s0)
            out.append(Loop(y, subst_segs(I, st, s.segs, {s.leg: P(y) + s0})))
        elif isinstance(s, Cond):
            out.append(Cond(s.c, slice_segs(I, st, s.a, s0, e0), slice_segs(I, st, s.b, s0, e0)))
        else:
            raise Undecided("slice boundary inside a loop")
    return tuple(out)


def reverse(I, st, segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, It):
            out.append(s)
        elif isinstance(s, Loop):
            if s.leg.extra is not None:
                raise Undecided("reverse of filtered")
            y = leg(s.leg.dim)
            inner = subst_segs(I, st, s.segs, {s.leg: s.leg.dim - 1 - P(y)})
            out.append(Loop(y, reverse(I, st, inner)))
        elif isinstance(s, Cond):
            out.append(Cond(s.c, reverse(I, st, s.a), reverse(I, st, s.b)))
        else:
            raise Undecided("reverse of list under construction")
    return tuple(out)


def mapsegs(I, st, segs, fn):
    """Apply fn to every element value."""
    out = []
    for s in segs:
        if isinstance(s, It):
            out.append(It(fn(s.v)))
        elif isinstance(s, Loop):
            out.append(Loop(s.leg, mapsegs(I, st, s.segs, fn)))
        elif isinstance(s, Cond):
            out.append(Cond(s.c, mapsegs(I, st, s.a, fn), mapsegs(I, st, s.b, fn)))
        else:
            raise Undecided("map over a list under construction")
    return tuple(out)


def mapsegs_nested(I, st, segs, fn):
    """Replace every element by the segments fn returns."""
    out = []
    for s in segs:
        if isinstance(s, It):
            out.extend(fn(s.v))
        elif isinstance(s, Loop):
            out.append(Loop(s.leg, mapsegs_nested(I, st, s.segs, fn)))
        elif isinstance(s, Cond):
            out.append(Cond(s.c, mapsegs_nested(I, st, s.a, fn), mapsegs_nested(I, st, s.b, fn)))
        else:
            raise Undecided("map over a list under construction")
    return tuple(out)


def enumerate_segs(I, st, segs, start=P(0)):
    out = []
    off = start
    for s in segs:
        if isinstance(s, It):
            out.append(It((T.from_poly(off), s.v)))
            off = off + 1
        elif isinstance(s, Loop) and len(s.segs) == 1 and isinstance(s.segs[0], It) and s.leg.extra is None:
            out.append(Loop(s.leg, (It((T.from_poly(off + P(s.leg)), s.segs[0].v)),)))
            off = off + s.leg.dim
        elif isinstance(s, Cond):
            la, lb = T.as_poly(length(I, st, s.a)), T.as_poly(length(I, st, s.b))
            out.append(Cond(s.c, enumerate_segs(I, st, s.a, off), enumerate_segs(I, st, s.b, off)))
            if la is None or lb is None or not (la - lb).is_zero():
                if s is not segs[-1]:
                    raise Undecided("enumerate after data-dependent length")
            else:
                off = off + la
        elif isinstance(s, Loop) and s.leg.extra is None:
            m = T.as_poly(length(I, st, s.segs))
            if m is None or s.leg in m.symbols():
                raise Undecided("enumerate of irregular loop")
            out.append(Loop(s.leg, enumerate_segs(I, st, s.segs, off + P(s.leg) * m)))
            off = off + s.leg.dim * m
        else:
            raise Undecided("enumerate")
    return tuple(out)


def zip_segs(I, st, seqs):
    """zip of several segment tuples."""
    cs = [concrete(I, st, s, 64) for s in seqs]
    if all(c is not None for c in cs):
        return tuple(It(tuple(x)) for x in zip(*cs))
    if all(len(s) == 1 and isinstance(s[0], Loop) and len(s[0].segs) == 1 and isinstance(s[0].segs[0], It) for s in seqs):
        d = seqs[0][0].leg.dim
        if all((s[0].leg.dim - d).is_zero() for s in seqs):
            y = leg(d)
            vals = tuple(subst_val(I, st, s[0].segs[0].v, {s[0].leg: P(y)}) for s in seqs)
            return (Loop(y, (It(vals),)),)
    # iterate over the first by position
    n = T.as_poly(length(I, st, seqs[0]))
    if n is None:
        raise Undecided("zip")
    for s in seqs[1:]:
        m = T.as_poly(length(I, st, s))
        if m is None:
            raise Undecided("zip")
        if not (m - n).is_zero():
            if PL.nonneg(n - m, T.cur_facts()):
                n = m
            elif not PL.nonneg(m - n, T.cur_facts()):
                raise Undecided("zip of different lengths")
    y = leg(n)
    return (Loop(y, (It(tuple(index(I, st, s, P(y)) for s in seqs)),)),)


# ------------------------------------------------------------------ comparison of segments and strings
def val_key(I, st, v, lab=None):
    """Canonical text of a value (legs that are bound by enclosing loops labelled by depth)."""
    lab = lab or {}
    if isinstance(v, Ten):
        return T.ten_key(v, lab)
    if isinstance(v, tuple):
        return "(" + ",".join(val_key(I, st, x, lab) for x in v) + ")"
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, SStr):
        return "str[" + segs_key(I, st, v.segs, lab) + "]"
    if isinstance(v, Gam):
        return gam_key(I, st, v, lab)
    if isinstance(v, Iter):
        return "[" + segs_key(I, st, v.segs, lab) + "]"
    if isinstance(v, Ref):
        o = st.heap[v.a]
        if isinstance(o, HArr):
            t = I.arr_ten(st, v)
            return "arr:" + (T.ten_key(t, lab) if t is not None else "⊤%d" % v.a)
        if isinstance(o, HList):
            return o.kind + "[" + segs_key(I, st, o.segs, lab) + "]"
        if isinstance(o, HDict):
            return "{" + ",".join("%s:%s" % (k, val_key(I, st, x, lab)) for k, x in sorted(o.items.items(), key=lambda q: str(q[0]))) + "}"
        if isinstance(o, HInst):
            return "%s@%d" % (o.cls.name, v.a)
    if v is None:
        return "None"
    if isinstance(v, Top):
        return "⊤(%s)%d" % (v.why, id(v))
    if isinstance(v, Obj):
        return "<%s " % v.kind + ",".join("%s=%s" % (k, val_key(I, st, x, lab)) for k, x in sorted(v.f.items())) + ">"
    if isinstance(v, Rng):
        return "range" + val_key(I, st, (v.a, v.b, v.step), lab)
    return repr(v)


def gam_cases(I, st, v, lab):
    """Gate of constants as {constant key: indicator}."""
    if isinstance(v, Gam):
        a, b = gam_cases(I, st, v.a, lab), gam_cases(I, st, v.b, lab)
        out = {}
        for k, (c, x) in a.items():
            out[k] = (T.land(v.c, c), x)
        for k, (c, x) in b.items():
            c2 = T.land(T.lnot(v.c), c)
            out[k] = (T._bool(T.add(out[k][0], c2)), x) if k in out else (c2, x)
        return out
    return {val_key(I, st, v, lab): (TRUE, v)}


def gam_key(I, st, v, lab):
    cs = gam_cases(I, st, v, lab)
    parts = []
    for k in sorted(cs):
        c = cs[k][0]
        if cbool(c) is False:
            continue
        parts.append("%s if %s" % (k, T.ten_key(c, lab)))
    if len(parts) == 1:
        return parts[0].split(" if ")[0] if False else parts[0]
    return "γ{" + "; ".join(parts) + "}"


def segs_key(I, st, segs, lab, depth=0):
    out = []
    for s in segs:
        if isinstance(s, It):
            out.append(val_key(I, st, s.v, lab))
        elif isinstance(s, Loop):
            l2 = dict(lab)
            l2[s.leg] = "@%d" % len(lab)
            f = "" if s.leg.extra is None else "|" + s.leg.extra.fkey(l2)
            out.append("for<%s%s>{%s}" % (s.leg.dim.sid(lab), f, segs_key(I, st, s.segs, l2)))
        elif isinstance(s, Cond):
            out.append("if<%s>{%s}else{%s}" % (T.ten_key(s.c, lab), segs_key(I, st, s.a, lab), segs_key(I, st, s.b, lab)))
        else:
            out.append(repr(s))
    return ",".join(out)


def seg_same(I, x, y):
    if x is y:
        return True
    if isinstance(x, It) and isinstance(y, It):
        return I.same(x.v, y.v)
    if isinstance(x, PhiSeg) and isinstance(y, PhiSeg):
        return x.id == y.id
    if isinstance(x, Loop) and isinstance(y, Loop):
        return x.leg is y.leg and len(x.segs) == len(y.segs) and all(seg_same(I, a, b) for a, b in zip(x.segs, y.segs))
    if isinstance(x, Cond) and isinstance(y, Cond):
        return I.same(x.c, y.c) and len(x.a) == len(y.a) and len(x.b) == len(y.b) and \
            all(seg_same(I, a, b) for a, b in zip(x.a + x.b, y.a + y.b))
    return False


def sstr_same(I, a, b):
    sa = a.segs if isinstance(a, SStr) else tuple(It(c) for c in a) if isinstance(a, str) else None
    sb = b.segs if isinstance(b, SStr) else tuple(It(c) for c in b) if isinstance(b, str) else None
    if sa is None or sb is None:
        return False
    return len(sa) == len(sb) and all(seg_same(I, x, y) for x, y in zip(sa, sb))


def sstr_merge(I, c, A, x, B, y, S):
    if isinstance(x, str) and isinstance(y, str) and len(x) == 1 and len(y) == 1:
        return None
    sx = x.segs if isinstance(x, SStr) else tuple(It(ch) for ch in x)
    sy = y.segs if isinstance(y, SStr) else tuple(It(ch) for ch in y)
    if isinstance(x, str) and isinstance(y, str):
        return None
    return SStr(I.merge_segs(c, A, sx, B, sy, S))


def str_eq(I, st, a, b):
    """Indicator of equality of two values at least one of which is a string."""
    if isinstance(a, str) and isinstance(b, str):
        return boolv(a == b)
    strs = (str, SStr)
    if not (isinstance(a, strs) and isinstance(b, strs)):
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, s = (a, b) if isinstance(a, Obj) else (b, a)
            if o.kind == "symstr":
                return T._bool(T.inp("%s=='%s'" % (o.f["name"], s), flags=("ind", "real", "nn")))
        return FALSE
    sa = a.segs if isinstance(a, SStr) else tuple(It(c) for c in a)
    sb = b.segs if isinstance(b, SStr) else tuple(It(c) for c in b)
    return seq_eq(I, st, sa, sb)


def seq_eq(I, st, sa, sb):
    ca, cb = concrete(I, st, sa), concrete(I, st, sb)
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return FALSE
        r = TRUE
        for x, y in zip(ca, cb):
            r = T.land(r, I.truth(st, I.compare("Eq", x, y, st, None)))
        return r
    try:
        la, lb = length(I, st, sa), length(I, st, sb)
        if cbool(T.eq0(T.sub(la, lb))) is False:
            return FALSE
    except Undecided:
        pass
    raise Undecided("equality of symbolic sequences")
