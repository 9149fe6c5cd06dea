"""Models of numpy functions and array methods."""
from .models import *
import math

ARR = "nd mat coo sp"


def out(I, st, t, dt=None, kind="nd"):
    return I.new_arr(st, t, kind, dt)


def tn(I, st, v):
    return strip(I.ten(st, v))


def axis_of(I, st, v, nd):
    if v is None or v is NO:
        return None
    if isinstance(v, tuple):
        r = [ival(x) for x in v]
    elif isinstance(v, Ref):
        r = [ival(x) for x in SQ.concrete(I, st, SQ.segs_of(I, st, v))]
    else:
        r = [ival(v)]
    if any(x is None for x in r):
        raise Undecided("symbolic axis")
    for x in r:
        if not -nd <= x < nd:
            raise AE("AxisError", "axis out of bounds")
    return [x % nd for x in r]


def shape_arg(I, st, v):
    """List of sizes (None for -1)."""
    if isinstance(v, Ten) and v.ndim == 0:
        vs = [v]
    else:
        vs = SQ.concrete(I, st, SQ.segs_of(I, st, v))
        if vs is None:
            raise Undecided("symbolic shape")
    r = []
    for x in vs:
        t = I.ten(st, x)
        if "float" in t.flags:
            raise AE("TypeError", "float size")
        p = T.as_poly(t)
        if p is not None and p.as_int() == -1:
            r.append(None)
        else:
            if p is not None and p.as_fr() is not None and (p.as_int() is None or p.as_int() < 0):
                raise AE("ValueError", "bad size")
            r.append(SQ.as_size(strip(t)))
    return r


# ------------------------------------------------------------------ creation
@lib("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray")
def _array(I, st, a, k, node, copy=True):
    x, dtype, cp, order, subok, ndmin = bind(a, k, "x dtype=None copy=True order=None subok=False ndmin=0")
    dt = parse_dt(I, st, dtype)
    o = I.obj(st, x)
    if isinstance(o, HArr) and o.kind == "sp":
        raise Undecided("np.array of a scipy sparse matrix")
    src = dtype_of(I, st, x)
    if isinstance(o, HList) or isinstance(x, (tuple, Iter, Rng)):
        for s in SQ.segs_of(I, st, x):
            if isinstance(s, It) and (arr_kind(I, st, s.v) == "sp"):
                raise Undecided("np.array of sparse matrices")
            if isinstance(s, It) and isinstance(s.v, (str, SQ.SStr)):
                raise Undecided("array of strings")
            if isinstance(s, Loop) and any(isinstance(q, It) and isinstance(q.v, (str, SQ.SStr)) for q in s.segs):
                raise Undecided("array of strings")
    if isinstance(x, (str, SQ.SStr)) or x is None or isinstance(x, (FuncV, ClassV, Lib, Obj)):
        raise Undecided("array of objects")
    if isinstance(o, (HInst, HDict)):
        raise Undecided("array of objects")
    t = strip(I.ten(st, x))
    if ival(ndmin) and t.ndim < ival(ndmin):
        t = T.mk([()] * (ival(ndmin) - t.ndim) + list(t.axes), t.terms)
    if dt is not None:
        t = cast(t, src, dt)
    return st.new(HArr(t, "nd", dt or src))


def _asarray(I, st, a, k, node):
    x, dtype, order = bind(a, k, "x dtype=None order=None")
    o = I.obj(st, x)
    dt = parse_dt(I, st, dtype)
    if isinstance(o, HArr) and o.kind == "nd" and (dt is None or dt == o.dt):
        return x
    if isinstance(o, HArr) and o.kind == "mat":
        return st.new(HArr(I.arr_ten(st, x), "nd", dt or o.dt))
    return _array(I, st, [x], {"dtype": dtype} if dtype is not None else {}, node)


for _n in ("asarray", "ascontiguousarray", "asanyarray"):
    FUN["numpy." + _n] = _asarray


@lib("numpy.matrix", "numpy.asmatrix", "numpy.mat")
def _matrix(I, st, a, k, node):
    t = strip(I.ten(st, a[0]))
    return st.new(HArr(t, "mat", dtype_of(I, st, a[0])))


@lib("numpy.zeros", "numpy.empty")
def _zeros(I, st, a, k, node):
    shape, dtype, order = bind(a, k, "shape dtype=None order=None")
    return st.new(HArr(T.zeros(shape_arg(I, st, shape)), "nd", parse_dt(I, st, dtype) or "f"))


@lib("numpy.ones")
def _ones(I, st, a, k, node):
    shape, dtype, order = bind(a, k, "shape dtype=None order=None")
    return st.new(HArr(T.full(shape_arg(I, st, shape), 1), "nd", parse_dt(I, st, dtype) or "f"))


@lib("numpy.full")
def _full(I, st, a, k, node):
    shape, v, dtype = bind(a, k, "shape v dtype=None")
    t = tn(I, st, v)
    return st.new(HArr(T.mul(T.full(shape_arg(I, st, shape), 1), t), "nd", parse_dt(I, st, dtype) or dtype_of(I, st, v)))


@lib("numpy.zeros_like", "numpy.empty_like")
def _zl(I, st, a, k, node):
    x, dtype = bind(a, k, "x dtype=None")
    t = tn(I, st, x)
    return out(I, st, T.zeros(t.shape), parse_dt(I, st, dtype) or dtype_of(I, st, x))


@lib("numpy.ones_like")
def _ol(I, st, a, k, node):
    x, dtype = bind(a, k, "x dtype=None")
    t = tn(I, st, x)
    return out(I, st, T.full(t.shape, 1), parse_dt(I, st, dtype) or dtype_of(I, st, x))


@lib("numpy.eye", "numpy.identity")
def _eye(I, st, a, k, node):
    n, m, kk, dtype = bind(a, k, "n m=None k=0 dtype=None")
    if isinstance(m, Lib):
        m, dtype = None, m
    n = shape_arg(I, st, n)[0]
    m = shape_arg(I, st, m)[0] if m is not None else n
    return st.new(HArr(T.eye(n, m, T.as_poly(kk)), "nd", parse_dt(I, st, dtype) or "f"))


@lib("numpy.arange")
def _arange(I, st, a, k, node):
    k = {x: y for x, y in k.items() if x != "dtype"}
    if k:
        raise Undecided("arange keywords")
    r = FUN["builtins.range"](I, st, a, {}, node)
    segs = SQ.segs_of(I, st, r)
    return st.new(HArr(SQ.to_ten(I, st, segs), "nd", "i"))


@lib("numpy.diag_indices")
def _di(I, st, a, k, node):
    n = shape_arg(I, st, a[0])[0]
    return (Obj("diagix", n=n, axis=0), Obj("diagix", n=n, axis=1))


def _tri(up):
    def f(I, st, a, k, node):
        n, kk, m = bind(a, k, "n k=0 m=None")
        kk = ival(kk)
        n = shape_arg(I, st, n)[0]
        if m is not None:
            m = shape_arg(I, st, m)[0]
            if kk is not None and T.nonneg(m - n - kk, T.cur_facts()):
                m = None        # no row of the triangle is cut off
        if kk is None or (kk > 0) != up and kk != 0:
            raise Undecided("triangle offset")
        if m is not None and (up or not T.nonneg(n + kk - m + 1, T.cur_facts())):
            raise Undecided("rectangular triangle")
        # up: the transposed lower triangle is enumerated differently; kept opaque
        return (Obj("tril", n=n, k=kk, axis=0, up=up, m=m), Obj("tril", n=n, k=kk, axis=1, up=up, m=m))
    return f


FUN["numpy.tril_indices"] = _tri(False)
FUN["numpy.triu_indices"] = _tri(True)


# ------------------------------------------------------------------ elementwise
def ew(fn, dt=None):
    def f(I, st, a, k, node):
        k = {x: y for x, y in k.items() if x not in ("dtype",)}
        if k:
            raise Undecided("keyword arguments")
        t = tn(I, st, a[0])
        d = dt(dtype_of(I, st, a[0])) if callable(dt) else (dt or dtype_of(I, st, a[0]))
        return out(I, st, fn(t), d, arr_kind(I, st, a[0]))
    return f


def _rdt(d):
    return "f" if d in ("c", None) else d


FUN["numpy.conj"] = ew(T.conjugate)
FUN["numpy.abs"] = ew(T.tabs, _rdt)


def _npreal(I, st, a, k, node):
    d = dtype_of(I, st, a[0])
    t = tn(I, st, a[0])
    return out(I, st, t if d in ("i", "f", "b") else T.real(t), _rdt(d), arr_kind(I, st, a[0]))


FUN["numpy.real"] = _npreal
FUN["numpy.imag"] = ew(T.imag, _rdt)
FUN["numpy.negative"] = ew(T.neg)
FUN["numpy.square"] = ew(lambda t: T.power(t, 2))


def _sqrt(t):
    return T.power(t, Fr(1, 2))


FUN["numpy.sqrt"] = ew(_sqrt, lambda d: "f" if d in ("i", "f", "b") else d)


def log2(t):
    p = T.as_poly(t)
    if p is not None:
        c = p.as_fr()
        if c is not None:
            if c <= 0:
                return T.inp("nan", flags=("real",))
            e, m = 0, c
            while m > 1:
                m, e = m / 2, e + 1
            while m < 1:
                m, e = m * 2, e - 1
            if m == 1:
                return T.const(e)
        # log2 of a monomial power
        if len(p.terms) == 1:
            (mono, c), = p.terms.items()
            if c == T.ONE and len(mono) >= 1:
                tot = T.const(0)
                for s, e in mono:
                    base = s.name if s.kind == "num" else None
                    x = T.const(Fr(base)) if base is not None else None
                    le = T.from_poly(P(e))
                    tot = T.add(tot, T.mul(le, log2(x) if x is not None else T.elem("log2", T.from_poly(P(s)), flags=("real",))))
                return tot
    # log2(c/x) = log2 c - log2 x
    q = T.single(t)
    if q is not None and t.ndim == 0 and not q.bound and len(q.fs) == 1 and q.fs[0].exp == -1 and q.coef.as_fr() is not None \
            and q.lm.const() == T.ONE and "real" in q.fs[0].atom.flags:
        x = T.mk((), [T.Term(P(1), P(1), [T.Factor(q.fs[0].atom, q.fs[0].conj, q.fs[0].idx)], ())])
        return T.sub(log2(T.const(q.coef)), log2(x))
    return T.elem("log2", t, flags=("real",) if T.is_real(t) else ())


def ewp(fn, dt="f"):
    """Elementwise function defined on scalar Tens."""
    def g(t):
        if t.ndim == 0:
            return fn(t)
        return T._pointwise_raw(fn, t)
    return ew(g, dt)


def _pointwise_raw(f, t):
    t = T.freshen(t)
    R = f(Ten((), T.mk((), t.terms).terms))
    return T.mk(t.axes, T.freshen(R).terms)


T._pointwise_raw = _pointwise_raw
FUN["numpy.log2"] = ewp(log2)
FUN["numpy.log"] = ewp(lambda t: T.mul(log2(t), T.inp("ln2", flags=("real", "nn"))))


@lib("math.log")
def _mlog(I, st, a, k, node):
    if len(a) == 2:
        return T.div(log2(tn(I, st, a[0])), log2(tn(I, st, a[1])))
    return FUN["numpy.log"](I, st, a, k, node)


def _exp(t):
    if not t.terms:
        return T.full(t.shape, 1)
    return T.elem("exp", t, flags=("real", "nn") if T.is_real(t) else ())


FUN["numpy.exp"] = ewp(_exp, lambda d: "c" if d == "c" else "f" if d else None)
FUN["numpy.angle"] = ewp(lambda t: T.elem("angle", t, flags=("real",)))
for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "sign", "tanh", "sinh", "cosh"):
    FUN["numpy." + _n] = ewp((lambda nm: lambda t: T.elem(nm, t, flags=("real",) if T.is_real(t) else ()))(_n))
    FUN["math." + _n] = FUN["numpy." + _n]


def _ceil(t):
    p = T.as_poly(t)
    if p is not None and p.is_integral():
        return t
    if p is not None and p.as_fr() is not None:
        c = p.as_fr()
        return T.const(-((-c.numerator) // c.denominator))
    if T._intlike(t):
        return t
    v = _numeric(t)
    if v is not None:
        return T.const(math.ceil(v))
    return T.elem("ceil", t, flags=("real", "int"))


def _closed(t):
    """Is a term free of inputs and open sizes?"""
    for tm in t.terms:
        if tm.bound or tm.coef.symbols() or tm.lm.symbols():
            return False
        for f in tm.fs:
            a = f.atom
            if a.key != "π" and not (a.kind == "app" and a.fname in ("log", "log2", "exp", "sqrt", "pow") and not f.idx
                                     and all(not isinstance(A, Ten) or _closed(A) for A in a.args)):
                return False
    return True


def _numeric(t):
    """Value of a constant real expression that is clearly no integer."""
    if t.ndim or not t.terms or not _closed(t):
        return None
    from . import rand
    try:
        v = complex(rand.Env((0, 0)).entry(t, [], {}))
    except Exception:
        return None
    if abs(v.imag) > 1e-9 or abs(v.real - round(v.real)) < 1e-6 or abs(v.real) > 1e9:
        return None
    return v.real


def _floor(t):
    p = T.as_poly(t)
    if p is not None and p.is_integral():
        return t
    if p is not None and p.as_fr() is not None:
        return T.const(p.as_fr().numerator // p.as_fr().denominator)
    if T._intlike(t):
        return t
    v = _numeric(t)
    if v is not None:
        return T.const(math.floor(v))
    return T.elem("floor", t, flags=("real", "int"))


FUN["numpy.ceil"] = ewp(_ceil)
FUN["numpy.floor"] = ewp(_floor)
FUN["numpy.rint"] = ewp(lambda t: t if T._intlike(t) else T.elem("rint", t, flags=("real", "int")))
FUN["numpy.round"] = FUN["numpy.around"] = FUN["numpy.rint"]


def bin_(op):
    def f(I, st, a, k, node):
        if k:
            raise Undecided("keyword arguments")
        x = [arrize(I, st, v) for v in a]
        if op in ("Eq", "NotEq", "Lt", "Gt", "LtE", "GtE"):
            return I.compare(op, x[0], x[1], st, node)
        return I.binop(op, x[0], x[1], st, node)
    return f


def arrize(I, st, v):
    if is_list(I, st, v) or isinstance(v, (tuple, Iter, Rng)):
        return FUN["numpy.array"](I, st, [v], {}, None)
    return v


for _n, _o in dict(add="Add", subtract="Sub", multiply="Mult", divide="Div", true_divide="Div", power="Pow", mod="Mod", remainder="Mod",
                   floor_divide="FloorDiv", matmul="MatMult", equal="Eq", not_equal="NotEq", less="Lt", greater="Gt",
                   less_equal="LtE", greater_equal="GtE", bitwise_and="BitAnd", bitwise_or="BitOr", bitwise_xor="BitXor").items():
    FUN["numpy." + _n] = bin_(_o)
FUN["numpy.float_power"] = FUN["numpy.power"]


def _np_mul(I, st, a, k, node):
    x, y = a[:2]
    r = T.mul(tn(I, st, x), tn(I, st, y))
    return out(I, st, r, dt_join(dtype_of(I, st, x), dtype_of(I, st, y)))


FUN["numpy.multiply"] = _np_mul


def logic(fn):
    def f(I, st, a, k, node):
        ts = [I.ten(st, x) for x in a]
        ts = [t if "bool" in t.flags or dtype_of(I, st, x) == "b" else T.lnot(T.eq0(t)) for t, x in zip(ts, a)]
        return out(I, st, T._bool(fn(*ts)), "b")
    return f


FUN["numpy.logical_and"] = logic(T.land)
FUN["numpy.logical_or"] = logic(T.lor)
FUN["numpy.logical_not"] = logic(T.lnot)
FUN["numpy.logical_xor"] = logic(lambda a, b: T.mod2(T.add(a, b)))


def _minmax2(kind):
    def f(I, st, a, k, node):
        x, y = tn(I, st, a[0]), tn(I, st, a[1])
        d = T.sub(x, y)
        c = T.pos(d) if kind == "max" else T.pos(T.neg(d))
        z = T.mul(T.full(d.shape, 1), y)
        return out(I, st, T.add(T.mul(c, d), z), dt_join(dtype_of(I, st, a[0]), dtype_of(I, st, a[1])))
    return f


FUN["numpy.maximum"] = _minmax2("max")
FUN["numpy.minimum"] = _minmax2("min")


@lib("numpy.where")
def _where(I, st, a, k, node):
    if len(a) != 3:
        raise Undecided("np.where with one argument")
    c, x, y = I.ten(st, a[0]), tn(I, st, a[1]), tn(I, st, a[2])
    if dtype_of(I, st, a[0]) != "b" and "bool" not in c.flags:
        c = T.lnot(T.eq0(c))
    r = T.add(T.mul(c, x), T.mul(T.lnot(c), y))
    return out(I, st, r, dt_join(dtype_of(I, st, a[1]), dtype_of(I, st, a[2])))


def eqten(I, st, a, b):
    return T.eq0(T.sub(tn(I, st, a), tn(I, st, b)))


@lib("numpy.isclose")
def _isclose(I, st, a, k, node):
    t = eqten(I, st, a[0], a[1])
    return out(I, st, T._bool(t), "b") if t.ndim else T._bool(t)


def forall(t):
    """Indicator that every entry of an indicator array holds."""
    return T._bool(T.lnot(some(T.lnot(t))))


def some(t, axes=None):
    t = T.freshen(t)
    axs = range(t.ndim) if axes is None else axes
    ls = [l for k in axs for l in t.axes[k]]
    body = Ten((), T.mk((), t.terms).terms)
    for l in ls:
        if l.extra is not None:
            raise Undecided("quantifier over a filtered axis")
    r = T.freshen(T.exists(body, ls))
    return T.mk([x for k, x in enumerate(t.axes) if k not in axs], r.terms, ("bool",))


@lib("numpy.allclose")
def _allclose(I, st, a, k, node):
    return forall(eqten(I, st, a[0], a[1]))


@lib("numpy.array_equal")
def _aeq(I, st, a, k, node):
    x, y = tn(I, st, a[0]), tn(I, st, a[1])
    if x.ndim != y.ndim or any(not (p - q).is_zero() for p, q in zip(x.shape, y.shape)):
        if x.ndim == y.ndim and any(PL.sign(p - q, T.cur_facts()) is None for p, q in zip(x.shape, y.shape)):
            raise Undecided("array_equal of unknown shapes")
        return FALSE
    return forall(T.eq0(T.sub(x, y)))


def quant(isall):
    def f(I, st, a, k, node):
        x, axis, o_, kd = bind(a, k, "x axis=None out=None keepdims=False")
        if isinstance(x, (Iter,)) or (is_list(I, st, x) and any(isinstance(s, Cond) for s in SQ.segs_of(I, st, x))):
            return FUN["builtins.all" if isall else "builtins.any"](I, st, [x], {}, node)
        t = I.ten(st, x)
        if dtype_of(I, st, x) != "b" and "bool" not in t.flags:
            t = T.lnot(T.eq0(strip(t)))
        if t.ndim == 0:
            return T._bool(t)
        ax = axis_of(I, st, axis, t.ndim)
        r = T.lnot(some(T.lnot(t), ax)) if isall else some(t, ax)
        r = T._bool(r)
        return r if r.ndim == 0 else out(I, st, r, "b")
    return f


FUN["numpy.all"] = quant(True)
FUN["numpy.any"] = quant(False)


# ------------------------------------------------------------------ reductions
@lib("numpy.sum", "numpy.nansum")
def _npsum(I, st, a, k, node):
    x, axis, dtype, o_, kd = bind(a, k, "x axis=None dtype=None out=None keepdims=False")
    t = I.ten(st, x)
    dt = parse_dt(I, st, dtype)
    src = dtype_of(I, st, x)
    t = strip(t)
    ax = axis_of(I, st, axis, t.ndim)
    r = T.sum_axes(t, ax if ax is not None else list(range(t.ndim)))
    if cbool(I.truth(st, kd)):
        axs = ax if ax is not None else list(range(t.ndim))
        axes = []
        it = iter(r.axes)
        for j in range(t.ndim):
            axes.append(() if j in axs else next(it))
        r = T.mk(axes, r.terms)
    if dt is not None:
        r = cast(r, src, dt)
    kk = arr_kind(I, st, x)
    if kk in ("sp", "mat") and ax is not None:
        kk = "mat"
        r = T.mk([() if j in ax else x for j, x in enumerate(insert_units(r.axes, ax))], r.terms)
    return out(I, st, r, dt or ("i" if src == "b" else src), kk)


def insert_units(axes, ax):
    axes = list(axes)
    for j in sorted(ax):
        axes.insert(j, ())
    return axes


@lib("numpy.mean", "numpy.average")
def _mean(I, st, a, k, node):
    x, axis = bind(a, k, "x axis=None")
    t = tn(I, st, x)
    ax = axis_of(I, st, axis, t.ndim)
    axs = ax if ax is not None else list(range(t.ndim))
    n = P(1)
    for j in axs:
        if any(l.extra is not None for l in t.axes[j]):
            raise Undecided("mean of filtered")
        n = n * T.axdim(t.axes[j])
    q = n.pow(-1)
    return out(I, st, T.scale(T.sum_axes(t, axs), q), "f")


@lib("numpy.prod", "numpy.product")
def _prod(I, st, a, k, node):
    x, axis = bind(a, k, "x axis=None")
    vs = SQ.concrete(I, st, SQ.segs_of(I, st, x)) if not isinstance(x, Ten) else [x]
    if vs is None:
        raise Undecided("prod")
    r = T.const(1)
    for v in vs:
        r = T.mul(r, tn(I, st, v))
    return r


def _red(kind):
    def f(I, st, a, k, node):
        x, axis = bind(a, k, "x axis=None")
        if axis is not None:
            raise Undecided("%s along an axis" % kind)
        o = I.obj(st, x)
        if isinstance(o, HList) or isinstance(x, (tuple, Iter, Rng)):
            segs = SQ.segs_of(I, st, x)
            try:
                from .mpy import minmax
                return minmax(I, st, segs, kind, None, node)
            except Undecided:
                pass
        t = tn(I, st, x)
        return tmax(I, t, kind)
    return f


def tmax(I, t, kind):
    if t.ndim == 0:
        return t
    from . import loops
    t = T.freshen(t)
    ls = [l for ax in t.axes for l in ax]
    if not ls:
        return T.mk((), t.terms)
    vs = T.constants(t)
    if vs is not None and all(v[1] == 0 for v in vs) and vs:
        return T.const((max if kind == "max" else min)(v[0] for v in vs))
    if len(ls) == 1 and ls[0].extra is None:
        l = ls[0]
        body = Ten((), t.terms)
        p = P(loops.select_sym("arg" + kind, body, l, l.dim))
        return T.rename(T.mk((), t.terms), {l: p})
    return T.app_atom(kind, [t], (), ("real",) if T.is_real(t) else ())


FUN["numpy.max"] = _red("max")
FUN["numpy.min"] = _red("min")


def _arg(kind):
    def f(I, st, a, k, node):
        x, axis = bind(a, k, "x axis=None")
        t = tn(I, st, x)
        if t.ndim != 1:
            raise Undecided("argmin of a matrix")
        from . import loops
        t = T.freshen(t)
        if len(t.axes[0]) != 1 or t.axes[0][0].extra is not None:
            raise Undecided("argmin of a factored axis")
        l = t.axes[0][0]
        return T.from_poly(P(loops.select_sym("arg" + kind, Ten((), t.terms), l, l.dim)))
    return f


FUN["numpy.argmin"] = FUN["numpy.nanargmin"] = _arg("min")
FUN["numpy.argmax"] = FUN["numpy.nanargmax"] = _arg("max")


@lib("numpy.trace")
def _trace(I, st, a, k, node):
    x, off, a1, a2, dtype = bind(a, k, "x offset=0 axis1=0 axis2=1 dtype=None")
    t = tn(I, st, x)
    if ival(off) != 0:
        raise Undecided("trace offset")
    if t.ndim < 2:
        raise AE("ValueError", "trace of a vector")
    i, j = ival(a1), ival(a2)
    dt = parse_dt(I, st, dtype)
    src = dtype_of(I, st, x)
    r = T.trace(square(t, i, j), i, j)
    if dt is not None:
        r = cast(r, src, dt)
    return out(I, st, r, dt or src, arr_kind(I, st, x) if arr_kind(I, st, x) == "coo" else "nd")


@lib("numpy.count_nonzero")
def _cnz(I, st, a, k, node):
    x, axis = bind(a, k, "x axis=None")
    t = I.ten(st, x)
    if dtype_of(I, st, x) != "b":
        t = T.lnot(T.eq0(strip(t)))
    ax = axis_of(I, st, axis, t.ndim)
    return out(I, st, T.sum_axes(strip(t), ax if ax is not None else list(range(t.ndim))), "i")


# ------------------------------------------------------------------ contractions
@lib("numpy.einsum")
def _einsum(I, st, a, k, node):
    k = dict(k)
    dtype = k.pop("dtype", None)
    k.pop("optimize", None)
    k.pop("casting", None)
    if k:
        raise Undecided("einsum keywords")
    spec = a[0]
    if not isinstance(spec, str):
        raise Undecided("einsum specification")
    ops = [tn(I, st, x) for x in a[1:]]
    spec = ellip(spec, ops)
    r = T.einsum(spec, *ops)
    src = dt_join(*[dtype_of(I, st, x) for x in a[1:]])
    dt = parse_dt(I, st, dtype)
    return out(I, st, r, dt or src)


def ellip(spec, ops):
    if "..." not in spec:
        return spec
    spec = spec.replace(" ", "")
    ins, o = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    used = set(spec) - set(".,->")
    free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in used]
    if o is None:
        raise Undecided("implicit einsum with ellipsis")
    n = max([ops[j].ndim - len(s.replace("...", "")) for j, s in enumerate(ins) if "..." in s] or [0])
    let = "".join(free[:n])
    outl = []
    for j, s in enumerate(ins):
        if "..." in s:
            m = ops[j].ndim - len(s.replace("...", ""))
            s = s.replace("...", let[n - m:])
        outl.append(s)
    return ",".join(outl) + "->" + o.replace("...", let)


@lib("numpy.tensordot")
def _tensordot(I, st, a, k, node):
    x, y, axes = bind(a, k, "x y axes=2")
    return tdot(I, st, x, y, axes)


def tdot(I, st, x, y, axes):
    def lst(v):
        if isinstance(v, Ten):
            return ival(v)
        return [ival(q) for q in SQ.concrete(I, st, SQ.segs_of(I, st, v))]
    if isinstance(axes, Ten):
        ax = ival(axes)
    else:
        p = SQ.concrete(I, st, SQ.segs_of(I, st, axes))
        ax = (lst(p[0]), lst(p[1]))
    r = T.tensordot(tn(I, st, x), tn(I, st, y), ax)
    ks = (arr_kind(I, st, x), arr_kind(I, st, y))
    return out(I, st, r, dt_join(dtype_of(I, st, x), dtype_of(I, st, y)), "coo" if ks == ("coo", "coo") else "nd")


@lib("numpy.matmul")
def _matmul(I, st, a, k, node):
    x, y = bind(a, k, "x y")
    ks = (arr_kind(I, st, x), arr_kind(I, st, y))
    r = T.matmul(tn(I, st, x), tn(I, st, y))
    return out(I, st, r, dt_join(dtype_of(I, st, x), dtype_of(I, st, y)), ks[0] if ks[0] == ks[1] else "nd")


@lib("numpy.dot")
def _dot(I, st, a, k, node):
    x, y = bind(a, k, "x y")
    return dot2(I, st, x, y)


def dot2(I, st, x, y):
    kx, ky = arr_kind(I, st, x), arr_kind(I, st, y)
    tx, ty = tn(I, st, x), tn(I, st, y)
    r = T.dot(tx, ty)
    kind = kx if kx == ky else "mat" if "mat" in (kx, ky) else "nd"
    if "nd" in (kx, ky) and {kx, ky} & {"coo", "sp"}:
        kind = "nd"
    if ty.ndim == 0 or tx.ndim == 0:
        kind = rank_kind(kx, ky)
    return out(I, st, r, dt_join(dtype_of(I, st, x), dtype_of(I, st, y)), kind)


@lib("numpy.vdot")
def _vdot(I, st, a, k, node):
    x, y = tn(I, st, a[0]), tn(I, st, a[1])
    return T.tensordot(T.conjugate(T.reshape(x, [None])), T.reshape(y, [None]), 1)


@lib("numpy.inner")
def _inner(I, st, a, k, node):
    x, y = tn(I, st, a[0]), tn(I, st, a[1])
    if x.ndim == 0 or y.ndim == 0:
        return T.mul(x, y)
    return out(I, st, T.tensordot(x, y, ([x.ndim - 1], [y.ndim - 1])), dt_join(dtype_of(I, st, a[0]), dtype_of(I, st, a[1])))


@lib("numpy.outer")
def _outer(I, st, a, k, node):
    return out(I, st, T.outer(tn(I, st, a[0]), tn(I, st, a[1])), dt_join(dtype_of(I, st, a[0]), dtype_of(I, st, a[1])))


@lib("numpy.kron")
def _kron(I, st, a, k, node):
    for x in a:
        if arr_kind(I, st, x) == "sp":
            raise Undecided("np.kron of scipy sparse")
    r = T.kron(tn(I, st, a[0]), tn(I, st, a[1]))
    return out(I, st, r, dt_join(dtype_of(I, st, a[0]), dtype_of(I, st, a[1])), rank_kind(*[arr_kind(I, st, x) for x in a]))


# ------------------------------------------------------------------ rearrangement
def perm_of(I, st, v):
    if v is None:
        return None
    if isinstance(v, Ten):
        return [ival(v)]
    return [ival(x) for x in SQ.concrete(I, st, SQ.segs_of(I, st, v))]


def view_of(I, st, x, fn, put, kind=None):
    """View of an array object when it is dense, else a new array."""
    o = I.obj(st, x)
    if isinstance(o, HArr) and o.kind in ("nd", "mat"):
        return I.new_view(st, x, fn, put, kind)
    return out(I, st, fn(tn(I, st, x)), dtype_of(I, st, x), o.kind if isinstance(o, HArr) else "nd")


def do_transpose(I, st, x, perm):
    nd = tn(I, st, x).ndim
    pr = list(range(nd))[::-1] if perm is None else [p % nd if -nd <= p < nd else _bad() for p in perm]
    if sorted(pr) != list(range(nd)):
        raise AE("ValueError", "axes don't match array")
    inv = [pr.index(i) for i in range(nd)]
    return view_of(I, st, x, lambda b: T.transpose(b, pr) if b.ndim else b, lambda b, v: T.transpose(v, inv) if v.ndim else v)


def _bad():
    raise AE("ValueError", "axes")


@lib("numpy.transpose")
def _transpose(I, st, a, k, node):
    x, axes = bind(a, k, "x axes=None")
    return do_transpose(I, st, arrize(I, st, x), perm_of(I, st, axes))


@lib("numpy.swapaxes")
def _swap(I, st, a, k, node):
    x, i, j = bind(a, k, "x axis1 axis2")
    return swap(I, st, x, ival(i), ival(j))


def swap(I, st, x, i, j):
    nd = tn(I, st, x).ndim
    for q in (i, j):
        if not -nd <= q < nd:
            raise AE("AxisError")
    p = list(range(nd))
    p[i % nd], p[j % nd] = p[j % nd], p[i % nd]
    return do_transpose(I, st, x, p)


@lib("numpy.moveaxis")
def _moveaxis(I, st, a, k, node):
    x, s, d = bind(a, k, "x source destination")
    nd = tn(I, st, x).ndim
    s, d = [q % nd for q in perm_of(I, st, s)], [q % nd for q in perm_of(I, st, d)]
    order = [n for n in range(nd) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return do_transpose(I, st, x, order)


def do_reshape(I, st, x, shp, order="C"):
    def back(b, v):
        return T.reshape(v, list(b.shape), order)
    return view_of(I, st, x, lambda b: T.reshape(b, list(shp), order), back, "nd" if arr_kind(I, st, x) == "mat" and len(shp) != 2 else None)


@lib("numpy.reshape")
def _reshape(I, st, a, k, node):
    x, shape, order = bind(a, k, "x newshape order=C")
    return do_reshape(I, st, arrize(I, st, x), shape_arg(I, st, shape), order)


def do_ravel(I, st, x, order, copy=False):
    if order not in ("C", "F"):
        raise Undecided("memory order")
    if arr_kind(I, st, x) in ("mat",):
        t = T.reshape(tn(I, st, x), [1, None], order)
        return out(I, st, t, dtype_of(I, st, x), "mat")
    if copy:
        return out(I, st, T.reshape(tn(I, st, x), [None], order), dtype_of(I, st, x))
    return do_reshape(I, st, x, [None], order)


@lib("numpy.ravel")
def _ravel(I, st, a, k, node):
    x, order = bind(a, k, "x order=C")
    return do_ravel(I, st, arrize(I, st, x), order)


@lib("numpy.squeeze")
def _squeeze(I, st, a, k, node):
    x, axis = bind(a, k, "x axis=None")
    t = tn(I, st, x)
    ax = axis_of(I, st, axis, t.ndim)
    r = T.mk([q for j, q in enumerate(t.axes) if not ((ax is None or j in ax) and T.axdim(q).as_int() == 1)], t.terms)
    return out(I, st, r, dtype_of(I, st, x))


@lib("numpy.expand_dims")
def _expand(I, st, a, k, node):
    x, axis = bind(a, k, "x axis")
    t = tn(I, st, x)
    j = ival(axis) % (t.ndim + 1)
    return out(I, st, T.mk(list(t.axes[:j]) + [()] + list(t.axes[j:]), t.terms), dtype_of(I, st, x))


@lib("numpy.flip")
def _flip(I, st, a, k, node):
    x, axis = bind(a, k, "x axis=None")
    t = tn(I, st, x)
    for j in axis_of(I, st, axis, t.ndim) or range(t.ndim):
        t = T.slice_axis(t, j, 0, t.shape[j], -1)
    return out(I, st, t, dtype_of(I, st, x))


@lib("numpy.copy")
def _copy(I, st, a, k, node):
    return out(I, st, tn(I, st, a[0]), dtype_of(I, st, a[0]))


def pieces(I, st, v, minnd=1):
    """Tens of the items of a list argument; symbolic lists give one long piece flagged by its axis."""
    segs = SQ.segs_of(I, st, v)
    return segs


def cat(I, st, v, axis):
    segs = SQ.segs_of(I, st, v)
    vs = SQ.concrete(I, st, segs, 24)
    dt = segs_dt(I, st, segs)
    if vs is not None:
        return SQ.concat([tn(I, st, x) for x in vs], axis), dt

    def go(ss):
        ps = []
        for s in ss:
            if isinstance(s, It):
                ps.append(tn(I, st, s.v))
            elif isinstance(s, Loop):
                t = go(s.segs)
                r = T.stack_leg(t, s.leg)
                ax = axis % t.ndim
                axes = list(r.axes[1:])
                axes[ax] = r.axes[0] + axes[ax]
                ps.append(T.mk(axes, r.terms))
            else:
                raise Undecided("concatenation of a conditional list")
        return SQ.concat(ps, axis)
    return go(segs), dt


@lib("numpy.concatenate")
def _concat(I, st, a, k, node):
    x, axis = bind(a, k, "x axis=0")
    if axis is None:
        segs = SQ.mapsegs(I, st, SQ.segs_of(I, st, x), lambda v: T.reshape(tn(I, st, v), [None]))
        t, dt = cat(I, st, Iter(segs), 0)
    else:
        t, dt = cat(I, st, x, ival(axis))
    return out(I, st, t, dt)


@lib("numpy.hstack")
def _hstack(I, st, a, k, node):
    segs = SQ.mapsegs(I, st, SQ.segs_of(I, st, a[0]), lambda v: al1(tn(I, st, v)))
    first = first_val(segs)
    t, dt = cat(I, st, Iter(segs), 0 if first.ndim == 1 else 1)
    return out(I, st, t, segs_dt(I, st, SQ.segs_of(I, st, a[0])))


def al1(t):
    return T.mk([()], t.terms) if t.ndim == 0 else t


def al2(t):
    return T.mk([(), ()], t.terms) if t.ndim == 0 else T.mk([()] + list(t.axes), t.terms) if t.ndim == 1 else t


def first_val(segs):
    s = segs[0]
    if isinstance(s, It):
        return s.v
    if isinstance(s, Loop):
        return first_val(s.segs)
    return first_val(s.a or s.b)


@lib("numpy.vstack", "numpy.row_stack")
def _vstack(I, st, a, k, node):
    segs = SQ.mapsegs(I, st, SQ.segs_of(I, st, a[0]), lambda v: al2(tn(I, st, v)))
    t, dt = cat(I, st, Iter(segs), 0)
    return out(I, st, t, segs_dt(I, st, SQ.segs_of(I, st, a[0])))


@lib("numpy.column_stack")
def _colstack(I, st, a, k, node):
    segs = SQ.mapsegs(I, st, SQ.segs_of(I, st, a[0]),
                      lambda v: (lambda t: T.mk(list(t.axes) + [()], t.terms) if t.ndim < 2 else t)(tn(I, st, v)))
    t, dt = cat(I, st, Iter(segs), 1)
    return out(I, st, t, segs_dt(I, st, SQ.segs_of(I, st, a[0])))


@lib("numpy.stack")
def _stack(I, st, a, k, node):
    x, axis = bind(a, k, "x axis=0")
    t = SQ.to_ten(I, st, SQ.segs_of(I, st, x))
    j = ival(axis) % t.ndim
    if j:
        p = list(range(1, t.ndim))
        p.insert(j, 0)
        t = T.transpose(t, p)
    return out(I, st, t, segs_dt(I, st, SQ.segs_of(I, st, x)))


@lib("numpy.append")
def _npappend(I, st, a, k, node):
    x, v, axis = bind(a, k, "x values axis=None")
    tx, tv = tn(I, st, x), tn(I, st, v)
    dt = dt_join(dtype_of(I, st, x), dtype_of(I, st, v))
    if axis is None:
        return out(I, st, SQ.concat([T.reshape(tx, [None]), T.reshape(al1(tv), [None])], 0), dt)
    return out(I, st, SQ.concat([tx, tv], ival(axis)), dt)


@lib("numpy.diag", "numpy.diagonal")
def _diag(I, st, a, k, node):
    x, kk = bind(a, k, "x k=0")
    t = tn(I, st, x)
    if ival(kk) != 0:
        raise Undecided("diagonal offset")
    if t.ndim == 1:
        r = T.mul(T.eye(t.shape[0]), t)
        return out(I, st, r, dtype_of(I, st, x))
    t = square(t, 0, 1)
    return out(I, st, T.mk(T._diag(t, 0, 1).axes, T._diag(t, 0, 1).terms), dtype_of(I, st, x))


def square(t, i, j):
    """The leading square part over two axes."""
    t = T.freshen(t)
    m, n = t.shape[i], t.shape[j]
    if not (m - n).is_zero():
        F = T.cur_facts()
        if PL.nonneg(m - n, F):
            t = T.slice_axis(t, i, P(0), n)
        elif PL.nonneg(n - m, F):
            t = T.slice_axis(t, j, P(0), m)
    return t


def _trimask(lower):
    def f(I, st, a, k, node):
        x, kk = bind(a, k, "x k=0")
        t = tn(I, st, x)
        x_, y_ = leg(t.shape[0]), leg(t.shape[1])
        q = ival(kk)
        if q is None:
            raise Undecided("triangle offset")
        c = T.nonneg_ind(T.from_poly(P(x_) - P(y_) + q)) if lower else T.nonneg_ind(T.from_poly(P(y_) - P(x_) - q))
        m = T.mk([(x_,), (y_,)], c.terms)
        return out(I, st, T.mul(m, t), dtype_of(I, st, x))
    return f


FUN["numpy.tril"] = _trimask(True)
FUN["numpy.triu"] = _trimask(False)


@lib("numpy.repeat")
def _repeat(I, st, a, k, node):
    x, n, axis = bind(a, k, "x repeats axis=None")
    t = tn(I, st, x)
    m = shape_arg(I, st, n)[0]
    if axis is None:
        t = T.reshape(al1(t), [None])
        ax = 0
    else:
        ax = axis_of(I, st, axis, t.ndim)[0]
    t = T.freshen(t)
    axes = list(t.axes)
    axes[ax] = axes[ax] + (leg(m),)
    return out(I, st, T.mk(axes, t.terms), dtype_of(I, st, x))


@lib("numpy.tile")
def _tile(I, st, a, k, node):
    x, n = bind(a, k, "x reps")
    t = tn(I, st, x)
    r = shape_arg(I, st, n)
    if len(r) > t.ndim:
        t = T.mk([()] * (len(r) - t.ndim) + list(t.axes), t.terms)
    r = [P(1)] * (t.ndim - len(r)) + r
    t = T.freshen(t)
    return out(I, st, T.mk([((leg(m),) if m.as_int() != 1 else ()) + x for m, x in zip(r, t.axes)], t.terms), dtype_of(I, st, x))


@lib("numpy.ndim")
def _ndim(I, st, a, k, node):
    return num(tn(I, st, a[0]).ndim)


@lib("numpy.shape")
def _shape(I, st, a, k, node):
    return tuple(T.from_poly(d) for d in tn(I, st, a[0]).shape)


@lib("numpy.size")
def _size(I, st, a, k, node):
    r = P(1)
    for d in tn(I, st, a[0]).shape:
        r = r * d
    return T.from_poly(r)


@lib("numpy.iscomplexobj")
def _isc(I, st, a, k, node):
    d = dtype_of(I, st, a[0])
    if d is None:
        raise Undecided("dtype unknown")
    return boolv(d == "c")


@lib("numpy.isscalar")
def _issc(I, st, a, k, node):
    return boolv(isinstance(a[0], (Ten, str)))


@lib("numpy.int64", "numpy.int32", "numpy.int_", "numpy.int8")
def _npint(I, st, a, k, node):
    return FUN["builtins.int"](I, st, a, k, node)


@lib("numpy.setdiff1d")
def _setdiff(I, st, a, k, node):
    raise Undecided("setdiff1d")


# ------------------------------------------------------------------ linear algebra
def sq_dim(t):
    if t.ndim != 2:
        raise AE("LinAlgError", "matrix expected") if t.ndim < 2 else Undecided("stacked decomposition")
    return t.shape[0]


@lib("numpy.linalg.eigh")
def _eigh(I, st, a, k, node):
    k = {x: y for x, y in k.items() if x not in ("UPLO", "lower", "check_finite", "overwrite_a", "turbo")}
    x, = bind(a, k, "x")
    t = tn(I, st, x)
    n = sq_dim(t)
    w = T.app_atom("eigval", [t], (n,), ("real",))
    v = T.app_atom("eigvec", [t], (n, n))
    return (st.new(HArr(w, "nd", "f")), st.new(HArr(v, "nd", dtype_of(I, st, x) if dtype_of(I, st, x) == "c" else None)))


@lib("numpy.linalg.eigvalsh")
def _eigvalsh(I, st, a, k, node):
    k = {x: y for x, y in k.items() if x not in ("UPLO", "lower", "check_finite")}
    x, = bind(a, k, "x")
    t = tn(I, st, x)
    return st.new(HArr(T.app_atom("eigval", [t], (sq_dim(t),), ("real",)), "nd", "f"))


@lib("numpy.linalg.eigvals", "scipy.linalg.eigvals")
def _eigvals(I, st, a, k, node):
    t = tn(I, st, a[0])
    return st.new(HArr(T.app_atom("eigvalG", [t], (sq_dim(t),)), "nd", None))


@lib("numpy.linalg.eig", "scipy.linalg.eig")
def _eig(I, st, a, k, node):
    t = tn(I, st, a[0])
    n = sq_dim(t)
    return (st.new(HArr(T.app_atom("eigvalG", [t], (n,)), "nd", None)), st.new(HArr(T.app_atom("eigvecG", [t], (n, n)), "nd", None)))


@lib("numpy.linalg.cholesky")
def _chol(I, st, a, k, node):
    t = tn(I, st, a[0])
    n = sq_dim(t)
    return st.new(HArr(T.app_atom("chol", [t], (n, n)), "nd", dtype_of(I, st, a[0])))


@lib("numpy.linalg.qr")
def _qr(I, st, a, k, node):
    x, mode = bind(a, k, "x mode=reduced")
    t = tn(I, st, x)
    m, n = t.shape
    d = dtype_of(I, st, x)
    F = T.cur_facts()
    r = n if PL.nonneg(m - n, F) else m if PL.nonneg(n - m, F) else None
    if r is None:
        raise Undecided("qr of unknown proportions")
    q = T.app_atom("qrQ", [t], (m, r))
    R = T.app_atom("qrR", [t], (r, n))
    if mode == "r":
        return st.new(HArr(R, "nd", d))
    if mode != "reduced":
        raise Undecided("qr mode")
    return (st.new(HArr(q, "nd", d)), st.new(HArr(R, "nd", d)))


@lib("numpy.linalg.matrix_rank")
def _mrank(I, st, a, k, node):
    t = tn(I, st, a[0])
    return T.app_atom("mrank", [t], (), ("real", "int", "nn"))


@lib("numpy.linalg.inv", "scipy.linalg.inv")
def _inv(I, st, a, k, node):
    t = tn(I, st, a[0])
    n = sq_dim(t)
    return st.new(HArr(T.app_atom("inv", [t], (n, n)), "nd", dtype_of(I, st, a[0])))


@lib("numpy.linalg.det")
def _det(I, st, a, k, node):
    t = tn(I, st, a[0])
    return T.app_atom("det", [t], ())


@lib("numpy.linalg.norm")
def _norm(I, st, a, k, node):
    x, o, axis = bind(a, k, "x ord=None axis=None")
    t = tn(I, st, x)
    if axis is not None:
        raise Undecided("norm along an axis")
    if o is None or (isinstance(o, str) and o == "fro") or (ival(o) == 2 and t.ndim == 1):
        s = T.sum_axes(T._square(T.tabs(t)) if False else T.mul(t, T.conjugate(t)), list(range(t.ndim)))
        return T.power(s, Fr(1, 2))
    raise Undecided("norm order")


@lib("scipy.linalg.sqrtm")
def _sqrtm(I, st, a, k, node):
    x = a[0]
    if arr_kind(I, st, x) == "sp":
        raise Undecided("sqrtm of sparse")
    t = tn(I, st, x)
    n = sq_dim(t)
    return st.new(HArr(T.app_atom("sqrtm", [t], (n, n)), "nd", None))


@lib("scipy.linalg.expm")
def _expm(I, st, a, k, node):
    t = tn(I, st, a[0])
    n = sq_dim(t)
    return st.new(HArr(T.app_atom("expm", [t], (n, n)), "nd", None))


@lib("scipy.linalg.block_diag")
def _blockdiag(I, st, a, k, node):
    raise Undecided("block_diag")


# ------------------------------------------------------------------ random
def rnd(I, st, name, params, size, flags=("real",), dt="f", values=None):
    st.rng += 1
    key = "rnd:%s(%s)#%d" % (name, params, st.rng)
    shp = shape_arg(I, st, size) if size is not None else []
    cl = list(st.ctx)
    dims = [l.dim for l in cl] + shp
    ls = [leg(d) for d in shp]
    at = T.atom_in(key, dims, tuple(flags) + ("rnd",))
    t = T.mk([(l,) for l in ls], [T.Term(P(1), P(1), [T.Factor(at, False, [P(l) for l in cl] + [P(l) for l in ls])], ())])
    st.trace += (Eff("draw", key),)
    I.draws[key] = values
    if not shp and size is None:
        return t
    return st.new(HArr(t, "nd", dt))


def ctx_atom(st, key, flags):
    """A scalar unknown that may vary with the enclosing symbolic loops."""
    cl = list(st.ctx)
    at = T.atom_in(key, [l.dim for l in cl], tuple(flags))
    return T.mk((), [T.Term(P(1), P(1), [T.Factor(at, False, [P(l) for l in cl])], ())])


def pk(I, st, *vs):
    return ",".join(SQ.val_key(I, st, freeze(I, st, v)) for v in vs)


@lib("numpy.random.normal")
def _rnormal(I, st, a, k, node):
    m, s, size = bind(a, k, "loc=0 scale=1 size=None")
    return rnd(I, st, "normal", pk(I, st, m, s), size)


@lib("numpy.random.standard_normal")
def _rsn(I, st, a, k, node):
    size, = bind(a, k, "size=None")
    return rnd(I, st, "normal", pk(I, st, num(0), num(1)), size)


@lib("numpy.random.randn")
def _randn(I, st, a, k, node):
    return rnd(I, st, "normal", pk(I, st, num(0), num(1)), tuple(a) if a else None)


@lib("numpy.random.uniform")
def _runif(I, st, a, k, node):
    lo, hi, size = bind(a, k, "low=0 high=1 size=None")
    fl = ("real", "nn") if (lambda p: p is not None and PL.nonneg(p))(T.as_poly(tn(I, st, lo)) if not isinstance(lo, Ref) else None) else ("real",)
    return rnd(I, st, "uniform", pk(I, st, lo, hi), size, fl)


@lib("numpy.random.random", "numpy.random.random_sample", "numpy.random.ranf")
def _rrandom(I, st, a, k, node):
    size, = bind(a, k, "size=None")
    return rnd(I, st, "uniform", pk(I, st, num(0), num(1)), size, ("real", "nn"))


@lib("numpy.random.rand")
def _rand(I, st, a, k, node):
    return rnd(I, st, "uniform", pk(I, st, num(0), num(1)), tuple(a) if a else None, ("real", "nn"))


@lib("numpy.random.randint")
def _randint(I, st, a, k, node):
    lo, hi, size = bind(a, k, "low high=None size=None")
    if hi is None:
        lo, hi = num(0), lo
    ends = [(lambda q: None if q is None else q.as_int())(T.as_poly(tn(I, st, v))) for v in (lo, hi)]
    vs = [num(i) for i in range(*ends)] if None not in ends and ends[1] - ends[0] <= 64 else None
    return rnd(I, st, "randint", pk(I, st, lo, hi), size, ("real", "int"), "i", values=vs)


@lib("numpy.random.choice", "random.choice")
def _choice(I, st, a, k, node):
    x, size, rep, p = bind(a, k, "a size=None replace=True p=None")
    vs = None
    if not isinstance(x, Ten):
        vs = SQ.concrete(I, st, SQ.segs_of(I, st, x))
    if vs is not None:
        keys = sorted(SQ.val_key(I, st, freeze(I, st, v)) for v in vs)
        name = "{" + ",".join(keys) + "}"
    else:
        name = pk(I, st, x)
    if p is not None:
        name += ";p=" + pk(I, st, p)
    if rep is not TRUE and cbool(I.truth(st, rep)) is not True:
        name += ";norep"
        vs = None if size is not None else vs
    if vs is None and isinstance(x, Ten) and x.ndim == 0 and T.as_poly(x) is not None and T.as_poly(x).as_int() is not None:
        vs = [num(i) for i in range(T.as_poly(x).as_int())]
    if p is not None:
        vs = None
    return rnd(I, st, "choice", name, size, values=None if vs is None else [tn(I, st, v) for v in vs])


@lib("numpy.random.seed", "random.seed", "numpy.random.set_state", "random.setstate")
def _seed(I, st, a, k, node):
    I.events.append(("global-random", "numpy.random", I.where(node), st.pc))
    return None


# ------------------------------------------------------------------ array attributes and methods
@getter(ARR, "shape")
def _gshape(I, st, o, node):
    t = I.arr_ten(st, o)
    if t is None:
        raise Undecided("shape of unknown array")
    r = []
    for ax in t.axes:
        if any(l.extra is not None for l in ax):
            raise Undecided("size of a filtered axis")
        r.append(T.from_poly(T.axdim(ax)))
    return tuple(r)


@getter(ARR, "ndim")
def _gndim(I, st, o, node):
    t = I.arr_ten(st, o)
    if t is None:
        raise Undecided("ndim of unknown array")
    return num(t.ndim)


@getter(ARR, "size")
def _gsize(I, st, o, node):
    r = P(1)
    for d in tn(I, st, o).shape:
        r = r * d
    return T.from_poly(r)


@getter(ARR, "T")
def _gT(I, st, o, node):
    return do_transpose(I, st, o, None)


@getter("nd mat", "real")
def _greal(I, st, o, node):
    return FUN["numpy.real"](I, st, [o], {}, node)


@getter("nd mat", "imag")
def _gimag(I, st, o, node):
    return FUN["numpy.imag"](I, st, [o], {}, node)


@getter("coo sp", "real")
def _greal2(I, st, o, node):
    return FUN["numpy.real"](I, st, [o], {}, node)


@getter("coo sp", "imag")
def _gimag2(I, st, o, node):
    return FUN["numpy.imag"](I, st, [o], {}, node)


@getter(ARR, "dtype")
def _gdt(I, st, o, node):
    return Obj("dtype", dt=st.heap[o.a].dt)


@getter("mat", "H")
@getter("sp", "H")
def _gH(I, st, o, node):
    return out(I, st, T.conjugate(T.transpose(tn(I, st, o))), dtype_of(I, st, o), arr_kind(I, st, o))


@getter("mat", "A")
@getter("sp", "A")
def _gA(I, st, o, node):
    return out(I, st, tn(I, st, o), dtype_of(I, st, o))


@getter("nd", "flat")
def _gflat(I, st, o, node):
    return do_ravel(I, st, o, "C")


@meth(ARR, "conj", "conjugate")
def _mconj(I, st, r, a, k, node):
    return FUN["numpy.conj"](I, st, [r], {}, node)


@meth(ARR, "copy")
def _mcopy(I, st, r, a, k, node):
    o = st.heap[r.a]
    return st.new(HArr(I.arr_ten(st, r), o.kind, o.dt))


@meth(ARR, "transpose")
def _mtr(I, st, r, a, k, node):
    if k:
        a = list(k.values())
    if not a or a[0] is None:
        return do_transpose(I, st, r, None)
    if len(a) == 1 and not (isinstance(a[0], Ten)):
        return do_transpose(I, st, r, perm_of(I, st, a[0]))
    return do_transpose(I, st, r, [ival(x) for x in a])


@meth(ARR, "swapaxes")
def _msw(I, st, r, a, k, node):
    return swap(I, st, r, ival(a[0]), ival(a[1]))


@meth(ARR, "reshape")
def _mrs(I, st, r, a, k, node):
    k = dict(k)
    order = k.pop("order", "C")
    if "newshape" in k or "shape" in k:
        a = [k.get("newshape", k.get("shape"))]
    if len(a) == 2 and isinstance(a[1], str):
        order, a = a[1], a[:1]
    shp = shape_arg(I, st, a[0] if len(a) == 1 else tuple(a))
    return do_reshape(I, st, r, shp, order)


@meth("nd mat", "ravel")
def _mravel(I, st, r, a, k, node):
    order, = bind(a, k, "order=C")
    return do_ravel(I, st, r, order)


@meth("nd mat coo", "flatten")
def _mflat(I, st, r, a, k, node):
    order, = bind(a, k, "order=C")
    return do_ravel(I, st, r, order, True)


@meth(ARR, "dot")
def _mdot(I, st, r, a, k, node):
    y = arrize(I, st, a[0])
    if arr_kind(I, st, r) == "nd" and arr_kind(I, st, y) == "sp":
        raise Undecided("dense.dot(sparse)")
    return dot2(I, st, r, y)


@meth("sp mat", "multiply")
def _mmul(I, st, r, a, k, node):
    t = T.mul(tn(I, st, r), tn(I, st, a[0]))
    return out(I, st, t, dt_join(dtype_of(I, st, r), dtype_of(I, st, a[0])), arr_kind(I, st, r))


def _fwd(name):
    def f(I, st, r, a, k, node):
        return FUN[name](I, st, [r] + list(a), k, node)
    return f


for _n in "sum trace all any min max argmin argmax mean prod repeat squeeze round".split():
    for _k in ARR.split():
        METH[(_k, _n)] = _fwd("numpy." + _n)
METH[("nd", "diagonal")] = _fwd("numpy.diagonal")
METH[("sp", "diagonal")] = _fwd("numpy.diagonal")


@meth(ARR, "astype")
def _mas(I, st, r, a, k, node):
    dt = parse_dt(I, st, a[0] if a else k.get("dtype"))
    o = st.heap[r.a]
    return st.new(HArr(cast(strip(I.arr_ten(st, r)), o.dt, dt), o.kind, dt))


@meth("nd mat", "tolist")
def _mtol(I, st, r, a, k, node):
    t = I.arr_ten(st, r)
    if t.ndim == 1:
        return st.new(HList(SQ.arr_segs(I, st, st.new(HArr(t, "nd", st.heap[r.a].dt)))))

    def go(v):
        o = I.obj(st, v)
        if not isinstance(o, HArr):
            return v
        return st.new(HList(SQ.mapsegs(I, st, SQ.arr_segs(I, st, v), go)))
    return go(st.new(HArr(t, "nd", st.heap[r.a].dt)))


@meth("nd mat", "item")
def _mitem(I, st, r, a, k, node):
    t = I.arr_ten(st, r)
    if a:
        return load_ten(t, [("i", norm_ix(T.as_poly(x), d)) for x, d in zip(a, t.shape)])
    return T.mk((), t.terms)


@meth("nd", "fill")
def _mfill(I, st, r, a, k, node):
    t = I.arr_ten(st, r)
    I.set_arr(st, r, T.mul(T.full(t.shape, 1), tn(I, st, a[0])), node)


@meth("nd", "sort")
def _msort(I, st, r, a, k, node):
    I.set_arr(st, r, None, node)


@lib("numpy.fill_diagonal")
def _filld(I, st, a, k, node):
    t = tn(I, st, a[0])
    d = Obj("diagix", n=t.shape[0])
    setitem(I, st, a[0], (d, d), a[1], node)


@lib("numpy.copyto")
def _copyto(I, st, a, k, node):
    setitem(I, st, a[0], SliceV(None, None, None), a[1], node)


@meth("coo", "todense")
def _mtodense(I, st, r, a, k, node):
    return out(I, st, tn(I, st, r), dtype_of(I, st, r))


@meth("sp", "toarray")
def _mtoarr(I, st, r, a, k, node):
    return out(I, st, tn(I, st, r), dtype_of(I, st, r))


@meth("sp", "todense")
def _mtodense2(I, st, r, a, k, node):
    return out(I, st, tn(I, st, r), dtype_of(I, st, r), "mat")


@meth("sp", "tocsr", "tocoo", "tocsc", "asformat", "tolil")
def _mtocsr(I, st, r, a, k, node):
    return st.new(HArr(I.arr_ten(st, r), "sp", st.heap[r.a].dt))


@meth("coo", "tocsr", "to_scipy_sparse", "tocsc")
def _mtosp(I, st, r, a, k, node):
    return st.new(HArr(I.arr_ten(st, r), "sp", st.heap[r.a].dt))


@meth("coo", "enable_caching")
def _mcache(I, st, r, a, k, node):
    return r


@getter("sp coo", "data")
def _gdata(I, st, o, node):
    return Obj("coofield", which="data", src=tn(I, st, o), dt=dtype_of(I, st, o))


@getter("sp", "row")
def _grow(I, st, o, node):
    return Obj("coofield", which="row", src=tn(I, st, o), dt="i")


@getter("sp", "col")
def _gcol(I, st, o, node):
    return Obj("coofield", which="col", src=tn(I, st, o), dt="i")


@getter("coo", "coords")
def _gcoords(I, st, o, node):
    return Obj("coofield", which="coords", src=tn(I, st, o), dt="i")


@getter("nd", "data")
def _ndata(I, st, o, node):
    return o
