"""Models of Python builtins, lists, tuples, strings and dictionaries."""
from .models import *
from .models import _u


def numseq(I, st, v):
    return SQ.segs_of(I, st, v)


@lib("builtins.len")
def _len(I, st, a, k, node):
    v = a[0]
    o = I.obj(st, v)
    if isinstance(o, HArr):
        t = I.arr_ten(st, v)
        if t is None:
            raise Undecided("len of unknown array")
        if t.ndim == 0:
            raise AE("TypeError", "len of a 0-d array")
        if o.kind == "sp":
            raise AE("TypeError", "sparse matrix length is ambiguous")
        ax = t.axes[0]
        if any(l.extra is not None for l in ax):
            return SQ.length(I, st, SQ.arr_segs(I, st, v))
        return T.from_poly(T.axdim(ax))
    if isinstance(o, HDict):
        if o.open is not None or any(isinstance(x, Gam) for x in o.items.values()):
            raise Undecided("len of dictionary")
        return num(len(o.items))
    if isinstance(o, HInst):
        m = o.cls.lookup("__len__")
        if m is None:
            raise AE("TypeError", "no len()")
        return I.call_func(m.val, [v], {}, st, node)
    if v is None or isinstance(v, (FuncV, Lib, ClassV)) or (isinstance(v, Ten) and v.ndim == 0):
        raise AE("TypeError", "no len()")
    if isinstance(v, Obj):
        if v.kind == "symstr":
            return T.inp("len(%s)" % v.f["name"], flags=("real", "int", "nn"))
    return SQ.length(I, st, SQ.segs_of(I, st, v))


@lib("builtins.range")
def _range(I, st, a, k, node):
    def iv(x):
        t = I.ten(st, x)
        if "float" in t.flags or t.ndim:
            raise AE("TypeError", "range argument must be an integer")
        p = T.as_poly(t)
        if p is not None and p.as_fr() is not None and p.as_int() is None:
            raise AE("TypeError", "range argument must be an integer")
        return t
    v = [iv(x) for x in a]
    if len(v) == 1:
        return Rng(num(0), v[0], num(1))
    if len(v) == 2:
        return Rng(v[0], v[1], num(1))
    return Rng(*v[:3])


@lib("builtins.enumerate")
def _enum(I, st, a, k, node):
    x, s = bind(a, k, "x start=0")
    return Iter(SQ.enumerate_segs(I, st, SQ.segs_of(I, st, x), T.as_poly(s)))


@lib("builtins.zip")
def _zip(I, st, a, k, node):
    return Iter(SQ.zip_segs(I, st, [SQ.segs_of(I, st, x) for x in a]))


@lib("builtins.reversed")
def _rev(I, st, a, k, node):
    return Iter(SQ.reverse(I, st, SQ.segs_of(I, st, a[0])))


@lib("builtins.iter")
def _iter(I, st, a, k, node):
    return Iter(SQ.segs_of(I, st, a[0]))


@lib("builtins.map")
def _map(I, st, a, k, node):
    if len(a) == 2:
        segs = SQ.segs_of(I, st, a[1])
    else:
        segs = SQ.zip_segs(I, st, [SQ.segs_of(I, st, x) for x in a[1:]])
    return Iter(map_call(I, st, a[0], segs, node, len(a) > 2))


def map_call(I, st, f, segs, node, star=False):
    """Apply a function to every element, under the loop context."""
    out = []
    for s in segs:
        if isinstance(s, It):
            out.append(It(I.call(f, list(s.v) if star else [s.v], {}, st, node)))
        elif isinstance(s, Loop):
            from . import loops
            octx, ofacts, opc = st.ctx, st.facts, st.pc
            st.ctx = octx + (s.leg,)
            st.facts = ofacts.copy()
            st.facts.ge.append(s.leg.dim - 1)
            st.pc = TRUE
            I.raises.append([])
            trace, st.trace = st.trace, ()
            with T.with_facts(st.facts.poly()):
                inner = map_call(I, st, f, s.segs, node, star)
            rs = I.raises.pop()
            st.ctx, st.facts, st.pc = octx, ofacts, opc
            st.trace = trace + ((Eff("loop", s.leg, st.trace),) if st.trace else ())
            loops.lift_raises(I, rs, s.leg, opc)
            out.append(Loop(s.leg, inner))
        elif isinstance(s, Cond):
            out.append(Cond(s.c, map_call(I, st, f, s.a, node, star), map_call(I, st, f, s.b, node, star)))
        else:
            raise Undecided("map over a list under construction")
    return tuple(out)


@lib("builtins.filter")
def _filter(I, st, a, k, node):
    vs = SQ.segs_of(I, st, a[1])

    def go(segs):
        out = []
        for s in segs:
            if isinstance(s, It):
                c = I.truth(st, I.call(a[0], [s.v], {}, st, node)) if a[0] is not None else I.truth(st, s.v)
                b = st.facts.known(c)
                if b is True:
                    out.append(s)
                elif b is None:
                    out.append(Cond(c, (s,), ()))
            elif isinstance(s, Loop):
                out.append(Loop(s.leg, go(s.segs)))
            else:
                raise Undecided("filter")
        return tuple(out)
    return Iter(go(vs))


@lib("builtins.list")
def _list(I, st, a, k, node):
    if not a:
        return st.new(HList(()))
    if isinstance(a[0], Top):
        return a[0]
    segs = SQ.segs_of(I, st, a[0])
    return st.new(HList(segs))


@lib("builtins.tuple")
def _tuple(I, st, a, k, node):
    if not a:
        return ()
    if isinstance(a[0], Top):
        return a[0]
    segs = SQ.segs_of(I, st, a[0])
    vs = SQ.concrete(I, st, segs)
    if vs is None:
        return Iter(segs)
    return tuple(vs)


@lib("builtins.set", "builtins.frozenset")
def _set(I, st, a, k, node):
    if not a:
        return st.new(HList((), "set"))
    vs = SQ.concrete(I, st, SQ.segs_of(I, st, a[0]))
    if vs is None:
        raise Undecided("set of a symbolic sequence")
    out = []
    keys = set()
    for v in vs:
        kk = SQ.val_key(I, st, v)
        if not (isinstance(v, (str, tuple)) or ival(v) is not None):
            raise Undecided("set of symbolic values")
        if kk not in keys:
            keys.add(kk)
            out.append(It(v))
    return st.new(HList(out, "set"))


@lib("builtins.dict")
def _dict(I, st, a, k, node):
    d = {}
    op = None
    if a:
        o = I.obj(st, a[0])
        if isinstance(o, HDict):
            d.update(o.items)
            op = o.open
        else:
            vs = SQ.concrete(I, st, SQ.segs_of(I, st, a[0]))
            if vs is None:
                raise Undecided("dict of a symbolic sequence")
            for p in vs:
                x, y = I.unpack(p, 2, st)
                d[I.dkey(x)] = y
    d.update({n: v for n, v in k.items() if n != "**"})
    if "**" in k:
        op = I.obj(st, k["**"]).open
    return st.new(HDict(d, None, op))


@lib("builtins.int")
def _int(I, st, a, k, node):
    if not a:
        return num(0)
    v = a[0]
    if isinstance(v, str):
        try:
            return num(int(v))
        except ValueError:
            raise AE("ValueError", "int()")
    if isinstance(v, SQ.SStr):
        raise Undecided("int of symbolic string")
    if isinstance(I.obj(st, v), HList):
        vs = SQ.concrete(I, st, SQ.segs_of(I, st, v))
        if vs is not None and len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].kind == "qubit":
            v = vs[0]
    if isinstance(v, Obj):
        f = METH.get((v.kind, "__int__"))
        if f is not None:
            return f(I, st, v, [], {}, node)
        if v.kind == "intstr":
            return v.f["v"]
        raise Undecided("int of %s" % v.kind)
    t = I.ten(st, v)
    if t.ndim:
        if all(d.as_int() == 1 for d in t.shape):
            t = T.mk((), t.terms)
        else:
            raise AE("TypeError", "only length-1 arrays can be converted")
    if "bool" in t.flags:
        return strip(t)
    p = T.as_poly(t)
    if p is not None:
        if p.is_integral():
            return T.from_poly(p)
        if p.as_fr() is not None:
            return num(int(p.as_fr()))
        den = 1
        for c in p.terms.values():
            den = den * c[0].denominator
        if PL.nonneg(p, T.cur_facts()):
            return T.from_poly(idiv_poly(p * den, P(den)))
        raise Undecided("int of a fraction")
    if T._intlike(t):
        return strip(t)
    if ten_dt(t) == "c":
        raise AE("TypeError", "can't convert complex to int")
    # integer-valued functions
    q = T.single(t)
    if q is not None and q.coef.is_integral() and all(f.atom.flags & {"int", "bit", "ind"} for f in q.fs):
        return strip(t)
    return T.elem("trunc", strip(t), flags=("real", "int"))


@lib("builtins.float", "numpy.float64", "numpy.double")
def _float(I, st, a, k, node):
    if not a:
        return Ten((), (), ("float",))
    v = a[0]
    if isinstance(v, str):
        if v.strip().lower() in ("inf", "+inf", "infinity"):
            return T.inp("∞", flags=("real", "nn"))
        if v.strip().lower() in ("-inf", "-infinity"):
            return T.neg(T.inp("∞", flags=("real", "nn")))
        try:
            return Ten((), T.const(Fr(v)).terms, ("float",))
        except ValueError:
            raise AE("ValueError")
    t = I.ten(st, v)
    if t.ndim:
        if all(d.as_int() == 1 for d in t.shape):
            t = T.mk((), t.terms)
        else:
            raise AE("TypeError", "only length-1 arrays can be converted")
    if ten_dt(t) == "c":
        raise AE("TypeError", "can't convert complex to float")
    if ten_dt(t) is None:
        t = T.real(t)
    return Ten((), t.terms, ("float",))


@lib("builtins.complex", "numpy.complex128", "numpy.complex_", "numpy.complex64")
def _complex(I, st, a, k, node):
    if not a:
        return T.const(0)
    t = strip(I.ten(st, a[0]))
    if len(a) > 1:
        t = T.add(t, T.scale(strip(I.ten(st, a[1])), Poly({(): (Fr(0), Fr(1))})))
    if I.is_arr(st, a[0]) and t.ndim:
        return I.new_arr(st, t, "nd", "c")
    return t


@lib("builtins.bool")
def _bool_(I, st, a, k, node):
    return I.truth(st, a[0]) if a else FALSE


@lib("builtins.str", "builtins.repr")
def _str(I, st, a, k, node):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (str, SQ.SStr)):
        return v
    if isinstance(v, Obj) and v.kind == "symstr":
        return v
    if isinstance(v, Ten):
        n = ival(v)
        if n is not None and "float" not in v.flags and "bool" not in v.flags:
            return str(n)
        if v.ndim == 0 and T._intlike(v):
            return Obj("intstr", v=strip(v))
    return Top("str of a value")


@lib("builtins.print")
def _print(I, st, a, k, node):
    return None


@lib("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
def _warn(I, st, a, k, node):
    st.trace += (Eff("warn",),)
    return None


@lib("builtins.sum")
def _sum(I, st, a, k, node):
    x, start = bind(a, k, "x start=0")
    segs = SQ.segs_of(I, st, x)
    return sum_segs(I, st, segs, start, node)


def sum_segs(I, st, segs, acc, node):
    for s in segs:
        if isinstance(s, It):
            if isinstance(acc, Ten) and acc.ndim == 0 and not acc.terms and not isinstance(s.v, Ten):
                if is_list(I, st, s.v):
                    raise AE("TypeError", "sum of lists")
                acc = s.v if I.is_arr(st, s.v) else I.binop("Add", acc, s.v, st, node)
            else:
                acc = I.binop("Add", acc, s.v, st, node)
        elif isinstance(s, Loop):
            inner = sum_segs(I, st, s.segs, num(0), node)
            kind = arr_kind(I, st, inner)
            t = T.sum_leg(strip(I.ten(st, inner)), s.leg)
            r = I.new_arr(st, t, kind, dtype_of(I, st, inner))
            acc = r if isinstance(acc, Ten) and acc.ndim == 0 and not acc.terms else I.binop("Add", acc, r, st, node)
        elif isinstance(s, Cond):
            x = strip(I.ten(st, sum_segs(I, st, s.a, num(0), node)))
            y = strip(I.ten(st, sum_segs(I, st, s.b, num(0), node)))
            acc = I.binop("Add", acc, I.new_arr(st, T.ite(s.c, x, y)), st, node)
        else:
            raise Undecided("sum of a list under construction")
    return acc


@lib("builtins.abs")
def _abs(I, st, a, k, node):
    return FUN["numpy.abs"](I, st, a, k, node)


@lib("builtins.pow")
def _pow(I, st, a, k, node):
    return I.binop("Pow", a[0], a[1], st, node)


@lib("builtins.divmod")
def _divmod(I, st, a, k, node):
    return (I.binop("FloorDiv", a[0], a[1], st, node), I.binop("Mod", a[0], a[1], st, node))


@lib("builtins.round")
def _round(I, st, a, k, node):
    t = I.ten(st, a[0])
    p = T.as_poly(t)
    if p is not None and p.is_integral():
        return strip(t)
    raise Undecided("round")


def anyall(I, st, segs, isall):
    r = boolv(isall)
    for s in segs:
        if isinstance(s, It):
            c = I.truth(st, s.v)
        elif isinstance(s, Loop):
            if s.leg.extra is not None:
                raise Undecided("any/all of a filtered list")
            st.facts.ge.append(s.leg.dim - 1)
            try:
                inner = anyall(I, st, s.segs, isall)
            finally:
                st.facts.ge.pop()
            c = T._bool(T.lnot(T.exists(T.lnot(inner), [s.leg]))) if isall else T._bool(T.exists(inner, [s.leg]))
        elif isinstance(s, Cond):
            c = T._bool(T.ite(s.c, anyall(I, st, s.a, isall), anyall(I, st, s.b, isall)))
        else:
            raise Undecided("any/all")
        r = T.land(r, c) if isall else T.lor(r, c)
    return r


@lib("builtins.any")
def _any(I, st, a, k, node):
    return anyall(I, st, SQ.segs_of(I, st, a[0]), False)


@lib("builtins.all")
def _all(I, st, a, k, node):
    return anyall(I, st, SQ.segs_of(I, st, a[0]), True)


def minmax(I, st, segs, kind, key, node):
    vs = SQ.concrete(I, st, segs, 12)
    ev = (lambda v: strip(I.ten(st, I.call(key, [v], {}, st, node) if key is not None else v)))
    if vs is not None:
        if not vs:
            raise AE("ValueError", "empty sequence")
        best, bk = vs[0], ev(vs[0])
        for v in vs[1:]:
            kv = ev(v)
            c = cmp_ten("Lt" if kind == "min" else "Gt", kv, bk)
            best = I.merge_val(c, st, v, st, best, st)
            bk = strip(T.ite(c, kv, bk))
        return best
    if len(segs) == 1 and isinstance(segs[0], Loop) and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], It) and segs[0].leg.extra is None:
        from . import loops
        l = segs[0].leg
        v = segs[0].segs[0].v
        octx = st.ctx
        st.ctx = octx + (l,)
        t = ev(v)
        st.ctx = octx
        if t.ndim:
            raise Undecided("min of arrays")
        p = P(loops.select_sym("arg" + kind, t, l, l.dim))
        return SQ.subst_val(I, st, v, {l: p})
    raise Undecided("%s of a symbolic sequence" % kind)


def _mm(kind):
    def f(I, st, a, k, node):
        key = k.pop("key", None) if k else None
        dfl = k.pop("default", None) if k else None
        if len(a) == 1:
            return minmax(I, st, SQ.segs_of(I, st, a[0]), kind, key, node)
        return minmax(I, st, tuple(It(x) for x in a), kind, key, node)
    return f


FUN["builtins.min"] = _mm("min")
FUN["builtins.max"] = _mm("max")


@lib("builtins.sorted")
def _sorted(I, st, a, k, node):
    vs = SQ.concrete(I, st, SQ.segs_of(I, st, a[0]))
    if vs is not None and not k:
        ks = [ival(v) if isinstance(v, Ten) else v if isinstance(v, str) else None for v in vs]
        if all(x is not None for x in ks):
            return st.new(HList([It(v) for _, v in sorted(zip(ks, range(len(vs))), key=lambda q: q[0]) for v in [vs[_i] for _i in [v]]]))
    raise Undecided("sorted")


# ------------------------------------------------------------------ types
def pytypes(I, st, v):
    """Names of the types a value is an instance of (None when unknown)."""
    if isinstance(v, Ten):
        d = ten_dt(v)
        if v.ndim:
            return {"numpy.ndarray"}
        if d == "b":
            return {"builtins.bool", "builtins.int", "numpy.bool_"}
        if d == "i":
            return {"builtins.int", "numpy.integer", "numbers.Integral"}
        if d == "f":
            return {"builtins.float", "numpy.float64", "numpy.floating"}
        if d == "c":
            return {"builtins.complex", "numpy.complex128"}
        return {"builtins.complex", "numpy.complex128"}
    if isinstance(v, (str, SQ.SStr)):
        return {"builtins.str"}
    if isinstance(v, tuple):
        return {"builtins.tuple"}
    if v is None:
        return {"NoneType"}
    if isinstance(v, Obj):
        if v.kind in ("symstr", "intstr", "strcat"):
            return {"builtins.str"}
        if v.kind == "ptuple":
            return {"builtins.tuple"}
        return {"obj." + v.kind} | set(v.f.get("types", ()) if isinstance(v.f.get("types", ()), tuple) else ())
    o = I.obj(st, v)
    if isinstance(o, HArr):
        return {"nd": {"numpy.ndarray"}, "coo": {"sparse.COO", "sparse.SparseArray"}, "mat": {"numpy.ndarray", "numpy.matrix"},
                "sp": {"scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.spmatrix"}}[o.kind]
    if isinstance(o, HList):
        return {"builtins.list"} if o.kind == "list" else {"builtins.set"}
    if isinstance(o, HDict):
        return {"builtins.dict"}
    if isinstance(v, (FuncV, BoundM, PyFn)):
        return {"function"}
    if isinstance(v, (ClassV, Lib)):
        return {"builtins.type"}
    if isinstance(v, Iter):
        return {"builtins.tuple"}
    if isinstance(v, Rng):
        return {"builtins.range"}
    return None


@lib("builtins.isinstance")
def _isinst(I, st, a, k, node):
    v, c = a
    if isinstance(v, Top):
        return I.top_bool("type of unknown value")
    if isinstance(v, Gam):
        return I.lift(v, st, lambda x, s: _isinst(I, s, [x, c], k, node))
    cs = c if isinstance(c, tuple) else (c,)
    o = I.obj(st, v)
    if isinstance(o, HInst):
        return boolv(any(isinstance(x, ClassV) and x in o.cls.mro() or x == Lib("builtins.object") for x in cs))
    ts = pytypes(I, st, v)
    for x in cs:
        if x == Lib("builtins.object"):
            return TRUE
        if isinstance(x, Lib) and ts is not None and (x.name in ts or x.name.replace("numpy.int64", "builtins.int") in ts):
            return TRUE
        if not isinstance(x, (Lib, ClassV, tuple)):
            if isinstance(x, Top):
                return I.top_bool("isinstance of unknown class")
            raise AE("TypeError", "isinstance() arg 2 must be a type")
    if ts is None:
        raise Undecided("type of %r" % (v,))
    return FALSE


@lib("builtins.issubclass")
def _issub(I, st, a, k, node):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(v, ClassV):
        return boolv(any(x in v.mro() or x in lib_bases(v) for x in cs))
    if isinstance(v, Lib):
        return boolv(v in cs)
    if isinstance(v, Top):
        return I.top_bool("class unknown")
    raise AE("TypeError", "issubclass() arg 1 must be a class")


def lib_bases(c):
    return [b for x in c.mro() for b in x.bases if isinstance(b, Lib)]


@lib("builtins.type")
def _type(I, st, a, k, node):
    v = a[0]
    o = I.obj(st, v)
    if isinstance(o, HInst):
        return o.cls
    if isinstance(o, HArr):
        return Lib({"nd": "numpy.ndarray", "coo": "sparse.COO", "sp": "scipy.sparse.csr_matrix", "mat": "numpy.matrix"}[o.kind])
    ts = pytypes(I, st, v)
    if ts:
        for x in ("builtins.bool", "builtins.int", "builtins.float", "builtins.complex", "builtins.str", "builtins.tuple", "builtins.list",
                  "builtins.dict", "numpy.ndarray"):
            if x in ts:
                return Lib(x)
    return Top("type of a value")


@lib("builtins.callable")
def _callable(I, st, a, k, node):
    return boolv(isinstance(a[0], (FuncV, BoundM, PyFn, Lib, ClassV, LibM)) or isinstance(a[0], Obj) and a[0].kind in ("callable",))


@lib("builtins.getattr")
def _getattr(I, st, a, k, node):
    if not isinstance(a[1], str):
        raise Undecided("getattr of a symbolic name")
    if len(a) == 3:
        h = I.obj(st, a[0])
        if isinstance(h, HInst) and a[1] not in h.attrs and h.cls.lookup(a[1]) is None:
            return a[2]
    return I.getattr(a[0], a[1], st, None, node)


@lib("builtins.setattr")
def _setattr(I, st, a, k, node):
    if not isinstance(a[1], str):
        raise Undecided("setattr of a symbolic name")
    I.setattr(a[0], a[1], a[2], st, None, node)


@lib("builtins.hasattr")
def _hasattr(I, st, a, k, node):
    h = I.obj(st, a[0])
    if isinstance(h, HInst):
        if h.cls.lookup(a[1]) is not None:
            return TRUE
        v = h.attrs.get(a[1], UNBOUND)
        if isinstance(v, Gam):
            raise Undecided("hasattr")
        return boolv(v is not UNBOUND)
    kd = kind_of(I, st, a[0])
    if (kd, a[1]) in METH or (kd, a[1]) in GETTER:
        return TRUE
    raise Undecided("hasattr")


# ------------------------------------------------------------------ lists
def _touch(I, st, r, node):
    o = st.heap[r.a]
    if o.tag:
        I.events.append(("mutate", o.tag, I.where(node), st.pc))
    return o


@meth("list set", "append", "add")
def _append(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    st.heap[r.a] = HList(o.segs + (It(a[0]),), o.kind, o.tag)


@meth("list", "extend")
def _extend(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    if isinstance(a[0], Top):
        st.heap[r.a] = HList(o.segs + (PhiSeg("⊤%d" % fresh()),), o.kind, o.tag)
        return
    st.heap[r.a] = HList(o.segs + tuple(SQ.segs_of(I, st, a[0])), o.kind, o.tag)


@meth("list", "insert")
def _insert(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    p = ival(a[0])
    if p == 0:
        st.heap[r.a] = HList((It(a[1]),) + o.segs, o.kind, o.tag)
        return
    vs = SQ.concrete(I, st, o.segs)
    if vs is None or p is None:
        raise Undecided("insert")
    vs.insert(p, a[1])
    st.heap[r.a] = HList([It(x) for x in vs], o.kind, o.tag)


@meth("list", "pop")
def _pop(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    if not a and o.segs and isinstance(o.segs[-1], It):
        st.heap[r.a] = HList(o.segs[:-1], o.kind, o.tag)
        return o.segs[-1].v
    if a and ival(a[0]) == 0 and o.segs and isinstance(o.segs[0], It):
        st.heap[r.a] = HList(o.segs[1:], o.kind, o.tag)
        return o.segs[0].v
    vs = SQ.concrete(I, st, o.segs)
    if vs is None:
        n = T.as_poly(SQ.length(I, st, o.segs))
        if not a and n is not None and PL.nonneg(n - 1, T.cur_facts()):
            v = SQ.index(I, st, o.segs, n - 1)
            st.heap[r.a] = HList(SQ.slice_segs(I, st, o.segs, P(0), n - 1), o.kind, o.tag)
            return v
        raise Undecided("pop")
    i = ival(a[0]) if a else -1
    if i is None:
        raise Undecided("pop")
    if not vs:
        raise AE("IndexError", "pop from empty list")
    v = vs.pop(i)
    st.heap[r.a] = HList([It(x) for x in vs], o.kind, o.tag)
    return v


@meth("list", "reverse")
def _lrev(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    st.heap[r.a] = HList(SQ.reverse(I, st, o.segs), o.kind, o.tag)


@meth("list", "clear")
def _lclear(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    st.heap[r.a] = HList((), o.kind, o.tag)


@meth("list set", "copy")
def _lcopy(I, st, r, a, k, node):
    o = st.heap[r.a]
    return st.new(HList(o.segs, o.kind))


@meth("list tuple", "index")
def _lindex(I, st, r, a, k, node):
    segs = SQ.segs_of(I, st, r)
    vs = SQ.concrete(I, st, segs)
    if vs is None:
        if len(segs) == 1 and isinstance(segs[0], Loop) and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], It) and segs[0].leg.extra is None:
            l, v = segs[0].leg, segs[0].segs[0].v
            av = a[0]
            # position of the minimum/maximum of the same list
            t, x = strip(I.ten(st, v)), strip(I.ten(st, av))
            from . import loops
            for kind in ("argmin", "argmax"):
                s = loops.select_sym(kind, t, l, l.dim)
                if T.rename(t, {l: P(s)}).key() == x.key():
                    return T.from_poly(P(s))
            c = T.eq0(T.sub(t, x))
            return T.from_poly(P(loops.select_sym("first", c, l, l.dim)))
        raise Undecided("index()")
    acc = None
    r_ = None
    for i in range(len(vs) - 1, -1, -1):
        c = I.truth(st, I.compare("Eq", vs[i], a[0], st, node))
        b = st.facts.known(c)
        if b is True:
            r_ = num(i)
        elif b is None:
            r_ = num(i) if r_ is None else T.ite(c, num(i), r_)
    if r_ is None:
        raise AE("ValueError", "not in list")
    return r_


@meth("list tuple", "count")
def _lcount(I, st, r, a, k, node):
    tot = num(0)

    def go(segs):
        tot = num(0)
        for s in segs:
            if isinstance(s, It):
                tot = T.add(tot, strip(I.truth(st, I.compare("Eq", s.v, a[0], st, node))))
            elif isinstance(s, Loop):
                tot = T.add(tot, T.sum_leg(go(s.segs), s.leg))
            elif isinstance(s, Cond):
                tot = T.add(tot, T.ite(s.c, go(s.a), go(s.b)))
            else:
                raise Undecided("count")
        return tot
    return go(SQ.segs_of(I, st, r))


# ------------------------------------------------------------------ dictionaries
@meth("dict", "get")
def _dget(I, st, r, a, k, node):
    o = st.heap[r.a]
    kk = I.dkey(a[0])
    dfl = a[1] if len(a) > 1 else None
    if kk in o.items:
        v = o.items[kk]
        if isinstance(v, Gam):
            if v.a is UNBOUND:
                return I.merge_val(v.c, st, dfl, st, v.b, st)
            if v.b is UNBOUND:
                return I.merge_val(v.c, st, v.a, st, dfl, st)
        return dfl if v is UNBOUND else v
    if o.open is not None:
        return Top("entry %s of caller dictionary" % kk)
    return dfl


@meth("dict", "update")
def _dupd(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    d = dict(o.items)
    op = o.open
    over = set()
    if a:
        q = I.obj(st, a[0])
        if not isinstance(q, HDict):
            raise Undecided("dict.update")
        d.update(q.items)
        if q.open is not None:
            # a caller dictionary overrides whatever is there
            for n in list(d):
                if n not in q.items:
                    d[n] = Obj("override", name=str(n), by=q.open, default=d[n])
            op = q.open
    d.update({n: v for n, v in k.items() if n != "**"})
    if "**" in k:
        q = I.obj(st, k["**"])
        for n in list(d):
            if n not in q.items:
                d[n] = Obj("override", name=str(n), by=q.open, default=d[n])
        op = q.open
    st.heap[r.a] = HDict(d, o.tag, op)


@meth("dict", "copy")
def _dcopy(I, st, r, a, k, node):
    o = st.heap[r.a]
    return st.new(HDict(o.items, None, o.open))


@meth("dict", "setdefault")
def _dsetd(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    kk = I.dkey(a[0])
    if kk in o.items:
        return o.items[kk]
    v = a[1] if len(a) > 1 else None
    if o.open is not None:
        v = Obj("override", name=str(kk), by=o.open, default=v)
    d = dict(o.items)
    d[kk] = v
    st.heap[r.a] = HDict(d, o.tag, o.open)
    return v


@meth("dict", "pop")
def _dpop(I, st, r, a, k, node):
    o = _touch(I, st, r, node)
    kk = I.dkey(a[0])
    d = dict(o.items)
    if kk in d:
        v = d.pop(kk)
        st.heap[r.a] = HDict(d, o.tag, o.open)
        return v
    if o.open is not None:
        raise Undecided("pop of caller dictionary")
    if len(a) > 1:
        return a[1]
    raise AE("KeyError", str(kk))


def _dk(o):
    if o.open is not None:
        raise Undecided("iteration over a caller dictionary")
    out = []
    for k, v in o.items.items():
        if isinstance(v, Gam):
            raise Undecided("iteration over a dictionary with uncertain keys")
        out.append((k if isinstance(k, str) else None, v))
    return out


@meth("dict", "keys")
def _dkeys(I, st, r, a, k, node):
    return Iter([It(x) for x, v in _dk(st.heap[r.a])])


@meth("dict", "values")
def _dvals(I, st, r, a, k, node):
    return Iter([It(v) for x, v in _dk(st.heap[r.a])])


@meth("dict", "items")
def _ditems(I, st, r, a, k, node):
    return Iter([It((x, v)) for x, v in _dk(st.heap[r.a])])


# ------------------------------------------------------------------ strings
@meth("str", "join")
def _join(I, st, r, a, k, node):
    segs = SQ.segs_of(I, st, a[0])

    def go(ss):
        out = []
        for s in ss:
            if isinstance(s, It):
                if isinstance(s.v, (str, SQ.SStr)):
                    out += list(SQ.segs_of(I, st, s.v))
                elif isinstance(s.v, Gam):
                    out.append(s)
                elif isinstance(s.v, Top):
                    raise Undecided(s.v.why)
                elif isinstance(s.v, Obj):
                    out.append(s)
                else:
                    raise AE("TypeError", "join of non-strings")
            elif isinstance(s, Loop):
                out.append(Loop(s.leg, go(s.segs)))
            elif isinstance(s, Cond):
                out.append(Cond(s.c, go(s.a), go(s.b)))
            else:
                raise Undecided("join of a list under construction")
        return tuple(out)
    if r != "":
        vs = SQ.concrete(I, st, segs)
        if vs is None or not isinstance(r, str):
            raise Undecided("join with separator")
        if all(isinstance(v, str) for v in vs):
            return r.join(vs)
        out = []
        for i, v in enumerate(vs):
            if i:
                out += [It(c) for c in r]
            out += go((It(v),))
        return SQ.SStr(out)
    res = go(segs)
    vs = [s.v for s in res if isinstance(s, It) and isinstance(s.v, str)]
    if len(vs) == len(res):
        return "".join(vs)
    return SQ.SStr(res)


def _cstr(name):
    def f(I, st, r, a, k, node):
        if isinstance(r, str) and all(isinstance(x, str) or ival(x) is not None for x in a):
            v = getattr(r, name)(*[x if isinstance(x, str) else ival(x) for x in a])
            if isinstance(v, bool):
                return boolv(v)
            if isinstance(v, int):
                return num(v)
            if isinstance(v, list):
                return st.new(HList([It(x) for x in v]))
            return v
        raise Undecided("string method " + name)
    return f


for _n in "upper lower strip split replace startswith endswith find index count isdigit title capitalize lstrip rstrip isalpha".split():
    METH[("str", _n)] = _cstr(_n)


@meth("str", "format")
def _fmt(I, st, r, a, k, node):
    return Top("formatted string")


@meth("str", "upper")
def _upper(I, st, r, a, k, node):
    if isinstance(r, str):
        return r.upper()
    raise Undecided("upper")


# scalars
@getter("num", "real")
def _nreal(I, st, o, node):
    return o if ten_dt(o) in ("i", "f") else strip(T.real(o))


@getter("num", "imag")
def _nimag(I, st, o, node):
    return strip(T.imag(o))


@getter("num", "shape")
def _nshape(I, st, o, node):
    return tuple(T.from_poly(d) for d in o.shape)


@getter("num", "ndim")
def _nndim(I, st, o, node):
    return num(o.ndim)


@getter("num", "size")
def _nsize(I, st, o, node):
    r = P(1)
    for d in o.shape:
        r = r * d
    return T.from_poly(r)


@getter("num", "T")
def _nT(I, st, o, node):
    return T.transpose(o)


@meth("num", "conjugate", "conj")
def _nconj(I, st, r, a, k, node):
    return T.conjugate(r)


@meth("num", "item", "copy", "astype", "__float__", "squeeze")
def _nitem(I, st, r, a, k, node):
    return r


@meth("num", "is_integer")
def _nint(I, st, r, a, k, node):
    p = T.as_poly(r)
    if p is not None and p.is_integral():
        return TRUE
    raise Undecided("is_integer")
