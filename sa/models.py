"""Library models: what the external calls mean algebraically (registry, operators, indexing)."""
from fractions import Fraction as Fr
from .poly import P, leg, Poly
from . import poly as PL
from . import ten as T
from .ten import Ten, Undecided, ShapeErr
from .vals import *
from . import seqs as SQ

FUN = {}
METH = {}      # (kind, name) -> fn(I, st, recv, args, kw, node)


def lib(*names):
    def d(f):
        for n in names:
            FUN[n] = f
        return f
    return d


def meth(kinds, *names):
    def d(f):
        for k in kinds.split():
            for n in names:
                METH[(k, n)] = f
        return f
    return d


def AE(exc, msg=""):
    from .interp import AbsRaise
    return AbsRaise(exc, msg)


class _No:
    pass


NO = _No()


def bind(a, k, spec):
    """Bind arguments to a signature given as text: 'x axis=None out=None'."""
    names, dfl = [], {}
    for w in spec.split():
        if "=" in w:
            n, d = w.split("=", 1)
            dfl[n] = {"None": None, "True": TRUE, "False": FALSE, "NO": NO}.get(d, d)
            if dfl[n] is not None and isinstance(dfl[n], str) and (d.lstrip("-").isdigit()):
                dfl[n] = num(int(d))
            names.append(n)
        else:
            names.append(w)
    if len(a) > len(names):
        raise AE("TypeError", "too many arguments")
    out = dict(zip(names, a))
    for n, v in k.items():
        if n not in names:
            raise Undecided("keyword argument %s" % n)
        out[n] = v
    r = []
    for n in names:
        if n not in out:
            if n not in dfl:
                raise AE("TypeError", "missing argument %s" % n)
            out[n] = dfl[n]
        r.append(out[n])
    return r


# ------------------------------------------------------------------ dtypes
ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}


def dt_join(*ds):
    if any(d is None for d in ds):
        return "c" if "c" in ds else None
    return max(ds, key=lambda d: ORDER[d]) if ds else "f"


def ten_dt(t):
    if "bool" in t.flags:
        return "b"
    if "float" in t.flags:
        return "f"
    cplx = False
    for q in t.terms:
        for m, c in q.coef.terms.items():
            if c[1] != 0:
                cplx = True
    if cplx:
        return "c"
    if T._intlike(t):
        return "i"
    if T.is_real(t):
        return "f"
    return None


def dtype_of(I, st, v):
    if isinstance(v, Ten):
        return ten_dt(v)
    o = I.obj(st, v)
    if isinstance(o, HArr):
        return o.dt
    if isinstance(o, HList):
        return segs_dt(I, st, o.segs)
    if isinstance(v, tuple):
        return dt_join(*[dtype_of(I, st, x) for x in v]) if v else "f"
    if isinstance(v, (Iter, Rng)):
        return segs_dt(I, st, SQ.segs_of(I, st, v))
    if isinstance(v, Gam):
        a, b = dtype_of(I, st, v.a), dtype_of(I, st, v.b)
        return a if a == b else None
    return None


def segs_dt(I, st, segs):
    ds = []
    for s in segs:
        if isinstance(s, It):
            ds.append(dtype_of(I, st, s.v))
        elif isinstance(s, Loop):
            ds.append(segs_dt(I, st, s.segs))
        elif isinstance(s, Cond):
            ds += [segs_dt(I, st, x) for x in (s.a, s.b) if x]
        else:
            return None
    return dt_join(*ds) if ds else "f"


DTNAMES = {"complex128": "c", "complex": "c", "complex64": "c", "cdouble": "c", "complex_": "c",
           "float64": "f", "float": "f", "float32": "f", "float_": "f", "double": "f",
           "int": "i", "int64": "i", "int32": "i", "int8": "i", "uint8": "i", "int_": "i", "bool": "b", "bool_": "b"}


def parse_dt(I, st, v):
    """'i','f','c','b'; None when not given."""
    if v is None or v is NO:
        return None
    if isinstance(v, Lib):
        r = DTNAMES.get(v.name.split(".")[-1])
        if r:
            return r
    if isinstance(v, str):
        r = DTNAMES.get(v)
        if r:
            return r
    if isinstance(v, Obj) and v.kind == "dtype":
        return v.f["dt"]
    raise Undecided("dtype %r" % (v,))


def cast(t, frm, to):
    """Value conversion of astype / storing."""
    if to is None or to == "c":
        return strip(t)
    if to == "b":
        return t if frm == "b" else T.lnot(T.eq0(t))
    if to in ("f", "i") and frm not in ("f", "i", "b"):
        if not T.is_real(t):
            t = T.real(t)
    if to == "i" and frm not in ("i", "b") and not T._intlike(t):
        p = T.as_poly(t)
        if p is not None and p.const() is not None:
            return T.const(int(p.as_fr()))
        return T.elem("trunc", t, flags=("real", "int"))
    return strip(t)


def strip(t):
    return Ten(t.axes, t.terms) if t.flags else t


# ------------------------------------------------------------------ names
SUBMODS = {"numpy.linalg", "numpy.random", "scipy.linalg", "scipy.sparse", "scipy.sparse.linalg", "scipy.optimize",
           "projectq.ops", "projectq.meta", "pathos.multiprocessing", "numpy.matlib", "os.path", "scipy.special"}
CONST = {}


def lib_name(nm):
    if nm in SUBMODS:
        return ModV(nm)
    r = nm.split(".")
    if r[0] in ("numpy", "math", "cmath"):
        if r[-1] == "pi":
            return T.inp("π", flags=("real", "nn"))
        if r[-1] in ("inf", "Inf", "infty", "PINF"):
            return T.inp("∞", flags=("real", "nn"))
        if r[-1] == "newaxis":
            return None
        if r[-1] in ("e",):
            return T.inp("e_const", flags=("real", "nn"))
    if nm in ALIAS:
        nm = ALIAS[nm]
    return Lib(nm)


ALIAS = {"numpy.complex": "builtins.complex", "numpy.float": "builtins.float", "numpy.int": "builtins.int",
         "numpy.bool": "builtins.bool", "numpy.absolute": "numpy.abs", "math.log2": "numpy.log2", "math.sqrt": "numpy.sqrt",
         "math.ceil": "numpy.ceil", "math.log": "numpy.log", "math.exp": "numpy.exp", "math.floor": "numpy.floor",
         "numpy.conjugate": "numpy.conj", "numpy.fabs": "numpy.abs", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
         "scipy.linalg.eigh": "numpy.linalg.eigh", "scipy.linalg.eigvalsh": "numpy.linalg.eigvalsh",
         "scipy.sparse.identity": "scipy.sparse.eye", "numpy.concatenate": "numpy.concatenate",
         "pathos.multiprocessing.ProcessingPool": "pathos.Pool", "pathos.multiprocessing.ProcessPool": "pathos.Pool",
         "pathos.multiprocessing.Pool": "pathos.Pool",
         "scipy.sparse.coo.coo_matrix": "scipy.sparse.coo_matrix"}

BUILTINS = """len range enumerate zip isinstance issubclass list tuple int float complex str sum min max abs any all print
reversed sorted type map filter set dict round getattr hasattr setattr pow divmod bool object frozenset iter next repr super
ValueError TypeError RuntimeError AssertionError NotImplementedError KeyError IndexError Exception AttributeError
ZeroDivisionError Warning UserWarning RuntimeWarning DeprecationWarning ArithmeticError LookupError StopIteration
property staticmethod classmethod callable id vars ord chr hash slice input open NotImplemented BaseException
FutureWarning OverflowError ImportError NameError""".split()


def builtin(name):
    if name in BUILTINS:
        return Lib("builtins." + name)
    if name == "__name__":
        return "module"
    return None


# ------------------------------------------------------------------ comparison
def inf_sign(t):
    q = T.single(t)
    if q is not None and t.ndim == 0 and len(q.fs) == 1 and q.fs[0].atom.key == "∞" and q.fs[0].exp == 1:
        c = q.coef.as_fr()
        if c is not None and q.lm.const() == T.ONE and not q.bound:
            return 1 if c > 0 else -1
    return 0


def cmp_ten(op, a, b):
    a, b = strip(a), strip(b)
    sa, sb = inf_sign(a), inf_sign(b)
    if sa or sb:
        if sa != sb:
            fin = a if not sa else b
            if not any(x.key == "∞" for x in T.atoms_of(fin).values()) or (sa and sb):
                d = sa - sb
                r = {"Eq": False, "NotEq": True, "Lt": d < 0, "Gt": d > 0, "LtE": d < 0, "GtE": d > 0}[op]
                sh = fin.shape if not (sa and sb) else ()
                t = T.full(sh, 1 if r else 0)
                return Ten(t.axes, t.terms, ("bool",))
    d = T.sub(a, b)
    if op == "Eq":
        r = T.eq0(d)
    elif op == "NotEq":
        r = T.lnot(T.eq0(d))
    elif op == "Lt":
        r = T.pos(T.neg(d))
    elif op == "Gt":
        r = T.pos(d)
    elif op == "LtE":
        r = T.nonneg_ind(T.neg(d))
    elif op == "GtE":
        r = T.nonneg_ind(d)
    else:
        raise Undecided(op)
    return Ten(r.axes, r.terms, ("bool",))


def contains(I, st, a, b, node):
    o = I.obj(st, b)
    if isinstance(o, HDict):
        k = I.dkey(a)
        if k in o.items:
            return TRUE if o.items[k] is not UNBOUND else FALSE
        if o.open is not None:
            return T._bool(T.inp("%s∈%s" % (k, o.open), flags=("ind", "real", "nn")))
        if any(isinstance(v, Gam) for v in o.items.values()):
            pass
        return FALSE
    if isinstance(a, str) and isinstance(b, str):
        return boolv(a in b)
    if isinstance(b, Obj) and b.kind == "symstr":
        raise Undecided("in symbolic string")
    segs = SQ.segs_of(I, st, b)
    if isinstance(b, (str, SQ.SStr)) and isinstance(a, str) and len(a) > 1:
        raise Undecided("substring test")

    def go(ss):
        r = FALSE
        for s in ss:
            if isinstance(s, It):
                c = I.truth(st, I.compare("Eq", a, s.v, st, node))
            elif isinstance(s, Loop):
                st.facts.ge.append(s.leg.dim - 1)
                try:
                    inner = go(s.segs)
                finally:
                    st.facts.ge.pop()
                if s.leg.extra is not None:
                    raise Undecided("membership in a filtered list")
                c = T._bool(T.exists(inner, [s.leg]))
            elif isinstance(s, Cond):
                c = T.ite(s.c, go(s.a), go(s.b))
                c = T._bool(c)
            else:
                raise Undecided("membership in a list under construction")
            r = T.lor(r, c)
        return r
    return go(segs)


# ------------------------------------------------------------------ operators
PICK = ("pexpr", "pvar", "picos")


def rank_kind(*ks):
    for k in ("coo", "sp", "mat"):
        if k in ks:
            return k
    return "nd"


def arr_kind(I, st, v):
    o = I.obj(st, v)
    return o.kind if isinstance(o, HArr) else "nd"


def is_list(I, st, v):
    return isinstance(I.obj(st, v), HList)


def binop(I, st, op, a, b, node):
    for x in (a, b):
        if isinstance(x, Top):
            return x
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, Obj) and x.kind in PICK:
            ex = lambda v: v if not isinstance(v, (Ref, Ten)) else freeze(I, st, v)
            return Obj("pexpr", op=op, a=ex(a), b=ex(b))
    if op == "BitOr" and is_gate(a):
        return gate_apply(I, st, a, b, node)
    ha, hb = I.obj(st, a), I.obj(st, b)
    DU = {"Add": "__add__", "Mult": "__mul__", "Sub": "__sub__", "MatMult": "__matmul__", "Pow": "__pow__",
          "Div": "__truediv__", "BitOr": "__or__", "BitAnd": "__and__", "RShift": "__rshift__", "LShift": "__lshift__",
          "Mod": "__mod__", "FloorDiv": "__floordiv__"}
    if isinstance(ha, HInst):
        m = ha.cls.lookup(DU.get(op, ""))
        if m is not None:
            return I.call_func(m.val, [a, b], {}, st, node)
        raise AE("TypeError", "operator %s on %s" % (op, ha.cls.name))
    if isinstance(hb, HInst):
        m = hb.cls.lookup(DU.get(op, "")[:2] + "r" + DU.get(op, "")[2:])
        if m is not None:
            return I.call_func(m.val, [b, a], {}, st, node)
        raise AE("TypeError", "operator %s" % op)
    strs = (str, SQ.SStr)
    if op == "Mod" and isinstance(a, strs):
        return Top("formatted string")
    if op == "Add":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, strs) and isinstance(b, strs):
            return SQ.SStr(SQ.segs_of(I, st, a) + SQ.segs_of(I, st, b))
        if isinstance(a, strs) != isinstance(b, strs):
            for x in (a, b):
                if isinstance(x, Obj) and x.kind in ("symstr", "intstr"):
                    return Obj("strcat", a=a, b=b)
            raise AE("TypeError", "string + non-string")
        if isinstance(ha, HList) and isinstance(hb, HList):
            return st.new(HList(ha.segs + hb.segs))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Obj) and a.kind in ("strcat", "intstr") or isinstance(b, Obj) and b.kind in ("strcat", "intstr"):
            return Obj("strcat", a=a, b=b)
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            hx = I.obj(st, x)
            if isinstance(x, strs + (tuple,)) or isinstance(hx, HList):
                if isinstance(I.obj(st, y), HArr):
                    break
                n = T.as_poly(I.ten(st, y)) if isinstance(y, Ten) else None
                if n is None:
                    if isinstance(y, Ten):
                        raise Undecided("repetition by a data-dependent count")
                    raise AE("TypeError", "sequence * non-integer")
                if not n.is_integral() or "float" in y.flags:
                    raise AE("TypeError", "sequence * float")
                return repeat_seq(I, st, x, n)
    if op in ("BitAnd", "BitOr", "BitXor") and isinstance(ha, HList) and ha.kind == "set":
        raise Undecided("set operation")
    if op == "Sub" and isinstance(ha, HList) and ha.kind == "set":
        raise Undecided("set operation")
    for x in (a, b):
        if isinstance(x, Obj):
            if x.kind == "qop":
                return Obj("qopexpr", op=op, a=a, b=b)
            raise Undecided("operator on %s" % x.kind)
        if isinstance(x, (FuncV, ClassV, Lib, ModV)):
            raise AE("TypeError", "operator on a function")
    if a is None or b is None or isinstance(a, strs) or isinstance(b, strs):
        raise AE("TypeError", "operator %s" % op)
    lists = [isinstance(I.obj(st, x), HList) or isinstance(x, tuple) for x in (a, b)]
    if lists[0] and lists[1] or (any(lists) and not (isinstance(ha, HArr) or isinstance(hb, HArr))
                                 and not any(isinstance(x, Ten) and x.ndim for x in (a, b))):
        # numpy scalars times list convert; python numbers do not
        raise AE("TypeError", "operator %s on a list" % op)
    ta, tb = I.ten(st, a), I.ten(st, b)
    ka, kb = arr_kind(I, st, a), arr_kind(I, st, b)
    kind = rank_kind(ka, kb)
    da, db = dtype_of(I, st, a), dtype_of(I, st, b)
    r = arith(I, op, ta, tb, ka, kb, da, db)
    dt = dt_join(da, db)
    if op == "Div" and dt in ("i", "b"):
        dt = "f"
    if op in ("Add", "Sub", "Mult") and dt == "b":
        dt = "i" if r.ndim == 0 else "b"
    if r.ndim == 0 and not isinstance(ha, HArr) and not isinstance(hb, HArr):
        fl = ()
        if dt == "b" and op in ("BitAnd", "BitOr", "BitXor"):
            fl = ("bool",)
        elif "float" in ta.flags or "float" in tb.flags or (op == "Div" and T.as_poly(r) is not None):
            fl = ("float",) if T.is_real(r) else ()
        return Ten((), r.terms, fl)
    if op == "MatMult" and "nd" in (ka, kb):
        kind = "nd"
    if op == "Mult" and kind in ("sp",) and (ka == "nd") != (kb == "nd") and ta.ndim and tb.ndim:
        kind = "nd"
    if op in ("Add", "Sub") and kind == "sp" and (ka == "nd" or kb == "nd"):
        kind = "mat"
    if op in ("Add", "Sub") and kind == "coo" and (ka == "nd" or kb == "nd") and ta.ndim and tb.ndim:
        kind = "nd"
    return I.new_arr(st, r, kind, dt)


def freeze(I, st, v):
    """Immutable snapshot for symbolic expressions."""
    if isinstance(v, Ref):
        o = st.heap[v.a]
        if isinstance(o, HArr):
            return strip(I.arr_ten(st, v))
        if isinstance(o, HList):
            vs = SQ.concrete(I, st, o.segs)
            if vs is not None:
                return tuple(freeze(I, st, x) for x in vs)
            return Iter(o.segs)
    if isinstance(v, tuple):
        return tuple(freeze(I, st, x) for x in v)
    return v


def repeat_seq(I, st, x, n):
    segs = SQ.segs_of(I, st, x)
    k = n.as_int()
    if k is not None and k * max(1, len(segs)) <= 64:
        out = tuple(segs) * max(k, 0)
    else:
        out = (Loop(leg(n), segs),) if segs else ()
    if isinstance(x, tuple):
        vs = SQ.concrete(I, st, out)
        if vs is None:
            return Iter(out)
        return tuple(vs)
    if isinstance(x, str) and k is not None:
        return x * k
    if isinstance(x, (str, SQ.SStr)):
        return SQ.SStr(out)
    return st.new(HList(out))


def arith(I, op, ta, tb, ka="nd", kb="nd", da=None, db=None):
    ta, tb = strip(ta), strip(tb)
    if op == "Add":
        if da == "b" and db == "b" and ta.ndim + tb.ndim:
            return T.lor(ta, tb)
        return T.add(ta, tb)
    if op == "Sub":
        return T.sub(ta, tb)
    if op == "Mult":
        if (ka in ("sp", "mat") or kb in ("sp", "mat")) and ta.ndim and tb.ndim:
            return T.matmul(ta, tb)
        return T.mul(ta, tb)
    if op == "MatMult":
        return T.matmul(ta, tb)
    if op == "Div":
        p = T.as_poly(tb)
        if p is not None and p.is_zero():
            raise AE("ZeroDivisionError")
        return T.div(ta, tb)
    if op == "Pow":
        e = T.as_poly(tb)
        if e is None:
            if tb.ndim == 0 or True:
                return T.elem("pow", ta, tb)
        if ka in ("sp", "mat") and ta.ndim == 2:
            k = e.as_int()
            if k is None or k < 1:
                raise Undecided("matrix power")
            r = ta
            for _ in range(k - 1):
                r = T.matmul(r, ta)
            return r
        return T.power(ta, e)
    if op in ("Mod", "FloorDiv"):
        return intdiv(op, ta, tb)
    if op in ("BitAnd", "BitOr", "BitXor"):
        bit = lambda t, d: d == "b" or all(all(f.atom.flags & {"bit", "ind"} for f in q.fs) for q in t.terms)
        if not (bit(ta, da) and bit(tb, db)):
            raise Undecided("bit operation on integers")
        if op == "BitAnd":
            return T.land(ta, tb)
        if op == "BitOr":
            return T.lor(ta, tb)
        return T.mod2(T.add(ta, tb))
    if op in ("LShift", "RShift"):
        e = T.as_poly(tb)
        if e is not None:
            q = P(2).pow(e)
            if q is not None and op == "LShift":
                return T.scale(ta, q)
            if op == "RShift":
                return intdiv("FloorDiv", ta, T.from_poly(q))
    raise Undecided("operator " + op)


def intdiv(op, ta, tb):
    m = T.as_poly(tb)
    if m is None:
        return T.elem("floordiv" if op == "FloorDiv" else "mod", ta, tb, flags=("real",))
    k = m.as_int()
    if k == 0:
        raise AE("ZeroDivisionError")
    if op == "Mod" and k == 2 and T._intlike(ta) and T.as_poly(ta) is None:
        return T.mod2(ta)
    p = T.as_poly(ta)
    if p is not None:
        a, b = p.as_fr(), m.as_fr()
        if a is not None and b is not None:
            return T.const(a // b if op == "FloorDiv" else a - (a // b) * b)
        hi, lo = SQ.divmod_poly(p, m)
        if hi is not None:
            return T.from_poly(hi if op == "FloorDiv" else lo)
        if not (p.is_integral() and m.is_integral()):
            raise Undecided("floor division of non-integers")
        # opaque integer functions of sizes and indices
        q = idiv_poly(p, m)
        return T.from_poly(q if op == "FloorDiv" else p - q * m)
    if op == "Mod" and k == 2:
        return T.elem("mod2", ta, flags=("bit", "real", "nn", "int"))
    return T.elem("floordiv" if op == "FloorDiv" else "mod", ta, tb, flags=("real", "int", "nn") if k and k > 0 and T._intlike(ta) else ("real",))


def idiv_poly(p, m):
    """floor(p/m) as an index polynomial: whole multiples pulled out, the rest opaque."""
    hi, lo = P(0), P(0)
    for mono, c in p.terms.items():
        q = Poly({mono: c})
        d = q.div(m)
        if d is not None and d.is_integral():
            hi = hi + d
        else:
            lo = lo + q
    c = lo.as_fr()
    mi = m.as_int()
    if c is not None and mi:
        return hi + (c // mi)
    F = T.cur_facts()
    if PL.nonneg(lo, F) and PL.nonneg(m - 1 - lo, F):
        return hi
    nn = PL.nonneg(lo, F)
    # exact division facts: (x/m)*m with x divisible are handled by div above
    return hi + P(PL.app("idiv", lo, m, flags=("nn",) if nn else ()))


# ------------------------------------------------------------------ indexing
def norm_ix(p, d):
    """Index polynomial with negative values shifted."""
    F = T.cur_facts()
    if PL.nonneg(-p - 1, F):
        p = d + p
        if PL.nonneg(-p - 1, F):
            raise AE("IndexError", "index out of range")
        return p
    if PL.nonneg(p - d, F):
        raise AE("IndexError", "index %s out of range %s" % (p, d))
    return p


def opt_poly(I, st, v):
    if v is None:
        return None
    if isinstance(v, Ten) and v.ndim == 0:
        if "float" in v.flags and T.as_poly(v) is not None:
            raise AE("TypeError", "slice indices must be integers")
        return SQ.as_size(strip(v))
    t = I.ten(st, v)
    if t.ndim == 0:
        return SQ.as_size(strip(t))
    raise AE("TypeError", "slice index")


def slice_bounds(I, st, s, d):
    """(start, stop, step) clipped to 0..d."""
    F = T.cur_facts()
    a, b, c = opt_poly(I, st, s.a), opt_poly(I, st, s.b), opt_poly(I, st, s.s)
    step = 1 if c is None else c.as_int()
    if step is None or step == 0:
        raise Undecided("slice step")

    def nz(x):
        if PL.nonneg(-x - 1, F):
            x = x + d
            if PL.nonneg(-x, F):
                x = P(0)
        if PL.nonneg(x - d, F):
            x = d
        return x
    if step == -1:
        if a is None and b is None:
            return P(0), d, -1
        raise Undecided("reversed partial slice")
    if step < 0:
        raise Undecided("slice step")
    a = P(0) if a is None else nz(a)
    b = d if b is None else nz(b)
    if PL.nonneg(a - b, F):
        b = a
    return a, b, step


def spec_of(I, st, t, ix):
    """Per-axis index specification."""
    if not isinstance(ix, tuple):
        ix = (ix,)
    out = []
    ne = sum(1 for x in ix if isinstance(x, Obj) and x.kind == "ellipsis")
    used = 0
    for x in ix:
        if x is None or (isinstance(x, Obj) and x.kind == "ellipsis"):
            continue
        o = I.obj(st, x)
        if isinstance(o, HArr) and o.dt == "b":
            used += I.arr_ten(st, x).ndim
        else:
            used += 1
    if used > t.ndim:
        raise AE("IndexError", "too many indices")
    ax = 0
    for x in ix:
        if isinstance(x, Obj) and x.kind == "ellipsis":
            for _ in range(t.ndim - used):
                out.append(("all",))
                ax += 1
            continue
        if x is None:
            out.append(("new",))
            continue
        d = T.axdim(t.axes[ax])
        if isinstance(x, SliceV):
            if x.a is None and x.b is None and x.s is None:
                out.append(("all",))
            else:
                a, b, c = slice_bounds(I, st, x, d)
                if a.is_zero() and (b - d).is_zero() and c == 1:
                    out.append(("all",))
                else:
                    out.append(("s", a, b, c))
            ax += 1
            continue
        if isinstance(x, Obj) and x.kind in ("tril", "diagix"):
            out.append((x.kind, x))
            ax += 1
            continue
        if isinstance(x, (Rng, Iter)) or isinstance(I.obj(st, x), HList):
            q = I.ten(st, x)
            out.append(("f", q))
            ax += 1
            continue
        o = I.obj(st, x)
        if isinstance(o, HArr):
            q = I.arr_ten(st, x)
            if q is None:
                raise Undecided("unknown index array")
            if o.dt == "b" or "bool" in q.flags:
                out.append(("m", q))
                ax += q.ndim
                continue
            if q.ndim == 0:
                out.append(("i", norm_ix(SQ.as_size(q), d)))
            else:
                out.append(("f", q))
            ax += 1
            continue
        if isinstance(x, Ten):
            if "bool" in x.flags and x.ndim:
                out.append(("m", x))
                ax += x.ndim
                continue
            if x.ndim:
                out.append(("f", x))
                ax += 1
                continue
            if "float" in x.flags:
                raise AE("IndexError", "only integers are valid indices")
            p = T.as_poly(x)
            if p is None:
                p = SQ.as_size(strip(x))
            elif not p.is_integral() and p.as_fr() is not None:
                raise AE("IndexError", "only integers are valid indices")
            out.append(("i", norm_ix(p, d)))
            ax += 1
            continue
        if isinstance(x, (str, SQ.SStr)):
            raise AE("IndexError", "string index into an array")
        if isinstance(x, Top):
            raise Undecided(x.why)
        raise Undecided("index %r" % (x,))
    while ax < t.ndim:
        out.append(("all",))
        ax += 1
    return out


def load_ten(t, spec):
    """Basic and simple fancy indexing."""
    ax = 0
    fancy = [s for s in spec if s[0] in ("f", "tril", "diagix")]
    if len(fancy) > 1:
        return load_pairs(t, spec, fancy)
    for s in spec:
        if s[0] == "all":
            ax += 1
        elif s[0] == "new":
            t = T.mk(list(t.axes[:ax]) + [()] + list(t.axes[ax:]), t.terms)
            ax += 1
        elif s[0] == "i":
            t = T.index_axis(t, ax, s[1])
        elif s[0] == "s":
            t = T.slice_axis(t, ax, s[1], s[2], s[3])
            ax += 1
        elif s[0] == "f":
            t = take(t, ax, s[1])
            ax += s[1].ndim
        elif s[0] == "m":
            m = s[1]
            if m.ndim != 1:
                if m.ndim == t.ndim and ax == 0:
                    t, m = T.reshape(t, [None]), T.reshape(m, [None])
                else:
                    raise Undecided("boolean mask")
            t = mask_axis(t, ax, m)
            ax += 1
        else:
            raise Undecided("index kind")
    return t


def take(t, ax, q):
    """t indexed on axis ax by an integer array."""
    q = T.freshen(q)
    d = T.axdim(t.axes[ax])
    qs = Ten((), T.mk((), q.terms).terms)
    p = T.as_poly(qs)
    if p is None:
        # sum of deltas (constant lists): expand through the axis delta
        y = leg(d)
        e = T.eq0(T.sub(qs, T.from_poly(P(y))))
        r = T.freshen(T.index_axis(t, ax, P(y)))
        terms = T._prod_terms(r.terms, T.freshen(e).terms)
        terms = [T.Term(x.coef, x.lm, x.fs, x.bound + (y,)) for x in terms]
        return T.mk(list(r.axes[:ax]) + list(q.axes) + list(r.axes[ax:]), terms)
    c = p.as_fr()
    if PL.nonneg(-p - 1, T.cur_facts()):
        p = p + d
    r = T.freshen(T.index_axis(t, ax, p))
    return T.mk(list(r.axes[:ax]) + list(q.axes) + list(r.axes[ax:]), r.terms)


def load_pairs(t, spec, fancy):
    if len(fancy) == 2 and len(spec) == 2 and t.ndim == 2:
        a, b = fancy
        if a[0] == "diagix" and b[0] == "diagix":
            y = leg(a[1].f["n"])
            r = T.index_axis(T.index_axis(t, 1, P(y)), 0, P(y))
            return T.stack_leg(r, y)
        if a[0] == "tril" and b[0] == "tril" and a[1].f["axis"] == 0 and b[1].f["axis"] == 1 and a[1].f["n"] == b[1].f["n"] \
                and a[1].f["k"] == b[1].f["k"] and a[1].f["m"] == b[1].f["m"] and a[1].f["up"] == b[1].f["up"]:
            n, k = a[1].f["n"], a[1].f["k"]
            m = a[1].f["m"]
            if a[1].f["up"]:
                raise Undecided("upper triangle")
            dim = tri_len(n, k, m)
            if dim.as_int() is not None and dim.as_int() <= 64:
                es = []
                for i in range(dim.as_int()):
                    r, c = tri_rc(P(i), n, k, m)
                    es.append(T.index_axis(T.index_axis(t, 1, c), 0, r))
                return T.stack_list(es) if es else T.zeros([P(0)])
            y = leg(dim)
            r, c = tri_rc(y, n, k, m)
            return T.stack_leg(T.index_axis(T.index_axis(t, 1, c), 0, r), y)
        if a[0] == "f" and b[0] == "f":
            qa, qb = T.freshen(a[1]), T.freshen(b[1])
            if qa.ndim == qb.ndim == 1:
                qa, qb = T._unify(qa, qb, [(0, 0)])
                pa, pb = T.as_poly(T.mk((), qa.terms)), T.as_poly(T.mk((), qb.terms))
                if pa is not None and pb is not None:
                    r = T.freshen(T.index_axis(T.index_axis(t, 1, pb), 0, pa))
                    return T.mk([qa.axes[0]], r.terms)
    raise Undecided("paired index arrays")


def tri_len(n, k, m=None):
    if k > 0:
        _u("tril with k > 0")
    if m is not None:
        return m * (m + 1) * P(Fr(1, 2)) + (n + k - m) * m
    return (n + k) * (n + k + 1) * P(Fr(1, 2))


def _u(m):
    raise Undecided(m)


def tri_rc(y, n, k, m=None):
    y = P(y)
    if y.as_int() is not None and (m is None or m.as_int() is not None):
        i, r = y.as_int(), -k
        while True:
            w = r + k + 1 if m is None else min(r + k + 1, m.as_int())
            if i < w:
                return P(r), P(i)
            i -= w
            r += 1
    x = () if m is None else (m,)
    return P(PL.app("trirow%d" % -k, y, *x, flags=("nn",))), P(PL.app("tricol%d" % -k, y, *x, flags=("nn",)))


def mask_axis(t, ax, m):
    """t[mask] on one axis: the axis becomes a filtered leg."""
    m = T.freshen(m)
    if EIG_HOOK and ax == 1 and t.ndim == 2:
        q = T.single(t)
        if q is not None and not q.bound and q.coef.const() == T.ONE and q.lm.const() == T.ONE and len(q.fs) == 1 and q.fs[0].atom.kind == "app" \
                and q.fs[0].atom.fname == "eigvec" and not q.fs[0].conj and q.fs[0].exp == 1:
            r = EIG_HOOK[-1](q.fs[0].atom.args[0], m)
            if r is not None:
                return r
    a = t.axes[ax]
    t, m = T._unify(t, m, [(ax, 0)])
    a = t.axes[ax]
    if len(a) == 0:
        axes = list(t.axes)
        axes[ax] = (leg(P(1)),)
        t = T.Ten(axes, t.terms)
        a = t.axes[ax]
    if len(a) != 1 or a[0].extra is not None:
        raise Undecided("mask of a factored axis")
    x = a[0]
    f = T.Filter(T.mk((), m.terms), x)
    y = leg(x.dim, f)
    axes = list(t.axes)
    axes[ax] = (y,)
    return T.mk(axes, [T._tsub(q, {x: P(y)}) for q in t.terms])


EIG_HOOK = []        # (matrix, mask over its eigenvalues) -> the selected eigenvectors as an isometry


def store_listed(b, spec, val, vax):
    """Store at constant positions of an array given entry by entry, else None."""
    if any(s[0] not in ("i", "all") for s in spec) or len(spec) != b.ndim or any(len(a) > 1 or any(l.extra is not None for l in a) for a in b.axes):
        return None
    want, sub, vi = {}, {}, 0
    for s, a in zip(spec, b.axes):
        if s[0] == "i":
            k = s[1].as_int()
            if k is None or a and not 0 <= k < (a[0].dim.as_int() or 0) or not a and k != 0:
                return None
            if a:
                want[a[0]] = k
            continue
        dv = vax[vi]
        vi += 1
        if dv != ():
            if len(dv) != 1 or dv[0].extra is not None or not a or not (dv[0].dim - a[0].dim).is_zero():
                return None
            sub[dv[0]] = P(a[0])
    keep = []
    for t in b.terms:
        at = {}
        for f in t.fs:
            v = T._at(f.idx[0]) if f.atom is T.DELTA and len(f.idx) == 1 else None
            if v is not None and v[0] in want:
                at[v[0]] = v[1]
        if any(at[l] != want[l] for l in at):
            keep.append(t)
        elif len(at) < len(want):
            return None
    ds = [T.Factor(T.DELTA, False, [P(k) - P(l)]) for l, k in want.items()]
    new = []
    for t in val.terms:
        if not t.coef.is_zero():
            t = T._tsub(t, sub) if sub else t
            new.append(T.Term(t.coef, t.lm, list(t.fs) + ds, t.bound))
    return T.freshen(Ten(b.axes, keep + new))


def store_ten(b, spec, val):
    """Contents of b after b[spec] = val."""
    b = T.freshen(b)
    val = strip(val)
    masks = [s for s in spec if s[0] == "m"]
    if masks:
        if len(masks) == 1 and masks[0][1].ndim == b.ndim and val.ndim == 0:
            m = masks[0][1]
            return T.add(T.mul(T.lnot(m), b), T.mul(m, T.mul(T.full(b.shape, 1), val)))
        raise Undecided("masked store")
    tri = [s for s in spec if s[0] == "tril"]
    if tri:
        return store_tri(b, spec, val)
    fz = [i for i, s in enumerate(spec) if s[0] == "f"]
    if len(fz) == 1 and not any(s[0] == "new" for s in spec) and spec[fz[0]][1].ndim == 1:
        # a list of known positions: one store after the other
        q = spec[fz[0]][1]
        n = q.shape[0].as_int()
        ks = [T.as_poly(T.index_axis(q, 0, P(i))) for i in range(n)] if n is not None and n <= 16 else [None]
        if all(x is not None and x.as_int() is not None for x in ks) and T.as_poly(T.mk((), q.terms)) is None:
            vax = sum(1 for s in spec[fz[0]:] if s[0] in ("all", "s", "f"))
            for i, x in enumerate(ks):
                v = val
                if val.ndim >= vax:
                    va = val.ndim - vax
                    d = val.shape[va]
                    if d.as_int() not in (1, n):
                        raise AE("ValueError", "could not broadcast into the selection")
                    v = T.index_axis(val, va, P(i if d.as_int() == n else 0))
                nb = b.shape[fz[0]].as_int()
                x = x if x.as_int() >= 0 or nb is None else x + nb
                b = store_ten(b, spec[:fz[0]] + type(spec)([("i", x)]) + spec[fz[0] + 1:], v)
            return b
    dg = [s for s in spec if s[0] == "diagix"]
    if dg:
        if len(dg) != 2 or b.ndim != 2:
            raise Undecided("diagonal store")
        x = leg(T.axdim(b.axes[0]))
        y = leg(T.axdim(b.axes[1]))
        ind = T.eye(x.dim, y.dim)
        N = dg[0][1].f["n"]
        if (N - x.dim).is_zero():
            v = val if val.ndim == 0 else T.reshape(val, [x.dim, 1])
        elif (N - y.dim).is_zero():
            v = val if val.ndim == 0 else T.reshape(val, [1, y.dim])
        else:
            raise Undecided("part of a diagonal")
        return T.add(T.mul(T.sub(T.full(b.shape, 1), ind), b), T.mul(ind, v))
    # indicator over the axes of b, and the value spread over them
    free = [s for s in spec if s[0] in ("all", "s", "f", "new")]
    ndv = len(free)
    if val.ndim > ndv:
        lead = val.ndim - ndv
        if all(a == () for a in val.axes[:lead]):
            val = T.mk(val.axes[lead:], val.terms)
        else:
            raise AE("ValueError", "could not broadcast into the selection")
    val = T.freshen(val)
    vax = [()] * (ndv - val.ndim) + list(val.axes)
    r = store_listed(b, spec, val, vax)
    if r is not None:
        return r
    fs_ind, bnd_ind = [], []
    vterms = list(val.terms)
    # work with explicit single legs for b's indexed axes
    ax = 0
    vi = 0
    cond_terms = [T.Term(P(1), P(1), (), ())]
    axes = list(b.axes)

    def axis_poly(k):
        v = P(0)
        for l in axes[k]:
            v = v * l.dim + P(l)
        return v
    vsub = {}
    dfac = []
    vbound = []
    ibound = []
    for s in spec:
        if s[0] == "new":
            vi += 1
            continue
        if s[0] == "i":
            fc = T.Factor(T.DELTA, False, [axis_poly(ax) - s[1]])
            dfac.append((fc, None))
            ax += 1
            continue
        if s[0] == "all":
            dv = vax[vi]
            if dv != ():
                tv = Ten([dv], vterms)
                tb = Ten([axes[ax]], ())
                if not (T.axdim(dv) - T.axdim(axes[ax])).is_zero():
                    raise ShapeErr("store of size %s into %s" % (T.axdim(dv), T.axdim(axes[ax])))
                # make the value follow the axis of b
                vl = leg(T.axdim(dv))
                if len(dv) == 1:
                    vsub[dv[0]] = axis_poly(ax)
                else:
                    v = P(0)
                    for l in dv:
                        v = v * l.dim + P(l)
                    dfac.append((None, T.Factor(T.DELTA, False, [v - axis_poly(ax)])))
                    vbound += list(dv)
            ax += 1
            vi += 1
            continue
        if s[0] == "s":
            n = (s[2] - s[1]) if s[3] in (1, -1) else None
            if n is None:
                q = (s[2] - s[1]).div(P(s[3]))
                if q is None or not q.is_integral():
                    raise Undecided("strided store")
                n = q
            dv = vax[vi]
            if dv != () and not (T.axdim(dv) - n).is_zero():
                raise ShapeErr("store of size %s into slice of size %s" % (T.axdim(dv), n))
            y = leg(n)
            pos = s[1] + P(y) * s[3] if s[3] > 0 else s[2] - 1 - P(y)
            fc = T.Factor(T.DELTA, False, [axis_poly(ax) - pos])
            dfac.append((fc, None))
            ibound.append(y)
            if dv != ():
                if len(dv) == 1:
                    vsub[dv[0]] = P(y)
                else:
                    v = P(0)
                    for l in dv:
                        v = v * l.dim + P(l)
                    dfac.append((None, T.Factor(T.DELTA, False, [v - P(y)])))
                    vbound += list(dv)
            ax += 1
            vi += 1
            continue
        if s[0] == "f":
            q = T.freshen(s[1])
            p = T.as_poly(T.mk((), q.terms))
            if p is None or q.ndim != 1 or len(q.axes[0]) != 1:
                raise Undecided("fancy store")
            y = q.axes[0][0]
            fc = T.Factor(T.DELTA, False, [axis_poly(ax) - p])
            dfac.append((fc, None))
            ibound.append(y)
            dv = vax[vi]
            if dv != ():
                if len(dv) != 1:
                    raise Undecided("fancy store")
                vsub[dv[0]] = P(y)
            ax += 1
            vi += 1
            continue
        raise Undecided("store index")
    indf = [f for f, g in dfac if f is not None]
    valf = [g for f, g in dfac if g is not None]
    ind = T.mk(axes, [T.Term(P(1), P(1), indf, tuple(ibound))])
    V = T.mk(axes, [T.Term(q.coef, q.lm, q.fs + tuple(indf) + tuple(valf), q.bound + tuple(ibound) + tuple(vbound)).subst(vsub)
                    if vsub else T.Term(q.coef, q.lm, q.fs + tuple(indf) + tuple(valf), q.bound + tuple(ibound) + tuple(vbound))
                    for q in vterms])
    if not b.terms:
        return V
    one = T.mk(axes, [T.Term(P(1), P(1), (), ())])
    keep = T.mk(axes, one.terms + T.neg(ind).terms) if not ibound else T.sub(one, ind)
    return T.add(T.mul(keep, b), V)


def store_tri(b, spec, val):
    if len(spec) != 2 or b.ndim != 2 or any(s[0] != "tril" for s in spec):
        raise Undecided("triangular store")
    a0, a1 = spec[0][1].f, spec[1][1].f
    if (a0["axis"], a1["axis"]) not in ((0, 1), (1, 0)) or a0["k"] != a1["k"] or a0["m"] != a1["m"] or not (a0["n"] - a1["n"]).is_zero() or a0["up"] != a1["up"]:
        raise Undecided("triangular store")
    if a0["up"]:
        raise Undecided("upper triangle")
    k, n = a0["k"], a0["n"]
    x, y = leg(T.axdim(b.axes[0])), leg(T.axdim(b.axes[1]))
    r, c = (P(x), P(y)) if a0["axis"] == 0 else (P(y), P(x))
    # row r >= column c - k; position of (r, c) in the enumeration
    ind = T._bool(T.nonneg_ind(T.from_poly(r - c + k)))
    if not (T.axdim(b.axes[0]) - n).is_zero():
        ind = T.land(ind, T.nonneg_ind(T.from_poly(n - 1 - r)))
    rk, m = r + k, a0["m"]
    if m is not None:
        ind = T.land(ind, T._bool(T.nonneg_ind(T.from_poly(m - 1 - c))))
    if val.ndim == 0:
        v = val
    else:
        if val.ndim != 1 or not (T.axdim(val.axes[0]) - tri_len(n, k, m)).is_zero():
            raise ShapeErr("triangular store of %s entries into %s" % (val.shape, tri_len(n, k, m)))
        v = T.index_axis(val, 0, rk * (rk + 1) * P(Fr(1, 2)) + c)
        if m is not None:
            w = T.index_axis(val, 0, m * (m + 1) * P(Fr(1, 2)) + (rk - m) * m + c)
            v = T.ite(T._bool(T.nonneg_ind(T.from_poly(m - rk))), v, w)
    V = T.mul(ind, v)
    V = T.mk([(x,), (y,)], V.terms)
    M = T.mk([(x,), (y,)], ind.terms)
    if not b.terms:
        return V
    return T.add(T.mul(T.sub(T.full(b.shape, 1), M), b), V)


def is_basic(spec):
    return all(s[0] in ("i", "s", "all", "new") for s in spec)


def getitem(I, st, o, ix, node):
    if isinstance(o, Top):
        return o
    if isinstance(ix, Top):
        return ix
    h = I.obj(st, o)
    if isinstance(h, HArr):
        t = I.arr_ten(st, o)
        if t is None:
            raise Undecided("unknown array")
        spec = spec_of(I, st, t, ix)
        if h.kind in ("sp", "mat") and any(s[0] == "i" for s in spec) and not all(s[0] == "i" for s in spec):
            # matrices stay two-dimensional
            spec = [("s", s[1], s[1] + 1, 1) if s[0] == "i" else s for s in spec]
        if is_basic(spec) and h.kind == "nd":
            if all(s[0] == "i" for s in spec):
                r = load_ten(t, spec)
                return Ten((), r.terms, ("bool",) if h.dt == "b" else ())

            def view(b, spec=spec):
                return load_ten(b, spec)

            def put(b, v, spec=spec):
                return store_ten(b, spec, v)
            return I.new_view(st, o, view, put)
        r = load_ten(t, spec)
        if r.ndim == 0:
            return Ten((), r.terms, ("bool",) if h.dt == "b" else ())
        return I.new_arr(st, r, h.kind, h.dt)
    if isinstance(o, Ten):
        if o.ndim == 0:
            raise AE("TypeError", "number is not subscriptable")
        return load_ten(o, spec_of(I, st, o, ix))
    if isinstance(h, HDict):
        k = I.dkey(ix)
        if k in h.items:
            v = h.items[k]
            return I.ungam(st, v, str(k), node) if isinstance(v, Gam) or v is UNBOUND else v
        if h.open is not None:
            return Top("entry %s of caller dictionary" % (k,))
        raise AE("KeyError", str(k))
    if isinstance(h, HInst):
        m = h.cls.lookup("__getitem__")
        if m is None:
            raise AE("TypeError", "not subscriptable")
        return I.call_func(m.val, [o, ix], {}, st, node)
    if isinstance(o, Obj):
        if o.kind == "ptuple":
            return o.f["items"][ival(ix)]
        if o.kind in PICK:
            return Obj("pexpr", op="getitem", a=o, b=freeze(I, st, ix))
        if (o.kind, "__getitem__") in METH:
            return METH[(o.kind, "__getitem__")](I, st, o, [ix], {}, node)
        raise Undecided("subscript of %s" % o.kind)
    if o is None or isinstance(o, (FuncV, Lib, ClassV)):
        raise AE("TypeError", "not subscriptable")
    segs = SQ.segs_of(I, st, o)
    if isinstance(ix, SliceV):
        if isinstance(o, (str, tuple)) :
            vals = [None if x is None else ival(x) for x in (ix.a, ix.b, ix.s)]
            if all(x is None or ival(x) is not None for x in (ix.a, ix.b, ix.s)):
                return o[slice(*vals)]
        step = None if ix.s is None else ival(ix.s)
        if step == -1 and ix.a is None and ix.b is None:
            r = SQ.reverse(I, st, segs)
        elif step not in (None, 1):
            vs = SQ.concrete(I, st, segs)
            if vs is None:
                raise Undecided("strided slice of a list")
            r = tuple(It(x) for x in vs[slice(*[None if x is None else ival(x) for x in (ix.a, ix.b, ix.s)])])
        else:
            r = SQ.slice_segs(I, st, segs, opt_poly(I, st, ix.a), opt_poly(I, st, ix.b))
        if isinstance(o, (str, SQ.SStr)):
            return SQ.SStr(r)
        if isinstance(o, tuple):
            return Iter(r)
        return st.new(HList(r))
    if isinstance(ix, tuple) or isinstance(ix, (str, SQ.SStr)) or ix is None:
        raise AE("TypeError", "list indices must be integers")
    t = I.ten(st, ix)
    if t.ndim:
        raise AE("TypeError", "list index is an array")
    if "float" in t.flags:
        raise AE("TypeError", "list index is a float")
    p = T.as_poly(t)
    if p is None:
        p = SQ.as_size(strip(t))
    F = T.cur_facts()
    v = SQ.index(I, st, segs, p)
    return v


def setitem(I, st, o, ix, v, node):
    if isinstance(o, Top):
        return
    h = I.obj(st, o)
    if isinstance(h, HArr):
        t = I.arr_ten(st, o)
        try:
            if isinstance(v, Top):
                raise Undecided(v.why)
            if isinstance(ix, Top):
                raise Undecided(ix.why)
            if t is None:
                raise Undecided("unknown array")
            spec = spec_of(I, st, t, ix)
            val = I.ten(st, v)
            dv = dtype_of(I, st, v)
            if h.dt in ("f", "i", "b") and (dv is None or ORDER[dv] > ORDER[h.dt]):
                if dv == "c" and val.ndim == 0 and not I.is_arr(st, v) and T.as_poly(val) is not None:
                    raise AE("TypeError", "can't convert complex to float")
                val = cast(val, dv, h.dt)
            I.set_arr(st, o, store_ten(t, spec, val), node)
        except Undecided as e:
            I.notes.append("%s: store not tracked: %s" % (I.where(node), e))
            I.set_arr(st, o, None, node)
        return
    if isinstance(h, HDict):
        if h.tag:
            I.events.append(("mutate", h.tag, I.where(node), st.pc))
        d = dict(h.items)
        d[I.dkey(ix)] = v
        st.heap[o.a] = HDict(d, h.tag, h.open)
        return
    if isinstance(h, HInst):
        m = h.cls.lookup("__setitem__")
        if m is None:
            raise AE("TypeError", "item assignment")
        I.call_func(m.val, [o, ix, v], {}, st, node)
        return
    if isinstance(h, HList):
        if h.tag:
            I.events.append(("mutate", h.tag, I.where(node), st.pc))
        if isinstance(ix, SliceV):
            raise Undecided("list slice assignment")
        p = SQ.as_size(strip(I.ten(st, ix)))
        st.heap[o.a] = HList(set_seg(I, st, h.segs, p, v), h.kind, h.tag)
        return
    if isinstance(o, (str, tuple, SQ.SStr)) or o is None or isinstance(o, Ten):
        raise AE("TypeError", "item assignment")
    raise Undecided("item assignment on %r" % (o,))


def set_seg(I, st, segs, p, v):
    vs = SQ.concrete(I, st, segs)
    k = p.as_int()
    if vs is not None and k is not None:
        if k < 0:
            k += len(vs)
        if not 0 <= k < len(vs):
            raise AE("IndexError", "list assignment index out of range")
        vs[k] = v
        return tuple(It(x) for x in vs)
    n = T.as_poly(SQ.length(I, st, segs))
    if n is None:
        raise Undecided("list store")
    if PL.nonneg(-p - 1, T.cur_facts()):
        p = n + p
    if len(segs) == 1 and isinstance(segs[0], Loop) and len(segs[0].segs) == 1 and isinstance(segs[0].segs[0], It) and segs[0].leg.extra is None:
        l = segs[0].leg
        old = segs[0].segs[0].v
    else:
        l = leg(n)
        old = SQ.index(I, st, segs, P(l))
    nv = I.merge_val(T._bool(T.delta(P(l) - p)), st, v, st, old, st)
    return (Loop(l, (It(nv),)),)


def delitem(I, st, o, ix, node):
    h = I.obj(st, o)
    if isinstance(h, HDict):
        if h.tag:
            I.events.append(("mutate", h.tag, I.where(node), st.pc))
        d = dict(h.items)
        if I.dkey(ix) not in d and h.open is None:
            raise AE("KeyError")
        d.pop(I.dkey(ix), None)
        st.heap[o.a] = HDict(d, h.tag, h.open)
        return
    if isinstance(h, HList):
        vs = SQ.concrete(I, st, h.segs)
        if isinstance(ix, SliceV):
            ks = [None if x is None else ival(x) for x in (ix.a, ix.b, ix.s)]
            if any(x is not None and y is None for x, y in zip((ix.a, ix.b, ix.s), ks)):
                raise Undecided("del of list slice")
            k = slice(*ks)
        else:
            k = ival(ix)
        if vs is None or k is None:
            raise Undecided("del of list element")
        if isinstance(k, int) and not -len(vs) <= k < len(vs):
            raise AE("IndexError", "list assignment index out of range")
        vs = list(vs)
        if h.tag:
            I.events.append(("mutate", h.tag, I.where(node), st.pc))
        del vs[k]
        st.heap[o.a] = HList([It(x) for x in vs], h.kind, h.tag)
        return
    raise Undecided("del")


# ------------------------------------------------------------------ calls
NOLIFT = {"builtins.print", "builtins.isinstance", "warnings.warn", "builtins.type"}


def call(I, st, f, args, kw, node):
    if isinstance(f, Obj) and f.kind == "super":
        raise AE("TypeError", "super object is not callable")
    if isinstance(f, Obj):
        fn = METH.get((f.kind, "__call__"))
        if fn is None:
            raise Undecided("call of %s" % f.kind)
        return fn(I, st, f, args, kw, node)
    if isinstance(f, Lib):
        fn = FUN.get(f.name)
        nm = f.name
        if nm.startswith("builtins.") and nm[9:10].isupper():
            return Obj("exception", name=nm[9:])
        if fn is None:
            if nm.split(".")[0] in ("projectq", "picos", "cvxopt"):
                fn = FUN.get(nm.split(".")[0] + ".*")
                if fn is not None:
                    return fn(I, st, nm, args, kw, node)
            I.notes.append("%s: unmodelled call %s" % (I.where(node), nm))
            return Top("unmodelled call %s" % nm)
        if nm not in NOLIFT:
            for i, a in enumerate(args):
                if isinstance(a, Gam) and not (nm in ("builtins.isinstance",) and i == 1):
                    return I.lift(a, st, lambda x, s, i=i: call(I, s, f, args[:i] + [x] + args[i + 1:], kw, node))
            for k, a in kw.items():
                if isinstance(a, Gam):
                    return I.lift(a, st, lambda x, s, k=k: call(I, s, f, args, dict(kw, **{k: x}), node))
            for a in list(args) + list(kw.values()):
                if isinstance(a, Top) and nm not in TOPOK:
                    return a
        return fn(I, st, args, kw, node)
    if isinstance(f, LibM):
        recv = f.recv
        k = kind_of(I, st, recv)
        fn = METH.get((k, f.name))
        if fn is None:
            I.notes.append("%s: unmodelled method %s of %s" % (I.where(node), f.name, k))
            return Top("unmodelled method %s of %s" % (f.name, k))
        if k not in ("list", "dict", "set", "engine", "picos", "phi"):
            for i, a in enumerate(args):
                if isinstance(a, Gam):
                    return I.lift(a, st, lambda x, s, i=i: call(I, s, f, args[:i] + [x] + args[i + 1:], kw, node))
            for a in list(args) + list(kw.values()):
                if isinstance(a, Top):
                    return a
        return fn(I, st, recv, args, kw, node)
    if f is None or isinstance(f, (Ten, str, tuple)):
        raise AE("TypeError", "object is not callable")
    if isinstance(f, Ref):
        raise AE("TypeError", "object is not callable")
    if isinstance(f, ModV):
        raise AE("TypeError", "module is not callable")
    raise Undecided("call of %r" % (f,))


TOPOK = {"builtins.print", "builtins.isinstance", "warnings.warn", "builtins.list", "builtins.type", "builtins.tuple",
         "scipy.optimize.minimize", "scipy.optimize.differential_evolution"}


def kind_of(I, st, v):
    if isinstance(v, Ten):
        return "num"
    if isinstance(v, (str, SQ.SStr)):
        return "str"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, Obj):
        return v.kind
    o = I.obj(st, v)
    if isinstance(o, HArr):
        return o.kind
    if isinstance(o, HList):
        return o.kind
    if isinstance(o, HDict):
        return "dict"
    if isinstance(v, Iter):
        return "iter"
    if isinstance(v, Rng):
        return "range"
    if isinstance(v, (Lib, ModV)):
        return "lib"
    if v is None:
        return "none"
    return "other"


def known_names(kind):
    return {n for k, n in METH if k == kind}


GETTER = {}     # (kind, name) -> fn(I, st, o, node)


def getter(kinds, *names):
    def d(f):
        for k in kinds.split():
            for n in names:
                GETTER[(k, n)] = f
        return f
    return d


def lib_getattr(I, st, o, name, node):
    k = kind_of(I, st, o)
    if k == "super":
        return super_attr(I, st, o, name, node)
    g = GETTER.get((k, name))
    if g is not None:
        return g(I, st, o, node)
    if (k, name) in METH:
        return LibM(o, name)
    g = GETTER.get((k, "*"))
    if g is not None:
        return g(I, st, o, name)
    if k == "none":
        raise AE("AttributeError", "None has no attribute %s" % name)
    if isinstance(o, (FuncV, BoundM)):
        return Top("function attribute " + name)
    if k in ("num", "str", "tuple", "list", "dict"):
        if name not in REALATTR.get(k, ()):
            raise AE("AttributeError", "%s has no attribute %s" % (k, name))
    if isinstance(o, Lib):
        return lib_name(o.name + "." + name)
    return Top("attribute %s of %s" % (name, k))


REALATTR = {
    "num": set(dir(1)) | set(dir(1.0)) | set(dir(1j)) | set("shape ndim size dtype conj T real imag item sum astype copy dot flatten ravel reshape mean max min all any trace transpose tolist round".split()),
    "str": set(dir("")), "tuple": set(dir(())), "list": set(dir([])), "dict": set(dir({}))}


def super_attr(I, st, o, name, node):
    cls, self_ = o.f["cls"], o.f["recv"]
    inst = I.obj(st, self_)
    mro = inst.cls.mro() if isinstance(inst, HInst) else cls.mro()
    k = mro.index(cls) if cls in mro else -1
    for c in mro[k + 1:]:
        if name in c.members:
            m = c.members[name]
            if m.kind == "method":
                return BoundM(self_, m.val)
            if m.kind == "property":
                return I.call_func(m.val, [self_], {}, st, node)
            return m.val
    if name == "__init__":
        return PyFn("object.__init__", lambda I, st, a, k: None)
    I.events.append(("attribute", "super.%s" % name, I.where(node), st.pc))
    raise AE("AttributeError", "super has no " + name)


def lib_setattr(I, st, o, name, v, node):
    h = I.obj(st, o)
    if isinstance(h, HArr) and name == "shape":
        shp = [SQ.as_size(I.ten(st, x)) for x in (v if isinstance(v, tuple) else SQ.concrete(I, st, SQ.segs_of(I, st, v)))]
        st.heap[o.a] = HArr(T.reshape(I.arr_ten(st, o), shp), h.kind, h.dt, h.tag)
        return
    if isinstance(o, Obj):
        st.trace += (Eff("setattr", o, name, freeze(I, st, v)),)
        return
    if o is None:
        raise AE("AttributeError", "None has no attribute %s" % name)
    raise Undecided("attribute assignment %s" % name)


def lib_iter(I, st, v):
    if isinstance(v, Obj):
        g = METH.get((v.kind, "__iter__"))
        if g is not None:
            return g(I, st, v)
        raise Undecided("iteration over %s" % v.kind)
    if isinstance(v, (FuncV, Lib, ClassV)):
        raise AE("TypeError", "object is not iterable")
    raise Undecided("iteration over %r" % (v,))


# gates are defined in mq.py
def is_gate(v):
    from . import mq
    return mq.is_gate(v)


def gate_apply(I, st, g, target, node):
    from . import mq
    return mq.apply(I, st, g, target, node)


from . import mpy, mnp, mlib, mq  # noqa: E402  (register the models)
