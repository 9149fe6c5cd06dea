"""Models of scipy.sparse, pydata sparse, qutip, pathos, scipy.optimize, picos, cvxopt, itertools, copy."""
from .models import *
from .models import lib, meth, getter, bind, AE, NO, FUN, METH, GETTER, dtype_of, dt_join, arr_kind, freeze, strip, cast, \
    parse_dt, kind_of, lib_name
from .mnp import forall, out, tn, shape_arg, tdot, dot2, axis_of, cat, pk
from . import mpy


def mat_in(I, st, v):
    """(Ten, kind, dt) of a matrix-like value; lists converted."""
    return tn(I, st, v), arr_kind(I, st, v), dtype_of(I, st, v)


# ------------------------------------------------------------------ scipy.sparse
@lib("scipy.sparse.kron")
def _skron(I, st, a, k, node):
    x, y, f = bind(a, k, "A B format=None")
    return out(I, st, T.kron(tn(I, st, x), tn(I, st, y)), dt_join(dtype_of(I, st, x), dtype_of(I, st, y)), "sp")


@lib("scipy.sparse.eye", "scipy.sparse.identity")
def _seye(I, st, a, k, node):
    k = {x: y for x, y in k.items() if x != "format"}
    n, m, kk, dt = bind(a, {x: y for x, y in k.items()}, "n m=None k=0 dtype=None") if "k" in k or "m" in k or len(a) > 2 \
        else (bind(a, k, "n dtype=None")[0], None, num(0), k.get("dtype"))
    n = shape_arg(I, st, n)[0]
    mm = shape_arg(I, st, m)[0] if m is not None else n
    return out(I, st, T.eye(n, mm, ival(kk) or 0), parse_dt(I, st, dt) or "f", "sp")


@lib("scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.lil_matrix")
def _csr(I, st, a, k, node):
    v, shp, dt = bind(a, {x: y for x, y in k.items() if x != "copy"}, "x shape=None dtype=None")
    d = parse_dt(I, st, dt)
    if isinstance(v, tuple) and all(isinstance(x, Ten) and x.ndim == 0 for x in v):
        s = shape_arg(I, st, v)
        return out(I, st, T.zeros(s), d or "f", "sp")
    if isinstance(v, tuple) and len(v) == 2:
        return coo_build(I, st, v[0], v[1], shp, d)
    t = tn(I, st, v)
    d0 = dtype_of(I, st, v)
    if t.ndim == 1:
        t = T.reshape(t, [P(1), T.axdim(t.axes[0])])
    if d is not None:
        t = cast(t, d0, d)
    return out(I, st, t, d or d0, "sp")


def coo_build(I, st, data, ij, shp, d):
    """coo_matrix((data, (i, j))): recognised when the pieces come from one array."""
    ij = SQ.concrete(I, st, SQ.segs_of(I, st, ij)) if not isinstance(ij, tuple) else ij
    fs = [x for x in [data] + list(ij)]
    if all(isinstance(x, Obj) and x.kind == "coofield" for x in fs):
        src = fs[0].f["src"]
        if [x.f["which"] for x in fs] == ["data", "row", "col"] and len({x.f["src"].key() for x in fs}) == 1:
            return out(I, st, src, d, "sp")
        if [x.f["which"] for x in fs] == ["data", "col", "row"] and len({x.f["src"].key() for x in fs}) == 1:
            return out(I, st, T.transpose(src), d, "sp")
    dd = I.ten(st, data)
    ri, ci = [strip(I.ten(st, x)) for x in ij]
    if shp is None:
        raise Undecided("coo_matrix without shape")
    s = shape_arg(I, st, shp)
    # sum over the entries of data[e] * delta(row[e]-r) delta(col[e]-c)
    return out(I, st, scatter(dd, [ri, ci], s), d, "sp")


def scatter(dd, idx, shp):
    from .poly import leg as mkleg
    if dd.ndim == 0:
        raise Undecided("scatter of a scalar")
    n = T.axdim(dd.axes[0])
    l = mkleg(n)
    e = P(l)
    t = T.index_axis(dd, 0, e)
    axes = []
    for ix, d in zip(idx, shp):
        p = T.as_poly(T.index_axis(ix, 0, e))
        if p is None:
            raise Undecided("scatter to data-dependent positions")
        x = mkleg(d)
        t = T.mul(t, T.delta(P(x) - p))
        axes.append((x,))
    t = T.sum_leg(t, l)
    return T.mk(axes, t.terms)


@lib("scipy.sparse.issparse", "scipy.sparse.isspmatrix", "scipy.sparse.isspmatrix_coo", "scipy.sparse.isspmatrix_csr")
def _issp(I, st, a, k, node):
    return boolv(arr_kind(I, st, a[0]) == "sp")


@lib("scipy.sparse.vstack", "scipy.sparse.hstack", "scipy.sparse.block_diag", "scipy.sparse.bmat")
def _spstack(I, st, a, k, node):
    raise Undecided("sparse stacking")


@lib("scipy.sparse.linalg.eigsh")
def _eigsh(I, st, a, k, node):
    """k eigenpairs: largest magnitude by default."""
    A, kk, M, sigma, which = bind(a, {x: y for x, y in k.items() if x in ("A", "k", "M", "sigma", "which")},
                                  "A k=6 M=None sigma=None which=LM")
    t = tn(I, st, A)
    n = T.axdim(t.axes[0])
    kp = SQ.as_size(strip(I.ten(st, kk)))
    tag = (str(which), "σ" if sigma is not None else "")
    ev = T.app_atom("eigsh_val", [t], [kp], flags=("real",), extra=tag)
    vec = T.app_atom("eigsh_vec", [t], [n, kp], extra=tag)
    return (out(I, st, ev, "f"), out(I, st, vec, "c"))


# ------------------------------------------------------------------ pydata sparse
@lib("sparse.COO", "sparse._coo.core.COO", "sparse.COO.from_numpy", "sparse.COO.from_scipy_sparse", "sparse.as_coo")
def _coo(I, st, a, k, node):
    if len(a) == 2:
        coords, data = a
        shp = k.get("shape")
        if isinstance(coords, Obj) and coords.kind == "coofield" and isinstance(data, Obj) and data.kind == "coofield" \
                and coords.f["src"].key() == data.f["src"].key() and coords.f["which"] == "coords":
            return out(I, st, coords.f["src"], None, "coo")
        if shp is None:
            raise Undecided("COO without shape")
        s = shape_arg(I, st, shp)
        c = I.ten(st, coords)
        idx = [T.index_axis(strip(c), 0, P(i)) for i in range(len(s))] if c.ndim == 2 else [strip(c)]
        return out(I, st, scatter(I.ten(st, data), idx, s), dtype_of(I, st, data), "coo")
    t = tn(I, st, a[0])
    return out(I, st, t, dtype_of(I, st, a[0]), "coo")


@lib("sparse.kron")
def _pkron(I, st, a, k, node):
    x, y = bind(a, k, "a b")
    tx, ty = tn(I, st, x), tn(I, st, y)
    if arr_kind(I, st, x) == "nd" and arr_kind(I, st, y) == "nd":
        raise AE("ValueError", "sparse.kron needs a sparse argument")
    return out(I, st, kron_nd(tx, ty), dt_join(dtype_of(I, st, x), dtype_of(I, st, y)), "coo")


def kron_nd(x, y):
    while x.ndim < y.ndim:
        x = T.reshape(x, [P(1)] + list(x.shape))
    while y.ndim < x.ndim:
        y = T.reshape(y, [P(1)] + list(y.shape))
    return T.kron(x, y)


@lib("sparse.tensordot")
def _ptd(I, st, a, k, node):
    x, y, ax, rt = bind(a, k, "a b axes=2 return_type=None")
    if arr_kind(I, st, x) == "nd" and arr_kind(I, st, y) == "nd":
        pass
    return tdot(I, st, x, y, ax)


@lib("sparse.matmul", "sparse.dot")
def _pmm(I, st, a, k, node):
    x, y = bind(a, k, "a b")
    kd = "nd" if "nd" in (arr_kind(I, st, x), arr_kind(I, st, y)) else "coo"
    return out(I, st, T.matmul(tn(I, st, x), tn(I, st, y)), dt_join(dtype_of(I, st, x), dtype_of(I, st, y)), kd)


@lib("sparse.stack")
def _pstack(I, st, a, k, node):
    arrs, ax = bind(a, k, "arrays axis=0")
    segs = SQ.segs_of(I, st, arrs)
    if ival(ax) != 0:
        raise Undecided("sparse.stack axis")
    return out(I, st, SQ.to_ten(I, st, segs), SEGDT(I, st, segs), "coo")


def SEGDT(I, st, segs):
    from .models import segs_dt
    return segs_dt(I, st, segs)


@lib("sparse.concatenate")
def _pconcat(I, st, a, k, node):
    arrs, ax = bind(a, k, "arrays axis=0")
    return out(I, st, cat(I, st, arrs, ival(ax)), SEGDT(I, st, SQ.segs_of(I, st, arrs)), "coo")


# ------------------------------------------------------------------ qutip
@lib("qutip.Qobj", "qutip.qobj.Qobj")
def _qobj(I, st, a, k, node):
    inpt, dims, shape, ty = bind(a, {x: y for x, y in k.items() if x not in ("superrep", "isherm", "fast", "copy")},
                                 "inpt=None dims=None shape=None type=None")
    t = tn(I, st, inpt)
    return Obj("qobj", ten=strip(t), dims=freeze(I, st, dims), superrep=k.get("superrep"), type=ty)


def dims_pair(I, st, d):
    """dims = [[row factors], [col factors]] -> list of factor polys (rows), or None."""
    d = unfreeze(I, st, d)
    if d is None or len(d) != 2:
        return None
    r = unfreeze(I, st, d[0])
    return r


def unfreeze(I, st, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, (Iter, Ref)):
        return list(SQ.concrete(I, st, SQ.segs_of(I, st, v)) or []) or Iter(SQ.segs_of(I, st, v))
    return None


@lib("qutip.ptrace")
def _ptrace(I, st, a, k, node):
    q, sel = bind(a, k, "Q sel")
    return ptrace(I, st, q, sel)


def ptrace(I, st, q, sel):
    if not (isinstance(q, Obj) and q.kind == "qobj"):
        raise AE("TypeError", "ptrace of a non-Qobj")
    dims = q.f["dims"]
    t = q.f["ten"]
    groups = [(P(1), T.axdim(t.axes[0]))] if dims is None else factor_groups(I, st, dims)
    if isinstance(sel, Ten):
        ranges = [(SQ.as_size(strip(sel)), P(1))]
    else:
        ranges = index_ranges(I, st, sel)
    return ptrace_groups(t, groups, ranges)


def factor_groups(I, st, dims):
    """[(number of equal factors, size of each)] of the rows of dims."""
    d = unfreeze(I, st, dims)
    if d is None or len(d) != 2:
        raise Undecided("qutip dims")
    return flat_groups(I, st, SQ.segs_of(I, st, d[0]))


def flat_groups(I, st, segs):
    out_ = []
    for x in segs:
        if isinstance(x, It):
            if isinstance(x.v, (Ref, Iter, tuple)):
                out_ += flat_groups(I, st, SQ.segs_of(I, st, x.v))
            else:
                out_.append((P(1), SQ.as_size(strip(I.ten(st, x.v)))))
        elif isinstance(x, Loop) and len(x.segs) == 1 and isinstance(x.segs[0], It) and isinstance(x.segs[0].v, Ten):
            p = SQ.as_size(strip(x.segs[0].v))
            if any(m_ is x.leg for m_ in p.symbols()):
                raise Undecided("qutip dims of varying size")
            out_.append((P(x.leg.dim), p))
        else:
            raise Undecided("qutip dims")
    return out_


def index_ranges(I, st, sel):
    out_ = []
    for x in SQ.segs_of(I, st, sel):
        if isinstance(x, It):
            out_.append((SQ.as_size(strip(I.ten(st, x.v))), P(1)))
        elif isinstance(x, Loop) and len(x.segs) == 1 and isinstance(x.segs[0], It) and isinstance(x.segs[0].v, Ten):
            p = SQ.as_size(strip(x.segs[0].v))
            start = p - P(x.leg)
            if any(m_ is x.leg for m_ in start.symbols()):
                raise Undecided("partial trace selection")
            out_.append((start, P(x.leg.dim)))
        else:
            raise Undecided("partial trace selection")
    return out_


def ptrace_groups(t, groups, ranges):
    f = T.cur_facts()
    tot, cnt = P(1), P(0)
    for c, d in groups:
        tot, cnt = tot * d.pow(c), cnt + c
    if t.ndim != 2 or not (tot - T.axdim(t.axes[0])).is_zero() or not (tot - T.axdim(t.axes[1])).is_zero():
        if t.ndim == 2 and PL.sign(tot - T.axdim(t.axes[0]), f) in (None,) :
            raise Undecided("partial trace: factors do not visibly multiply to the dimension")
        raise AE("ValueError", "partial trace: factors do not multiply to the dimension")
    pos, keep = P(0), []
    for c, d in groups:
        end, k = pos + c, None
        hit = [r for r in ranges if PL.nonneg(pos - r[0], f) and PL.nonneg(r[0] + r[1] - end, f)]
        if hit:
            k = True
        elif all(PL.nonneg(r[0] - end, f) or PL.nonneg(pos - r[0] - r[1], f) for r in ranges):
            k = False
        if k is None:
            raise Undecided("partial trace selection cuts a block of factors")
        keep.append(k)
        pos = end
    if any(not PL.nonneg(cnt - s_ - l_, f) for s_, l_ in ranges):
        if any(PL.sign(cnt - s_ - l_, f) == "-" for s_, l_ in ranges):
            raise AE("IndexError", "Invalid selection index in ptrace.")
        raise Undecided("partial trace selection range")
    ds = [d.pow(c) for c, d in groups]
    x = T.reshape(t, ds + ds)
    n = len(ds)
    for j in reversed(range(n)):
        if not keep[j]:
            x = T.trace(x, j, x.ndim // 2 + j)
    d = P(1)
    for j in range(n):
        if keep[j]:
            d = d * ds[j]
    x = T.reshape(x, [d, d])
    segs = []
    for j in range(n):
        if keep[j]:
            c, q = groups[j]
            if c.as_int() == 1:
                segs.append(It(T.from_poly(q)))
            else:
                segs.append(Loop(leg(c), (It(T.from_poly(q)),)))
    return Obj("qobj", ten=x, dims=(Iter(segs), Iter(segs)), superrep=None, type="oper")


@getter("qobj", "istp")
def _qistp(I, st, o, node):
    t = o.f["ten"]
    if o.f["dims"] is None:
        raise Undecided("istp without dims")
    rows = unfreeze(I, st, unfreeze(I, st, o.f["dims"])[0])
    if rows is None or len(rows) != 2:
        raise Undecided("istp of other than a Choi matrix")
    gs = []
    for x in rows:
        g = P(1)
        for c, d in (flat_groups(I, st, SQ.segs_of(I, st, x)) if not isinstance(x, Ten) else [(P(1), SQ.as_size(strip(x)))]):
            g = g * d.pow(c)
        gs.append((P(1), g))
    r = ptrace_groups(t, gs, [(P(0), P(1))]).f["ten"]
    return forall(T.eq0(T.sub(r, T.eye(gs[0][1]))))


@getter("qobj", "iscp")
def _qiscp(I, st, o, node):
    return T.app_atom("psd", [o.f["ten"]], [], flags=("bit", "real", "nn", "int"))


@getter("qobj", "iscptp")
def _qiscptp(I, st, o, node):
    return T.land(_qistp(I, st, o, node), _qiscp(I, st, o, node))


@getter("qobj", "isherm")
def _qherm(I, st, o, node):
    t = o.f["ten"]
    return forall(T.eq0(T.sub(t, T.conjugate(T.transpose(t)))))


@meth("qobj", "ptrace")
def _qptrace(I, st, r, a, k, node):
    return ptrace(I, st, r, bind(a, k, "sel")[0])


@getter("qobj", "data")
def _qdata(I, st, o, node):
    return out(I, st, o.f["ten"], "c", "sp")


@meth("qobj", "full")
def _qfull(I, st, r, a, k, node):
    return out(I, st, r.f["ten"], "c", "nd")


@getter("qobj", "dims")
def _qdims(I, st, o, node):
    return o.f["dims"]


@getter("qobj", "shape")
def _qshape(I, st, o, node):
    return tuple(T.from_poly(x) for x in o.f["ten"].shape)


# ------------------------------------------------------------------ pathos
@lib("pathos.Pool")
def _pool(I, st, a, k, node):
    I.pools.append((tuple(freeze(I, st, x) for x in a), {x: freeze(I, st, y) for x, y in k.items()}))
    return Obj("pool", args=tuple(freeze(I, st, x) for x in a), kw=tuple(sorted((x, freeze(I, st, y)) for x, y in k.items())))


@meth("pool", "map", "imap")
def _poolmap(I, st, r, a, k, node):
    it = FUN["builtins.map"](I, st, a, k, node)
    return FUN["builtins.list"](I, st, [it], {}, node)


for _n in ("close", "join", "clear", "terminate", "restart", "__exit__"):
    METH[("pool", _n)] = lambda I, st, r, a, k, node: None
METH[("pool", "__enter__")] = lambda I, st, r, a, k, node: r


@meth("pool", "apply")
def _poolapply(I, st, r, a, k, node):
    f, args, kw = bind(a, k, "func args=NO kwds=NO")
    return I.call(f, [] if args is NO else SQ.concrete(I, st, SQ.segs_of(I, st, args)), {}, st, node)


# ------------------------------------------------------------------ itertools / copy / functools
@lib("itertools.product")
def _product(I, st, a, k, node):
    rep = ival(k["repeat"]) if "repeat" in k else 1
    if rep is None:
        p = T.as_poly(I.ten(st, k["repeat"]))
        if p is None or len(a) != 1:
            raise Undecided("itertools.product")
        base = SQ.concrete(I, st, SQ.segs_of(I, st, a[0]))
        if base is None or [ival(x) for x in base] != [0, 1]:
            raise Undecided("itertools.product of a symbolic length over non-bits")
        l = leg(P(2).pow(p))
        # the tuple of bits of the running index, most significant first
        j = leg(p)
        bits = T.mk([(j,)], [T.Term(P(1), P(1), [T.Factor(T.app_bit(l, j, p), False, [P(l), P(j)])], ())]) if hasattr(T, "app_bit") else None
        if bits is None:
            bits = T.inp("bitof", P(2).pow(p), p, flags=("bit", "real", "nn", "int"))
            bits = T.index_axis(bits, 0, P(l))
        return Iter((Loop(l, (It(Iter(SQ.arr_segs(I, st, st.new(HArr(bits, "nd", "i"))))),)),))
    seqs = [SQ.segs_of(I, st, x) for x in a] * rep
    cs = [SQ.concrete(I, st, s) for s in seqs]
    if all(c is not None for c in cs):
        tot = 1
        for c in cs:
            tot *= len(c)
        if tot <= 256:
            import itertools
            return Iter(tuple(It(tuple(x)) for x in itertools.product(*cs)))

    def go(ss, pre):
        if not ss:
            return (It(tuple(pre)),)
        return SQ.mapsegs_nested(I, st, ss[0], lambda v: go(ss[1:], pre + [v]))
    return Iter(go(seqs, []))


@lib("itertools.chain")
def _chain(I, st, a, k, node):
    segs = ()
    for x in a:
        segs += tuple(SQ.segs_of(I, st, x))
    return Iter(segs)


@lib("copy.deepcopy", "copy.copy")
def _deepcopy(I, st, a, k, node):
    return deep(I, st, a[0], node and "deep")


def deep(I, st, v, how="deep", memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.a in memo:
            return memo[v.a]
        o = st.heap[v.a]
        if isinstance(o, HArr):
            r = st.new(HArr(I.arr_ten(st, v), o.kind, o.dt))
            memo[v.a] = r
            return r
        if isinstance(o, HList):
            r = st.new(HList((), o.kind))
            memo[v.a] = r
            vs = SQ.concrete(I, st, o.segs)
            st.heap[r.a] = HList(o.segs if vs is None else [It(deep(I, st, x, how, memo)) for x in vs], o.kind)
            return r
        if isinstance(o, HDict):
            r = st.new(HDict({}))
            memo[v.a] = r
            st.heap[r.a] = HDict({x: deep(I, st, y, how, memo) for x, y in o.items.items()}, None, o.open)
            return r
        if isinstance(o, HInst):
            r = st.new(HInst(o.cls, {}))
            memo[v.a] = r
            st.heap[r.a] = HInst(o.cls, {x: deep(I, st, y, how, memo) for x, y in o.attrs.items()})
            return r
    if isinstance(v, tuple):
        return tuple(deep(I, st, x, how, memo) for x in v)
    return v


@lib("functools.partial")
def _partial(I, st, a, k, node):
    f, pre, kw0 = a[0], list(a[1:]), dict(k)
    return PyFn("partial", lambda I, st, a, k: I.call(f, pre + list(a), dict(kw0, **k), st, node))


@lib("functools.reduce")
def _reduce(I, st, a, k, node):
    vs = SQ.concrete(I, st, SQ.segs_of(I, st, a[1]))
    if vs is None:
        raise Undecided("functools.reduce over a symbolic sequence")
    acc = a[2] if len(a) > 2 else vs.pop(0)
    for x in vs:
        acc = I.call(a[0], [acc, x], {}, st, node)
    return acc


@lib("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
def _warn(I, st, a, k, node):
    st.trace += (Eff("warn"),)
    return None


# ------------------------------------------------------------------ scipy.optimize
LAST_BOUNDS = [None]


def run_optimizer(I, st, name, fun, x0, args, kw, dim, node):
    """Record what the optimiser is given; the objective is evaluated at a symbolic parameter vector."""
    xv = T.inp("ξ", dim, flags=("real",))
    S = st.copy()
    x = S.new(HArr(xv, "nd", "f"))
    extra = list(args) if isinstance(args, tuple) else [args]
    if isinstance(args, Ref):
        extra = SQ.concrete(I, st, SQ.segs_of(I, st, args))
    try:
        val = I.call(fun, [x] + extra, {}, S, node)
        if not isinstance(val, (Top, Gam)):
            val = I.ten(S, val)
    except Undecided as e:
        val = Top(str(e))
    try:
        S2 = st.copy()
        bnd = I.ten(S2, LAST_BOUNDS[0]) if LAST_BOUNDS[0] is not None else None
    except Undecided as e:
        bnd = Top(str(e))
    rec = dict(method=name, objective=val, bounds=bnd, kw=kw, where=I.where(node), dim=dim, x0=x0, trace=S.trace[len(st.trace):], st=S)
    if getattr(I, "opaque_objective", False) and isinstance(val, Ten):
        known = I.opaque_objective
        rec["objective_full"] = val
        rec["objective"] = known.setdefault(val.key(), T.scalar_atom("objective%d" % len(known), ("real",)))
    I.optruns.append(rec)
    return rec


def seen(v):
    if isinstance(v, Ten):
        return v.key()
    return repr(v)


def opt_result(I, st, name, rec, deps):
    n = rec["dim"]
    ts = [d for d in deps if isinstance(d, Ten)]
    o = rec["objective"]
    if isinstance(o, Ten):
        ts.append(o)
    base = ts or [num(0)]
    lab = name
    x = T.app_atom("opt_x:" + lab, base, [n], flags=("real",))
    f = T.app_atom("opt_fun:" + lab, base, [], flags=("real",))
    ok = T.app_atom("opt_ok:" + lab, base, [], flags=("ind", "real", "nn"))
    return Obj("optresult", x=x, fun=f, success=T._bool(ok), run=rec)


@lib("scipy.optimize.minimize")
def _minimize(I, st, a, k, node):
    fun, x0, args, method, jac, hess, hessp, bounds, cons, tol, cb, opts = bind(
        a, k, "fun x0 args=NO method=None jac=None hess=None hessp=None bounds=None constraints=NO tol=None callback=None options=None")
    args = () if args is NO else args
    t = tn(I, st, x0)
    kw = dict(method=method, bounds=freeze(I, st, bounds), options=freezeopt(I, st, opts), tol=freeze(I, st, tol),
              constraints=freeze(I, st, cons if cons is not NO else None))
    LAST_BOUNDS[0] = bounds
    rec = run_optimizer(I, st, "minimize", fun, t, args, kw, T.axdim(t.axes[0]), node)
    return opt_result(I, st, "minimize:" + str(method).lower(), rec, [t])


def freezeopt(I, st, v):
    o = I.obj(st, v)
    if isinstance(o, HDict):
        return Obj("dictval", items=dict((x, freeze(I, st, y)) for x, y in o.items.items()), open=o.open)
    if isinstance(v, Gam):
        return Gam(v.c, freezeopt(I, st, v.a), freezeopt(I, st, v.b))
    return freeze(I, st, v)


@lib("scipy.optimize.differential_evolution")
def _de(I, st, a, k, node):
    names = "func bounds args=NO strategy=best1bin maxiter=1000 popsize=15 tol=NO mutation=NO recombination=NO seed=None callback=None disp=False polish=True init=latinhypercube atol=0 updating=immediate workers=1"
    v = bind(a, k, names)
    d = dict(zip([w.split("=")[0] for w in names.split()], v))
    args = () if d["args"] is NO else d["args"]
    bl = SQ.length(I, st, SQ.segs_of(I, st, d["bounds"]))
    dim = SQ.as_size(bl)
    kw = {x: freezeopt(I, st, y) for x, y in d.items() if x not in ("func", "args")}
    LAST_BOUNDS[0] = d["bounds"]
    rec = run_optimizer(I, st, "differential_evolution", d["func"], None, args, kw, dim, node)
    return opt_result(I, st, "diffev", rec, [])


for _n in ("x", "fun", "success"):
    GETTER[("optresult", _n)] = (lambda nm: lambda I, st, o, node: o.f[nm] if nm != "x" else st.new(HArr(o.f["x"], "nd", "f")))(_n)
for _n in ("message", "nit", "nfev", "status"):
    GETTER[("optresult", _n)] = (lambda nm: lambda I, st, o, node: Top("optimizer " + nm))(_n)


@meth("optresult", "__getitem__")
def _optget(I, st, r, a, k, node):
    if a[0] in r.f:
        return GETTER[("optresult", a[0])](I, st, r, node)
    return Top("optimizer result field %r" % (a[0],))


# ------------------------------------------------------------------ picos / cvxopt
@lib("picos.Problem")
def _problem(I, st, a, k, node):
    nm = "P%d" % (1 + sum(1 for e in st.trace if e.kind == "picos.Problem"))
    st.trace += (Eff("picos.Problem", nm),)
    return Obj("picosprob", name=nm)


@meth("picosprob", "add_variable")
def _addvar(I, st, r, a, k, node):
    nm, size, vt = bind(a, k, "name size=None vtype=continuous")
    v = Obj("pvar", prob=r.f["name"], name=nm, size=freeze(I, st, size), vtype=vt)
    st.trace += (Eff("picos.var", v),)
    return v


@meth("picosprob", "add_constraint", "set_objective", "set_option", "update_options")
def _pcall(I, st, r, a, k, node):
    raise Undecided("picos call")


def _pc(nm):
    def f(I, st, r, a, k, node):
        st.trace += (Eff("picos." + nm, tuple(freeze(I, st, x) for x in a), tuple(sorted((x, freeze(I, st, y)) for x, y in k.items()))),)
        return None
    return f


for _n in ("add_constraint", "set_objective", "set_option", "add_list_of_constraints"):
    METH[("picosprob", _n)] = _pc(_n)


@meth("picosprob", "solve")
def _psolve(I, st, r, a, k, node):
    st.trace += (Eff("picos.solve", tuple(freeze(I, st, x) for x in a), tuple(sorted((x, freeze(I, st, y)) for x, y in k.items()))),)
    return Obj("psolution", prob=r.f["name"])


@meth("psolution", "__getitem__")
def _psget(I, st, r, a, k, node):
    return Obj("psolfield", name=a[0])


@meth("picosprob", "obj_value")
def _pobj(I, st, r, a, k, node):
    st.trace += (Eff("picos.obj_value"),)
    return Obj("pobjvalue", prob=r.f["name"])


@lib("picos.*")
def _picos(I, st, nm, args, kw, node):
    return Obj("pexpr", op=nm.split(".")[-1], a=tuple(freeze(I, st, x) for x in args),
               b=tuple(sorted((x, freeze(I, st, y)) for x, y in kw.items())))


@lib("picos.tools.partial_trace", "picos.partial_trace")
def _ppt(I, st, a, k, node):
    return _picos(I, st, "picos.partial_trace", a, k, node)


@getter("pvar", "value")
@getter("pvar", "H")
@getter("pvar", "T")
def _pval(I, st, o, node):
    return Obj("pexpr", op="attr:" + (node.attr if node is not None else "?"), a=o, b=None)


@lib("cvxopt.spmatrix")
def _spmatrix(I, st, a, k, node):
    d, i, j, size = bind(a, {x: y for x, y in k.items() if x != "tc"}, "x I J size=None")
    dt = d.f["dt"] if isinstance(d, Obj) else dtype_of(I, st, d)
    r = coo_build(I, st, d, (i, j), size, dt)
    t = I.arr_ten(st, r)
    if size is not None:
        sh = shape_arg(I, st, size)
        if len(sh) != 2 or any(not (x - y).is_zero() for x, y in zip(sh, t.shape)):
            raise Undecided("sparse matrix rebuilt with another size")
    return st.new(HArr(t, "cvx", dt))


@lib("cvxopt.matrix")
def _cvxm(I, st, a, k, node):
    t = tn(I, st, a[0])
    return st.new(HArr(t, "cvx", dtype_of(I, st, a[0])))
