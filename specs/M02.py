"""M02: layout, number of variables, bounds and random vectors agree per scheme."""
from .common import *
from .M01 import PM, sizes, nvars, d, vec

RULE = ("abstract runs per scheme: decoding the vector that encodes a density matrix returns A A^dagger / tr for the factor A the encoder computed; numb_variables, "
        "the length of bounds and of every random vector equal the length the decoder accepts; coordinates read as diagonal entries have non-negative bounds")

REF = {
    "OverParam": ["""
e, U = np.linalg.eigh(rho)
e[np.abs(e) < 1e-5] = 0
A = U[:, d - r:] * np.sqrt(e[d - r:])
p = np.dot(A, np.conj(A).T)
p / np.trace(p)
""", """
e, U = np.linalg.eigh(rho)
A = U[:, d - r:] * np.sqrt(np.maximum(e[d - r:], 0.))
p = np.dot(A, np.conj(A).T)
p / np.trace(p)
"""],
    "full": ["""
A = np.linalg.cholesky(rho)
A = np.tril(A, -1) + np.diag(np.real(np.diag(A)))
p = np.dot(A, np.conj(A).T)
p / np.trace(p)
"""],
    "part": ["""
e, U = np.linalg.eigh(rho)
a = U[:, d - r:] * np.sqrt(np.maximum(e[d - r:], 0.))
L = np.conj(np.linalg.qr(np.conj(a).T)[1]).T
L = L * np.exp(-1j * np.angle(np.diag(L)))
L = np.tril(L, -1) + np.tril(np.triu(np.real(L)))
p = np.dot(L, np.conj(L).T)
p / np.trace(p)
"""],
}


def round_trip(s, cls, D, R, how):
    D, R = P(D), P(R)
    if D.as_int() is None:
        s.fact(D - R)
    rho = s.arr("rho", D, D)
    o = get(s, PM + cls)
    mark = len(s.raises())
    kw = {} if how == "none" else {"rank": s.num(R)}
    v = s.meth(o, "vec_from_rho", rho, s.num(D), **kw)
    vt = s.ten(v)
    nv = R * D * 2 if cls == "OverParam" else nvars(D, R)
    s.chk.claim(s.name + ": length of the vector", (T.axdim(vt.axes[0]) - nv).is_zero(), "%s instead of %s" % (T.axdim(vt.axes[0]), nv))
    s.chk.eq(s, s.name + ": real vector", T.imag(vt), T.zeros([nv]))
    out = s.meth(o, "rho_from_vec", v, s.num(D), **kw)
    key = cls if cls == "OverParam" else "full" if (D - R).is_zero() else "part"
    refs = [s.ten(s.py(t, rho=rho, d=s.num(D), r=s.num(R))) for t in REF[key]]
    s.chk.eq(s, s.name, out, refs)
    s.chk.no_raise(s, s.name, mark)


def std_trip(s, D):
    D = P(D)
    rho = s.arr("rho", D, D)
    o = get(s, PM + "StandardBasis")
    v = s.meth(o, "vec_from_rho", rho, s.num(D))
    out = s.ten(s.meth(o, "rho_from_vec", v, s.num(D)))
    H = s.ten(rho)
    iu = s.py("np.triu(M) + np.conj(np.triu(M, 1)).T - 1j * np.diag(np.imag(np.diag(M)))", M=rho)
    s.chk.eq(s, s.name, out, s.ten(iu))
    w = vec(s, D * D)
    back = s.meth(o, "vec_from_rho", s.meth(o, "rho_from_vec", w, s.num(D)), s.num(D))
    s.chk.eq(s, s.name + ": vector back", back, s.ten(w))




def counts(s, cls):
    if cls == "StandardBasis":
        D = P(d)
        o = get(s, PM + cls)
        nv = D * D
        s.chk.eqpoly(s, s.name + ": numb_variables", s.meth(o, "numb_variables", s.num(D)), nv)
        bt = s.meth(o, "bounds", s.num(D))
    else:
        D, R = sizes(s, "sym")
        o = get(s, PM + cls)
        nv = R * D * 2 if cls == "OverParam" else nvars(D, R)
        s.chk.eqpoly(s, s.name + ": numb_variables", s.meth(o, "numb_variables", s.num(D), s.num(R)), nv)
        bt = s.meth(o, "bounds", s.num(D), s.num(R))
    bt = s.ten(bt)
    s.chk.claim(s.name + ": number of bounds", (T.axdim(bt.axes[0]) - nv).is_zero(), "%s bounds for %s variables" % (T.axdim(bt.axes[0]), nv))
    s.chk.claim(s.name + ": bounds are pairs", (T.axdim(bt.axes[1]) - 2).is_zero(), "not pairs")
    width = T.sub(T.index_axis(bt, 1, P(1)), T.index_axis(bt, 1, P(0)))
    s.chk.eq(s, s.name + ": lower bound below upper", T.pos(width), T.full([nv], 1))
    if cls == "CholeskyParam":
        lo = T.slice_axis(T.index_axis(bt, 1, P(0)), 0, P(0), R)
        s.chk.eq(s, s.name + ": diagonal entries are bounded by zero", T.nonneg_ind(lo) if not lo.axes else T._pointwise(T.nonneg_ind, lo), T.full([R], 1))


def draws(s, cls, dist):
    D, R = sizes(s, "sym")
    o = get(s, PM + cls)
    nv = R * D * 2 if cls == "OverParam" else nvars(D, R)
    mark = len(s.raises())
    kw = {} if dist is None else {"dist": dist}
    v = s.ten(s.meth(o, "random_vectors", s.num(D), s.num(R), **kw))
    s.chk.claim(s.name + ": length", v.ndim == 1 and (T.axdim(v.axes[0]) - nv).is_zero(), "shape %s for %s variables" % (v.shape, nv))
    out = s.ten(s.meth(o, "rho_from_vec", s.st.new(HArr(v, "nd", "f")), s.num(D), s.num(R)))
    s.chk.claim(s.name + ": decodes to size by size", out.ndim == 2 and all((T.axdim(x) - D).is_zero() for x in out.axes), "shape %s" % (out.shape,))
    s.chk.no_raise(s, s.name, mark)


def bad_dist(s, cls):
    D, R = sizes(s, "sym")
    s.chk.rejects(s, s.name, lambda: s.meth(get(s, PM + cls), "random_vectors", s.num(D), s.num(R), dist="poisson"))


def run(c):
    for cls in ("StandardBasis", "OverParam", "CholeskyParam"):
        c.scenario("%s counts" % cls, counts, cls)
    for cls in ("OverParam", "CholeskyParam"):
        for dist in (None, "normal", "uniform"):
            c.scenario("%s random vectors %s" % (cls, dist), draws, cls, dist)
        c.scenario("%s unknown distribution" % cls, bad_dist, cls)
    c.scenario("overparam round trip", round_trip, "OverParam", d, r, "given")
    for D, R in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3)) + (((4, 3), (4, 4), (5, 2)) if c.deep else ()):
        c.scenario("overparam round trip %d,%d" % (D, R), round_trip, "OverParam", D, R, "given")
        c.scenario("cholesky round trip %d,%d" % (D, R), round_trip, "CholeskyParam", D, R, "given")
    c.scenario("cholesky round trip 3, rank not given", round_trip, "CholeskyParam", 3, 3, "none")
    c.scenario("cholesky round trip", round_trip, "CholeskyParam", d, d, "given")
    for D in (1, 2, 3) + ((4,) if c.deep else ()):
        c.scenario("standard basis round trip %d" % D, std_trip, D)
