"""C08: entropy is base-two von Neumann entropy and coherent information is S(B) - S(E)."""
from .common import *

RULE = ("abstract run of entropy and coherent_information; the returned term must equal - sum e log2 e over the eigenvalues above the cut-off "
        "of every block, S(channel(rho)) - S(entropy exchange(rho)), divided by n exactly when regularized")


def entropy_of(s, mt, cut, test):
    v = s.py("""
e = np.linalg.eigvalsh(M)
k = e[%s > c]
-np.sum(k * np.log2(k))
""" % test, M=s.st.new(HArr(mt, "nd", "c")), c=cut if cut is not None else s.py("1e-10"))
    return s.ten(v)


def entropy_refs(s, mats, cut=None):
    """Reference values through the engine's models of eigvalsh and log2; the cut-off may test e or |e|."""
    out = []
    for test in ("np.abs(e)", "e"):
        tot = None
        for mt in mats:
            tv = entropy_of(s, mt, cut, test)
            tot = tv if tot is None else T.add(tot, tv)
        out.append(tot)
    return out


def chan_obj(s, rep="dense", orth=None, nk=K):
    return Chan(s, rep, "channel", nk=nk, orth=orth)


def entropy(s, form, cut):
    c = chan_obj(s)
    x, y, z = P(sym("x")), P(sym("y")), P(sym("z"))
    A, B, C = s.arr("A", x, x), s.arr("B", y, y), s.arr("C", z, z)
    if form == "matrix":
        v, ms = A, [A]
    elif form == "one block":
        v, ms = s.lst([A]), [A]
    elif form == "blocks":
        v, ms = s.lst([A, B, C]), [A, B, C]
    elif form == "same shape":
        B2 = s.arr("B", x, x)
        v, ms = s.lst([A, B2]), [A, B2]
    elif form == "one by one blocks":
        u, w = s.arr("u", 1, 1), s.arr("w", 1, 1)
        v, ms = s.lst([u, w, B]), [u, w, B]
    kw = {}
    if cut == "given":
        kw["cut_off"] = cu = T.scalar_atom("cut", ("real", "nn"))
    else:
        cu = None
    out = s.meth(c.o, "entropy", v, **kw)
    s.chk.eq(s, s.name, out, entropy_refs(s, [s.ten(q) for q in ms], cu))
    s.chk.no_raise(s, s.name, c.mark)


def coherent(s, rep, k, reg, groups):
    orth = None
    sizes = [P(K)]
    if groups > 1:
        sizes = [P(sym("s%d" % i)) for i in range(groups - 1)]
        sizes.append(P(K) - sum(sizes, P(0)))
        s.fact(*[q - 1 for q in sizes])
        st, tot = [], P(0)
        for q in sizes[:-1]:
            tot = tot + q
            st.append(s.num(tot))
        orth = s.lst(st, "arg:orthogonal")
    with T.with_facts(s.st.facts.poly()):
        c = chan_obj(s, rep, orth)
        Kn = c.power(k)
        Din = power_dim(c.di, k)
        rho = state(s, "rho", Din, Din)
        args = [TRUE] if reg else []
        out = s.meth(c.o, "coherent_information", rho, s.num(k), *args)
        W = exch_ref(Kn, s.ten(rho))
        blocks, lo = [], P(0)
        scale = P(1) if P(k) == P(1) else power_dim(c.nk, P(k) - 1)
        for q in sizes:
            hi = lo + q * scale
            blocks.append(T.slice_axis(T.slice_axis(W, 0, lo, hi), 1, lo, hi) if groups > 1 else W)
            lo = hi
        ref = [T.sub(x, y) for x, y in zip(entropy_refs(s, [chan_ref(Kn, s.ten(rho))]), entropy_refs(s, blocks))]
        if reg:
            ref = [T.div(x, T.from_poly(P(k))) for x in ref]
        s.chk.eq(s, s.name, out, ref)
    s.chk.no_raise(s, s.name, c.mark)


def choi_coherent(s, reg):
    D, E = P(di), P(do)
    C = s.arr("C", D * E, D * E)
    o = s.call(get(s, CH + "AnalyticQChan"), C, s.lst([s.num(1), s.num(1)]), s.num(di), s.num(do))
    mark = len(s.raises())
    rho = state(s, "rho", D, D)
    out = s.meth(o, "coherent_information", rho, s.num(1), *([TRUE] if reg else []))
    ref = s.py("""
r = scipy.linalg.sqrtm(rho)
S = np.kron(r.T, np.eye(E))
S.dot(C).dot(S)
""", rho=rho, E=s.num(E), C=C)
    Ct = T.reshape(s.ten(C), [D, E, D, E])
    B = T.einsum("iajb,ij->ab", Ct, s.ten(rho))
    s.chk.eq(s, s.name, out, [T.sub(x, y) for x, y in zip(entropy_refs(s, [B]), entropy_refs(s, [s.ten(ref)]))])
    s.chk.no_raise(s, s.name, mark)


def run(c):
    for form in ("matrix", "one block", "blocks", "same shape", "one by one blocks"):
        for cut in ("default", "given"):
            c.scenario("entropy %s, cut-off %s" % (form, cut), entropy, form, cut)
    for rep in ("dense", "sparse"):
        for k in (P(1), P(2), P(n) + 2):
            for reg in (False, True):
                for g in ((1, 2, 3) if rep == "dense" else (1,)):
                    c.scenario("coherent %s n=%s regularized=%s groups=%d" % (rep, k, reg, g), coherent, rep, k, reg, g)
    for reg in (False, True):
        c.scenario("coherent choi regularized=%s" % reg, choi_coherent, reg)
