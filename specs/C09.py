"""C09: state fidelity and average entanglement fidelity follow their definitions."""
from .common import *

RULE = ("abstract run of fidelity_two_states and average_entanglement_fidelity; the terms must be tr sqrt(sqrt(rho) N(rho) sqrt(rho)) and "
        "sum_a p_a sum_i |tr(K_i rho_a)|^2 over an ensemble of symbolic length, for dense, sparse and Choi form alike")


def fidelity(s, rep, k):
    c = Chan(s, rep, "channel", dims=(di, di), qubits=(a, a))
    Kn = c.power(k)
    D = power_dim(c.di, k)
    rho = state(s, "rho", D, D)
    out = s.meth(c.o, "fidelity_two_states", rho, s.num(k))
    ref = s.py("""
r = scipy.linalg.sqrtm(rho)
np.real(np.trace(scipy.linalg.sqrtm(r.dot(N).dot(r))))
""", rho=rho, N=s.st.new(HArr(chan_ref(Kn, s.ten(rho)), "nd", "c")))
    s.chk.eq(s, s.name, out, s.ten(ref))


def fidelity_choi(s):
    D = P(di)
    C = s.arr("C", D * D, D * D)
    o = s.call(get(s, CH + "AnalyticQChan"), C, s.lst([s.num(1), s.num(1)]), s.num(di), s.num(di))
    rho = state(s, "rho", D, D)
    out = s.meth(o, "fidelity_two_states", rho, s.num(1))
    B = T.einsum("iajb,ij->ab", T.reshape(s.ten(C), [D, D, D, D]), s.ten(rho))
    ref = s.py("""
r = scipy.linalg.sqrtm(rho)
np.real(np.trace(scipy.linalg.sqrtm(r.dot(N).dot(r))))
""", rho=rho, N=s.st.new(HArr(B, "nd", "c")))
    s.chk.eq(s, s.name, out, s.ten(ref))


def ensemble(s, D, form):
    m_ = P(sym("M", flags=("pos", "nn"))) if False else P(sym("M"))
    st = T.inp("S", m_, D, D, flags=("herm",))
    pr = T.inp("p", m_, flags=("real", "nn"))
    if form == "array":
        return s.st.new(HArr(pr, "nd", "f", "arg:p")), s.st.new(HArr(st, "nd", "c", "arg:S")), pr, st
    l, l2 = leg(m_), leg(m_)
    ps = s.st.new(HList((Loop(l2, (It(T.index_axis(pr, 0, P(l2))),)),), "list", "arg:p"))
    ss = s.st.new(HList((Loop(l, (It(s.st.new(HArr(T.index_axis(st, 0, P(l)), "nd", "c", "arg:S"))),)),), "list", "arg:S"))
    return ps, ss, pr, st


def aef_ref(Kt, pr, st):
    t = T.einsum("iab,mba->mi", Kt, st)
    return T.einsum("m,mi,mi->", pr, t, T.conjugate(t))


def aef(s, rep, level, form, used):
    c = Chan(s, rep, level, dims=(di, di), qubits=(a, a))
    if used and level == "kraus":
        c.update(P(n) + 2)
    ps, ss, pr, st = ensemble(s, c.di, form)
    out = s.meth(c.o, "average_entanglement_fidelity", ps, ss)
    s.chk.eq(s, s.name, out, aef_ref(c.K, pr, st))
    s.chk.no_raise(s, s.name, c.mark)


def aef_choi(s, level, form, q):
    """The Choi form of the same operators gives the same number."""
    D = P(di).pow(P(q))
    Kt = T.inp("K", P(K), D, D)
    V = T.reshape(T.transpose(Kt, (0, 2, 1)), [P(K), D * D])
    C = s.st.new(HArr(T.einsum("ix,iy->xy", V, T.conjugate(V)), "nd", "c", "arg:C"))
    f = get(s, CH + "AnalyticQChan") if level == "channel" else get(s, "PyQCodes.chan._choi.ChoiQutip")
    o = s.call(f, C, s.lst([s.num(q), s.num(q)]), s.num(di), s.num(di))
    mark = len(s.raises())
    ps, ss, pr, st = ensemble(s, D, form)
    out = s.meth(o, "average_entanglement_fidelity", ps, ss)
    s.chk.eq(s, s.name, out, aef_ref(Kt, pr, st))
    s.chk.no_raise(s, s.name, mark)


def run(c):
    for rep in ("dense", "sparse"):
        for k in (P(1), P(2), P(n) + 2):
            c.scenario("fidelity %s n=%s" % (rep, k), fidelity, rep, k)
        for level in ("kraus", "channel"):
            for form in ("list", "array"):
                for used in (False, True):
                    c.scenario("ensemble fidelity %s %s %s%s" % (rep, level, form, " after use" if used else ""), aef, rep, level, form, used)
    c.scenario("fidelity choi", fidelity_choi)
    for level in ("low", "channel"):
        for form in ("list", "array"):
            for q in (1, 2):
                c.scenario("ensemble fidelity choi %s %s q=%d" % (level, form, q), aef_choi, level, form, q)
