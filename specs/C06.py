"""C06: parallel concatenation is the tensor product, left operand on the left factor."""
from .common import *
from .C05 import sizes

RULE = ("abstract run of A * B and parallel_concatenate on symbolic operators: the operators of the result are all Kronecker products "
        "A_i (x) B_j once with A left, the sizes are the products, and the result acts on rho (x) sigma as A(rho) (x) B(sigma)")

c_, e_, d3, d4, KA, KB = sym("c"), sym("e"), sym("d3"), sym("d4"), sym("KA"), sym("KB")


def krons(tA, tB):
    t = T.einsum("iab,jcd->ijacbd", tA, tB)
    u = T.transpose(t, (1, 0, 2, 3, 4, 5))
    sh = t.shape
    return [T.reshape(x, (sh[0] * sh[1], sh[2] * sh[3], sh[4] * sh[5])) for x in (t, u)]


def times(s, repA, repB, level, conc):
    qa, qb = ((a, b), (c_, e_)) if not conc else ((P(1), P(1)), (P(1), P(1)))
    A = Chan(s, repA, level, qubits=qa, dims=(di, do), nk=KA, name="KA")
    B = Chan(s, repB, level, qubits=qb, dims=(d3, d4), nk=KB, name="KB")
    mark = len(s.raises())
    R = s.py("A * B", A=A.o, B=B.o)
    nm = s.name
    o = R if level == "kraus" else s.attr(R, "krauss")
    s.chk.eq(s, nm + ": operators", s.attr(o, "kraus_ops"), krons(A.K, B.K))
    s.chk.eqpoly(s, nm + ": input_dim", s.attr(o, "input_dim"), A.di * B.di)
    s.chk.eqpoly(s, nm + ": output_dim", s.attr(o, "output_dim"), A.do * B.do)
    s.chk.eqpoly(s, nm + ": numb_kraus", s.attr(o, "numb_kraus"), A.nk * B.nk)
    rho, sig = state(s, "rho", A.di, A.di), state(s, "sigma", B.di, B.di)
    joint = s.st.new(HArr(T.kron(s.ten(rho), s.ten(sig)), "nd", "c"))
    ref = T.kron(chan_ref(A.K, s.ten(rho)), chan_ref(B.K, s.ten(sig)))
    s.chk.eq(s, nm + ": acts as the tensor product", s.meth(R, "channel", joint) if level == "kraus" else s.meth(R, "channel", joint, s.num(1)), ref)
    if level == "channel":
        s.chk.eqpoly(s, nm + ": input_dimension", s.attr(R, "input_dimension"), A.di * B.di)
        s.chk.eqpoly(s, nm + ": output_dimension", s.attr(R, "output_dimension"), A.do * B.do)
        s.chk.eqpoly(s, nm + ": dim_in^qubits", s.py("R.dim_in ** R.numb_qubits[0]", R=R), A.di * B.di)
        s.chk.eqpoly(s, nm + ": dim_out^qubits", s.py("R.dim_out ** R.numb_qubits[1]", R=R), A.do * B.do)
        sizes(s, nm, mark)
    else:
        s.chk.no_raise(s, nm, mark)


def used(s, rep, level):
    """The operands may have been used n times before: the product is of the single-use channels."""
    A = Chan(s, rep, level, qubits=(P(1), P(1)), dims=(di, do), nk=KA, name="KA")
    B = Chan(s, rep, level, qubits=(P(1), P(1)), dims=(d3, d4), nk=KB, name="KB")
    for X, k in ((A, P(n) + 2), (B, P(2))):
        if level == "kraus":
            X.update(k)
        else:
            X.apply(state(s, "r%s" % k, power_dim(X.di, k), power_dim(X.di, k)), k)
    mark = len(s.raises())
    R = s.py("A * B", A=A.o, B=B.o)
    o = R if level == "kraus" else s.attr(R, "krauss")
    nm = s.name
    s.chk.eq(s, nm + ": operators", s.attr(o, "kraus_ops"), krons(A.K, B.K))
    s.chk.eqpoly(s, nm + ": input_dim", s.attr(o, "input_dim"), A.di * B.di)
    s.chk.eqpoly(s, nm + ": output_dim", s.attr(o, "output_dim"), A.do * B.do)
    sizes(s, nm, mark)


def static(s, cls, fA, fB):
    def mk(name, k, o, i, form):
        t = T.inp(name, P(k), P(o), P(i))
        if form == "list":
            l = leg(P(k))
            return s.st.new(HList((Loop(l, (It(s.st.new(HArr(T.index_axis(t, 0, P(l)), "nd", "c", "arg:" + name))),)),), "list", "arg:" + name)), t
        return s.st.new(HArr(t, form, "c", "arg:" + name)), t
    k1, t1 = mk("K1", KA, sym("x"), sym("y"), fA)
    k2, t2 = mk("K2", KB, sym("z"), sym("w"), fB)
    R = s.call(s.attr(get(s, KR + cls), "parallel_concatenate"), k1, k2)
    s.chk.eq(s, s.name, R, krons(t1, t2))
    s.chk.no_raise(s, s.name)


def run(c):
    for conc in (False, True):
        for rA in ("dense", "sparse"):
            for rB in ("dense", "sparse"):
                if rA == rB:
                    c.scenario("kraus %s %s%s" % (rA, rB, " one qubit" if conc else ""), times, rA, rB, "kraus", conc)
                c.scenario("channel %s %s%s" % (rA, rB, " one qubit" if conc else ""), times, rA, rB, "channel", conc)
    for rep in ("dense", "sparse"):
        for level in ("kraus", "channel"):
            c.scenario("%s %s after use" % (rep, level), used, rep, level)
    for cls in ("DenseKraus", "SparseKraus"):
        forms = ("nd", "list") if cls == "DenseKraus" else ("nd", "list", "coo")
        for fA in forms:
            for fB in forms:
                c.scenario("%s.parallel_concatenate %s %s" % (cls, fA, fB), static, cls, fA, fB)
