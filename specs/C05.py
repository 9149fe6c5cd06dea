"""C05: serial concatenation is composition, the right operand acting first."""
from .common import *

RULE = ("abstract run of B + A and serial_concatenate on symbolic operators: the operators of the result are all products B_i A_j once, "
        "the sizes are those of A (in) and B (out), the result acts as A then B, and operands of different inner size always raise")

c_, d3, KA, KB = sym("c"), sym("d3"), sym("KA"), sym("KB")


def products(KB_, KA_):
    """both orders in which the products can be listed"""
    t = T.einsum("ijk,mkl->imjl", KB_, KA_)
    u = T.transpose(t, (1, 0, 2, 3))
    sh = t.shape
    return [T.reshape(x, (sh[0] * sh[1], sh[2], sh[3])) for x in (t, u)]


def pair(s, repA, repB, level, shapeB):
    A = Chan(s, repA, level, qubits=(a, b), dims=(di, do), nk=KA, name="KA")
    if shapeB == "same":
        B = Chan(s, repB, level, qubits=(b, c_), dims=(do, d3), nk=KB, name="KB")
    else:       # the inner space as one big system
        B = Chan(s, repB, level, qubits=(P(1), c_), dims=(P(do).pow(P(b)), d3), nk=KB, name="KB")
    return A, B


def plus(s, repA, repB, level, shapeB):
    A, B = pair(s, repA, repB, level, shapeB)
    mark = len(s.raises())
    R = s.I.binop_dunder(B.o, A.o, s) if hasattr(s.I, "binop_dunder") else s.py("B + A", A=A.o, B=B.o)
    nm = s.name
    o = R if level == "kraus" else s.attr(R, "krauss")
    s.chk.eq(s, nm + ": operators", s.attr(o, "kraus_ops"), products(B.K, A.K))
    s.chk.eqpoly(s, nm + ": input_dim", s.attr(o, "input_dim"), A.di)
    s.chk.eqpoly(s, nm + ": output_dim", s.attr(o, "output_dim"), B.do)
    s.chk.eqpoly(s, nm + ": numb_kraus", s.attr(o, "numb_kraus"), A.nk * B.nk)
    rho = state(s, "rho", A.di, A.di)
    two = chan_ref(B.K, chan_ref(A.K, s.ten(rho)))
    s.chk.eq(s, nm + ": acts as A then B", s.meth(R, "channel", rho) if level == "kraus" else s.meth(R, "channel", rho, s.num(1)), two)
    if level == "channel":
        s.chk.eqpoly(s, nm + ": input_dimension", s.attr(R, "input_dimension"), A.di)
        s.chk.eqpoly(s, nm + ": output_dimension", s.attr(R, "output_dimension"), B.do)
        s.chk.eqpoly(s, nm + ": dim_in^qubits", s.py("R.dim_in ** R.numb_qubits[0]", R=R), A.di)
        s.chk.eqpoly(s, nm + ": dim_out^qubits", s.py("R.dim_out ** R.numb_qubits[1]", R=R), B.do)
    # the trace conditions of the operands are the caller's; the size checks of the result must pass
    s.chk.no_raise(s, nm, mark if level == "kraus" else len(s.raises()))
    if level == "channel":
        sizes(s, nm, mark)


def sizes(s, nm, mark):
    """no exception other than the trace-preservation assertion of the result's own construction"""
    rs = [x for x in s.raises()[mark:] if not x.exc.startswith("(") and "channel.AnalyticQChan.__init__" not in x.where]
    for x in rs:
        w = rand.holds_somewhere(x.guard, s.st.facts.ge)
        if w is not None and w != "unknown" and not s.I.notes:
            s.chk.bad(nm + ": no exception", "valid operands raise %s at %s (for example %s)" % (x.exc, x.where, w), x.where)
            return
    s.chk.ok(nm + ": no exception from the size checks")


def static(s, cls, fA, fB):
    def mk(name, k, o, i, form):
        t = T.inp(name, P(k), P(o), P(i))
        if form == "list":
            l = leg(P(k))
            return s.st.new(HList((Loop(l, (It(s.st.new(HArr(T.index_axis(t, 0, P(l)), "nd", "c", "arg:" + name))),)),), "list", "arg:" + name)), t
        return s.st.new(HArr(t, form, "c", "arg:" + name)), t
    x, y, z = sym("x"), sym("y"), sym("z")
    k1, t1 = mk("K1", KB, z, y, fB)
    k2, t2 = mk("K2", KA, y, x, fA)
    R = s.call(s.attr(get(s, KR + cls), "serial_concatenate"), k1, k2)
    s.chk.eq(s, s.name, R, products(t1, t2))
    s.chk.no_raise(s, s.name)


def reject(s, cls, how):
    x, z, y = sym("x"), sym("z"), sym("y")
    e = P(sym("e"))
    inner = P(y) + 1 + e if how == "bigger" else P(y)
    other = P(y) if how == "bigger" else P(y) + 1 + e
    kind = "nd" if cls == "DenseKraus" else "coo"
    k1 = s.arr("K1", KB, z, inner, kind=kind)
    k2 = s.arr("K2", KA, other, x, kind=kind)
    s.fact(P(KB) - 1, P(KA) - 1)
    s.chk.rejects(s, s.name + " static", lambda: s.call(s.attr(get(s, KR + cls), "serial_concatenate"), k1, k2))


def reject_obj(s, rep, level, how):
    e = P(sym("e"))
    A = Chan(s, rep, level, qubits=(P(1), P(1)), dims=(di, P(do)) if how == "bigger" else (di, P(do) + 1 + e), nk=KA, name="KA")
    B = Chan(s, rep, level, qubits=(P(1), P(1)), dims=(P(do) + 1 + e if how == "bigger" else do, d3), nk=KB, name="KB")
    s.fact(P(KB) - 1, P(KA) - 1)
    s.chk.rejects(s, s.name, lambda: s.py("B + A", A=A.o, B=B.o))


def run(c):
    for sh in ("same", "joined"):
        for rA in ("dense", "sparse"):
            for rB in ("dense", "sparse"):
                if rA == rB:
                    c.scenario("kraus %s %s %s" % (rB, rA, sh), plus, rA, rB, "kraus", sh)
                c.scenario("channel %s %s %s" % (rB, rA, sh), plus, rA, rB, "channel", sh)
    for cls in ("DenseKraus", "SparseKraus"):
        forms = ("nd", "list") if cls == "DenseKraus" else ("nd", "list", "coo")
        for fA in forms:
            for fB in forms:
                c.scenario("%s.serial_concatenate %s %s" % (cls, fB, fA), static, cls, fA, fB)
        for how in ("bigger", "smaller"):
            c.scenario("%s inner size %s" % (cls, how), reject, cls, how)
    for rep in ("dense", "sparse"):
        for level in ("kraus", "channel"):
            for how in ("bigger", "smaller"):
                c.scenario("%s %s inner size %s" % (rep, level, how), reject_obj, rep, level, how)
