"""C10: a Choi matrix and the Kraus operators it encodes describe the same channel."""
from .common import *

RULE = ("abstract run of ChoiQutip / AnalyticQChan on a symbolic Choi matrix C = sum vec(K) vec(K)^dagger (column stacking, input factor first): "
        "channel, adjoint, complementary channel and extracted operators must have the terms of the definition, for all qubit numbers and dimensions")

CQ = "PyQCodes.chan._choi.ChoiQutip"


def make(s, level, qa, qb, din=di, dout=do, kraus=True):
    D, E = P(din).pow(P(qa)), P(dout).pow(P(qb))
    if kraus:
        Kt = T.inp("K", P(K), E, D)
        V = T.reshape(T.transpose(Kt, (0, 2, 1)), [P(K), D * E])
        C = T.einsum("ix,iy->xy", V, T.conjugate(V))
    else:
        Kt, C = None, T.inp("C", D * E, D * E, flags=("herm",))
    arr = s.st.new(HArr(C, "nd", "c", "arg:C"))
    f = get(s, CH + "AnalyticQChan") if level == "channel" else get(s, CQ)
    o = s.call(f, arr, s.lst([s.num(qa), s.num(qb)]), s.num(din), s.num(dout))
    return o, Kt, C, D, E, len(s.raises())


def maps(s, level, qa, qb, adj):
    o, Kt, C, D, E, mark = make(s, level, qa, qb)
    d = E if adj else D
    rho = state(s, "rho", d, d)
    args = ([s.num(1)] if level == "channel" else []) + ([TRUE] if adj else [])
    out = s.meth(o, "channel", rho, *args)
    s.chk.eq(s, s.name, out, (adj_ref if adj else chan_ref)(Kt, s.ten(rho)))
    s.chk.no_raise(s, s.name, mark)


def reported(s, qa, qb):
    o, Kt, C, D, E, mark = make(s, "channel", qa, qb)
    for nm, p in (("input_dimension", D), ("output_dimension", E), ("dim_in", P(di)), ("dim_out", P(do))):
        s.chk.eqpoly(s, s.name + " " + nm, s.attr(o, nm), p)
    q = items(s, s.attr(o, "numb_qubits"))
    s.chk.eqpoly(s, s.name + " numb_qubits[0]", q[0], P(qa))
    s.chk.eqpoly(s, s.name + " numb_qubits[1]", q[1], P(qb))
    s.chk.no_raise(s, s.name, mark)


def complementary(s, qa, qb):
    o, Kt, C, D, E, mark = make(s, "low", qa, qb, kraus=False)
    rho = state(s, "rho", D, D)
    out = s.meth(o, "complementary_channel", rho)
    r = s.ten(s.py("scipy.linalg.sqrtm(rho)", rho=rho))
    S = T.kron(T.transpose(r), T.eye(E))
    s.chk.eq(s, s.name, out, T.matmul(T.matmul(S, C), S))
    s.chk.no_raise(s, s.name, mark)


def extract(s, level, qa, qb):
    o, Kt, C, D, E, mark = make(s, level, qa, qb, kraus=False)
    ops = s.attr(o, "kraus") if level == "channel" else s.meth(o, "kraus_operators")
    env = dict(ops=ops, C=s.st.new(HArr(C, "nd", "c")), N=s.num(D * E))
    got = s.py("""
t = np.zeros((N, N), dtype=np.complex128)
for k in ops:
    v = np.ravel(k, "F")
    t = t + np.outer(v, np.conj(v))
t
""", **env)
    ref = s.py("""
w, V = np.linalg.eigh(C)
t = np.zeros((N, N), dtype=np.complex128)
for i in range(N):
    t = t + (w[i] > 1e-8) * w[i] * np.outer(V[:, i], np.conj(V[:, i]))
t
""", **env)
    s.chk.eq(s, s.name + ": reproduce the Choi matrix", got, s.ten(ref))
    cnt = s.py("len(ops)", **env)
    n0 = s.py("""
w = np.linalg.eigh(C)[0]
np.sum(w > 1e-8)
""", **env)
    s.chk.eq(s, s.name + ": one per eigenvalue above the cut-off", cnt, s.ten(n0))
    sh = s.py("ops[0].shape", ops=ops)
    s.chk.no_raise(s, s.name, mark)


def shapes(s, level, qa, qb):
    o, Kt, C, D, E, mark = make(s, level, qa, qb, kraus=False)
    ops = s.attr(o, "kraus") if level == "channel" else s.meth(o, "kraus_operators")
    for v in SQ.segs_of(s.I, s.st, ops):
        for x in leaves(v):
            t = s.ten(x)
            s.chk.eqpoly(s, s.name + " rows", T.from_poly(t.shape[0]), E)
            s.chk.eqpoly(s, s.name + " columns", T.from_poly(t.shape[1]), D)


def leaves(g):
    if isinstance(g, It):
        return [g.v]
    if isinstance(g, Loop):
        return [x for y in g.segs for x in leaves(y)]
    if isinstance(g, Cond):
        return [x for z in (g.a, g.b) for y in z for x in leaves(y)]
    raise Undecided("list structure")


def constraint(s, qa, qb):
    r = s.call(s.attr(get(s, CQ), "constraint_partial_trace"), s.lst([s.num(qa), s.num(qb)]), s.num(di), s.num(do))
    k, dims = items(s, r)
    D, E = P(di).pow(P(qa)), P(do).pow(P(qb))
    s.chk.eqpoly(s, s.name + ": traces out the second factor", k, P(1))
    for i, (x, d) in enumerate(zip(items(s, dims), (D, E))):
        for j, y in enumerate(items(s, x)):
            s.chk.eqpoly(s, s.name + ": size of factor %d (%d)" % (i, j), y, d)
    s.chk.no_raise(s, s.name)


def only_once(s):
    """A Choi channel can only be used once: other use counts are rejected."""
    for what in ("channel", "coherent_information", "fidelity_two_states", "optimize_coherent"):
        s2 = s
        o, Kt, C, D, E, mark = make(s, "channel", P(1), P(1), kraus=False)
        rho = state(s, "rho", D * D, D * D)
        if what == "optimize_coherent":
            s.chk.rejects(s, s.name + " " + what, lambda: s.meth(o, what, s.num(2), s.num(1)))
        else:
            s.chk.rejects(s, s.name + " " + what, lambda: s.meth(o, what, rho, s.num(2)))


def run(c):
    QS = [(P(1), P(1)), (P(2), P(1)), (P(1), P(2)), (P(3), P(2)), (P(a), P(b))]
    for level in ("low", "channel"):
        for qa, qb in QS:
            for adj in (False, True):
                c.scenario("%s %s->%s%s" % (level, qa, qb, " adjoint" if adj else ""), maps, level, qa, qb, adj)
            c.scenario("%s kraus operators %s->%s" % (level, qa, qb), extract, level, qa, qb)
            c.scenario("%s kraus operators %s->%s shape" % (level, qa, qb), shapes, level, qa, qb)
    for qa, qb in QS:
        c.scenario("reported %s->%s" % (qa, qb), reported, qa, qb)
        c.scenario("complementary %s->%s" % (qa, qb), complementary, qa, qb)
        c.scenario("constraint %s->%s" % (qa, qb), constraint, qa, qb)
    c.scenario("use count of a Choi channel", only_once)
