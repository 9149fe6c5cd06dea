"""D01: the inverse of the random two-design undoes it exactly."""
from .twirl import *

RULE = ("abstract run of the design and of its inverse with the phases the design returned, every random value left open (a finite set of values each): "
        "the rounds, draws and their distributions are read off the recorded gates, and design followed by inverse is rewritten to nothing by "
        "commuting, merging and cancelling gates for every value of the draws")

def undo(s, nq, eps, order=None):
    chk = s.chk
    o = s.call(s.get(DEV), engine(s, nq), qreg(s, nq))
    try:
        k0 = len(s.st.trace)
        ph = s.meth(o, "approximate_unitary_two_design", s.num(eps))
        k1 = len(s.st.trace)
        s.meth(o, "inverse_of_unitary_two_design", ph)
        dr, p = Draws(s.I), pi(s)
        A, B = (ops_of(gates(t), p) for t in (s.st.trace[k0:k1], s.st.trace[k1:]))
        if any(e.kind == "draw" for e in s.st.trace[k1:]):
            chk.bad(s.name + ": the inverse draws no random values", "it draws")
        qs = [("q", i) for i in range(nq)]
        for x, lab in ((A, "design"), (B, "inverse")):
            if isinstance(x, tuple):
                chk.bad(s.name + ": " + lab, "gate %s acts twice on one qubit: %s" % x[1:])
                return
            out = {q for o_ in x for q in ([o_[1]] if o_[0] == "H" else o_[1])} - set(qs)
            if out:
                chk.bad(s.name + ": " + lab, "gates outside the register: %s" % sorted(out))
                return
        design(A, dr, qs, count(eps, nq), chk, s.name + ": rounds and draws")
        identity_for_all(A + B, dr, qs, chk, s.name + ": design then inverse")
    except NoCircuit as e:
        chk.unk(s.name, str(e))


def number(s, nq):
    """The number of rounds for any epsilon."""
    e = T.scalar_atom("eps", ("real", "nn"))
    N = P(nq)
    q = s.st.new(HList(mq.register("q", N)))
    o = s.call(s.get(DEV), Obj("engine", nactive=N), q)
    k = len(s.st.trace)
    s.meth(o, "approximate_unitary_two_design", e)
    want = s.ten(s.py("2 * int(np.ceil(np.log2(1. / e) / n)) + 1", e=e, n=s.num(N)))
    loops_ = [x for x in s.st.trace[k:] if x.kind == "loop" and any(contains(y) for y in x.args)]
    other = [x for x in s.st.trace[k:] if x.kind == "gate" or x.kind == "if" and any(contains(y) for y in x.args)]
    if len(loops_) != 1 or other:
        s.chk.unk(s.name, "the gates are not recorded as one loop over rounds")
        return
    s.chk.eq(s, s.name, T.from_poly(loops_[0].args[0].dim), want)


def nested(s, nq, eps):
    """Two designs, undone in the opposite order with the phases each returned; the phases are not used up by undoing them."""
    chk = s.chk
    o = s.call(s.get(DEV), engine(s, nq), qreg(s, nq))
    try:
        k0 = len(s.st.trace)
        p1 = s.meth(o, "approximate_unitary_two_design", s.num(eps))
        p2 = s.meth(o, "approximate_unitary_two_design", s.num(eps))
        ka = len(s.st.trace)
        s.meth(o, "inverse_of_unitary_two_design", p2)
        s.meth(o, "inverse_of_unitary_two_design", p1)
        kb = len(s.st.trace)
        s.meth(o, "inverse_of_unitary_two_design", p1)
        dr, p, t = Draws(s.I), pi(s), s.st.trace
        A, B, C = (ops_of(gates(x), p) for x in (t[k0:ka], t[ka:kb], t[kb:]))
        qs = [("q", i) for i in range(nq)]
        if any(isinstance(x, tuple) for x in (A, B, C)):
            return
        design(A, dr, qs, 2 * count(eps, nq), chk, s.name + ": draws are fresh")
        identity_for_all(A + B, dr, qs, chk, s.name + ": undone in the opposite order")
        identity_for_all(B[-len(C):] + [o_ if o_[0] == "H" else ("D", o_[1], T.neg(o_[2])) for o_ in reversed(C)], dr, qs, chk, s.name + ": phases used again")
    except NoCircuit as e:
        chk.unk(s.name, str(e))


def run(c):
    for nq in (2, n):
        c.scenario("number of rounds, any epsilon, %s qubits" % nq, number, nq)
    c.rule, c.trust = RULE, TRUST
    top = 6 if c.deep else 4
    for nq in range(1, top + 1):
        for eps in (Fr(1), Fr(1, 2), Fr(3, 10), Fr(1, 10), Fr(1, 64)) + ((Fr(1, 1000), Fr(9, 10), Fr(3, 2)) if c.deep else ()):
            if count(eps, nq) * nq * nq <= (200 if c.deep else 90):
                c.scenario("%d qubits, epsilon %s" % (nq, eps), undo, nq, eps)
    for nq, eps in ((1, Fr(1, 4)), (2, Fr(1, 4)), (3, Fr(1, 2))):
        c.scenario("two designs on %d qubits, epsilon %s" % (nq, eps), nested, nq, eps)
