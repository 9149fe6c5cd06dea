"""C07: no channel object exists for operators that are not a channel of the stated size."""
from .common import *
from sa.mnp import forall

RULE = ("abstract run of the constructors: the condition under which an exception is raised must equal 'sum K^dagger K differs from the "
        "identity' (or 'partial trace of the Choi matrix differs from the identity, or not completely positive'); wrong sizes, ranks and types always raise")


def ops_value(s, form, nk, o, i, name="K"):
    t = T.inp(name, P(nk), P(o), P(i))
    if form == "list":
        l = leg(P(nk))
        return s.st.new(HList((Loop(l, (It(s.st.new(HArr(T.index_axis(t, 0, P(l)), "nd", "c", "arg:" + name))),)),), "list", "arg:" + name)), t
    return s.st.new(HArr(t, form, "c", "arg:" + name)), t


def ctor(s, level, rep):
    if level == "channel":
        return get(s, CH + "AnalyticQChan"), ({"sparse": TRUE} if rep == "sparse" else {})
    return get(s, KR + ("DenseKraus" if rep == "dense" else "SparseKraus")), {}


def not_tp(t):
    g = T.einsum("iaj,iak->jk", T.conjugate(t), t)
    return T.lnot(forall(T.eq0(T.sub(g, T.eye(t.shape[2])))))


def kraus_gate(s, rep, form):
    din, dout = P(di).pow(P(a)), P(do).pow(P(b))
    s.fact(P(K) - 1)
    ops, t = ops_value(s, form, K, dout, din)
    f, kw = ctor(s, "channel", rep)
    s.call(f, ops, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do), **kw)
    s.chk.gate(s, s.name + ": rejected exactly when not trace-preserving", 0, not_tp(t))


def is_tp(s, rep, form):
    """The predicate itself, for the low-level objects."""
    din, dout = P(di).pow(P(a)), P(do).pow(P(b))
    ops, t = ops_value(s, form, K, dout, din)
    f, kw = ctor(s, "kraus", rep)
    o = s.call(f, ops, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do))
    r = s.meth(o, "is_trace_perserving")
    s.chk.eq(s, s.name, r, T.lnot(not_tp(t)))


def wrong_size(s, level, rep, form, which, how):
    e = P(sym("e")) + 1
    din, dout = P(di).pow(P(a)), P(do).pow(P(b))
    o, i = dout, din
    if which == "rows":
        o = dout + e if how == "bigger" else dout - e
    else:
        i = din + e if how == "bigger" else din - e
    s.fact(P(K) - 1, o - 1, i - 1)
    with T.with_facts(s.st.facts.poly()):
        ops, t = ops_value(s, form, K, o, i)
        f, kw = ctor(s, level, rep)
        s.chk.rejects(s, s.name, lambda: s.call(f, ops, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do), **kw))


def one_wrong(s, level, rep, which):
    """A list in which only one operator has another size."""
    e = P(sym("e")) + 1
    din, dout = P(di).pow(P(a)), P(do).pow(P(b))
    good = s.arr("G", dout, din)
    bad = s.arr("B", dout + (e if which == "rows" else 0), din + (e if which == "cols" else 0))
    for pos in (0, 1, 2):
        l = [good, good]
        l.insert(pos, bad)
        f, kw = ctor(s, level, rep)
        s.chk.rejects(s, "%s at %d" % (s.name, pos), lambda: s.call(f, s.lst(l), s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do), **kw))


def swapped(s, level, rep, form):
    """Operators whose rows and columns are exchanged are rejected when the sizes differ."""
    e = P(sym("e")) + 1
    s.fact(P(K) - 1)
    ops, t = ops_value(s, form, K, P(di), P(di) + e)
    f, kw = ctor(s, level, rep)
    s.chk.rejects(s, s.name, lambda: s.call(f, ops, s.lst([s.num(1), s.num(1)]), s.num(di), s.num(P(di) + e), **kw))


def choi_gate(s, level, qa, qb):
    din, dout = P(di).pow(P(qa)), P(do).pow(P(qb))
    t = T.inp("C", din * dout, din * dout)
    arr = s.st.new(HArr(t, "nd", "c", "arg:C"))
    f = get(s, CH + "AnalyticQChan") if level == "channel" else get(s, "PyQCodes.chan._choi.ChoiQutip")
    s.call(f, arr, s.lst([s.num(qa), s.num(qb)]), s.num(di), s.num(do))
    pt = T.einsum("iaja->ij", T.reshape(t, [din, dout, din, dout]))
    tp = forall(T.eq0(T.sub(pt, T.eye(din))))
    cp = T.app_atom("psd", [t], [], flags=("bit", "real", "nn", "int"))
    s.chk.gate(s, s.name + ": rejected exactly when not trace-preserving or not completely positive", 0, T.lnot(T.land(tp, cp)))


def choi_size(s, level, how, which):
    e = P(sym("e")) + 1
    D = P(di).pow(P(a)) * P(do).pow(P(b))
    r = c = D
    ch = e if how == "bigger" else P(0) - e
    if which in ("rows", "both"):
        r = D + ch
    if which in ("cols", "both"):
        c = D + ch
    s.fact(r - 1, c - 1)
    with T.with_facts(s.st.facts.poly()):
        arr = s.arr("C", r, c)
        f = get(s, CH + "AnalyticQChan") if level == "channel" else get(s, "PyQCodes.chan._choi.ChoiQutip")
        s.chk.rejects(s, s.name, lambda: s.call(f, arr, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do)))


def other(s, what):
    f = get(s, CH + "AnalyticQChan")
    q = s.lst([s.num(a), s.num(b)])
    if what == "vector":
        v = s.arr("v", P(di))
    elif what == "4d":
        v = s.arr("v", K, K, P(do).pow(P(b)), P(di).pow(P(a)))
    elif what == "sparse 2d":
        v = s.arr("v", P(do).pow(P(b)) * P(di).pow(P(a)), P(do).pow(P(b)) * P(di).pow(P(a)), kind="coo")
    elif what == "sparse 4d":
        v = s.arr("v", K, K, P(do).pow(P(b)), P(di).pow(P(a)), kind="coo")
    elif what == "string":
        v = "XZ"
    elif what == "None":
        v = None
    elif what == "dict":
        v = s.py("{}")
    elif what == "sparse Kraus without sparse flag":
        v = s.arr("v", K, P(do).pow(P(b)), P(di).pow(P(a)), kind="coo")
    s.chk.rejects(s, s.name, lambda: s.call(f, v, q, s.num(di), s.num(do)))
    if what.startswith("sparse ") and "flag" not in what:
        s.chk.rejects(s, s.name + " (sparse flag)", lambda: s.call(f, v, q, s.num(di), s.num(do), sparse=TRUE))


def badargs(s, level, rep, what):
    """Qubit numbers and dimensions must be integers in a list of two."""
    f, kw = ctor(s, level, rep)
    ops, t = ops_value(s, "nd", K, do, di)
    q, x, y = s.lst([s.num(1), s.num(1)]), s.num(di), s.num(do)
    if what == "three":
        q = s.lst([s.num(1), s.num(1), s.num(1)])
    elif what == "float qubits":
        q = s.py("[1.0, 1.0]")
    elif what == "tuple":
        q = s.py("(1, 1)")
    elif what == "string dim":
        x = "2"
    s.chk.rejects(s, s.name, lambda: s.call(f, ops, q, x, y, **kw))


def run(c):
    for rep in ("dense", "sparse"):
        forms = ("nd", "list") if rep == "dense" else ("nd", "list", "coo")
        for form in forms:
            c.scenario("channel %s from %s" % (rep, form), kraus_gate, rep, form)
            c.scenario("is_trace_perserving %s from %s" % (rep, form), is_tp, rep, form)
            for level in ("kraus", "channel"):
                for which in ("rows", "cols"):
                    for how in ("bigger", "smaller"):
                        c.scenario("%s %s from %s, %s %s" % (level, rep, form, which, how), wrong_size, level, rep, form, which, how)
                c.scenario("%s %s from %s exchanged" % (level, rep, form), swapped, level, rep, form)
        for level in ("kraus", "channel"):
            for which in ("rows", "cols"):
                c.scenario("%s %s list with one wrong number of %s" % (level, rep, which), one_wrong, level, rep, which)
            for what in ("three", "float qubits", "tuple", "string dim"):
                c.scenario("%s %s %s" % (level, rep, what), badargs, level, rep, what)
    for level in ("low", "channel"):
        for qa, qb in ((P(1), P(1)), (P(2), P(1)), (P(1), P(3)), (P(a), P(b))):
            c.scenario("choi %s %s->%s" % (level, qa, qb), choi_gate, level, qa, qb)
        for which in ("rows", "cols", "both"):
            for how in ("bigger", "smaller"):
                c.scenario("choi %s %s %s" % (level, which, how), choi_size, level, how, which)
    for what in ("vector", "4d", "sparse 2d", "sparse 4d", "string", "None", "dict", "sparse Kraus without sparse flag"):
        c.scenario("operator: " + what, other, what)
