"""S01: Pauli strings, binary vectors and matrices are one consistent encoding."""
from .common import *
from .codes import *

RULE = ("abstract run of the four converters on bit vectors, strings and generator arrays with symbolic entries and both symbolic and small "
        "concrete numbers of qubits; letter indicators, vector entries and Kronecker products must equal the reference table")


def to_string(s, nn, form):
    v = bits(s, "v", P(2) * P(nn))
    arg = v
    if form == "list":
        arg = s.lst([entry(s, v, i) for i in range(2 * nn)], "arg:v")
    mark = len(s.raises())
    o = s.meth(s.get(CODE), "binary_rep_to_pauli_str", arg)
    t = s.ten(v)
    for ch in LETTERS:
        s.chk.eq(s, "%s: positions of %s" % (s.name, ch), letters(s, o, ch), letter_ind(t, ch, 0, P(nn)))
    s.chk.no_raise(s, s.name, mark)


def from_string(s, nn, mm):
    v = bits(s, "v", mm, P(2) * P(nn))
    strs = [build_string(s, v, i, nn) for i in range(mm)]
    mark = len(s.raises())
    o = s.meth(s.get(CODE), "pauli_str_to_binary_representation", s.lst(strs, "arg:paulis"))
    s.chk.eq(s, s.name, o, s.ten(v))
    s.chk.no_raise(s, s.name, mark)


def mats(s, nn, mm, sparse):
    v = bits(s, "v", mm, P(2) * P(nn))
    mark = len(s.raises())
    o = s.meth(s.get(CODE), "binary_rep_to_pauli_mat", v, boolv(sparse)) if sparse is not None else \
        s.meth(s.get(CODE), "binary_rep_to_pauli_mat", v)
    got = items(s, o)
    s.chk.claim(s.name + ": one matrix per row", len(got) == mm, "%d matrices for %d rows" % (len(got), mm))
    for i, g in enumerate(got[:mm]):
        s.chk.eq(s, "%s: matrix of row %d" % (s.name, i), dense(s, g), pauli_mat(s.ten(v), i, nn))
        if sparse is not None:
            s.chk.eq(s, "%s: row %d kept %s" % (s.name, i, "sparse" if sparse else "dense"), s.num(1 if is_sparse(s, g) else 0), s.num(1 if sparse else 0))
    s.chk.no_raise(s, s.name, mark)


def mats_sym(s, nn, sparse):
    v = bits(s, "v", m, P(2) * P(nn))
    o = s.meth(s.get(CODE), "binary_rep_to_pauli_mat", v, boolv(sparse))
    l = SQ.segs_of(s.I, s.st, o)
    if len(l) != 1 or not isinstance(l[0], Loop) or len(l[0].segs) != 1:
        raise Undecided("list of matrices in another form")
    s.chk.eq(s, s.name + ": one matrix per row", T.from_poly(l[0].leg.dim), T.from_poly(P(m)))
    got = s.ten(l[0].segs[0].v)
    ref = pauli_mat(T.index_axis(s.ten(v), 0, P(l[0].leg)), None, nn)
    s.chk.eq(s, s.name + ": matrix of a row", T.stack_leg(got, l[0].leg), T.stack_leg(ref, l[0].leg))


def single(s, sparse):
    v = bits(s, "v", 2)
    mark = len(s.raises())
    o = s.meth(s.get(CODE), "index_to_qubit_pauli", entry(s, v, 0), entry(s, v, 1), boolv(sparse))
    s.chk.eq(s, s.name, dense(s, o), pauli_mat(s.ten(v), None, 1))
    s.chk.no_raise(s, s.name, mark)


def round_trip(s, nn):
    v = bits(s, "v", P(2) * P(nn))
    mark = len(s.raises())
    o = s.meth(s.get(CODE), "binary_rep_to_pauli_str", v)
    back = s.meth(s.get(CODE), "pauli_str_to_binary_representation", s.lst([o]))
    s.chk.eq(s, s.name, back, T.reshape(s.ten(v), [P(1), P(2) * P(nn)]))
    s.chk.no_raise(s, s.name, mark)


def bad_bits(s, what, nn):
    """Any entry other than zero and one is rejected."""
    v = s.arr("w", *([P(1)] if what == "mat" else []), P(2) * P(nn), dt="f", flags=("real",))
    t = s.ten(v)
    if what == "mat":
        t = T.index_axis(t, 0, P(0))
    good = T.const(1)
    for i in range(2 * nn):
        e = T.index_axis(t, 0, P(i))
        good = T.mul(good, T.lor(T.eq0(e), T.eq0(T.sub(e, T.const(1)))))
    f = {"str": "binary_rep_to_pauli_str", "mat": "binary_rep_to_pauli_mat"}[what]
    s.chk.rejects(s, s.name, lambda: s.meth(s.get(CODE), f, v), T.lnot(good))


def bad_string(s, strs):
    s.chk.rejects(s, s.name, lambda: s.meth(s.get(CODE), "pauli_str_to_binary_representation", s.lst(strs)))


def run(c):
    c.scenario("bits to string, symbolic number of qubits", to_string, n, "array")
    for nn in (1, 2, 3):
        c.scenario("bits to string, %d qubits" % nn, to_string, nn, "array")
    c.scenario("bits to string, list, 3 qubits", to_string, 3, "list")
    c.scenario("string to bits, symbolic number of qubits", from_string, n, 1)
    for nn, mm in ((1, 1), (2, 2), (3, 2), (3, 3)) + (((5, 3),) if c.deep else ()):
        c.scenario("%d strings to bits, %d qubits" % (mm, nn), from_string, nn, mm)
    c.scenario("string of bits read back, symbolic number of qubits", round_trip, n)
    c.scenario("string of bits read back, 3 qubits", round_trip, 3)
    for sparse in (False, True, None):
        w = {False: "dense", True: "sparse", None: "default"}[sparse]
        for nn, mm in ((1, 1), (2, 2), (3, 1)) + (((4, 2),) if c.deep else ()):
            c.scenario("matrices, %s, %d rows, %d qubits" % (w, mm, nn), mats, nn, mm, sparse)
    for sparse in (False, True):
        w = "sparse" if sparse else "dense"
        for nn in (1, 2, 3)[:3 if c.deep else 2]:
            c.scenario("matrices, %s, symbolic number of rows, %d qubits" % (w, nn), mats_sym, nn, sparse)
        c.scenario("matrices, %s, symbolic number of rows and qubits" % w, mats_sym, n, sparse)
        c.scenario("one-qubit matrix, %s" % w, single, sparse)
    for nn in (1, 2):
        c.scenario("string of non-binary entries, %d qubits" % nn, bad_bits, "str", nn)
        c.scenario("matrix of non-binary entries, %d qubits" % nn, bad_bits, "mat", nn)
    for strs in (["A"], ["XQ"], ["QX"], ["XYx"], ["XY", "Z "], ["XI1Z"], ["0"], ["XY", "X"], ["X", "XY"], ["XYZ", "XYZ", "XY"], ["XX", "XXX", "XX"]):
        c.scenario("strings %s" % "/".join(strs), bad_string, strs)
