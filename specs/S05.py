"""S05: the encoding and decoding circuits prepare and undo the standard form."""
from .common import *
from .codes import *
from .circuits import *
from .S03 import FAMILIES
import itertools

RULE = ("abstract construction of codes from unknown generators, partitioned into all cases of the open letters; the gates recorded from the "
        "encoding circuit (per logical bit string, acting on the zero state) and the decoding circuit (as an operator) against the gates "
        "of the object's own standard form")


def encoder_gates(N, X, rk, nn, kk, bits_):
    out = [U("X", ("q", nn - kk + i)) for i, v in enumerate(bits_) if v]
    if rk < nn - kk:
        for i in range(kk - 1, -1, -1):
            out += [U("X", ("q", j), ("q", nn - kk + i)) for j in range(rk, nn - kk) if X[i][j]]
    for i in range(rk):
        out.append(U("H", ("q", i)))
        out += paulis(pauli_word(N[i]), "q", ("q", i), skip=i)
    return out


def decoder_gates(X, Z, nn, kk, anc):
    out = []
    for i in range(kk):
        out += [U("X", anc[i], ("q", j)) for j in range(nn) if Z[i][nn + j]]
    for i in range(kk):
        out += paulis(pauli_word(X[i]), "q", anc[i])
    return out


def contents(s, v):
    return [qname(x) for x in mq.flat(s.I, s.st, v)]


def record(s, fn):
    """(value, recorded steps) of a call."""
    m_ = len(s.st.trace)
    v = fn()
    return v, steps(list(s.st.trace)[m_:])


def family(s0, rows, what):
    chk, mm, nn = s0.chk, len(rows), len(rows[0])
    kk = nn - mm
    done = 0

    def look(s, o, b):
        vals = settled(b, *[s.ten(s.attr(o, q)) for q in ("normal_form", "logical_x", "logical_z")])
        rk = ival(s.ten(s.attr(o, "rank")))
        runs = []
        if what == "encoding":
            for bs in itertools.product((0, 1), repeat=kk):
                for form in ("list", "array") if sum(bs) == kk else ("list",):
                    st_ = s.lst([s.num(v) for v in bs]) if form == "list" else s.st.new(HArr(T.stack_list([T.const(v) for v in bs]), "nd", "i", None))
                    runs.append((bs,) + record(s, lambda: s.meth(o, "encoding_circuit", engine(s, nn), qreg(s, nn), st_)))
        else:
            for add, dea in itertools.product((True, False), repeat=2):
                rg = qreg(s, nn if add else nn + kk)
                v, t = record(s, lambda: s.meth(o, "decoding_circuit", engine(s, nn if add else nn + kk), rg, add_ancilla_bits=add, deallocate_nqubits=dea))
                runs.append(((add, dea), contents(s, v), t))
        return vals + [rk, runs]
    for p in code_cubes(s0, rows, look):
        g, out = p.out
        lab = p.lab
        if isinstance(out, str):
            chk.bad(lab, "the code or its circuit is not constructed: %s" % out)
            continue
        N, X, Z, rk, runs = out
        if p.ses.I.notes or any(v is None for v in out):
            chk.unk(lab, "value lost: %s" % (p.ses.I.notes[:1] or out))
            continue
        done += 1
        order = [("q", i) for i in range(nn)]
        for key, v, got in runs:
            if what == "encoding":
                l = lab + ": encoding %s" % ("".join(map(str, key)))
                compare(chk, l, got, encoder_gates(N, X, rk, nn, kk, key), order, set(order))
                continue
            add, dea = key
            l = lab + ": decoding, %s ancillas%s" % ("new" if add else "given", ", deallocating" if dea else "")
            new = [x for x in got if x[0] == "A"]
            if add and (sum(x[2] for x in new) != kk):
                chk.bad(l, "allocates %s" % (new,))
                continue
            anc = [(x[1], i) for x in new for i in range(x[2])] if add else [("q", nn + i) for i in range(kk)]
            anc = [(str(x), i) for x, i in anc]
            want = decoder_gates(X, Z, nn, kk, anc)
            if dea:
                want += [("M", q) for q in order]
            compare(chk, l, got, want, order + anc)
            if dea and v != anc:
                chk.bad(l + ": returned register", "%s instead of the ancillas" % (v,))
            elif add and not dea and v != order + anc:
                chk.bad(l + ": returned register", "%s instead of code qubits and ancillas" % (v,))
    chk.ok("%s: %d codes" % (s0.name, done))


def code(s, words):
    v = s.st.new(HArr(T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in words]), "nd", "i", "arg:generators"))
    return s.call(cls(s), v, s.num(len(words[0])), s.num(len(words[0]) - len(words)))


def sizes(s, words):
    nn, kk = len(words[0]), len(words[0]) - len(words)
    o = code(s, words)
    lst = lambda k_: s.lst([s.num(i % 2) for i in range(k_)])
    for k_ in range(0, nn + 2):
        if k_ != kk:
            s.chk.rejects(s, "%s: a state of %d bits" % (s.name, k_), lambda: s.meth(o, "encoding_circuit", engine(s, nn), qreg(s, nn), lst(k_)))
    for m_ in (nn - 1, nn + 1, nn + kk):
        if m_ != nn:
            s.chk.rejects(s, "%s: a register of %d qubits" % (s.name, m_),
                          lambda: s.meth(o, "encoding_circuit", engine(s, m_), qreg(s, m_), lst(kk)))
    for bad in (2, -1, 3):
        s.chk.rejects(s, "%s: state entry %d" % (s.name, bad),
                      lambda: s.meth(o, "encoding_circuit", engine(s, nn), qreg(s, nn), s.lst([s.num(bad)] * kk)))


def run(c):
    for what in ("encoding", "decoding"):
        for f in FAMILIES(c.deep):
            if len(f[0]) * 2 - len(f) <= (11 if c.deep else 6):
                c.scenario("%s, generators %s" % (what, " ".join(f)), family, f, what)
        for f in (["Z?Z"], ["XXX?", "ZZ?Z"]) if what == "encoding" else ():
            c.scenario("%s, generators %s" % (what, " ".join(f)), family, f, what)
    for w in (["XZ"], ["ZZI", "IZZ"], ["XXXX", "ZZZZ"]):
        c.scenario("sizes for " + " ".join(w), sizes, w)
