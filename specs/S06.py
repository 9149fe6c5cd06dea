"""S06: syndrome, stabilizer and logical circuits apply the named Pauli to each qubit."""
from .common import *
from .codes import *
from .circuits import *
from .S03 import FAMILIES
from .S05 import record, code, contents
from sa.paths import cubes

RULE = ("abstract execution of the circuit methods on unknown Pauli words (string and binary vector), partitioned into all cases of the open letters: "
        "recorded gates against the named Pauli as operators, and the value and register of the measurement; logical circuits for codes from "
        "unknown generators")


def word_cubes(s0, words, pat, call, form):
    """Run call(s, o, argument, word) over all words of a pattern, on the code with the given generators."""
    chk = s0.chk

    def run(b):
        t = generators(b, [pat])
        s = splitting(chk, b)
        settled(b, t)
        w = pauli_word(matrix(t)[0])
        o = code(s, words)
        if form == "string":
            v = w
        else:
            v = T.index_axis(t, 0, P(0))
            if form == "list":
                v = s.lst([T.index_axis(v, 0, P(i)) for i in range(2 * len(w))])
            else:
                v = s.st.new(HArr(v, "nd", "i", "arg:pauli"))
        try:
            return s, (w, call(s, o, v, w))
        except AbsRaise as e:
            return s, (w, "raise %s" % (e,))
    ps = cubes(run, 700)
    if not ps.complete:
        chk.unk(s0.name, "more cases than the limit")
    for p in ps:
        w, out = p.out
        lab = "%s: %s" % (s0.name, w)
        if p.ses.I.notes:
            chk.unk(lab, p.ses.I.notes[0])
        elif isinstance(out, str):
            chk.bad(lab, "the circuit is not constructed: %s" % out)
        else:
            yield lab, w, out


def measured(t):
    """The value is one measurement outcome as read."""
    if len(t.terms) != 1 or t.axes:
        return False
    q = t.terms[0]
    return len(q.fs) == 1 and q.fs[0].atom.key.startswith("meas#") and T.sub(t, T.mk((), [T.Term(P(1), P(1), list(q.fs), ())])).key() == T.const(0).key()


def syndrome(s0, words, pat, form, extra):
    chk, nn = s0.chk, len(words[0])

    def call(s, o, v, w):
        r_, t = record(s, lambda: s.meth(o, "single_syndrome_measurement", engine(s, nn + extra), qreg(s, nn + extra), v))
        return s.ten(r_), t
    order = [("q", i) for i in range(nn + extra)]
    done = 0
    for lab, w, (r_, got) in word_cubes(s0, words, pat, call, form):
        new = [x for x in got if x[0] == "A"]
        if sum(x[2] for x in new) != 1 - extra:
            chk.bad(lab, "allocates %s" % (new,))
            continue
        anc = ("q", nn) if extra else (str(new[0][1]), 0)
        want = [U("H", anc)] + paulis(w, "q", anc) + [U("H", anc), ("M", anc), ("R", anc)]
        compare(chk, lab, got, want, order if extra else order + [anc], () if extra else (anc,))
        if not measured(r_):
            chk.bad(lab + ": returned value", "%s is not the measured value" % r_.key()[:100])
        else:
            done += 1
    chk.ok("%s: %d words" % (s0.name, done))


def stabilizer(s0, words, pat, form):
    chk, nn = s0.chk, len(words[0])
    order = [("q", i) for i in range(nn)]
    done = 0
    for lab, w, got in word_cubes(s0, words, pat, lambda s, o, v, w_: record(s, lambda: s.meth(
            o, "apply_stabilizer_circuit", engine(s, nn), qreg(s, nn), v))[1], form):
        compare(chk, lab, got, paulis(w, "q"), order)
        done += 1
    chk.ok("%s: %d words" % (s0.name, done))


def logical(s0, rows):
    chk, mm, nn = s0.chk, len(rows), len(rows[0])
    kk = nn - mm
    order = [("q", i) for i in range(nn)]
    done = 0

    def look(s, o, b):
        X, Z = settled(b, *[s.ten(s.attr(o, q)) for q in ("logical_x", "logical_z")])
        return X, Z, [(ch, i) + record(s, lambda: s.meth(o, "logical_circuit", engine(s, nn), qreg(s, nn), ch + str(i)))
                      for i in range(kk) for ch in "XYZ"]
    for p in code_cubes(s0, rows, look):
        g, out = p.out
        if p.ses.I.notes or not isinstance(out, str) and (out[0] is None or out[1] is None):
            chk.unk(p.lab, "value lost: %s" % (p.ses.I.notes[:1]))
            continue
        if isinstance(out, str):
            chk.bad(p.lab, "the code or its circuit is not constructed: %s" % out)
            continue
        X, Z, runs = out
        done += 1
        for ch, i, v, got in runs:
            row = {"X": X[i], "Z": Z[i], "Y": [(x + z) % 2 for x, z in zip(X[i], Z[i])]}[ch]
            compare(chk, "%s: logical %s%d" % (p.lab, ch, i), got, paulis(pauli_word(row), "q"), order)
    chk.ok("%s: %d codes" % (s0.name, done))


def sizes(s, words):
    nn = len(words[0])
    o = code(s, words)
    for m_ in range(0, nn + 4):
        if m_ not in (nn, nn + 1):
            s.chk.rejects(s, "%s: a register of %d qubits" % (s.name, m_),
                          lambda: s.meth(o, "single_syndrome_measurement", engine(s, m_), qreg(s, m_), words[0]))


def run(c):
    deep = c.deep
    code3, code2, code4 = ["ZZI", "IZZ"], ["XZ"], ["XXXX", "ZZZZ"]
    for form in ("string", "array"):
        for words, pat in ((code2, "??"), (code3, "???"), (code4, "?X?Y")) + (((code4, "????"),) if deep else ()):
            for extra in (0, 1):
                c.scenario("syndrome of a %s on %d qubits%s" % (form, len(pat), ", ancilla given" if extra else ""), syndrome, words, pat, form, extra)
    for form in ("string", "array", "list"):
        for words, pat in ((code2, "??"), (code3, "???"), (code4, "?Z?Y")) + (((code4, "????"),) if deep else ()):
            c.scenario("Pauli circuit of a %s on %d qubits" % (form, len(pat)), stabilizer, words, pat, form)
    for f in FAMILIES(deep):
        if len(f[0]) * 2 - len(f) <= (11 if deep else 6):
            c.scenario("logical circuits, generators " + " ".join(f), logical, f)
    for w in (code2, code3, code4):
        c.scenario("register sizes for " + " ".join(w), sizes, w)
