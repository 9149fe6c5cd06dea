"""S09: logical operators commute with every generator and pair up."""
from .common import *
from .codes import *
from .S03 import FAMILIES

RULE = ("abstract construction of codes from unknown generators, partitioned into all cases of the open letters: symplectic products of the logical "
        "operators with the caller's generators and with each other")


def family(s0, rows):
    chk, mm, nn = s0.chk, len(rows), len(rows[0])
    kk = nn - mm
    done = 0

    def look(s, o, b):
        return settled(b, *[s.ten(s.attr(o, q)) for q in ("normal_form", "logical_x", "logical_z")])
    for p in code_cubes(s0, rows, look):
        g, out = p.out
        if isinstance(out, str):
            chk.bad(p.lab, "the code is not constructed: %s" % out)
            continue
        N, X, Z = out
        if p.ses.I.notes or any(v is None for v in out):
            chk.unk(p.lab, "value lost: %s" % (p.ses.I.notes[:1] or out))
            continue
        done += 1
        order = qubit_order(g, N)
        lab = p.lab
        if order is not None and list(order) != list(range(nn)):
            lab += " (qubits reordered by the elimination)"
        if len(X) != kk or len(Z) != kk:
            chk.bad(p.lab, "%d logical X and %d logical Z for k=%d" % (len(X), len(Z), kk))
            continue
        for nm, ops in (("X", X), ("Z", Z)):
            for i, l in enumerate(ops):
                w = next((pauli_word(q) for q in N if sprod(l, q)), None)
                if w:
                    chk.bad("%s: logical %s%d and the normal form" % (p.lab, nm, i), "%s does not commute with %s" % (pauli_word(l), w))
                w = next((pauli_word(q) for q in g if sprod(l, q)), None)
                if w:
                    chk.bad("%s: logical %s%d" % (lab, nm, i), "%s does not commute with the generator %s" % (pauli_word(l), w))
        for i in range(kk):
            for j in range(kk):
                if sprod(X[i], Z[j]) != int(i == j):
                    chk.bad("%s: X%d Z%d" % (p.lab, i, j), "%s and %s %s" % (pauli_word(X[i]), pauli_word(Z[j]), "commute" if i == j else "anticommute"))
                if sprod(X[i], X[j]) or sprod(Z[i], Z[j]):
                    chk.bad("%s: pairs %d %d" % (p.lab, i, j), "logical operators of the same kind do not commute")
    chk.ok("%s: %d codes" % (s0.name, done))


def run(c):
    for f in FAMILIES(c.deep):
        c.scenario("generators " + " ".join(f), family, f)
