"""S08: error-correcting operators and undetectable errors follow the commutation rule."""
from .common import *
from .codes import *
from .S05 import code
from sa.paths import cubes
import itertools

RULE = ("abstract correction of lists of unknown Pauli errors (all letters, several scalar factors, dense and sparse) against the first anticommuting "
        "stabilizer times the error, and abstract enumeration of the normalizer for codes from unknown generators against the "
        "symplectic definition, partitioned into all cases of the open letters")

PM = {"I": ((1, 0), (0, 1)), "X": ((0, 1), (1, 0)), "Z": ((1, 0), (0, -1)), "Y": ((0, -1), (1, 0))}


def pmat(w, c_=Fr(1)):
    """Matrix (rows of numbers) of a Pauli word, Y read as XZ."""
    m_ = [[c_]]
    for ch in w:
        q = PM[ch]
        m_ = [[x * y for x in r1 for y in r2] for r1 in m_ for r2 in q]
    return m_


def ten_of(m_):
    return T.stack_list([T.stack_list([T.const(x) for x in r_]) for r_ in m_])


def mprod(a_, b_):
    return [[sum(x * b_[k_][j] for k_, x in enumerate(r_) if x) for j in range(len(b_[0]))] for r_ in a_]


def anti(u, v):
    return sum(1 for x, y in zip(u, v) if x != y and "I" not in (x, y)) % 2 == 1


def correcting(s0, words, pat, rest, factor, form, sparse):
    """Errors: one with open letters, then some given words."""
    chk, nn = s0.chk, len(words[0])

    def run(b):
        t = generators(b, [pat])
        s = splitting(chk, b)
        settled(b, t)
        ws = [pauli_word(matrix(t)[0])] + list(rest)
        cs = [factor] + [Fr(1, i + 2) for i in range(len(rest))]
        es = [pmat(w, c_) for w, c_ in zip(ws, cs)]
        o = code(s, words)
        if form == "stack":
            arg = s.st.new(HArr(T.stack_list([ten_of(e) for e in es]), "nd", "f", "arg:errors"))
        else:
            vs = [s.st.new(HArr(ten_of(e), "nd", "f", "arg:error")) for e in es]
            if sparse:
                vs = [s.py("import scipy.sparse\nscipy.sparse.csr_matrix(v)", v=v) for v in vs]
            arg = s.lst(vs)
        try:
            out = s.meth(o, "kraus_operators_correcting_errors", arg, sparse)
            n_ = ival(s.py("len(v)", v=out))
            return s, (ws, cs, n_, [s.ten(s.py("v[i]", v=out, i=s.num(i))) for i in range(n_ or 0)])
        except AbsRaise as e:
            return s, (ws, cs, "raise %s" % (e,), None)
    ps = cubes(run, 600)
    if not ps.complete:
        chk.unk(s0.name, "more cases than the limit")
    done = 0
    for p in ps:
        ws, cs, n_, got = p.out
        lab = "%s: errors %s" % (s0.name, " ".join(ws))
        if p.ses.I.notes:
            chk.unk(lab, p.ses.I.notes[0])
            continue
        if got is None:
            chk.bad(lab, n_)
            continue
        if n_ != len(ws):
            chk.bad(lab, "%s operators for %d errors" % (n_, len(ws)))
            continue
        for i, (w, c_) in enumerate(zip(ws, cs)):
            e = pmat(w, c_)
            st_ = next((g for g in words if anti(g, w)), None)
            if st_ is not None:
                e = mprod(pmat(st_), e)
            chk.eq(p.ses, "%s: operator %d" % (lab, i), got[i], ten_of(e))
        done += 1
    chk.ok("%s: %d cases" % (s0.name, done))


def normal(s0, rows):
    chk, mm, nn = s0.chk, len(rows), len(rows[0])
    done = 0

    def look(s, o, b):
        v = s.meth(o, "normalizer")
        n_ = ival(s.py("len(v)", v=v))
        els = settled(b, s.ten(v))[0] if n_ else []
        u = s.meth(o, "undetectable_errors")
        m_ = ival(s.py("len(v)", v=u))
        return n_, els, m_, [s.py("v[i]", v=u, i=s.num(i)) for i in range(m_ or 0)]
    for p in code_cubes(s0, rows, look):
        g, out = p.out
        lab = p.lab
        if isinstance(out, str):
            chk.bad(lab, "the listing fails: %s" % out)
            continue
        if p.ses.I.notes or out[0] is None or out[2] is None or out[1] is None:
            chk.unk(lab, "value lost: %s" % (p.ses.I.notes[:1],))
            continue
        els = [tuple(x) for x in out[1]]
        group = set()
        for cf in itertools.product((0, 1), repeat=mm):
            group.add(tuple(sum(c_ * g[i][q] for i, c_ in enumerate(cf)) % 2 for q in range(2 * nn)))
        want = {v for v in itertools.product((0, 1), repeat=2 * nn) if not any(sprod(v, q) for q in g)} - group
        if sorted(els) != sorted(want):
            extra, less = [pauli_word(x) for x in els if x not in want], [pauli_word(x) for x in want if x not in els]
            chk.bad(lab + ": normalizer", "extra %s, missing %s, %d listed for %d" % (extra[:4], less[:4], len(els), len(want)))
        strs = out[3]
        if any(not isinstance(x, str) for x in strs):
            chk.unk(lab + ": undetectable errors", "value lost")
        elif sorted(strs) != sorted(pauli_word(v) for v in want):
            chk.bad(lab + ": undetectable errors", "%s instead of the normalizer elements" % strs[:6])
        done += 1
    chk.ok("%s: %d codes" % (s0.name, done))


def run(c):
    deep = c.deep
    for words, pat, rest in ((["XZ"], "??", ()), (["XZ"], "??", ("ZI", "XX")), (["XX", "ZZ"], "??", ("IZ",)), (["ZY", "YZ"], "??", ("XI", "II")),
                             (["ZZI", "IZZ"], "?I?", ("XII", "ZIZ"))) + (((["ZZI", "IZZ"], "???", ()), (["XYZ", "ZZI"], "???", ("IXI",))) if deep else ()):
        for form, sparse in (("list", False), ("list", True), ("stack", False)):
            for f in (Fr(1), Fr(1, 3)) if not rest else (Fr(1),):
                c.scenario("correcting %s, errors %s, %s%s%s" % (" ".join(words), " ".join((pat,) + rest), form, ", sparse" if sparse else "",
                                                                 ", scaled" if f != 1 else ""), correcting, words, pat, rest, f, form, sparse)
    fams = [["?"], ["??"], ["??", "?Y"], ["ZI?", "?XX"], ["X?I", "?Z?"], ["Z?Z"]] + ([["???"], ["???", "?I?"], ["XXXX", "ZZZ?"], ["?ZX?"]] if deep else [])
    for f in fams:
        for g in spread(f, 1 if len(f[0]) < 3 else 2):
            c.scenario("normalizer, generators " + " ".join(g), normal, g)
