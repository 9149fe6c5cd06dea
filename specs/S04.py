"""S04: the encoder isometry spans the joint plus-one eigenspace of all stabilizers."""
from .common import *
from .codes import *

RULE = ("abstract run of encode_krauss_operators with every selection of eigenvectors read as an unknown isometry onto that eigenspace: each selection "
        "must keep eigenvalue one of a generator compressed to the space kept so far, every generator must be used, and the result must be the "
        "product of the selections")


class Selections:
    """Selections of eigenvectors made by the code, as isometries E1, E2, ..."""

    def __init__(self):
        self.ev = []

    def __call__(self, H, mask):
        e = T.scalar_atom("e", ("real",))
        H = T.freshen(T.rename(H, {}))
        q = T.freshen(mask)
        arg = None
        for at in T.atoms_of(q).values():
            if at.kind == "app" and at.fname == "eigval":
                arg = at.args[0]
        if arg is None or arg.key() != H.key():
            return None
        body = T.mk((), q.terms)
        pred = T.subst_atom(body, lambda f: e if f.atom.kind == "app" and f.atom.fname == "eigval" else None)

        def at(v):
            r_ = T.subst_atom(pred, lambda f: T.const(v) if f.atom.kind == "in" and f.atom.key == e.terms[0].fs[0].atom.key else None)
            return cbool(r_)
        j = len(self.ev) + 1
        E = T.inp("E%d" % j, H.shape[0], P(sym("kept%d" % j)))
        self.ev.append((H, (at(1), at(-1), at(0)), E))
        return E


def encoder(s, o, sparse):
    sel = Selections()
    M.EIG_HOOK.append(sel)
    try:
        w = s.meth(o, "encode_krauss_operators", *([] if sparse is None else [boolv(sparse)]))
        return s.ten(w), sel.ev, is_sparse(s, w)
    finally:
        M.EIG_HOOK.pop()


def judge(s, lab, g, got, ev, sp, sparse):
    chk = s.chk
    nn = len(g[0]) // 2
    if s.I.notes:
        chk.unk(lab, "value lost: %s" % s.I.notes[0])
        return
    if not ev:
        chk.unk(lab, "no selection of eigenvectors recognised")
        return
    G = [T.stack_list([T.const(x) for x in row]) for row in g]
    mats = [pauli_mat(q, None, nn) for q in G]
    left, prod = set(range(len(g))), None
    for i, (H, (one, minus, zero), E) in enumerate(ev):
        l2 = "%s: selection %d" % (lab, i + 1)
        if one is None or minus is None:
            chk.unk(l2, "eigenvalue test not decided")
            return
        if one is not True or minus is not False:
            chk.bad(l2, "keeps eigenvalue one: %s, minus one: %s" % (one, minus))
            return
        hit = None
        for j in sorted(range(len(g)), key=lambda j: j not in left):
            ref = mats[j] if prod is None else T.matmul(T.conjugate(T.transpose(prod)), T.matmul(mats[j], prod))
            if H.key() == ref.key() or rand.compare(H, ref, s.st.facts.ge) == "same":
                hit = j
                break
        if hit is None:
            chk.bad(l2, "the matrix diagonalised is no generator on the space kept so far: %s" % H.key()[:300])
            return
        left.discard(hit)
        prod = E if prod is None else T.matmul(prod, E)
    if left:
        chk.bad(lab, "generators %s are not used" % ", ".join(pauli_word(g[j]) for j in sorted(left)))
        return
    s.chk.eq(s, lab + ": encoder", got, prod)
    if sparse is not None:
        chk.claim(lab + (": sparse" if sparse else ": dense"), sp == sparse, "%s form" % ("sparse" if sp else "dense"))


def hermitian(r_):
    h = len(r_) // 2
    return sum(r_[i] * r_[h + i] for i in range(h)) % 2 == 0


def family(s0, rows):
    chk = s0.chk
    done = 0

    def look(s, o, b):
        return [(sp, encoder(s, o, sp)) for sp in (None, False, True)]
    for p in code_cubes(s0, rows, look):
        g, out = p.out
        if not all(hermitian(q) for q in g):
            continue
        if isinstance(out, str):
            chk.bad(p.lab, "no encoder: %s" % out)
            continue
        done += 1
        for sparse, (got, ev, sp) in out:
            judge(p.ses, "%s, %s" % (p.lab, {None: "default", False: "dense", True: "sparse"}[sparse]), g, got, ev, sp, sparse)
    chk.ok("%s: %d codes" % (s0.name, done))


def run(c):
    fams = [["??"], ["XX", "??"], ["Z?Z", "?ZI"], ["XX?Z", "Z?ZI"], ["ZZII", "IZZI", "I?ZZ"], ["XZZX", "?XXZ"], ["ZZI?", "YIY?"], ["XZZXI", "IXZZX", "XIXZZ", "ZXI??"]]
    if c.deep:
        fams += [["???"], ["???", "ZZ?"], ["X??X", "Z?Z?", "?ZZ?"]]
    for f in [g for f in fams for g in spread(f, 1 + c.deep)]:
        c.scenario("generators " + " ".join(f), family, f)
