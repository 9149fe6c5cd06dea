"""Scenario pieces for the stabilizer code properties."""
from .common import *
from sa import loops as LOOPS

CODE = "PyQCodes.codes.StabilizerCode"
LETTERS = "IXYZ"


def cls(s):
    return get(s, CODE)


def bits(s, name, *dims, dt="f", tag=True):
    """An array of unknown zeros and ones."""
    return s.arr(name, *dims, dt=dt, flags=("ind", "real", "nn"), tag=tag)


def entry(s, v, *idx):
    t = s.ten(v)
    for i in idx:
        t = T.index_axis(t, 0, P(i))
    return t


def truth(s, src, **env):
    """Indicator of a Python condition."""
    return s.ten(s.py("1 if (%s) else 0" % src, **env))


def letter_ind(t, ch, lo, nn):
    """Indicator, per qubit, that the bits t (last axis x then z) name the letter ch."""
    ax = t.ndim - 1
    x, z = T.slice_axis(t, ax, 0, nn), T.slice_axis(t, ax, nn, P(nn) * 2)
    nx, nz = T.lnot(x), T.lnot(z)
    a_, b_ = {"I": (nx, nz), "X": (x, nz), "Y": (x, z), "Z": (nx, z)}[ch]
    return T.mul(a_, b_)


def letters(s, o, ch):
    """Indicator, per position, that the string o has the letter ch."""
    return s.ten(s.py("np.array([1 if q == '%s' else 0 for q in o])" % ch, o=o))


def build_string(s, v, row, nn):
    """The string of letters named by row `row` of the bits v, built without the library."""
    return s.py("""
n = nn
s = ""
for i in range(n):
    if v[row][i] == 1 and v[row][n + i] == 1:
        s += "Y"
    elif v[row][i] == 1:
        s += "X"
    elif v[row][n + i] == 1:
        s += "Z"
    else:
        s += "I"
s
""", v=v, row=s.num(row), nn=s.num(P(nn)))


def one_pauli(x, z):
    """The matrix X^x Z^z of two indicator scalars."""
    ent = {"I": ((1, 0), (0, 1)), "X": ((0, 1), (1, 0)), "Z": ((1, 0), (0, -1)), "Y": ((0, -1), (1, 0))}
    nx, nz = T.lnot(x), T.lnot(z)
    pr = {"I": T.mul(nx, nz), "X": T.mul(x, nz), "Y": T.mul(x, z), "Z": T.mul(nx, z)}
    tot = T.zeros([P(2), P(2)])
    for ch in LETTERS:
        tot = T.add(tot, T.mul(pr[ch], T.stack_list([T.stack_list([T.const(q) for q in row]) for row in ent[ch]])))
    return tot


def pauli_mat(t, row, nn):
    """Kronecker product over the qubits, in order, of the Pauli matrices named by the bits t (or by a row of them)."""
    if row is not None:
        t = T.index_axis(t, 0, P(row))
    nn = P(nn)
    k = nn.as_int()
    if k is not None:
        out = None
        for j in range(k):
            q = one_pauli(T.index_axis(t, 0, P(j)), T.index_axis(t, 0, P(k + j)))
            out = q if out is None else T.kron(out, q)
        return out
    l = leg(nn - 1)
    M_ = one_pauli(T.index_axis(t, 0, P(l) + 1), T.index_axis(t, 0, nn + P(l) + 1))
    first = one_pauli(T.index_axis(t, 0, P(0)), T.index_axis(t, 0, nn))
    return LOOPS.kron_seq(M_, first, l, nn - 1, "R")


def dense(s, v):
    return s.ten(v)


def is_sparse(s, v):
    o = s.st.heap.get(v.a) if isinstance(v, Ref) else None
    return isinstance(o, HArr) and o.kind in ("sp", "coo", "csr")


# ------------------------------------------------------------------ case partition over unknown bits
def bits_of(pauli):
    """x bits then z bits of a concrete Pauli string; '?' leaves both bits open."""
    tab = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1), "?": (None, None)}
    return [tab[q][0] for q in pauli] + [tab[q][1] for q in pauli]


def generators(b, rows):
    """Array of the generators named by Pauli strings with open letters '?'."""
    w = 2 * len(rows[0])
    fixed = {}
    for i, r_ in enumerate(rows):
        for j, v in enumerate(bits_of(r_)):
            if v is not None:
                fixed[(i, j)] = v
    return b.array("v", len(rows), w, fixed)


def symplectic(t, i, j, nn):
    """Indicator that rows i and j of the bits t anticommute."""
    g, h = T.index_axis(t, 0, P(i)), T.index_axis(t, 0, P(j))
    sl = lambda q, lo: T.slice_axis(q, 0, nn * lo, nn * (lo + 1))
    return T.mod2(T.add(T.einsum("q,q->", sl(g, 0), sl(h, 1)), T.einsum("q,q->", sl(g, 1), sl(h, 0))))


def anticommuting(t, mm, nn):
    bad = T.const(0)
    for i in range(mm):
        for j in range(i):
            bad = T.lor(bad, symplectic(t, i, j, nn))
    return bad


def given_as(s, t, form, mm, nn):
    """The generators t in one of the input forms of the constructor."""
    arr = s.st.new(HArr(t, "nd", "f", "arg:generators"))
    if form == "array":
        return arr
    rows = [T.index_axis(t, 0, P(i)) for i in range(mm)]
    if form == "arrays":
        return s.lst([s.st.new(HArr(q, "nd", "f", "arg:generators")) for q in rows], "arg:generators")
    if form == "lists":
        return s.lst([s.lst([T.index_axis(q, 0, P(j)) for j in range(2 * nn)], "arg:generators") for q in rows], "arg:generators")
    if form == "strings":
        return s.lst([build_string(s, arr, i, nn) for i in range(mm)], "arg:generators")
    raise ValueError(form)


def splitting(chk, b):
    s = chk.session()
    s.I.decider, s.I.split = b.decider, True
    return s


def possible(t, facts=()):
    """True if the indicator holds for some value of its open bits, False if for none, None if not evaluable."""
    p = T.as_poly(t)
    if p is not None and p.const() is not None:
        return p.const() != (0, 0)
    r_ = rand.holds_somewhere(t, facts, samples=80)
    return None if r_ == "unknown" else r_ is not None


# ------------------------------------------------------------------ known binary matrices
def matrix(t):
    """Rows of integers of an array whose entries are all known, or None."""
    if t.ndim != 2 or any(d.as_int() is None for d in t.shape):
        return None
    out = []
    for i in range(t.shape[0].as_int()):
        row = []
        for j in range(t.shape[1].as_int()):
            p = T.as_poly(T.index_axis(T.index_axis(t, 0, P(i)), 0, P(j)))
            v = p.as_int() if p is not None else None
            if v is None:
                return None
            row.append(v)
        out.append(row)
    return out


def open_bits(b, t):
    return sorted(b.names[k] for k in T.atoms_of(t) if k in b.names)


def settled(b, *ts):
    """The arrays have no open bits left (splits the cube otherwise)."""
    from sa.paths import Split
    for t in ts:
        o = open_bits(b, t)
        if o:
            raise Split(o[0])
    return [matrix(t) for t in ts]


def gf2_rank(rows):
    rows = [int("".join(str(x % 2) for x in r_), 2) if r_ else 0 for r_ in rows]
    rk = 0
    while rows:
        p = rows.pop()
        if p:
            rk += 1
            low = p & -p
            rows = [q ^ p if q & low else q for q in rows]
    return rk


def same_space(A, B):
    return gf2_rank(A) == gf2_rank(B) == gf2_rank(A + B)


def sprod(x, y):
    h = len(x) // 2
    return (sum(x[i] * y[h + i] + x[h + i] * y[i] for i in range(h))) % 2


def permuted(rows, perm):
    h = len(perm)
    return [[r_[q] for q in perm] + [r_[h + q] for q in perm] for r_ in rows]


def qubit_order(A, B):
    """A qubit permutation taking the row space of A to that of B, the identity if possible, or None."""
    import itertools
    h = len(A[0]) // 2
    for perm in itertools.permutations(range(h)):
        if same_space(permuted(A, perm), B):
            return perm
    return None


def code_cubes(s0, rows, look, limit=900, form="array", kk=None):
    """Case partition of the construction of a code; look(s, o, b) -> outcome.  Yields the accepted cases."""
    from sa.paths import cubes
    chk, mm, nn = s0.chk, len(rows), len(rows[0])

    def run(b):
        t = generators(b, rows)
        s = splitting(chk, b)
        arg = given_as(s, t, form, mm, nn)
        s.arg = arg
        bad = anticommuting(t, mm, nn)
        b.decider(None, bad, None)
        if possible(bad) is not False:
            return s, None
        settled(b, t)
        g = matrix(t)
        if gf2_rank(g) < mm:
            return s, None
        s.mark = len(s.raises())
        try:
            o = s.call(cls(s), arg, s.num(nn), s.num(nn - mm if kk is None else kk))
            return s, (g, look(s, o, b))
        except AbsRaise as e:
            return s, (g, "raise %s" % (e,))
    ps = cubes(run, limit)
    if not ps.complete:
        chk.unk(s0.name, "more than %d cases" % limit)
    for p in ps:
        if p.out is not None:
            p.lab = "%s: %s" % (s0.name, " ".join(pauli_word(r_) for r_ in p.out[0]))
            yield p


def pauli_word(r_):
    h = len(r_) // 2
    return "".join("IZXY"[2 * r_[i] + r_[h + i]] for i in range(h))


def spread(rows, times=1):
    """The same family as several smaller ones: open letters replaced by each letter."""
    out = [rows]
    for _ in range(times):
        nxt = []
        for f in out:
            i = next((i for i, r_ in enumerate(f) if "?" in r_), None)
            if i is None or sum(r_.count("?") for r_ in f) < 2:
                nxt.append(f)
            else:
                nxt += [f[:i] + [f[i].replace("?", ch, 1)] + f[i + 1:] for ch in LETTERS]
        out = nxt
    return out
