"""Shared scenario pieces."""
from sa.spec import *
from sa.check import Check, Anchor
from sa import ten as T, rand, models as M, seqs as SQ
from sa.ten import Ten
from sa.poly import P, sym
from sa.vals import *

KR = "PyQCodes.chan._kraus."
CH = "PyQCodes.chan.channel."
TRUST = [
    "the abstract models of the numpy, scipy, sparse, qutip, picos and projectq calls (sa/m*.py) state what those calls compute",
    "real and complex arithmetic is exact; a comparison of a magnitude with a small tolerance is read as a comparison with zero",
    "random interpretation of two terms whose canonical keys differ decides their (in)equality with overwhelming probability",
]

K, di, do = sym("K"), sym("di"), sym("do")
a, b = sym("a"), sym("b")
n, m, r = sym("n"), sym("m"), sym("r")
L = sym("L")


def get(s, name):
    try:
        return s.get(name)
    except KeyError:
        raise Anchor("%s is not defined" % name)


class Chan:
    """A generic channel object under analysis: K operators of size do^b x di^a."""

    def __init__(self, s, rep="dense", level="kraus", qubits=(a, b), dims=(di, do), nk=K, name="K", form="array", orth=None, tp=True):
        self.s, self.rep, self.level = s, rep, level
        self.nk = P(nk)
        self.di, self.do = P(dims[0]).pow(P(qubits[0])), P(dims[1]).pow(P(qubits[1]))
        atom = T.atom_in(name, [self.nk, self.do, self.di], ("tp",))
        self.K = T.entry(atom)
        if form == "array":
            ops = s.st.new(HArr(self.K, "coo" if rep == "coo" else "nd", "c", "arg:" + name))
        else:
            l = leg(self.nk)
            row = T.index_axis(self.K, 0, P(l))
            ops = s.st.new(HList((Loop(l, (It(s.st.new(HArr(row, "nd", "c", "arg:" + name))),)),), "list", "arg:" + name))
        self.arg = ops
        self.qarg = s.lst([s.num(qubits[0]), s.num(qubits[1])], "arg:numb_qubits")
        args = [ops, self.qarg, s.num(dims[0]), s.num(dims[1])]
        kw = {}
        if level == "kraus":
            if orth is not None:
                kw["orthogonal_kraus"] = orth
            self.o = s.call(get(s, KR + ("DenseKraus" if rep == "dense" else "SparseKraus")), *args, **kw)
        else:
            if orth is not None:
                kw["orthogonal_krauss"] = orth
            if rep != "dense":
                kw["sparse"] = TRUE
            self.o = s.call(get(s, CH + "AnalyticQChan"), *args, **kw)
        self.mark = len(s.raises())

    def power(self, k):
        """Operators of the k-fold tensor power."""
        k = P(k)
        at = self.K.terms[0].fs[0].atom
        if k.as_int() is not None:
            t = self.K
            for _ in range(k.as_int() - 1):
                t = T.kron(self.K, t)
            return t
        return T.entry(T.atom_tpow(at, k))

    def update(self, k):
        if self.level == "kraus":
            self.s.meth(self.o, "update_kraus_operators", self.s.num(k))

    def apply(self, rho, k, adjoint=False):
        s = self.s
        if self.level == "kraus":
            return s.meth(self.o, "channel", rho, boolv(adjoint))
        return s.meth(self.o, "channel", rho, s.num(k), boolv(adjoint))

    def exchange(self, rho, k, adjoint=False):
        return self.s.meth(self.o, "entropy_exchange", rho, self.s.num(k), boolv(adjoint))


def dag(t):
    return T.conjugate(T.transpose(t, (0, 2, 1)))


def chan_ref(Kn, rho):
    return T.einsum("ijk,kl,iml->jm", Kn, rho, T.conjugate(Kn))


def adj_ref(Kn, Y):
    return T.einsum("ikj,kl,ilm->jm", T.conjugate(Kn), Y, Kn)


def exch_ref(Kn, rho):
    """W_ij = tr(K_i rho K_j^dagger)"""
    return T.einsum("iab,bc,jac->ij", Kn, rho, T.conjugate(Kn))


def exch_adj_ref(Kn, Y):
    """sum_ij Y_ij K_i^dagger K_j"""
    return T.einsum("ij,iab,jac->bc", Y, T.conjugate(Kn), Kn)


def state(s, name, *dims, dt="c"):
    return s.arr(name, *dims, dt=dt)


def power_dim(d, k):
    q = P(d).pow(P(k))
    if q is None:
        raise Undecided("size power")
    return q


def items(s, v):
    """Elements of a concrete-length list value."""
    vs = SQ.concrete(s.I, s.st, SQ.segs_of(s.I, s.st, v))
    if vs is None:
        raise Undecided("list of symbolic length")
    return vs


class stubbed:
    """Methods of a class replaced by opaque functions fn(interp, st, args, kwargs) while a scenario runs."""

    def __init__(self, s, cls_, **fns):
        self.cls, self.fns = get(s, cls_), fns
        for nm in fns:
            if self.cls.lookup(nm) is None:
                raise Anchor("%s.%s is not defined" % (cls_, nm))

    def __enter__(self):
        self.old = dict(self.cls.members)
        for nm, f in self.fns.items():
            self.cls.members[nm] = Member("method", PyFn(nm, f))

    def __exit__(self, *x):
        self.cls.members.clear()
        self.cls.members.update(self.old)


def truthy(v):
    return v is True or isinstance(v, Ten) and cbool(v) is True


def encoder_stub(E, of):
    """encode_krauss_operators as an unknown isometry E (its meaning is S04); the code it is asked of is appended to `of`."""
    def f(I, st, a, k):
        try:
            of.append(I.ten(st, I.getattr(a[0], "stab_bin_rep", st, None, None)))
        except Undecided:
            of.append(None)
        sp = k.get("sparse", a[1] if len(a) > 1 else False)
        return st.new(HArr(E, "sp" if truthy(sp) else "nd", "c"))
    return f
