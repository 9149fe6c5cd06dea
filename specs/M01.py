"""M01: every parameter vector decodes to a density matrix of the requested rank."""
from .common import *

RULE = ("abstract run of rho_from_vec on a vector of unknown real numbers, sizes and ranks unknown: the result has the term A A^dagger / tr(A A^dagger) "
        "with A of shape size by rank whose real and imaginary entries are distinct coordinates of the vector (or a Hermitian matrix for the standard basis)")
PM = "PyQCodes.chan.param."
d = sym("d")

OVER = """
A = np.reshape(v[0::2] + 1j * v[1::2], (d, r))
p = np.dot(A, np.conj(A).T)
p / np.trace(p)
"""
OVER_T = """
A = np.reshape(v[0::2] + 1j * v[1::2], (r, d)).T
p = np.dot(A, np.conj(A).T)
p / np.trace(p)
"""
CHOL = """
A = np.zeros((d, r), dtype=np.complex128)
w = v[r:]
A[np.tril_indices(d, k=-1, m=r)] = w[0::2] + 1j * w[1::2]
A[np.diag_indices(r)] = v[:r]
p = np.dot(A, np.conj(A).T)
p / np.trace(p)
"""


def vec(s, size):
    return s.arr("v", size, dt="f", flags=("real",))


def sizes(s, rank):
    """rank: 'sym', 'full' (r = d) or an int."""
    D = P(d)
    if rank == "sym":
        R = P(r)
        s.fact(D - R)
    elif rank == "full":
        R = D
    else:
        R = P(rank)
        s.fact(D - R)
    return D, R


def over(s, rank, how):
    D, R = sizes(s, rank)
    v = vec(s, R * D * 2)
    kw = {} if how == "none" else {"rank": s.num(R)}
    f = s.attr(get(s, PM + "OverParam"), "rho_from_vec")
    mark = len(s.raises())
    out = s.call(f, v, s.num(D), **kw)
    refs = [s.ten(s.py(t, v=v, d=s.num(D), r=s.num(R))) for t in (OVER, OVER_T)]
    s.chk.eq(s, s.name, out, refs)
    s.chk.no_raise(s, s.name, mark)


def nvars(D, R):
    return R * D * 2 - R * R


def chol(s, rank, how):
    D, R = sizes(s, rank)
    v = vec(s, nvars(D, R))
    kw = {} if how == "none" else {"rank": s.num(R)}
    f = s.attr(get(s, PM + "CholeskyParam"), "rho_from_vec")
    mark = len(s.raises())
    out = s.call(f, v, s.num(D), **kw)
    s.chk.eq(s, s.name, out, s.ten(s.py(CHOL, v=v, d=s.num(D), r=s.num(R))))
    s.chk.no_raise(s, s.name, mark)


def std(s, D):
    D = P(D)
    v = vec(s, D * D)
    f = s.attr(get(s, PM + "StandardBasis"), "rho_from_vec")
    mark = len(s.raises())
    out = s.ten(s.call(f, v, s.num(D)))
    s.chk.eq(s, s.name + ": Hermitian", out, T.conjugate(T.transpose(out, (1, 0))))
    s.chk.claim(s.name + ": shape", [str(T.axdim(x)) for x in out.axes] == [str(D)] * 2, "shape")
    s.chk.no_raise(s, s.name, mark)


def wrong(s, cls, off):
    D, R = sizes(s, "sym")
    nv = R * D * 2 if cls == "OverParam" else nvars(D, R)
    q = P(sym("q"))
    s.fact(q - 1)
    v = vec(s, nv + q)
    s.chk.rejects(s, s.name, lambda: s.call(s.attr(get(s, PM + cls), "rho_from_vec"), v, s.num(D), s.num(R)))


def run(c):
    for rank, how in (("sym", "given"), ("sym", "none"), ("full", "given"), (1, "given"), (1, "none")):
        c.scenario("overparam rank=%s %s" % (rank, how), over, rank, how)
    for rank, how in (("sym", "given"), ("full", "none"), ("full", "given"), (1, "given")):
        c.scenario("cholesky rank=%s %s" % (rank, how), chol, rank, how)
    for D in (1, 2, 3) + ((4, 5) if c.deep else ()):
        c.scenario("standard basis size=%s" % D, std, D)
    for cls in ("OverParam", "CholeskyParam"):
        c.scenario("%s vector of the wrong length" % cls, wrong, cls, 1)
