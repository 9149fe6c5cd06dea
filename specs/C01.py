"""C01: applying a channel gives the operator sum of its Kraus operators."""
from .common import *

RULE = ("abstract run of constructor, use-count update and channel()/adjoint on symbolic operators of size do^b x di^a; the returned "
        "term must equal sum_i K_i rho K_i^dagger (resp. K_i^dagger Y K_i) for dense/sparse, low-level/channel object, n in {1, 2, n+2}")


def one(s, rep, level, k, adjoint, stack=False, form="array"):
    c = Chan(s, rep, level, form=form)
    c.update(k)
    Kn = c.power(k)
    din, dout = power_dim(c.do if adjoint else c.di, k), power_dim(c.di if adjoint else c.do, k)
    name = "%s %s n=%s%s%s" % (rep, level, k, " adjoint" if adjoint else "", " stack" if stack else "")
    dims = ([L] if stack else []) + [din, din]
    rho = state(s, "rho", *dims)
    R = s.ten(rho)
    out = c.apply(rho, k, adjoint)
    if stack:
        ref = T.einsum("ikj,zkl,ilm->zjm", T.conjugate(Kn), R, Kn) if adjoint else T.einsum("ijk,zkl,iml->zjm", Kn, R, T.conjugate(Kn))
    else:
        ref = adj_ref(Kn, R) if adjoint else chan_ref(Kn, R)
    s.chk.eq(s, name, out, ref)
    s.chk.no_raise(s, name, c.mark)


def run(c):
    ks = [P(1), P(2), P(n) + 2]
    for rep in ("dense", "sparse"):
        for level in ("kraus", "channel"):
            for k in ks:
                for adj in (False, True):
                    c.scenario("%s %s n=%s adj=%s" % (rep, level, k, adj), one, rep, level, k, adj)
            c.scenario("%s %s list" % (rep, level), one, rep, level, P(1), False, False, "list")
    for level in ("kraus", "channel"):
        for k in ks:
            for adj in (False, True):
                c.scenario("dense %s n=%s adj=%s stack" % (level, k, adj), one, "dense", level, k, adj, True)
