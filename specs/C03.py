"""C03: the complementary channel is the entropy-exchange matrix."""
from .common import *

RULE = ("abstract run of entropy_exchange on symbolic Kraus operators: the result is a one-element list with term tr(K_i rho K_j^dagger), "
        "the adjoint has term sum_ij Y_ij K_i^dagger K_j, and the pairing <Y, W(rho)> = <W*(Y), rho> holds between the two computed terms")


def one(s, rep, level, k, form, dt):
    c = Chan(s, rep, level, form=form)
    if level == "kraus":
        c.update(k)
    Kn = c.power(k)
    Din, Nk = power_dim(c.di, k), power_dim(c.nk, k)
    rho = state(s, "rho", Din, Din, dt=dt)
    Y = state(s, "Y", Nk, Nk, dt=dt)
    out = items(s, c.exchange(rho, k))
    nm = s.name
    s.chk.claim(nm + ": list of one block", len(out) == 1, "%d blocks" % len(out))
    s.chk.eq(s, nm + ": W", out[0], exch_ref(Kn, s.ten(rho)))
    adj = c.exchange(Y, k, True)
    s.chk.eq(s, nm + ": adjoint", adj, exch_adj_ref(Kn, s.ten(Y)))
    # duality up to the documented transposition: sum_ij Y_ij W_ji = tr(W*(Y) rho)
    lhs = T.einsum("ij,ji->", s.ten(Y), s.ten(out[0]))
    rhs = T.einsum("ij,ji->", s.ten(adj), s.ten(rho))
    s.chk.eq(s, nm + ": dual pair", lhs, rhs)
    s.chk.no_raise(s, nm, c.mark)


def run(c):
    for rep in ("dense", "sparse", "coo"):
        for level in ("kraus", "channel"):
            for k in (P(1), P(2), P(n) + 2):
                for form in ("array", "list"):
                    if rep == "coo" and form == "list":
                        continue
                    c.scenario("%s %s n=%s %s" % (rep, level, k, form), one, rep, level, k, form, "c")
