"""C02: every use count gives the n-fold tensor power, whatever was asked before."""
from .common import *

RULE = ("abstract run of histories of use counts (symbolic and concrete) on one object; afterwards every map, stored array and reported "
        "size must equal the term of the tensor power of the constructor's operators")

# (final n, histories before it); n, m, r range over the naturals, so that every order of two or three use counts occurs
HIST = [
    (P(1), [[], [P(m) + 2], [P(m) + 2, P(m) + 3 + r], [P(m) + r + 3, P(m) + 2], [P(1)]]),
    (P(2), [[], [P(2)], [P(m) + 3], [P(m) + 3, P(m) + r + 4], [P(m) + 2, P(1)], [P(3), P(2), P(1)]]),
    (P(n) + 2, [[], [P(n) + 2], [P(n) + m + 3], [P(n) + 3, P(1)], [P(n) + m + 3, P(n) + 2], [P(n) + m + 4 + r, P(n) + m + 3],
                [P(n) + m + 3, P(n) + m + 4 + r]]),
    (P(n) + m + 3, [[P(n) + 2], [P(2)], [P(n) + 2, P(1)], [P(n) + m + r + 4, P(n) + 2], [P(n) + 2, P(n) + m + r + 4]]),
]


def krobj(s, c):
    return c.o if c.level == "kraus" else s.attr(c.o, "krauss")


def hist(s, rep, level, seq, k, what):
    c = Chan(s, rep, level)
    for q in seq:
        if level == "kraus":
            c.update(q)
        else:
            rho = state(s, "rho%s" % q, power_dim(c.di, q), power_dim(c.di, q))
            c.exchange(rho, q) if what == "exch" else c.apply(rho, q)
    if level == "kraus":
        c.update(k)
    Kn = c.power(k)
    Din, Dout = power_dim(c.di, k), power_dim(c.do, k)
    rho = state(s, "rho", Din, Din)
    Y = state(s, "Y", Dout, Dout)
    W = state(s, "W", power_dim(c.nk, k), power_dim(c.nk, k))
    nm = s.name
    if what == "chan":
        s.chk.eq(s, nm + ": channel", c.apply(rho, k), chan_ref(Kn, s.ten(rho)))
    elif what == "adj":
        s.chk.eq(s, nm + ": adjoint", c.apply(Y, k, True), adj_ref(Kn, s.ten(Y)))
    elif what == "exch":
        out = items(s, c.exchange(rho, k))
        s.chk.claim(nm + ": one block", len(out) == 1, "%d blocks" % len(out))
        s.chk.eq(s, nm + ": exchange", out[0], exch_ref(Kn, s.ten(rho)))
        s.chk.eq(s, nm + ": exchange adjoint", c.exchange(W, k, True), exch_adj_ref(Kn, s.ten(W)))
    o = krobj(s, c)
    s.chk.eq(s, nm + ": stored operators", s.attr(o, "nth_kraus_ops"), Kn)
    s.chk.eq(s, nm + ": single-use operators", s.attr(o, "kraus_ops"), c.K)
    if level == "channel":
        s.chk.eq(s, nm + ": nth_kraus_operators", s.attr(c.o, "nth_kraus_operators"), Kn)
        s.chk.eq(s, nm + ": kraus", s.attr(c.o, "kraus"), c.K)
        s.chk.eqpoly(s, nm + ": input_dimension", s.attr(c.o, "input_dimension"), Din)
        s.chk.eqpoly(s, nm + ": output_dimension", s.attr(c.o, "output_dimension"), Dout)
        s.chk.eqpoly(s, nm + ": numb_krauss", s.attr(c.o, "numb_krauss"), c.nk)
    else:
        s.chk.eqpoly(s, nm + ": input_dim", s.attr(o, "input_dim"), c.di)
        s.chk.eqpoly(s, nm + ": output_dim", s.attr(o, "output_dim"), c.do)
    s.chk.no_raise(s, nm, c.mark)


def run(c):
    for rep in ("dense", "sparse"):
        for level in ("kraus", "channel"):
            for k, seqs in HIST:
                for seq in seqs:
                    for what in ("chan", "adj", "exch"):
                        name = "%s %s %s then n=%s %s" % (rep, level, [str(q) for q in seq], k, what)
                        c.scenario(name, hist, rep, level, seq, k, what)
