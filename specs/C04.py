"""C04: orthogonal Kraus sets split the complementary channel into diagonal blocks."""
from .common import *

RULE = ("abstract run of entropy_exchange with declared groups of symbolic sizes: block g must be the rows and columns of group g of the "
        "full matrix, in order, the groups covering 0..K^n contiguously")


def one(s, level, g, k):
    sizes = [P(sym("s%d" % i)) for i in range(g - 1)]
    nk = P(K)
    sizes.append(nk - sum(sizes, P(0)))
    starts, tot = [], P(0)
    for q in sizes[:-1]:
        tot = tot + q
        starts.append(tot)
    orth = s.lst([s.num(q) for q in starts], "arg:orthogonal")
    s.fact(*[q - 1 for q in sizes])
    c = Chan(s, "dense", level, nk=nk, orth=orth)
    if level == "kraus":
        c.update(k)
    Kn = c.power(k)
    Din = power_dim(c.di, k)
    rho = state(s, "rho", Din, Din)
    with T.with_facts(s.st.facts.poly()):
        out = items(s, c.exchange(rho, k))
        full = exch_ref(Kn, s.ten(rho))
        nm = s.name
        s.chk.claim(nm + ": number of blocks", len(out) == g, "%d blocks instead of %d" % (len(out), g))
        scale = (P(1) if P(k) == P(1) else power_dim(nk, P(k) - 1))
        lo = P(0)
        for i, o in enumerate(out[:g]):
            size = sizes[i] * scale
            ref = T.slice_axis(T.slice_axis(full, 0, lo, lo + size), 1, lo, lo + size)
            s.chk.eq(s, nm + ": block %d" % i, o, ref)
            lo = lo + size
    s.chk.no_raise(s, nm, c.mark)


def run(c):
    for level in ("kraus", "channel"):
        for g in range(1, 9 if c.deep else 5):
            for k in (P(1), P(2), P(n) + 2):
                c.scenario("%s %d groups n=%s" % (level, g, k), one, level, g, k)
