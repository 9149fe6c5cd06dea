"""S02: only commuting stabilizer groups of the right size become codes."""
from .common import *
from .codes import *
from sa.paths import cubes

RULE = ("guards of the exceptions of StabilizerCode(...) over generator sets of unknown bits: every set with a pair of odd symplectic product, and "
        "every set of a wrong size, must be rejected; symbolic numbers of qubits and generators, and complete case partitions of small sets")


def product(s, nn):
    p, q = bits(s, "p", P(2) * P(nn)), bits(s, "q", P(2) * P(nn))
    o = s.meth(cls(s), "inner_prod", p, q)
    t = T.stack_list([s.ten(p), s.ten(q)])
    s.chk.eq(s, s.name, T.mod2(s.ten(o)), symplectic(t, 0, 1, P(nn)))
    s.chk.eq(s, s.name + ": is zero or one", s.ten(o), symplectic(t, 0, 1, P(nn)))


def gate_sym(s, nn, mm):
    """Symbolic numbers of qubits and generators."""
    v = bits(s, "v", mm, P(2) * P(nn))
    t = s.ten(v)
    i, j = leg(P(mm)), leg(P(mm))
    g, h = T.index_axis(t, 0, P(i)), T.index_axis(t, 0, P(j))
    sl = lambda q, lo: T.slice_axis(q, 0, P(nn) * lo, P(nn) * (lo + 1))
    odd = T.mod2(T.add(T.einsum("q,q->", sl(g, 0), sl(h, 1)), T.einsum("q,q->", sl(g, 1), sl(h, 0))))
    bad = T.exists(T.mul(T.sub(T.const(1), T.delta(P(i) - P(j))), odd), [i, j])
    s.chk.rejects(s, s.name, lambda: s.call(cls(s), v, s.num(nn), s.num(P(nn) - P(mm))), bad)


def gate_cubes(s0, rows, form, ops=False):
    """Complete case partition over the open letters."""
    chk, mm, nn = s0.chk, len(rows), len(rows[0])

    def run(b):
        t = generators(b, rows)
        s = splitting(chk, b)
        arg = given_as(s, t, form, mm, nn)
        bad = anticommuting(t, mm, nn)
        try:
            kw = {}
            if ops:
                kw["logical_ops"] = s.lst([bits(s, "lx", nn - mm, 2 * nn), bits(s, "lz", nn - mm, 2 * nn)])
            s.call(cls(s), arg, s.num(nn), s.num(nn - mm), **kw)
        except AbsRaise as e:
            return s, (True, bad, str(e))
        return s, (False, bad, [r_ for r_ in s.raises() if not r_.exc.startswith("(")])
    ps = cubes(run, 700)
    n_bad = 0
    for p in ps:
        raised, bad, info = p.out
        if raised:
            n_bad += 1
            continue
        # on this cube the constructor returns, except where a guarded exception fires
        acc = bad
        for r_ in info:
            acc = T.land(acc, T.lnot(r_.guard))
        w = possible(acc)
        if w is False:
            continue
        lab = "%s: %s" % (s0.name, "".join("%s=%d " % kv for kv in sorted(p.asg.items())))
        if w is None or p.ses.I.notes:
            chk.unk(lab, "acceptance not decided: %s" % (p.ses.I.notes[:1] or acc.key()[:100]))
        else:
            chk.bad(lab, "generators that do not commute are accepted")
        return
    if not ps.complete:
        chk.unk(s0.name, "more than %d cases" % len(ps))
    else:
        chk.ok(s0.name, "%d cases, %d rejected" % (len(ps), n_bad))


def wrong_size(s, rows, cols, nn, kk, form, given=None, ops=False):
    """Numbers of rows and columns that do not fit n and k."""
    if form == "array":
        v = bits(s, "v", rows, cols)
    else:
        t = bits(s, "v", rows, cols)
        v = given_as(s, s.ten(t), form, P(rows).as_int(), P(cols).as_int() // 2)
    kw = {}
    if ops:
        kw["logical_ops"] = s.lst([bits(s, "lx", P(kk), P(nn) * 2), bits(s, "lz", P(kk), P(nn) * 2)])
    s.chk.rejects(s, s.name, lambda: s.call(cls(s), v, s.num(nn), s.num(kk), **kw), given)


def standard(b, nn, mm, rk):
    """Generators already in standard form, all other blocks open (commuting not enforced)."""
    fixed = {}
    for i in range(mm):
        for j in range(nn):
            if i < rk and j < rk:
                fixed[(i, j)] = int(i == j)
            if i >= rk:
                fixed[(i, j)] = 0
                if rk <= j < mm:
                    fixed[(i, nn + j)] = int(i == j)
            elif rk <= j < mm:
                fixed[(i, nn + j)] = 0
    return b.array("v", mm, 2 * nn, fixed)


def supplied(s, gens, cols):
    """Logical operators given by the caller."""
    nn, mm = len(gens[0]), len(gens)
    kk = nn - mm
    v = s.st.new(HArr(T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in gens]), "nd", "f", "arg:generators"))
    lx, lz = bits(s, "lx", kk, cols[0]), bits(s, "lz", kk, cols[1])
    go = lambda: s.call(cls(s), v, s.num(nn), s.num(kk), logical_ops=s.lst([lx, lz], "arg:logical_ops"))
    if cols != (2 * nn, 2 * nn):
        s.chk.rejects(s, s.name, go)
        return
    mark = len(s.raises())
    o = go()
    s.chk.eq(s, s.name + ": logical X", s.attr(o, "logical_x"), s.ten(lx))
    s.chk.eq(s, s.name + ": logical Z", s.attr(o, "logical_z"), s.ten(lz))
    s.chk.eq(s, s.name + ": generators", s.attr(o, "stab_bin_rep"), s.ten(v))
    s.chk.eq(s, s.name + ": n", s.attr(o, "n"), s.num(nn))
    s.chk.eq(s, s.name + ": k", s.attr(o, "k"), s.num(kk))
    s.chk.no_raise(s, s.name, mark)


def supplied_form(s, which):
    gens = ["XX"]
    v = s.st.new(HArr(T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in gens]), "nd", "f", "arg:generators"))
    l = s.lst([s.lst([s.num(x) for x in (1, 0, 0, 0)])])
    ok = bits(s, "l", 1, 4)
    s.chk.rejects(s, s.name, lambda: s.call(cls(s), v, s.num(2), s.num(1), logical_ops=s.lst([l, ok] if which == 0 else [ok, l])))


def run(c):
    for nn in (n, 1, 2, 3):
        c.scenario("symplectic product, %s qubits" % (nn if isinstance(nn, int) else "n"), product, nn)
    c.scenario("m generators on n qubits", gate_sym, n, m)
    c.scenario("2 generators on n qubits", gate_sym, n, 2)
    for form in ("array", "arrays", "lists", "strings"):
        c.scenario("XZ with an open generator, %s" % form, gate_cubes, ["XZ", "??"], form)
        c.scenario("open generator with ZY, %s" % form, gate_cubes, ["??", "ZY"], form)
        c.scenario("XZ with an open generator, %s, logical operators given" % form, gate_cubes, ["XZI", "??Z"], form, True)
    c.scenario("three generators, first open", gate_cubes, ["??I?", "ZZII", "IIZZ"], "array")
    c.scenario("three generators, second open", gate_cubes, ["ZZII", "I???", "IIZZ"], "array")
    c.scenario("three generators, third open", gate_cubes, ["XXXX", "ZZZZ", "?I?I"], "array")
    c.scenario("four generators, last open", gate_cubes, ["XZZXI", "IXZZX", "XIXZZ", "ZXI??"], "array")
    if c.deep:
        c.scenario("two open generators", gate_cubes, ["??", "??"], "array")
        c.scenario("two open generators on three qubits", gate_cubes, ["X?I", "?Z?"], "lists")
        c.scenario("four generators, last three letters open", gate_cubes, ["XZZXI", "IXZZX", "XIXZZ", "?X??Z"], "array")
    for form in ("array", "arrays", "lists", "strings"):
        c.scenario("one column pair too many, %s" % form, wrong_size, 1, 6, 2, 1, form)
        c.scenario("one column pair too few, %s" % form, wrong_size, 1, 4, 3, 2, form)
        c.scenario("one generator too many, %s" % form, wrong_size, 2, 4, 2, 1, form)
        c.scenario("one generator too few, %s" % form, wrong_size, 1, 6, 3, 1, form)
        c.scenario("one column pair too many, %s, logical operators given" % form, wrong_size, 1, 6, 2, 1, form, None, True)
        c.scenario("one column pair too few, %s, logical operators given" % form, wrong_size, 1, 4, 3, 2, form, None, True)
        c.scenario("one generator too many, %s, logical operators given" % form, wrong_size, 2, 4, 2, 1, form, None, True)
        c.scenario("one generator too few, %s, logical operators given" % form, wrong_size, 1, 6, 3, 1, form, None, True)
    c.scenario("odd number of columns", wrong_size, 1, 5, 2, 1, "array")
    c.scenario("n columns", wrong_size, m, P(n), P(n), P(n) - P(m), "array")
    c.scenario("2n + 2 columns", wrong_size, m, P(n) * 2 + 2, P(n), P(n) - P(m), "array")
    c.scenario("2n - 1 columns", wrong_size, m, P(n) * 2 - 1, P(n), P(n) - P(m), "array")
    c.scenario("n - k + 1 generators", wrong_size, P(m) + 1, P(n) * 2, P(n), P(n) - P(m), "array")
    c.scenario("k generators in place of n - k", wrong_size, P(m), P(n) * 2, P(n), P(m), "array", T.lnot(T.eq0(T.from_poly(P(n) - P(m) * 2))))
    c.scenario("logical operators given", supplied, ["XX"], (4, 4))
    c.scenario("logical operators given, three qubits", supplied, ["ZZI", "IZZ"], (6, 6))
    c.scenario("logical X with too many columns", supplied, ["XX"], (6, 4))
    c.scenario("logical Z with too few columns", supplied, ["XX"], (4, 2))
    c.scenario("logical X not an array", supplied_form, 0)
    c.scenario("logical Z not an array", supplied_form, 1)
