"""S07: a concatenated code has inner generators per block and encoded outer ones."""
from .common import *
from .codes import *
from .S05 import code

RULE = ("abstract concatenation of codes with unknown generators, partitioned into all cases of the open letters: generators, length and number of "
        "logical qubits of the result against the block construction from the inner code's own logical operators")


def expected(outer, inner, X, Z):
    """Generator rows of the concatenation."""
    nn, mq_, ll = len(outer[0]) // 2, len(inner[0]) // 2, len(X)
    nb = nn // ll
    rows = []

    def put(dst, blk, row):
        for q in range(mq_):
            dst[blk * mq_ + q] ^= row[q] % 2
            dst[nb * mq_ + blk * mq_ + q] ^= row[mq_ + q] % 2
    for b_ in range(nb):
        for g in inner:
            r_ = [0] * (2 * nb * mq_)
            put(r_, b_, g)
            rows.append(r_)
    for g in outer:
        r_ = [0] * (2 * nb * mq_)
        for j in range(nn):
            if g[j]:
                put(r_, j // ll, X[j % ll])
            if g[nn + j]:
                put(r_, j // ll, Z[j % ll])
        rows.append(r_)
    return rows, nb * mq_


def ints(words):
    return [bits_of(w) for w in words]


def result(s, o, b):
    rows = settled(b, s.ten(s.attr(o, "stab_bin_rep")))[0]
    return rows, ival(s.ten(s.attr(o, "n"))), ival(s.ten(s.attr(o, "k")))


def family(s0, rows, other, open_outer):
    chk = s0.chk
    done = 0

    def look(s, o, b):
        w = code(s, other)
        inn = w if open_outer else o
        X, Z, N = settled(b, *[s.ten(s.attr(inn, q)) for q in ("logical_x", "logical_z", "normal_form")])
        args = (o, w) if open_outer else (w, o)
        try:
            out = result(s, s.call(s.attr(cls(s), "concatenate_codes"), *args), b)
        except AbsRaise as e:
            out = "raise %s" % (e,)
        stays = [settled(b, s.ten(s.attr(a_, "stab_bin_rep")))[0] for a_ in args]
        return X, Z, N, out, stays
    for p in code_cubes(s0, rows, look):
        g, res = p.out
        lab = p.lab
        if isinstance(res, str):
            chk.bad(lab, "the codes are not constructed: %s" % res)
            continue
        X, Z, N, out, stays = res
        if p.ses.I.notes or X is None or Z is None or out is not None and not isinstance(out, str) and any(x is None for x in out):
            chk.unk(lab, "value lost: %s" % (p.ses.I.notes[:1],))
            continue
        outer, inner = (g, ints(other)) if open_outer else (ints(other), g)
        reordered = list(qubit_order(inner, N) or ()) != list(range(len(N[0]) // 2))
        want, tot = expected(outer, inner, X, Z)
        done += 1
        if isinstance(out, str):
            if reordered and any(sprod(l, q) for l in X + Z for q in inner):
                lab += " (qubits of the inner code reordered by the elimination)"
            chk.bad(lab, "the concatenation fails: %s" % out)
            continue
        kk = len(outer[0]) // 2 - len(outer)
        if out[1] != tot or out[2] != kk:
            chk.bad(lab + ": size", "[%s, %s] instead of [%d, %d]" % (out[1], out[2], tot, kk))
        if sorted(out[0]) != sorted(want):
            more = [pauli_word(r_) for r_ in out[0] if r_ not in want]
            less = [pauli_word(r_) for r_ in want if r_ not in out[0]]
            chk.bad(lab + ": generators", "%s instead of %s" % (more[:4], less[:4]))
        if stays != [outer, inner]:
            chk.bad(lab + ": given codes", "the generators of the given codes become %s" % (stays,))
    chk.ok("%s: %d pairs" % (s0.name, done))


def sizes(s, outer, inner):
    a_, w = code(s, outer), code(s, inner)
    s.chk.rejects(s, s.name, lambda: s.call(s.attr(cls(s), "concatenate_codes"), a_, w))


def notcodes(s):
    a_ = code(s, ["XZ"])
    for nm, v in (("a string", "XZ"), ("a number", s.num(2)), ("nothing", None)):
        s.chk.rejects(s, "%s as outer code" % nm, lambda: s.call(s.attr(cls(s), "concatenate_codes"), v, a_))
        s.chk.rejects(s, "%s as inner code" % nm, lambda: s.call(s.attr(cls(s), "concatenate_codes"), a_, v))


def run(c):
    deep = c.deep
    one, two, three = ["XX"], ["XXXX", "ZZZZ"], ["XXXX"]
    OUT = [(["??"], one), (["??"], ["ZZI", "IZZ"]), (["X?"], ["XYZ", "ZZI"]), (["?Z?"], one), (["??"], two), (["X?Z?", "Z?X?"], ["XZX"]), (["???"], three),
           (["??X?"], two), (["X?", ], ["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"])]
    INN = [(["??"], ["XZ"]), (["??"], ["YY"]), (["??"], ["XXX", "ZYI"]), (["X?I", "?Z?"], ["YX"]), (["Z?Z", "?ZI"], ["ZY"]), (["X??"], ["XZ"]),
           (["Z?Z"], ["YZXY"]), (["XX?Z", "?ZX?"], ["ZY"])]
    if deep:
        OUT += [(["???"], ["XYZ", "ZZI"]), (["????"], two), (["????"], ["XYZ"]), (["X?Z?", "?ZZ?"], ["XX"]), (["X?Z", "?Z?"], ["ZZI", "IZZ"])]
        INN += [(["???"], ["YZXY"]), (["????"], ["XYZ"]), (["?XZ?I", "I?ZXZ", "X?XZZ", "Z??YX"], ["YX"]), (["Z??I", "X?X?"], ["XYYZ", "ZXIZ"])]
    for f, w in OUT:
        for g in spread(f, 1):
            c.scenario("outer %s, inner %s" % (" ".join(g), " ".join(w)), family, g, w, True)
    for f, w in INN:
        for g in spread(f, 1):
            c.scenario("inner %s, outer %s" % (" ".join(g), " ".join(w)), family, g, w, False)
    for o_, i_ in ((["XZZ", "ZXI"], two), (["XZ"], three), (["ZZZ"], ["XXX"]), (["XZZZX"], ["XZZ"])):
        c.scenario("outer length %d, inner with %d logical qubits" % (len(o_[0]), len(i_[0]) - len(i_)), sizes, o_, i_)
    c.scenario("operands that are no codes", notcodes)
