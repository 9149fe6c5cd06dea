"""S03: logical operators are read off the standard form by the block formulas."""
from .common import *
from .codes import *

RULE = ("abstract construction of codes from unknown generators, partitioned into all cases of the open letters: the normal form must span the "
        "generators (up to one qubit order), be in standard form of the right rank, and give the logical operators by the block formulas; "
        "the formulas also on symbolic blocks")


def formula(N, rk, nn, kk):
    """Logical X and Z of a standard form (rows of integers)."""
    mm = nn - kk
    X, Z = [], []
    for i in range(kk):
        a2 = [N[q][mm + i] for q in range(rk)]
        e = [N[q][nn + mm + i] for q in range(rk, mm)]
        c1 = lambda q, j: N[q][nn + rk + j]
        c2 = [N[q][nn + mm + i] for q in range(rk)]
        idn = [int(i == j) for j in range(kk)]
        zx = [(sum(e[j] * c1(q, j) for j in range(mm - rk)) + c2[q]) % 2 for q in range(rk)]
        X.append([0] * rk + [v % 2 for v in e] + idn + zx + [0] * (nn - rk))
        Z.append([0] * nn + [v % 2 for v in a2] + [0] * (mm - rk) + idn)
    return X, Z


def in_standard_form(N, rk, nn, mm):
    for i in range(mm):
        for j in range(nn):
            if i < rk and j < rk and N[i][j] != int(i == j) or i >= rk and N[i][j] != 0:
                return False
            if i >= rk and rk <= j < mm and N[i][nn + j] != int(i == j):
                return False
    return True


def family(s0, rows):
    chk, mm, nn = s0.chk, len(rows), len(rows[0])
    kk = nn - mm
    done = 0

    def look(s, o, b):
        vals = [s.ten(s.attr(o, q)) for q in ("normal_form", "logical_x", "logical_z", "stab_bin_rep")]
        rk = s.attr(o, "rank")
        return settled(b, *vals) + [ival(s.ten(rk)), settled(b, s.ten(s.arg))[0]]
    for p in code_cubes(s0, rows, look):
        g, out = p.out
        lab = p.lab
        if isinstance(out, str):
            chk.bad(lab, "the code is not constructed: %s" % out)
            continue
        N, X, Z, stored, rk, arg = out
        if p.ses.I.notes or any(v is None for v in out):
            chk.unk(lab, "value lost: %s" % (p.ses.I.notes[:1] or out))
            continue
        done += 1
        if stored != g or arg != g:
            chk.bad(lab + ": stored generators", "%s instead of %s" % (stored, g))
        if rk != gf2_rank([q[:nn] for q in g]):
            chk.bad(lab + ": rank", "%s instead of %s" % (rk, gf2_rank([q[:nn] for q in g])))
            continue
        if qubit_order(g, N) is None:
            chk.bad(lab + ": normal form", "%s does not span the generators for any order of the qubits" % N)
            continue
        if not in_standard_form(N, rk, nn, mm):
            chk.bad(lab + ": normal form", "%s is not in standard form of rank %s" % (N, rk))
            continue
        fx, fz = formula(N, rk, nn, kk)
        if X != fx:
            chk.bad(lab + ": logical X", "%s instead of %s for the normal form %s" % (X, fx, N))
        if Z != fz:
            chk.bad(lab + ": logical Z", "%s instead of %s for the normal form %s" % (Z, fz, N))
    chk.ok("%s: %d codes" % (s0.name, done))


def blocks(s, gens, rk):
    """The formulas on a standard form with unknown blocks."""
    nn, mm = len(gens[0]), len(gens)
    kk = nn - mm
    v = s.st.new(HArr(T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in gens]), "nd", "i", "arg:generators"))
    o = s.call(cls(s), v, s.num(nn), s.num(kk))
    s.chk.eq(s, s.name + ": rank", s.attr(o, "rank"), s.num(rk))
    b = bits(s, "N", mm, 2 * nn, dt="i")
    t = s.ten(b)
    ent = [[None] * (2 * nn) for _ in range(mm)]
    at = lambda i, j: T.index_axis(T.index_axis(t, 0, P(i)), 0, P(j))
    for i in range(mm):
        for j in range(2 * nn):
            ent[i][j] = at(i, j)
            if i < rk and j < rk:
                ent[i][j] = T.const(int(i == j))
            elif i >= rk and j < nn:
                ent[i][j] = T.const(0)
            elif i >= rk and rk <= j - nn < mm:
                ent[i][j] = T.const(int(i == j - nn))
            elif i < rk and rk <= j - nn < mm and False:
                ent[i][j] = T.const(0)
    N = s.st.new(HArr(T.stack_list([T.stack_list(r_) for r_ in ent]), "nd", "i", None))
    out = s.py("o.normal_form = N\no.logical_operators()", o=o, N=N)
    X, Z = items(s, out)
    wx, wz = [], []
    for i in range(kk):
        e = [ent[q][nn + mm + i] for q in range(rk, mm)]
        zx = []
        for q in range(rk):
            acc = ent[q][nn + mm + i]
            for j in range(mm - rk):
                acc = T.add(acc, T.mul(e[j], ent[q][nn + rk + j]))
            zx.append(T.mod2(acc))
        idn = [T.const(int(i == j)) for j in range(kk)]
        z0 = [T.const(0)]
        wx.append(z0 * rk + e + idn + zx + z0 * (nn - rk))
        wz.append(z0 * nn + [ent[q][mm + i] for q in range(rk)] + z0 * (mm - rk) + idn)
    st = lambda w: T.stack_list([T.stack_list(r_) for r_ in w])
    s.chk.eq(s, s.name + ": logical X", X, st(wx))
    s.chk.eq(s, s.name + ": logical Z", Z, st(wz))


def FAMILIES(deep):
    fams = [["?"], ["??"], ["??", "ZY"], ["XZ", "??"], ["X?I", "?Z?"], ["I??", "ZZ?"], ["?Z?", "Z?Z"], ["ZI?", "?XX"], ["YY?", "?IZ"],
            ["XX?Z", "?ZX?"], ["Z??I", "X?X?"], ["ZZII", "I?Z?", "?IIX"], ["XXXX", "ZZ??", "Z?Z?"], ["IIXX", "?ZZ?"], ["IZIX", "I??I", "Z?IX"],
            ["X?Z?", "IYII"], ["IIIX?", "?IXI?"]]
    fams = [f for f in fams if len(f) < len(f[0])]
    if deep:
        fams += [["?", ], ["???"], ["??", ], ["???", "?I?"], ["?XZ?I", "I?ZXZ", "X?XZZ"], ["????"], ["?Z?Z", "Z?Z?"], ["X???", "???Z"], ["ZZ???", "?ZZ?I"],
                 ["?ZZXI", "IXZ?X", "XIXZ?", "ZX?XZ"], ["XXX?III", "X?IIXXI", "XIXIXIX"], ["Z?Z?", "?ZZI", "XX?X"]]
        fams = [f for f in fams if len(f) < len(f[0])]
    return [g for f in fams for g in spread(f, 1 + deep)]


def run(c):
    for f in FAMILIES(c.deep):
        c.scenario("generators " + " ".join(f), family, f)
    for gens, rk in ((["XII", "IZI"], 1), (["XIII", "IZII"], 1), (["XIIII", "IXIII", "IIZII"], 2), (["XIIII", "IXIII"], 2), (["ZIII", "IZII"], 0),
                     (["XIIIII", "IXIIII", "IIZIII", "IIIZII"], 2)):
        c.scenario("symbolic blocks, n=%d, k=%d, rank %d" % (len(gens[0]), len(gens[0]) - len(gens), rk), blocks, gens, rk)
