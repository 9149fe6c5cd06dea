"""F01: the effective channel of a code is correction after noise after encoding, and the named objective is optimized over it."""
from .common import *
from .codes import *

FN = "PyQCodes.find_codes.effective_channel_with_stabilizers"
SC = "PyQCodes.codes.StabilizerCode"
RULE = ("abstract run with unknown noise operators, the encoder and the correction of each error as unknown operators (their meaning is S04 and S08): the errors "
        "handed to the correction, the operators of the channel that is optimized, the objective and its options are read off the calls and compared "
        "with the n/k-fold noise, correction times encoder, and the documented defaults updated by the caller's options")
DEFAULTS = {"param": "overparam", "lipschitz": 25, "use_pool": 3, "maxiter": 250}


def power(N, cnt, d, times):
    M, c_, e_ = N, P(cnt), P(d)
    for _ in range(times - 1):
        M = T.reshape(T.einsum("iab,jcd->ijacbd", M, N), [c_ * P(cnt), e_ * P(d), e_ * P(d)])
        c_, e_ = c_ * P(cnt), e_ * P(d)
    return M


def total(Ks):
    """sum_i K_i (.) K_i^dagger as a four-index array: what the channel does."""
    return T.einsum("iab,icd->abcd", Ks, T.conjugate(Ks))


def stack(s, v):
    return s.ten(s.py("np.array([np.asarray(x) for x in v])", v=v)) if False else T.stack_list([s.ten(x) for x in items(s, v)])


def effective(s, words, nk, objective, sparse, options, form="strings"):
    chk = s.chk
    nn, kk = len(words[0]), len(words[0]) - len(words)
    d, D, t = 2 ** kk, 2 ** nn, nn // kk
    cnt = nk ** t
    nt = T.entry(T.atom_in("E", [P(nk), P(d), P(d)], ()))
    noise = s.py("[x for x in k]", k=s.st.new(HArr(nt, "nd", "c", "arg:noise")))
    enc = T.entry(T.atom_in("Enc", [P(D), P(d)], ()))
    cor = T.entry(T.atom_in("C", [P(cnt), P(D), P(D)], ()))
    given, opt, of, of2 = [], [], [], []

    def correct(I, st, a, k):
        a = list(a) + [None] * 3
        v = k.get("pauli_errors", a[1])
        sp = truthy(k.get("sparse", a[2]))
        vs = SQ.concrete(I, st, SQ.segs_of(I, st, v))
        if vs is None:
            raise Undecided("errors of unknown number")
        ks = [M.strip(I.ten(st, x)) for x in vs]
        given.append((ks, sp))
        of2.append(I.ten(st, I.getattr(a[0], "stab_bin_rep", st, None, None)))
        return st.new(HList(tuple(It(st.new(HArr(T.index_axis(cor, 0, P(i)), "sp" if sp else "nd", "c"))) for i in range(len(ks)))))

    def optimizer(name):
        def f(I, st, a, k):
            names = ["n", "rank"] if name == "coherent" else ["n"]
            names += ["optimizer", "param", "lipschitz", "use_pool", "maxiter", "samples", "disp"] + (["regularized"] if name == "coherent" else [])
            k = dict(zip(names, a[1:]), **k)
            opt.append((name, a[0], k, st))
            return Obj("result", of=len(opt))
        return f
    o = None
    given_opts = dict(options or {})
    vals = {}
    if options is not None:
        for x in given_opts:
            vals[x] = T.scalar_atom("opt_" + x, ("real", "nn", "int")) if given_opts[x] is None else given_opts[x]
        o = s.py("{%s}" % ", ".join("'%s': v_%s" % (x, x) for x in vals), **{"v_" + x: v for x, v in vals.items()})
    kw = {} if options is None else {"options": o}
    if objective is not None:
        kw["optimize"] = objective
    if sparse is not None:
        kw["sparse"] = sparse
    with stubbed(s, SC, encode_krauss_operators=encoder_stub(enc, of), kraus_operators_correcting_errors=correct), \
            stubbed(s, CH + "AnalyticQChan", optimize_coherent=optimizer("coherent"), optimize_fidelity=optimizer("fidelity")):
        gens = s.lst(list(words)) if form == "strings" else s.st.new(HArr(T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in words]), "nd", "i", "arg:g"))
        r = s.call(get(s, FN), gens, (s.num(nn), s.num(kk)), noise, **kw)
    if s.I.notes:
        chk.unk(s.name, "value lost: %s" % s.I.notes[0])
        return
    if len(opt) != 1:
        chk.claim(s.name + ": one optimization", len(opt) == 1 or None if not opt else False, "%d" % len(opt))
        return
    if not given and of:
        kr = s.ten(s.attr(s.attr(opt[0][1], "krauss"), "kraus_ops"))
        plain = total(T.einsum("iab,bc->iac", power(nt, nk, d, t), enc))
        if total(kr).key() == plain.key() or rand.compare(total(kr), plain, s.st.facts.ge) == "same":
            chk.bad(s.name + ": operators are correction times encoder", "the errors are not corrected")
            return
    if len(given) != 1 or not of:
        chk.unk(s.name, "the correction or the encoder is not obtained from the code")
        return
    lab = s.name
    ref = T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in words])
    for x in of + of2:
        if x is not None:
            chk.eq(s, lab + ": the code is the given one", x, ref)
    ks, sp = given[0]
    chk.claim(lab + ": number of errors", len(ks) == cnt, "%d instead of %d" % (len(ks), cnt))
    if len(ks) != cnt:
        return
    chk.eq(s, lab + ": errors are the n/k-fold noise", total(T.stack_list(ks)), total(power(nt, nk, d, t)))
    name, ch, k, st = opt[0]
    want = objective or "coherent"
    chk.claim(lab + ": the objective is the named one", name == want, "%s instead of %s" % (name, want))
    kr = s.ten(s.attr(s.attr(ch, "krauss"), "kraus_ops"))
    chk.claim(lab + ": number of operators", (T.axdim(kr.axes[0]) - P(cnt)).is_zero(), "%s instead of %d" % (T.axdim(kr.axes[0]), cnt))
    chk.eq(s, lab + ": operators are correction times encoder", total(kr), total(T.einsum("iab,bc->iac", cor, enc)))
    for at, w in (("input_dim", d), ("output_dim", D)):
        chk.eq(s, lab + ": " + at, s.ten(s.attr(s.attr(ch, "krauss"), at)), T.const(w))
    chk.eq(s, lab + ": copies of the channel", s.ten(k["n"]), T.const(1))
    for x in set(DEFAULTS) | set(vals):
        w = vals.get(x, DEFAULTS.get(x))
        v = k.get(x)
        if isinstance(w, str):
            chk.claim(lab + ": option " + x, v == w, "%r instead of %r" % (v, w))
        elif v is None:
            chk.bad(lab + ": option " + x, "not passed")
        else:
            chk.eq(s, lab + ": option " + x, s.ten(v), w if isinstance(w, Ten) else T.const(w))
    chk.claim(lab + ": the result is the optimizer's", isinstance(r, Obj) and r.kind == "result", "%r" % (r,))


def rejects(s, what):
    chk = s.chk

    def go(words, d_in, d_out, **kw):
        nn, kk = len(words[0]), len(words[0]) - len(words)
        nt = T.entry(T.atom_in("E", [P(2), P(d_out), P(d_in)], ()))
        noise = s.py("[x for x in k]", k=s.st.new(HArr(nt, "nd", "c", "arg:noise")))
        enc = T.entry(T.atom_in("Enc", [P(2 ** nn), P(2 ** kk)], ()))
        f = lambda I, st, a, k: Obj("result")
        with stubbed(s, SC, encode_krauss_operators=encoder_stub(enc, [])), stubbed(s, CH + "AnalyticQChan", optimize_coherent=f, optimize_fidelity=f):
            return s.call(get(s, FN), s.lst(list(words)), (s.num(nn), s.num(kk)), noise, **kw)
    if what == "objective":
        for v in ("Coherent", "", "minimum", "fidelity ", "entropy"):
            chk.rejects(s, "%s %r" % (s.name, v), lambda: go(["ZZI", "IZZ"], 2, 2, optimize=v))
        for v in (None, s.num(1), True, ("coherent",)):
            chk.rejects(s, "%s %r" % (s.name, v if not isinstance(v, Ten) else 1), lambda: go(["ZZI", "IZZ"], 2, 2, optimize=v))
    else:
        for w, di_, do_ in ((["ZZI", "IZZ"], 4, 4), (["XXXX", "ZZZZ"], 2, 2), (["XXXX", "ZZZZ"], 8, 8), (["ZZI", "IZZ"], 1, 1), (["ZZI", "IZZ"], 4, 2), (["ZZI", "IZZ"], 8, 8)):
            for ob in ("coherent", "fidelity"):
                chk.rejects(s, "%s %dx%d for %s, %s" % (s.name, do_, di_, " ".join(w), ob), lambda: go(w, di_, do_, optimize=ob))


def run(c):
    c.rule, c.trust = RULE, TRUST
    CODES = [["ZZ"], ["XY"], ["ZZI", "IZZ"], ["XXX", "IZZ"], ["XXXX", "ZZZZ"]] + ([["ZZIII", "IZZII", "IIZZI", "XXXXX"][:3], ["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"]] if c.deep else [])
    for w in CODES:
        if len(w[0]) % (len(w[0]) - len(w)):
            continue
        for ob in (None, "coherent", "fidelity"):
            for sp in (None, False, True):
                for nk in (1, 2):
                    if (ob is None) != (sp is None) or nk ** (len(w[0]) // (len(w[0]) - len(w))) > 16:
                        continue
                    c.scenario("code %s, %d noise operators, %s%s" % (" ".join(w), nk, ob or "default", ", sparse" if sp else ""), effective, w, nk, ob, sp, None)
    for op in ({}, {"maxiter": None}, {"lipschitz": None}, {"use_pool": None}, {"param": "cholesky"}, {"maxiter": None, "lipschitz": None, "param": "cholesky", "use_pool": None},
               {"disp": None, "maxiter": None}, {"use_pool": T.const(0), "lipschitz": T.const(0)}, {"maxiter": T.const(0), "disp": T.const(1)}):
        for ob in ("coherent", "fidelity"):
            c.scenario("options %s, %s" % ("/".join(op) or "empty", ob), effective, ["ZZI", "IZZ"], 1, ob, False, op)
    c.scenario("generators as an array", effective, ["ZZI", "IZZ"], 2, "coherent", False, None, "array")
    for w in ("objective", "size"):
        c.scenario(w, rejects, w)
