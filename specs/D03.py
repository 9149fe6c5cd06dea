"""D03: the fidelity of an error-correcting code on a device and its optimization."""
from .twirl import *

QD = "PyQCodes.find_codes.QDeviceChannel"
RULE = ("abstract run of the estimate with opaque encoder, channel and decoder, and of the optimization with the objective evaluated at an open parameter vector: "
        "what each circuit is given and in which order is read off the recorded calls of each trial; objective, options and the reported dictionary are compared "
        "with the protocol's frequency and with the optimizer's result")
NAMES = ["encoder", "channel", "decoder"]


def make(s, nq):
    eng = engine(s, nq)
    return eng, s.call(get(s, QD), eng, qreg(s, nq), box("channel")), [("q", i) for i in range(nq)]


def fixed(s, nq, nt, eps):
    eng, o, reg = make(s, nq)
    N = s.num(sym("N") if nt is None else nt)
    if nt is None:
        s.fact(P(sym("N")) - 1)
    try:
        k = len(s.st.trace)
        v = s.ten(s.meth(o, "estimate_average_fidelity_error_code", box("encoder"), box("decoder"), N, s.num(eps)))
        if s.I.notes:
            raise NoCircuit("value lost: %s" % s.I.notes[0])
        estimate(s, s.name, s.st.trace[k:], v, reg, NAMES, eng, eps, nt, False, s.st.trace[:k])
    except NoCircuit as e:
        s.chk.unk(s.name, str(e))


def key(v):
    return v.key() if isinstance(v, Ten) else repr(v)


def optimize(s, nq, nt, eps, M, N, iters=None):
    chk = s.chk
    eng, o, reg = make(s, nq)
    bounds = s.lst([(s.num(T_("lo%d" % i)), s.num(T_("hi%d" % i))) for i in range(M + N)])
    kw = {} if iters is None else {"maxiter": s.num(iters)}
    try:
        k = len(s.st.trace)
        before = s.st.trace
        res = s.meth(o, "optimize_encoder_decoder_average_fidelity", box("encoder"), box("decoder"), s.num(nt), s.num(eps), (s.num(M), s.num(N)), bounds, **kw)
        if s.I.notes:
            raise NoCircuit("value lost: %s" % s.I.notes[0])
        if len(s.I.optruns) != 1:
            raise NoCircuit("%d optimizations" % len(s.I.optruns))
        r = s.I.optruns[0]
        lab = s.name
        chk.claim(lab + ": differential evolution is run", r["method"] == "differential_evolution", "method %s" % r["method"])
        dim = P(r["dim"]).as_int()
        chk.claim(lab + ": over one variable per bound", dim == M + N, "%s variables" % r["dim"])
        obj = r["objective"]
        if not isinstance(obj, Ten):
            raise NoCircuit("objective: %s" % (obj,))
        # what the circuits are given
        xi = T.inp("ξ", M + N, flags=("real",))
        for e in flatten(r["trace"]):
            if e.kind != "call":
                continue
            want = {"encoder": (0, M), "decoder": (M, M + N), "channel": None}[e.args[0]]
            extra = [x for x in e.args[3]] + [x for _, x in e.args[4]]
            if want is None:
                chk.claim(lab + ": the channel takes no parameters", not extra, "%d more arguments" % len(extra))
                continue
            if len(extra) != 1:
                chk.bad(lab + ": parameters of the " + e.args[0], "%d arguments" % len(extra))
                continue
            got = in_state(s, r["st"], extra[0])
            chk.eq(s, lab + ": parameters of the " + e.args[0], got, T.slice_axis(xi, 0, P(want[0]), P(want[1])))
        estimate(s, lab + ": objective", r["trace"], T.neg(obj), reg, NAMES, eng, eps, nt, False, before)
        # options
        bl = r["bounds"]
        if isinstance(bl, Ten):
            chk.eq(s, lab + ": bounds", bl, s.ten(bounds))
        elif bl is not None:
            chk.unk(lab + ": bounds", str(bl))
        mi = dict(r["kw"]).get("maxiter")
        chk.eq(s, lab + ": maximum of iterations", s.ten(mi) if mi is not None else T.const(1000), T.const(10 if iters is None else iters))
        # the report
        f = T.app_atom("opt_fun:diffev", [obj], [], flags=("real",))
        x = T.app_atom("opt_x:diffev", [obj], [P(M + N)], flags=("real",))
        ok = T.app_atom("opt_ok:diffev", [obj], [], flags=("ind", "real", "nn"))
        item = lambda nm: s.ten(s.py("r[k]", r=res, k=nm))
        chk.eq(s, lab + ": optimal value", item("optimal_val"), T.neg(f))
        chk.eq(s, lab + ": encoder parameters", item("params_encoder"), T.slice_axis(x, 0, P(0), P(M)))
        chk.eq(s, lab + ": decoder parameters", item("params_decoder"), T.slice_axis(x, 0, P(M), P(M + N)))
        chk.eq(s, lab + ": success", item("success"), ok)
    except NoCircuit as e:
        chk.unk(s.name, str(e))


def T_(nm):
    return T.scalar_atom(nm, ("real",))


def in_state(s, st, v):
    return s.I.ten(st.copy(), v) if not isinstance(v, Ten) else v


def rejects(s, what):
    chk = s.chk
    eng, o, reg = make(s, 1)
    go = lambda M, N, nb, **kw: s.meth(o, "optimize_encoder_decoder_average_fidelity", box("encoder"), box("decoder"), s.num(1), s.num(1), (s.num(M), s.num(N)),
                                       s.lst([(s.num(0), s.num(1)) for _ in range(nb)]), **kw)
    for M, N, nb in ((2, 3, 4), (2, 3, 6), (1, 1, 1), (2, 1, 2), (1, 2, 2), (0, 2, 1), (2, 0, 3), (2, 2, 2)):
        if what == "bounds":
            chk.rejects(s, "%s: %d bounds for %d + %d parameters" % (s.name, nb, M, N), lambda: go(M, N, nb))
    if what == "optimizer":
        for nm in ("slsqp", "diff", "", "Diffev", "nelder-mead", None):
            chk.rejects(s, "%s: optimizer %r" % (s.name, nm), lambda: go(1, 2, 3, optimizer=nm))
    if what == "accepted":
        for M, N in ((1, 2), (0, 2), (2, 0), (3, 1)):
            k = len(s.raises())
            go(M, N, M + N, optimizer="diffev")
            chk.no_raise(s, "%s: %d + %d parameters" % (s.name, M, N), k)


def run(c):
    c.rule, c.trust = RULE, TRUST
    for nq in range(1, 5 if c.deep else 4):
        for nt in (1, 2, None):
            for eps in (Fr(1), Fr(1, 4)):
                if nq * (nt or 1) <= (8 if c.deep else 4):
                    c.scenario("fixed code: %d qubits, %s trials, epsilon %s" % (nq, nt or "any number of", eps), fixed, nq, nt, eps)
    for nq, nt, eps, M, N, it in ((1, 1, 1, 1, 2, None), (2, 1, Fr(1, 4), 2, 3, 25), (1, 2, Fr(1, 2), 3, 1, None), (2, 2, 1, 0, 2, None), (1, 2, 1, 2, 0, 3)) + \
            (((3, 1, Fr(1, 8), 4, 5, 7), (2, 3, 1, 2, 2, None)) if c.deep else ()):
        c.scenario("optimized code: %d qubits, %d trials, epsilon %s, %d + %d parameters" % (nq, nt, eps, M, N), optimize, nq, nt, eps, M, N, it)
    for w in ("bounds", "optimizer", "accepted"):
        c.scenario(w, rejects, w)
