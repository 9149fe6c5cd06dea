"""F02: the recovery program is the semidefinite program for the average entanglement fidelity."""
from .common import *
from .codes import *
from .S05 import code
from sa.vals import Eff

AF = "PyQCodes.avgfid.avg_fidelity."
RULE = ("abstract run of the recovery optimization: the program handed to the solver (variable, constraints, objective, options) is read off the recorded "
        "solver calls and compared, for operators with unknown entries, number and dimensions, with the semidefinite program of the statement")
DEFAULTS = {"maxit": T.const(50), "feastol": T.const(Fr(1, 1000)), "abstol": T.const(Fr(1, 1000)), "reltol": T.const(Fr(1, 1000))}


class NoProgram(Exception):
    pass


def is_obj(x, kind):
    return isinstance(x, Obj) and x.kind == kind


def functional(x):
    """Matrix C with x = <C, X>, and X."""
    if is_obj(x, "pexpr"):
        op, l, r = x.f["op"], x.f["a"], x.f.get("b")
        if op == "BitOr":
            for u, v in ((l, r), (r, l)):
                if is_obj(u, "pvar") and isinstance(v, Ten):
                    return v, u
        if op in ("Mult", "Div"):
            for u, v in ((l, r), (r, l))[:2 if op == "Mult" else 1]:
                if isinstance(v, Ten) and v.ndim == 0:
                    C, X = functional(u)
                    return (T.mul(C, v) if op == "Mult" else T.div(C, v)), X
        if op in ("Add", "Sub"):
            (C, X), (D, Y) = functional(l), functional(r)
            if X is Y or X.key() == Y.key():
                return (T.add if op == "Add" else T.sub)(C, D), X
        if op == "USub":
            C, X = functional(l)
            return T.neg(C), X
        if op == "attr:real":
            return functional(l)
    raise NoProgram("objective %s" % repr(x)[:120])


def psd(x):
    """Variable constrained to be positive semidefinite."""
    if is_obj(x, "pexpr"):
        op, l, r = x.f["op"], x.f["a"], x.f["b"]
        if op == "LShift":
            op, l, r = "RShift", r, l
        if op == "RShift" and is_obj(l, "pvar") and (isinstance(r, Ten) and not r.terms or r == 0):
            return l
    return None


def identity(v, d):
    """Is v the identity matrix (of dimension d)?"""
    if v == "I":
        return True
    if isinstance(v, Ten) and v.ndim == 2:
        e = T.eye(d)
        return v.key() == e.key()
    return False


def partial(x):
    """(variable, traced factor, dimensions, right-hand side) of a partial-trace constraint."""
    if is_obj(x, "pexpr") and x.f["op"] == "Eq":
        for u, v in ((x.f["a"], x.f["b"]), (x.f["b"], x.f["a"])):
            if is_obj(u, "pexpr") and u.f["op"] == "partial_trace":
                args = dict(zip(("X", "k", "dim"), u.f["a"]))
                args.update(dict(u.f["b"] or ()))
                if not is_obj(args.get("X"), "pvar"):
                    return None
                k = args.get("k", 1)
                k = ival(k) if isinstance(k, Ten) else k
                dims = args.get("dim")
                if dims is None or not isinstance(dims, tuple):
                    raise NoProgram("partial trace without dimensions")
                ds = []
                for d in dims:
                    if isinstance(d, tuple):
                        if len(d) != 2 or not (SQ.as_size(d[0]) - SQ.as_size(d[1])).is_zero():
                            raise NoProgram("partial trace of rectangular factors")
                        d = d[0]
                    ds.append(SQ.as_size(d))
                return args["X"], k, ds, v
    return None


def program(s, lab, trace, result, din, dout, C, options):
    """The recorded program is max <C, X> over X >= 0 with trace over the output the identity."""
    chk = s.chk
    ev = [e for e in trace if e.kind.startswith("picos.")]
    if any(any(isinstance(x, tuple) and any(isinstance(y, Eff) and y.kind.startswith("picos.") for y in x) for x in e.args) for e in trace if e.kind in ("if", "loop")):
        raise NoProgram("solver calls under an undecided condition")
    var = [e.args[0] for e in ev if e.kind == "picos.var"]
    solves = [i for i, e in enumerate(ev) if e.kind == "picos.solve"]
    chk.claim(lab + ": the program is solved once", len(solves) == 1, "%d calls of the solver" % len(solves))
    if len(var) != 1 or len(solves) != 1:
        raise NoProgram("%d variables, %d solutions" % (len(var), len(solves)))
    X = var[0]
    N = din * dout
    sz = X.f["size"]
    sz = sz if isinstance(sz, tuple) else (sz, sz)
    chk.claim(lab + ": size of the variable", all((SQ.as_size(q) - N).is_zero() for q in sz) and len(sz) == 2, "size %s instead of %s" % (sz, N))
    vt = X.f["vtype"]
    if vt in ("continuous", "symmetric", "binary", "integer", "semicont", "semiint", "antisym"):
        chk.bad(lab + ": the variable is Hermitian", "type %s" % vt)
    elif vt == "hermitian":
        chk.ok(lab + ": the variable is Hermitian")
    else:
        chk.unk(lab + ": the variable is Hermitian", "type %s" % (vt,))
    pos, tp = 0, 0
    for i, e in enumerate(ev):
        if e.kind == "picos.add_list_of_constraints":
            raise NoProgram("list of constraints")
        if e.kind != "picos.add_constraint":
            continue
        c_ = e.args[0][0]
        if i > solves[0]:
            chk.bad(lab + ": constraints", "a constraint is added after solving")
            continue
        if psd(c_) is not None:
            pos += 1
            continue
        q = partial(c_)
        if q is not None:
            V, k, ds, rhs = q
            tp += 1
            if k != 1 or len(ds) != 2 or not (ds[0] - din).is_zero() or not (ds[1] - dout).is_zero():
                chk.bad(lab + ": trace over the output is the identity", "traces factor %s of dimensions %s instead of factor 1 of %s, %s" % (k, ds, din, dout))
            elif not identity(rhs, ds[0]):
                if isinstance(rhs, Ten):
                    chk.bad(lab + ": trace over the output is the identity", "the trace is %s" % rhs.key()[:80])
                else:
                    raise NoProgram("right-hand side %r" % (rhs,))
            else:
                chk.ok(lab + ": trace over the output is the identity", "factor 1 of %s, %s" % (din, dout))
            continue
        raise NoProgram("constraint %s" % repr(c_)[:100])
    chk.claim(lab + ": positive semidefinite", pos >= 1, "no such constraint")
    chk.claim(lab + ": trace preserving", tp >= 1, "no such constraint")
    objs = [(i, e) for i, e in enumerate(ev) if e.kind == "picos.set_objective" and i < solves[0]]
    if not objs:
        chk.bad(lab + ": objective", "none is set before solving")
        return
    a_ = objs[-1][1].args[0]
    kw = dict(objs[-1][1].args[1])
    sense = a_[0] if a_ else kw.get("typ")
    ex = a_[1] if len(a_) > 1 else kw.get("expr")
    if sense not in ("max", "min"):
        chk.bad(lab + ": objective", "sense %r" % (sense,))
        return
    got, V = functional(ex)
    if sense == "min":
        got = T.neg(got)
    chk.eq(s, lab + ": objective", got, C)
    # options at the time of solving
    last = {}
    for e in ev[:solves[0]]:
        if e.kind == "picos.set_option":
            nm, v = (list(e.args[0]) + [dict(e.args[1]).get("val")])[:2]
            last[nm] = v
        elif e.kind == "picos.update_options":
            last.update(dict(e.args[1]))
    last.update({x: y for x, y in dict(ev[solves[0]].args[1]).items() if x not in ("verbose", "solver")})
    for nm, d in DEFAULTS.items():
        want = options.get(nm, d)
        v = last.get(nm)
        if v is None:
            chk.bad(lab + ": option " + nm, "never set")
        else:
            chk.eq(s, lab + ": option " + nm, s.ten(v), want)
    # the report
    item = lambda nm: s.py("r[k]", r=result, k=nm)
    v = item("optimal_recov")
    chk.claim(lab + ": reported matrix", is_obj(v, "pvar") and v.f["name"] == X.f["name"] or is_obj(v, "pexpr") and v.f["op"] == "attr:value", "%r" % (v,))
    v = item("optimal_val")
    after = [i for i, e in enumerate(ev) if e.kind == "picos.obj_value"]
    if is_obj(v, "pobjvalue"):
        chk.claim(lab + ": reported value", bool(after) and after[-1] > solves[0], "the value is taken before solving")
    elif is_obj(v, "psolfield"):
        chk.claim(lab + ": reported value", v.f["name"] in ("obj", "primal", "value"), "field %s" % v.f["name"])
    elif isinstance(v, (Ten, str)) or v is None:
        chk.bad(lab + ": reported value", "%r" % (v,))
    else:
        chk.unk(lab + ": reported value", "%r" % (v,))
    for nm in ("status", "time"):
        v = item(nm)
        if is_obj(v, "psolfield"):
            chk.claim(lab + ": reported " + nm, v.f["name"] == nm, "field %s" % v.f["name"])
        else:
            chk.unk(lab + ": reported " + nm, "%r" % (v,))


def opts(s, names):
    """A dictionary of solver options with unknown values."""
    if names is None:
        return None, {}
    vals = {x: T.scalar_atom("option_" + x, ("real", "nn")) for x in names}
    d = s.py("{%s}" % ", ".join("'%s': v_%s" % (x, x) for x in names), **{"v_" + x: v for x, v in vals.items()})
    return d, vals


OPTIONS = (None, (), ("maxit",), ("feastol",), ("abstol",), ("reltol",), ("reltol", "maxit"), ("abstol", "feastol", "maxit", "reltol"))


def general(s, form, names, sizes=None):
    """Operators of any number and dimensions."""
    chk = s.chk
    qa, qb = sizes or (P(a), P(b))
    A, B = P(di).pow(P(qa)), P(do).pow(P(qb))
    Kt = T.entry(T.atom_in("K", [P(K), A, B], ()))
    k = s.st.new(HArr(Kt, "nd", "c", "arg:krauss"))
    if form == "list":
        k = s.py("[x for x in k]", k=k)
    elif form == "sparse":
        k = s.py("import scipy.sparse\n[scipy.sparse.csr_matrix(x) for x in k]", k=k)
    elif form == "coo":
        k = s.py("import scipy.sparse\n[scipy.sparse.coo_matrix(x) for x in k]", k=k)
    o, vals = opts(s, names)
    kw = {} if names is None else {"options": o}
    try:
        m_ = len(s.st.trace)
        r = s.call(get(s, AF + "_optimize_average_entang_fid"), k, s.lst([s.num(qa), s.num(qb)]), s.num(di), s.num(do), **kw)
        if s.I.notes:
            raise NoProgram("value lost: %s" % s.I.notes[0])
        V = T.reshape(T.conjugate(Kt), [P(K), A * B])
        C = T.div(T.einsum("ix,iy->xy", V, T.conjugate(V)), T.from_poly(B * B))
        program(s, s.name, s.st.trace[m_:], r, A, B, C, vals)
    except NoProgram as e:
        chk.unk(s.name, str(e))


def stabilizer(s, words, sparse, nk, names, strings=False):
    """The program of a code under unknown noise."""
    chk = s.chk
    nn, kk = len(words[0]), len(words[0]) - len(words)
    dk = 2 ** kk
    nt = T.entry(T.atom_in("E", [P(nk), P(dk), P(dk)], ()))
    noise = s.st.new(HArr(nt, "nd", "c", "arg:noise"))
    if not isinstance(nk, int) or strings:
        noise = s.py("[x for x in k]", k=noise)
    gens = s.lst(list(words)) if strings else s.st.new(HArr(T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in words]), "nd", "i", "arg:stabilizer"))
    o, vals = opts(s, names)
    kw = {} if names is None else {"options": o}
    try:
        m_ = len(s.st.trace)
        enc = T.entry(T.atom_in("Enc", [P(2 ** nn), P(dk)], ()))
        of = []
        with stubbed(s, "PyQCodes.codes.StabilizerCode", encode_krauss_operators=encoder_stub(enc, of)):
            r = s.call(get(s, AF + "optimize_decoder_stabilizers"), gens, (s.num(nn), s.num(kk)), noise, sparse=sparse, **kw)
        if s.I.notes:
            raise NoProgram("value lost: %s" % s.I.notes[0])
        tr = s.st.trace[m_:]
        ref = T.stack_list([T.stack_list([T.const(x) for x in bits_of(g)]) for g in words])
        for x in of:
            if x is None:
                raise NoProgram("generators of the code")
            chk.eq(s, s.name + ": the encoder is that of the given code", x, ref)
        if not of:
            raise NoProgram("the encoder is not obtained from the code")
        M, cnt, dim = nt, P(nk), P(dk)
        for _ in range(nn // kk - 1):
            M = T.reshape(T.einsum("iab,jcd->ijacbd", M, nt), [cnt * P(nk), dim * P(dk), dim * P(dk)])
            cnt, dim = cnt * P(nk), dim * P(dk)
        KE = T.einsum("ixy,yz->ixz", M, enc)
        V = T.reshape(T.conjugate(KE), [cnt, dim * P(dk)])
        C = T.div(T.einsum("ix,iy->xy", V, T.conjugate(V)), T.const(dk * dk))
        program(s, s.name, tr, r, P(2 ** nn), P(dk), C, vals)
    except NoProgram as e:
        chk.unk(s.name, str(e))


def run(c):
    c.rule, c.trust = RULE, TRUST
    for form in ("array", "list", "sparse", "coo"):
        for names in OPTIONS if form == "list" else (None,):
            c.scenario("operators as %s, options %s" % (form, "none" if names is None else "/".join(names) or "empty"), general, form, names)
    for q in ((2, 1), (1, 2), (3, 1)):
        c.scenario("operators as sparse, %d and %d qubits" % q, general, "sparse", None, q)
    CODES = [["ZZ"], ["XZ"], ["YY"], ["ZZI", "IZZ"], ["XXX", "IZZ"], ["XXXX", "ZZZZ"]] + ([["XZZX", "ZIZI"], ["ZZIII", "IZZII", "IIZZI", "XXXXX"]] if c.deep else [])
    for w in CODES:
        for sparse in (False, True):
            for nk in (1, 2):
                c.scenario("code %s, %d noise operators%s" % (" ".join(w), nk, ", sparse" if sparse else ""), stabilizer, w, sparse, nk, ("feastol", "maxit") if nk == 1 else None)
    c.scenario("code ZZI IZZ from Pauli strings", stabilizer, ["ZZI", "IZZ"], False, 2, None, True)
