"""ProjectQ model: gates are recorded as effects on abstract qubits."""
from .models import *
from .models import lib, meth, getter, bind, AE, NO, FUN, METH, GETTER, freeze, strip

ONEQ = {"H": "H", "X": "X", "Y": "Y", "Z": "Z", "S": "S", "T": "T", "NOT": "X", "HGate": "H", "XGate": "X", "YGate": "Y",
        "ZGate": "Z", "SGate": "S", "TGate": "T", "Measure": "Measure", "MeasureGate": "Measure", "Sdag": "Sdag", "Sdagger": "Sdag",
        "Tdag": "Tdag"}
CLASSES = ("HGate", "XGate", "YGate", "ZGate", "SGate", "TGate", "MeasureGate")
CTRL = {"CNOT": "X", "CX": "X", "CZ": "Z"}
ROT = {"R": "R", "Rx": "Rx", "Ry": "Ry", "Rz": "Rz", "Ph": "Ph"}
DAG = {"H": "H", "X": "X", "Y": "Y", "Z": "Z", "S": "Sdag", "T": "Tdag", "Sdag": "S", "Tdag": "T"}


def base(v):
    """Gate object of a value, or None."""
    if isinstance(v, Lib) and v.name.startswith("projectq."):
        n = v.name.split(".")[-1]
        if n in CTRL:
            return Obj("gate", name=CTRL[n], params=(), nctrl=1)
        if n == "Swap":
            return Obj("gate", name="Swap", params=(), nctrl=0)
        if n in ONEQ and n not in CLASSES:
            return Obj("gate", name=ONEQ[n], params=(), nctrl=0)
        return None
    if isinstance(v, Obj) and v.kind in ("gate", "allgate", "qop"):
        return v
    return None


def is_gate(v):
    if isinstance(v, Gam):
        return is_gate(v.a)
    return base(v) is not None


@lib("projectq.*")
def _generic(I, st, nm, args, kw, node):
    n = nm.split(".")[-1]
    if n in CLASSES:
        return Obj("gate", name=ONEQ[n], params=(), nctrl=0)
    if n in ROT:
        t = I.ten(st, args[0])
        if t.ndim == 1 and T.axdim(t.axes[0]).as_int() == 1:
            t = T.index_axis(t, 0, P(0))
        return Obj("gate", name=ROT[n], params=(strip(t),), nctrl=0)
    if n == "All" or n == "Tensor":
        g = base(args[0])
        if g is None:
            raise AE("TypeError", "All of a non-gate")
        return Obj("allgate", g=g)
    if n in ("C", "ControlledGate"):
        g = base(args[0])
        if g is None or g.kind != "gate":
            raise AE("TypeError", "controlled non-gate")
        k = ival(args[1]) if len(args) > 1 else 1
        return Obj("gate", name=g.f["name"], params=g.f["params"], nctrl=g.f["nctrl"] + k)
    if n in ("get_inverse", "Dagger", "DaggeredGate"):
        g = base(args[0])
        if g.kind == "gate" and g.f["name"] in DAG:
            return Obj("gate", name=DAG[g.f["name"]], params=g.f["params"], nctrl=g.f["nctrl"])
        if g.kind == "gate" and g.f["name"] in ROT.values():
            return Obj("gate", name=g.f["name"], params=(T.neg(g.f["params"][0]),), nctrl=g.f["nctrl"])
        raise Undecided("inverse of " + repr(g))
    if n == "QubitOperator":
        term, coef = bind(args, kw, "term coefficient=1")
        return Obj("qop", term=pauli_term(I, st, term), coef=strip(I.ten(st, coef)))
    if n == "Control":
        eng, q = args[:2]
        return Obj("control", q=tuple(flat(I, st, q)))
    if n in ("Compute", "Uncompute", "Dagger", "Loop"):
        raise Undecided("projectq meta " + n)
    return Obj("pq", name=n, args=tuple(freeze(I, st, x) for x in args))


def pauli_term(I, st, term):
    """[(letter, index)] of a QubitOperator string."""
    if term is None:
        return ()
    if isinstance(term, str):
        out = []
        for w in term.split():
            if w[0] not in "XYZ" or not w[1:].isdigit():
                raise AE("ValueError", "QubitOperator term")
            out.append((w[0], num(int(w[1:]))))
        return tuple(out)
    parts = cat_parts(term)
    out, let = [], None
    for p in parts:
        if isinstance(p, str):
            p = p.strip()
            if not p:
                continue
            if len(p) == 1 and p in "XYZ" and let is None:
                let = p
                continue
            raise Undecided("QubitOperator term")
        if isinstance(p, Obj) and p.kind == "intstr" and let:
            out.append((let, p.f["v"]))
            let = None
            continue
        raise Undecided("QubitOperator term")
    if let:
        raise Undecided("QubitOperator term")
    return tuple(out)


def cat_parts(v):
    if isinstance(v, Obj) and v.kind == "strcat":
        return cat_parts(v.f["a"]) + cat_parts(v.f["b"])
    return [v]


def flat(I, st, q):
    """Qubits addressed by a gate target of concrete length."""
    if isinstance(q, Obj) and q.kind == "qubit":
        return [q]
    if isinstance(q, tuple):
        return [y for x in q for y in flat(I, st, x)]
    h = I.obj(st, q)
    if isinstance(h, HList) or isinstance(q, Iter):
        vs = SQ.concrete(I, st, SQ.segs_of(I, st, q))
        if vs is None:
            raise Undecided("gate on a register of symbolic length")
        return [y for x in vs for y in flat(I, st, x)]
    if isinstance(q, (Ten, str)) or q is None:
        raise AE("TypeError", "gate target is not a qubit")
    raise Undecided("gate target %r" % (q,))


def emit(I, st, name, params, targets, ctrl=()):
    st.trace += (Eff("gate", name, tuple(params), tuple(targets), tuple(st.controls) + tuple(ctrl)),)


def apply(I, st, g, target, node):
    if isinstance(g, Gam):
        return I.lift(g, st, lambda x, s: apply(I, s, x, target, node))
    if isinstance(target, Gam):
        return I.lift(target, st, lambda x, s: apply(I, s, g, x, node))
    if isinstance(target, Top):
        st.trace += (Eff("lost", "gate on unknown target"),)
        return None
    g = base(g)
    if g.kind == "allgate":
        from .mpy import map_call
        segs = SQ.segs_of(I, st, target)
        f = PyFn("All", lambda I, s, a, k: apply(I, s, g.f["g"], a[0], node))
        map_call(I, st, f, segs, node)
        return None
    if g.kind == "qop":
        segs = SQ.segs_of(I, st, target)
        tm = g.f["term"]
        for j, (let, ix) in enumerate(tm):
            q = SQ.index(I, st, segs, SQ.as_size(ix))
            emit(I, st, let, (g.f["coef"] if j == 0 else T.const(1),), flat(I, st, q))
        if not tm:
            emit(I, st, "phase", (g.f["coef"],), ())
        return None
    qs = flat(I, st, target)
    k = g.f["nctrl"]
    nm = g.f["name"]
    if k:
        if len(qs) != k + 1:
            raise AE("TypeError", "wrong number of qubits for a controlled gate")
        emit(I, st, nm, pauli_par(nm, g), qs[k:], qs[:k])
        return None
    if nm == "Measure":
        for q in qs:
            emit(I, st, nm, (), [q])
        return None
    if nm == "Swap":
        emit(I, st, nm, (), qs)
        return None
    if len(qs) != 1:
        raise AE("TypeError", "one-qubit gate %s on %d qubits" % (nm, len(qs)))
    emit(I, st, nm, pauli_par(nm, g), qs)
    return None


def pauli_par(nm, g):
    return (T.const(1),) if nm in "XYZ" else g.f["params"]


# ------------------------------------------------------------------ engine
def qubit(reg, ix):
    return Obj("qubit", reg=reg, ix=ix)


def register(name, n):
    """Iter of the qubits of a register of n (poly) qubits."""
    k = P(n).as_int()
    if k is not None and k <= 8:
        return tuple(It(qubit(name, num(i))) for i in range(k))
    l = leg(P(n))
    return (Loop(l, (It(qubit(name, T.from_poly(P(l)))),)),)


def _new_reg(I, st, n):
    k = sum(1 for e in st.trace if e.kind == "alloc")
    nm = "anc%d%s" % (k, "".join(":" for _ in st.ctx))
    st.trace += (Eff("alloc", nm, T.from_poly(P(n))),)
    return st.new(HList(register(nm, n)))


@meth("engine", "allocate_qureg")
def _alloc(I, st, r, a, k, node):
    n = SQ.as_size(strip(I.ten(st, bind(a, k, "n")[0])))
    return _new_reg(I, st, n)


@meth("engine", "allocate_qubit")
def _alloc1(I, st, r, a, k, node):
    return _new_reg(I, st, P(1))


@meth("engine", "flush")
def _flush(I, st, r, a, k, node):
    if k.get("deallocate_qubits") is not None or a:
        st.trace += (Eff("dealloc"),)
    return None


@getter("engine", "active_qubits")
def _active(I, st, o, node):
    n = o.f.get("nactive")
    if n is None:
        raise Undecided("active qubits")
    return Iter(register("active", n))


@getter("engine", "backend")
def _backend(I, st, o, node):
    return Obj("backend")


@meth("backend", "set_wavefunction", "collapse_wavefunction", "get_probability", "get_expectation_value", "get_amplitude", "cheat")
def _setwf(I, st, r, a, k, node):
    args = []
    for x in a:
        h = I.obj(st, x)
        if isinstance(h, HList):
            try:
                args.append(strip(I.ten(st, x)))
                continue
            except (Undecided, ShapeErr, Exception):
                args.append(Iter(h.segs))
                continue
        args.append(freeze(I, st, x))
    st.trace += (Eff("backend", tuple(args)),)
    return None


@meth("qubit", "__int__")
def _qint(I, st, r, a, k, node):
    """Measured bit: a fresh 0/1 unknown per read, in program order."""
    st.trace += (Eff("read", r),)
    st.rng = getattr(st, "rng", 0) + 1
    return bit_of(st)


def bit_of(st):
    from .mnp import ctx_atom
    return ctx_atom(st, "meas#%d" % st.rng, ("bit", "real", "nn", "int"))
