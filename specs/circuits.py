"""Circuits recorded as effects: normalised sequences of unitary segments and observations, compared as operators."""
import cmath
from .codes import *
from sa import mq

GATES = {
    "H": ((2 ** -.5, 2 ** -.5), (2 ** -.5, -2 ** -.5)),
    "X": ((0, 1), (1, 0)), "Y": ((0, -1j), (1j, 0)), "Z": ((1, 0), (0, -1)),
    "S": ((1, 0), (0, 1j)), "Sdag": ((1, 0), (0, -1j)), "T": ((1, 0), (0, cmath.exp(.25j * cmath.pi))),
    "Tdag": ((1, 0), (0, cmath.exp(-.25j * cmath.pi))),
}


class NoCircuit(Exception):
    pass


def engine(s, active):
    return Obj("engine", nactive=P(active))


def qreg(s, nq, name="q", tag=None):
    return s.st.new(HList(tuple(It(mq.qubit(name, s.num(i))) for i in range(nq)), "list", tag))


def qname(q):
    if not (isinstance(q, Obj) and q.kind == "qubit"):
        raise NoCircuit("target %r" % (q,))
    ix = q.f["ix"]
    i = ival(ix) if isinstance(ix, Ten) else ix
    if i is None:
        raise NoCircuit("qubit with unknown index")
    return (str(q.f["reg"]), i)


def cval(t):
    """Complex value of a known scalar."""
    if not isinstance(t, Ten):
        return complex(t)
    p = T.as_poly(t)
    c = p.const() if p is not None else None
    if c is not None:
        return complex(float(c[0]), float(c[1]))
    if not t.terms:
        return 0j
    env = rand.Env((0, 0))
    if T.atoms_of(t):
        raise NoCircuit("coefficient %s" % t.key()[:80])
    return complex(env.entry(t, [], {}))


def steps(trace):
    """Gates and observations of a flat trace."""
    out = []
    for e in trace:
        if e.kind == "gate":
            name, par, tg, ctrl = e.args
            tg = tuple(qname(q) for q in tg)
            ctrl = tuple(qname(q) for c in ctrl for q in (c if isinstance(c, tuple) else (c,)))
            if name == "Measure":
                if ctrl:
                    raise NoCircuit("controlled measurement")
                out.append(("M", tg[0]))
                continue
            if set(tg) & set(ctrl) or len(set(ctrl)) != len(ctrl):
                out.append(("invalid", name, tg, ctrl))
                continue
            if name in "XYZ":
                out.append(("U", name, cval(par[0]), tg, ctrl))
            elif name in GATES:
                out.append(("U", name, 1, tg, ctrl))
            elif name == "phase":
                out.append(("U", "phase", cval(par[0]), (), ctrl))
            elif name == "Swap":
                out.append(("U", "Swap", 1, tg, ctrl))
            else:
                raise NoCircuit("gate " + name)
        elif e.kind == "read":
            out.append(("R", qname(e.args[0])))
        elif e.kind == "alloc":
            n_ = T.as_poly(e.args[1]).as_int()
            if n_ is None:
                raise NoCircuit("register of unknown size")
            out.append(("A", e.args[0], n_))
        elif e.kind == "backend":
            out.append(("B",) + tuple(repr(x) for x in e.args))
        elif e.kind in ("if", "loop", "lost"):
            if any(contains(x) for x in e.args):
                raise NoCircuit("gates under an undecided %s" % e.kind)
        elif e.kind == "dealloc":
            pass
    return out


def contains(x):
    if isinstance(x, Eff):
        return x.kind in ("gate", "read", "alloc", "backend", "lost") or any(contains(y) for y in x.args)
    return isinstance(x, tuple) and any(contains(y) for y in x)


def segments(st):
    """[unitary gates, observation, unitary gates, ...]"""
    out = [[]]
    for x in st:
        if x[0] in ("U", "invalid"):
            out[-1].append(x)
        elif x[0] == "A":
            continue
        else:
            out += [x, []]
    return out


def act(gates, vec, order):
    """Apply gates to a state vector over the qubits in `order`."""
    pos = {q: i for i, q in enumerate(order)}
    for g in gates:
        _, name, par, tg, ctrl = g
        cm = 0
        for q in ctrl:
            cm |= 1 << pos[q]
        if name == "phase":
            vec = [v * par if i & cm == cm else v for i, v in enumerate(vec)]
            continue
        if name == "Swap":
            a_, b_ = (1 << pos[q] for q in tg)
            vec = [vec[(i & ~(a_ | b_)) | (b_ if i & a_ else 0) | (a_ if i & b_ else 0)] if i & cm == cm else v for i, v in enumerate(vec)]
            continue
        m_ = GATES[name]
        t = 1 << pos[tg[0]]
        new = list(vec)
        for i in range(len(vec)):
            if i & t == 0 and i & cm == cm:
                x, y = vec[i], vec[i | t]
                if x or y:
                    new[i] = par * (m_[0][0] * x + m_[0][1] * y)
                    new[i | t] = par * (m_[1][0] * x + m_[1][1] * y)
                else:
                    new[i] = new[i | t] = 0
        vec = new
    return vec


def same_operator(A, B, order, zero=()):
    """Do two gate lists agree up to one overall phase, on all inputs where the qubits `zero` are zero?"""
    n_ = len(order)
    zm = 0
    for i, q in enumerate(order):
        if q in zero:
            zm |= 1 << i
    ph = None
    for i in range(1 << n_):
        if i & zm:
            continue
        v = [0j] * (1 << n_)
        v[i] = 1 + 0j
        x, y = act(A, list(v), order), act(B, v, order)
        if ph is None:
            j = max(range(len(y)), key=lambda q: abs(y[q]))
            if abs(x[j]) < 1e-9:
                return False
            ph = x[j] / y[j]
            if abs(abs(ph) - 1) > 1e-9:
                return False
        if any(abs(p - ph * q) > 1e-7 for p, q in zip(x, y)):
            return False
    return True


def qubits_of(*lists):
    s = set()
    for l in lists:
        for x in l:
            if x[0] in ("U", "invalid"):
                s |= set(x[3] if x[0] == "U" else x[2]) | set(x[4] if x[0] == "U" else x[3])
            elif x[0] in ("M", "R"):
                s.add(x[1])
    return s


def show(gates):
    return " ".join("%s%s%s" % (g[1], g[3] if len(g) > 3 else "", "/ctrl %s" % (g[4],) if len(g) > 4 and g[4] else "") for g in gates if g[0] == "U")[:500]


def compare(chk, lab, got, want, order, zero=()):
    """Two sequences of gates and observations act alike."""
    bad = [x for x in got if x[0] == "invalid"]
    if bad:
        chk.bad(lab, "gate %s acts on its own control or twice on one qubit: %s %s" % bad[0][1:])
        return
    extra = qubits_of(got) - set(order)
    if extra:
        chk.bad(lab, "gates outside the register: %s" % sorted(extra))
        return
    G, W = segments(got), segments(want)
    og, ow = [x for x in G if isinstance(x, tuple)], [x for x in W if isinstance(x, tuple)]
    if observed(og) != observed(ow):
        chk.bad(lab, "observations %s instead of %s" % (og, ow))
        return
    for i, (x, y) in enumerate(zip(merge(G), merge(W))):
        if not same_operator(x, y, order, zero if i == 0 else ()):
            chk.bad(lab, "gates %s  do not act like  %s" % (show(x), show(y)))
            return
    chk.ok(lab, show(got))


def observed(obs):
    """Observations with runs of measurements as sets."""
    out = []
    for o in obs:
        if o[0] == "M" and out and out[-1][0] == "M":
            out[-1] = ("M", out[-1][1] | {o[1]})
        elif o[0] == "M":
            out.append(("M", frozenset({o[1]})))
        else:
            out.append(o)
    return out


def merge(seg):
    """Unitary parts between runs of observations."""
    out, last = [], None
    for x in seg:
        if isinstance(x, list):
            if last is not None and not x and out:
                continue
            out.append(x)
            last = None
        else:
            last = x
    if len(out) and isinstance(seg[-1], list) and not seg[-1] and len(seg) > 1:
        out.append([])
    return out


def U(name, q, *ctrl, par=1):
    return ("U", name, par, (q,), tuple(ctrl))


def paulis(word, reg, *ctrl, skip=None):
    """The letters of a Pauli word on their own qubits (Y as XZ)."""
    out = []
    for j, ch in enumerate(word):
        if j == skip or ch == "I":
            continue
        out.append(U(ch, (reg, j), *ctrl, par=-1j if ch == "Y" else 1))
    return out
