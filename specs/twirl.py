"""Circuits of Hadamards and phases that depend on random draws: rewriting, rounds, and the twirling protocol."""
from .common import *
from .circuits import *
from sa.vals import Eff
import math
import itertools

PI2 = 2 * math.pi
RULE_CANCEL = "gates on disjoint qubits and phases commute, equal-qubit phases add, and H H = 1"


def pi_mul(q):
    return Fr(q)


class Draws:
    """The random values of a run: key -> list of possible values (None when not a finite choice)."""

    def __init__(self, I, leg=None):
        self.known = I.draws
        self.leg = leg          # index of the trial, when the trials are a symbolic loop

    def name(self, f):
        """(draw, entry) of a factor that is a random value."""
        if f.atom.kind == "in" and f.atom.key in self.known:
            ix = tuple("trial" if self.leg is not None and p == P(self.leg) else p.as_int() for p in f.idx)
            if None in ix:
                raise NoCircuit("entry %r of a draw" % (f,))
            return (f.atom.key,) + ix
        return None

    def entries(self, t, out=None):
        out = set() if out is None else out
        for x in t.terms:
            if x.bound and any(f.atom.key in self.known for f in x.fs):
                raise NoCircuit("phase sums over draws")
            for f in x.fs:
                q = self.name(f)
                if q is not None:
                    out.add(q)
                elif f.atom.kind == "app":
                    for A in f.atom.args:
                        if isinstance(A, Ten):
                            self.entries(A, out)
        return out

    def value(self, t, env):
        """Number of a phase under an assignment of the draws."""
        r = T.subst_atom(t, lambda f: env.get(self.name(f)))
        left = set(T.atoms_of(r)) - {"π"}
        if left:
            raise NoCircuit("phase depends on %s" % sorted(left)[0][:80])
        if not r.terms:
            return 0.0
        v = complex(rand.Env((0, 0)).entry(r, [], {}))
        if abs(v.imag) > 1e-9:
            raise NoCircuit("complex angle")
        return v.real

    def choices(self, q):
        """Values of one draw; continuous draws are probed at two points."""
        vs = self.known[q[0]]
        if vs is None:
            if q[0].startswith(("rnd:uniform", "rnd:normal")):
                return [T.const(Fr(37, 100)), T.const(Fr(61, 100))]
            raise NoCircuit("draw %s" % q[0][:60])
        return vs

    def table(self, t, limit=1000):
        """All values of a phase, one per combination of its draws."""
        qs = sorted(self.entries(t), key=str)
        cs = [self.choices(q) for q in qs]
        if math.prod(map(len, cs)) > limit:
            raise NoCircuit("phase with too many draws")
        return [self.value(t, dict(zip(qs, v))) for v in itertools.product(*cs)]

    def trivial(self, t):
        if not t.terms:
            return True
        return all(near0(v) for v in self.table(t))


def near0(v):
    return abs((v + math.pi) % PI2 - math.pi) < 1e-9


HALF = Fr(1, 2)


def angle(s):
    return s


def ops_of(trace, pi):
    """Recorded gates as H on a qubit and phases diag(1, .., 1, e^{i t}) on a set of qubits; None if another gate occurs."""
    out = []

    def D(qs, t):
        out.append(("D", frozenset(qs), t))

    for e in trace:
        name, par, tg, ctrl = e.args
        tg = tuple(qname(q) for q in tg)
        ctrl = tuple(qname(q) for c in ctrl for q in (c if isinstance(c, tuple) else (c,)))
        qs = tg + ctrl
        if len(set(qs)) != len(qs):
            return ("invalid", name, qs)
        if name == "R":
            D(qs, single(par[0]))
        elif name in ("Rz", "Ph"):
            if name == "Rz":
                D(ctrl, T.scale(single(par[0]), P(-HALF)))
            D(qs if name == "Rz" else ctrl, single(par[0]))
        elif name == "phase":
            raise NoCircuit("phase gate")
        elif name == "H" and not ctrl:
            out.append(("H", tg[0]))
        elif name in ("Z", "S", "Sdag", "T", "Tdag"):
            D(qs, T.scale(pi, P({"Z": Fr(1), "S": Fr(1, 2), "Sdag": Fr(-1, 2), "T": Fr(1, 4), "Tdag": Fr(-1, 4)}[name])))
        elif name == "X":
            out.append(("H", tg[0]))
            D(qs, pi)
            out.append(("H", tg[0]))
        else:
            raise NoCircuit("gate %s" % name)
    return [o for o in out if o[0] == "H" or o[1]]


def single(t):
    if isinstance(t, (int, float, Fr)):
        return T.const(Fr(t))
    if not isinstance(t, Ten):
        raise NoCircuit("angle %r" % (t,))
    for ax in t.axes:
        if T.axdim(ax).as_int() != 1:
            raise NoCircuit("angle is an array")
    while t.ndim:
        t = T.index_axis(t, 0, P(0))
    return t


def touches(a, b):
    qa = {a[1]} if a[0] == "H" else a[1]
    qb = {b[1]} if b[0] == "H" else b[1]
    return not (a[0] == b[0] == "D") and bool(qa & qb)


def reduce(ops, dr):
    """Cancel and merge until nothing changes."""
    ops = [o for o in ops if o[0] == "H" or not dr.trivial(o[2])]
    again = True
    while again:
        again = False
        out = []
        for o in ops:
            j = len(out) - 1
            while j >= 0:
                p = out[j]
                if p[0] == o[0] and p[1] == o[1]:
                    if o[0] == "H":
                        del out[j]
                    else:
                        t = T.add(p[2], o[2])
                        if dr.trivial(t):
                            del out[j]
                        else:
                            out[j] = ("D", o[1], t)
                    again = True
                    break
                if touches(p, o):
                    j = -1
                else:
                    j -= 1
            if j < 0:
                out.append(o)
        ops = out
    return ops


def operator(ops, dr, env, order):
    """Columns of the operator of a circuit under an assignment."""
    pos = {q: i for i, q in enumerate(order)}
    cols = []
    vals = [None if o[0] == "H" else dr.value(o[2], env) for o in ops]
    for c in range(1 << len(order)):
        v = [0j] * (1 << len(order))
        v[c] = 1 + 0j
        for o, val in zip(ops, vals):
            if o[0] == "H":
                b_ = 1 << pos[o[1]]
                w = list(v)
                for i in range(len(v)):
                    if not i & b_:
                        w[i], w[i | b_] = (v[i] + v[i | b_]) * 2 ** -.5, (v[i] - v[i | b_]) * 2 ** -.5
                v = w
            else:
                m_ = sum(1 << pos[q] for q in o[1])
                ph = cmath.exp(1j * val)
                v = [x * ph if i & m_ == m_ else x for i, x in enumerate(v)]
        cols.append(v)
    return cols


def identity_for_all(ops, dr, order, chk, lab):
    """Does the circuit act as the identity whatever is drawn?"""
    left = reduce(ops, dr)
    if not left:
        chk.ok(lab, "%d gates cancel: %s" % (len(ops), RULE_CANCEL))
        return
    qs = sorted(set().union(*(dr.entries(o[2]) for o in ops if o[0] == "D")) if ops else set(), key=str)
    if len(order) <= 4:
        for trial in range(24):
            env = {q: dr.choices(q)[int(rand.h01("twirl", trial, str(q)) * len(dr.choices(q)))] for q in qs}
            M = operator(ops, dr, env, order)
            ph = M[0][0]
            if abs(abs(ph) - 1) > 1e-7 or any(abs(x - (ph if i == j else 0)) > 1e-7 for j, col in enumerate(M) for i, x in enumerate(col)):
                chk.bad(lab, "with draws %s the circuit followed by its inverse is not the identity; first gates that do not cancel: %s"
                        % (", ".join("%s=%s" % (q[0].split("#")[-1] + str(list(q[1:])), v.key()[:12]) for q, v in list(env.items())[:6]), shown(left[:4])))
                return
    chk.unk(lab, "gates left after cancelling: %s" % shown(left[:4]))


def shown(ops):
    return " ".join("H(%s)" % (o[1],) if o[0] == "H" else "phase%s(%s)" % (sorted(o[1]), o[2].key()[:60]) for o in ops)


def rounds(ops, order):
    """Split into rounds of phases closed by H on every qubit; None when not of that form."""
    out, cur, hs = [], [], set()
    for o in ops:
        if o[0] == "H":
            if o[1] in hs:
                return None
            hs.add(o[1])
            if hs == set(order):
                out.append(cur)
                cur, hs = [], set()
        else:
            if hs & o[1]:
                return None
            cur.append(o)
    return None if hs or cur else out


def distribution(vals):
    r = {}
    for v in vals:
        k = round((v % PI2) / PI2 * 1e6) % 1000000
        r[k] = r.get(k, 0) + 1
    return r


THIRDS = {0, 333333, 666667}
HALVES = {0, 500000}


def design(ops, dr, order, nrounds, chk, lab, used=None):
    """A two-design: nrounds rounds of one draw per qubit and one per ordered pair."""
    used = set() if used is None else used
    ops = [o for o in ops if o[0] == "H" or not dr.trivial(o[2])]
    rs = rounds(ops, order)
    if rs is None:
        nh = [sum(1 for o in ops if o == ("H", q)) for q in order]
        left = [o for o in ops if o[0] == "H"]
        if any(h != nrounds for h in nh):
            chk.bad(lab, "Hadamards per qubit %s instead of %d" % (nh, nrounds))
        else:
            chk.bad(lab, "not rounds of phases followed by Hadamards on all qubits: %s" % shown(ops[:6]))
        return
    if len(rs) != nrounds:
        chk.bad(lab, "%d rounds instead of %d" % (len(rs), nrounds))
        return
    for i, rd in enumerate(rs):
        tot, cnt = {}, {}
        for o in rd:
            es = dr.entries(o[2])
            if es & used:
                chk.bad(lab, "round %d: a draw is used for two gates: %s" % (i, shown([o])))
                return
            if dr.leg is not None and any("trial" not in e for e in es):
                chk.bad(lab, "round %d: the trials share a draw: %s" % (i, shown([o])))
                return
            used |= es
            tot[o[1]] = T.add(tot[o[1]], o[2]) if o[1] in tot else o[2]
            cnt[o[1]] = cnt.get(o[1], 0) + 1
        want = {frozenset([q]): THIRDS for q in order}
        want.update({frozenset(p): HALVES for p in itertools.combinations(order, 2)})
        for S in tot:
            if S not in want:
                chk.bad(lab, "round %d: a phase on the qubits %s" % (i, sorted(S)))
                return
        for S, ok in want.items():
            if S not in tot:
                chk.bad(lab, "round %d: no random phase on %s" % (i, sorted(S)))
                return
            d = distribution(dr.table(tot[S]))
            cont = any(dr.known[e[0]] is None for e in dr.entries(tot[S]))
            if set(d) - ok or not cont and (set(d) != ok or len(set(d.values())) != 1):
                chk.bad(lab, "round %d: the phase on %s is distributed as %s (in units of 2 pi) instead of uniformly over %s"
                        % (i, sorted(S), {k / 1e6: v for k, v in sorted(d.items())}, sorted(k / 1e6 for k in ok)))
                return
            if cont:
                chk.unk(lab, "round %d: continuous draw" % i)
                return
            need = 1 if len(S) == 1 else 2
            ne = len(dr.entries(tot[S]))
            if ne != need:
                chk.bad(lab, "round %d: %d draws for the phases on %s instead of %d" % (i, ne, sorted(S), need))
                return
    chk.ok(lab, "%d rounds on %d qubits, %d draws" % (len(rs), len(order), len(used)))


# ------------------------------------------------------------------ the protocol of one estimate
DEV = "PyQCodes.device_adaptor.ProjectQDeviceAdaptor"
RESET = ("dealloc", "alloc", "backend")


def count(eps, nq):
    """2 ceil(log2(1/eps)/n) + 1 in exact arithmetic."""
    eps = Fr(eps)
    l = 0
    while True:             # smallest l >= log2(1/eps)/n, i.e. 2**(n l) >= 1/eps
        if Fr(2) ** (nq * l) * eps >= 1 and not Fr(2) ** (nq * (l - 1)) * eps >= 1:
            return max(2 * l + 1, 0)
        l += 1 if Fr(2) ** (nq * l) * eps < 1 else -1


def pi(s):
    return s.ten(s.py("np.pi"))


def lost(trace):
    for e in trace:
        if e.kind == "lost" or e.kind in ("if", "loop") and any(contains(x) or isinstance(x, tuple) and any(isinstance(y, Eff) and y.kind == "call" for y in x)
                                                                  for x in e.args):
            raise NoCircuit("gates under an undecided %s" % e.kind)


def gates(trace):
    lost(trace)
    return [e for e in trace if e.kind == "gate"]


def box(name):
    """A caller's circuit: records how it is called."""
    def f(I, st, a, k):
        qs = mq.flat(I, st, a[1]) if len(a) > 1 else mq.flat(I, st, k["register"]) if "register" in k else None
        eng = a[0] if a else k.get("eng")
        st.trace += (Eff("call", name, eng, tuple(qs or ()), tuple(a[2:]), tuple(sorted((x, y) for x, y in k.items() if x not in ("eng", "register")))),)
        return None
    return PyFn(name, f)


def trials(trace):
    """The events of each trial; a trial starts at the first reset after the calls of the one before."""
    out, called = [[]], False
    for e in trace:
        if e.kind in ("warn",):
            continue
        if e.kind in RESET and called and any(x.kind == "read" for x in out[-1]):
            out.append([])
            called = False
        if e.kind == "call":
            called = True
        out[-1].append(e)
    if len(out) > 1 and not any(x.kind in ("gate", "call", "read") for x in out[-1]):
        out.pop()
    return out


def protocol(s, lab, ev, reg, names, eng, eps, used, cheat, leg=None):
    """One trial: reset, design, the circuits `names`, inverse, measure, read. Returns (register, reads), or None when wrong."""
    chk, nq = s.chk, len(reg)
    dr, p = Draws(s.I, leg), pi(s)
    lost(ev)
    i = 0
    fresh = False
    while i < len(ev) and ev[i].kind not in ("gate", "call", "read"):
        e = ev[i]
        if e.kind == "alloc":
            k = T.as_poly(e.args[1]).as_int()
            if k != nq:
                chk.bad(lab, "allocates %s qubits instead of %d" % (k, nq))
                return None
            reg, fresh = [(str(e.args[0]), j) for j in range(nq)], True
        elif e.kind == "dealloc":
            fresh = False
        elif e.kind == "backend":
            wf, on = (list(e.args[0]) + [None, None])[:2]
            if not isinstance(wf, Ten):
                raise NoCircuit("wave function not seen")
            vals = [T.as_poly(T.index_axis(wf, 0, P(j))) for j in range(1 << nq)] if T.axdim(wf.axes[0]).as_int() == 1 << nq else None
            if vals is None or any(v is None or v.const() is None for v in vals):
                chk.bad(lab, "the register is set to %s" % wf.key()[:80])
                return None
            on = [qname(x) for x in mq.flat(s.I, s.st, on)]
            if any(complex(float(v.const()[0]), float(v.const()[1])) != (j == 0) for j, v in enumerate(vals)) or on != reg:
                chk.bad(lab, "the qubits %s are set to %s instead of all zeros" % (on, [v.const() for v in vals]))
                return None
            fresh = True
        i += 1
    if not fresh:
        chk.bad(lab, "the register is not reset to all zeros before the trial")
        return None
    sets = any(e.kind == "backend" for e in ev[:i])
    if sets != bool(cheat):
        chk.bad(lab, "the wave function is set although that is not asked for" if sets else "the wave function is not set although that is asked for")
        return None
    later = [e for e in ev[i:] if e.kind in RESET]
    calls = [j for j, e in enumerate(ev) if e.kind == "call"]
    if [ev[j].args[0] for j in calls] != list(names):
        chk.bad(lab, "applies %s instead of %s" % (" then ".join(ev[j].args[0] for j in calls) or "no circuit", " then ".join(names)))
        return None
    for j in calls:
        _, en, qs, extra, kw = ev[j].args
        if en is not eng and not (isinstance(en, Obj) and en.kind == "engine"):
            chk.bad(lab, "%s is given the engine %r" % (ev[j].args[0], en))
            return None
        if [qname(q) for q in qs] != reg:
            chk.bad(lab, "%s is applied to %s instead of the register %s" % (ev[j].args[0], [qname(q) for q in qs], reg))
            return None
    mid = [e for e in ev[calls[0]:calls[-1]] if e.kind in ("gate", "read")]
    if mid:
        chk.bad(lab, "a gate or reading between the circuits: %s" % (mid[0].args[0],))
        return None
    A, rest = [e for e in ev[i:calls[0]] if e.kind in ("gate", "read")], [e for e in ev[calls[-1]:] if e.kind in ("gate", "read")]
    obs = [j for j, e in enumerate(rest) if e.kind == "read" or e.args[0] == "Measure"]
    if any(e.kind == "read" or e.args[0] == "Measure" for e in A):
        chk.bad(lab, "a qubit is measured or read before the channel is applied")
        return None
    B, O = rest[:obs[0]] if obs else rest, rest[obs[0]:] if obs else []
    seen = set()
    reads = []
    for e in O:
        if e.kind == "gate" and e.args[0] == "Measure":
            seen |= {qname(q) for q in e.args[2]}
        elif e.kind == "gate":
            chk.bad(lab, "gate %s is applied after a measurement" % e.args[0])
            return None
        else:
            q = qname(e.args[0])
            if q not in seen:
                chk.bad(lab, "qubit %s is read without being measured" % (q,))
                return None
            reads.append(q)
    if seen != set(reg):
        chk.bad(lab, "measures the qubits %s of the register %s" % (sorted(seen), reg))
        return None
    A, B = ops_of(A, p), ops_of(B, p)
    for x, w in ((A, "design"), (B, "inverse")):
        if isinstance(x, tuple):
            chk.bad(lab, "gate %s acts twice on one qubit" % x[1])
            return None
        out = {q for o in x for q in ([o[1]] if o[0] == "H" else o[1])} - set(reg)
        if out:
            chk.bad(lab, "%s acts on qubits outside the register: %s" % (w, sorted(out)))
            return None
    design(A, dr, reg, count(eps, nq), chk, lab + ": the two-design", used)
    identity_for_all(A + B, dr, reg, chk, lab + ": the inverse with this trial's phases")
    if later:
        i = ev.index(later[0])
        if i < len(ev) and any(e.kind in ("gate", "call", "read") for e in ev[i:]):
            chk.bad(lab, "the register is reset in the middle of the trial")
            return None
    return reg, reads


def frequency(s, lab, value, bits):
    """The value is the mean over the trials of 'all bits are zero'."""
    chk = s.chk
    ats = sorted({m_ for t in bits for _, m_ in t})
    if not isinstance(value, Ten):
        chk.unk(lab, "value %r" % (value,))
        return
    left = {k for k, a in T.atoms_of(value).items() if a.kind == "in" and k.startswith("meas#")} - set(ats)
    if left:
        raise NoCircuit("value uses %s" % sorted(left)[0])
    if len(ats) > 10:
        raise NoCircuit("too many bits")
    for v in itertools.product((0, 1), repeat=len(ats)):
        env = dict(zip(ats, v))
        r = T.subst_atom(value, lambda f: T.const(env[f.atom.key]) if f.atom.key in env else None)
        if any(a.kind == "in" for a in T.atoms_of(r).values() if a.key != "δ"):
            raise NoCircuit("value depends on %s" % sorted(T.atoms_of(r))[0][:60])
        got = complex(rand.Env((0, 0)).entry(r, [], {})) if r.terms else 0
        want = sum(all(env[m_] == 0 for _, m_ in t) for t in bits) / len(bits)
        if abs(got - want) > 1e-9:
            chk.bad(lab, "outcomes %s give %g instead of %g" % ({"%s of trial %d" % (q, i): env[m_] for i, t in enumerate(bits) for q, m_ in t}, got.real, want))
            return
    chk.ok(lab, "equal for all %d outcomes" % (1 << len(ats)))


def numbered(trace):
    """Names of the bits of the readings of a trace, in order (every draw or reading takes the next number)."""
    k, out = 0, []
    for e in trace:
        if e.kind == "draw":
            k += 1
        elif e.kind == "read":
            k += 1
            out.append("meas#%d" % k)
    return out


def estimate(s, lab, trace, value, reg, names, eng, eps, nt, cheat, before=()):
    """An estimate of nt trials."""
    chk = s.chk
    nq = len(reg)
    if nt is None:
        ls = [e for e in trace if e.kind == "loop" and any(contains(x) or isinstance(x, tuple) and any(isinstance(y, Eff) and y.kind == "call" for y in x) for x in e.args)]
        if len(ls) != 1 or len(ls[0].args) != 2:
            raise NoCircuit("trials are not recorded as one loop")
        tr, where = [list(ls[0].args[1])], "any trial"
        if [e for e in trace if e.kind in ("gate", "call", "read")]:
            raise NoCircuit("gates outside the trials")
    else:
        lost(trace)
        tr = trials(trace)
        if len(tr) != nt:
            chk.bad(lab, "%d trials instead of %d" % (len(tr), nt))
            return
    nb = len(numbered(flatten(before)))
    names_ = numbered(flatten(before) + flatten(trace))[nb:]
    used, bits, k = set(), [], 0
    for i, ev in enumerate(tr):
        r = protocol(s, lab + ": trial %d" % (i + 1) if nt is not None else lab + ": any trial", ev, reg, names, eng, eps, used, cheat, ls[0].args[0] if nt is None else None)
        if r is None:
            return
        reg, reads = r
        mine = {}
        for q in reads:
            mine.setdefault(q, names_[k])
            k += 1
        if len(mine) != len(reads):
            raise NoCircuit("a qubit is read twice")
        if set(mine) != set(reg):
            chk.bad(lab, "reads %s of the register %s" % (sorted(mine), reg))
            return
        bits.append(sorted(mine.items()))
    if nt is not None:
        frequency(s, lab + ": counts trials with all outcomes zero", value, bits)
        return
    l = ls[0].args[0]
    want = T.const(1)
    for _, m_ in bits[0]:
        a_ = T.atoms_of(value).get(m_)
        if a_ is None:
            chk.bad(lab, "the outcome of a qubit does not count")
            return
        bit = T.mk((), [T.Term(P(1), P(1), [T.Factor(a_, False, [P(l)])], ())])
        want = T.mul(want, T.sub(T.const(1), bit))
    lv = T.mk(((l,),), want.terms)
    tot = T.sum_axes(lv, [0])
    chk.eq(s, lab + ": mean over the trials", value, T.div(tot, T.from_poly(l.dim)))


def flatten(trace):
    out = []
    for e in trace:
        out += flatten(e.args[1]) if e.kind == "loop" else [e]
    return out
