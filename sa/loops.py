"""Loop summaries: closed forms for the loop-carried values of symbolic loops."""
from .poly import P, leg, Poly, sym
from . import poly as PL
from . import ten as T
from .ten import Ten, Undecided, ShapeErr
from .vals import *
from . import seqs as SQ
from .interp import Flow, AbsRaise, Raise


# --------------------------------------------------------------------------- joining
def join(I, outs):
    """Merge exclusive outcomes [(guard, state)] into one state."""
    outs = [o for o in outs if o[1] is not None]
    if not outs:
        return None
    g, s = outs[-1]
    tot = s.pc
    for g2, s2 in reversed(outs[:-1]):
        npc = T._bool(T.add(s2.pc, s.pc))
        s = I.merge(g2, s2, s, npc)
    return s


# --------------------------------------------------------------------------- entry points
def for_loop(I, s, it, st, fr):
    segs = SQ.segs_of(I, st, it)

    def body(v, x):
        I.assign(s.target, v, x, fr)
        return I.exec_block(s.body, x, fr)
    flow = exec_segs(I, segs, st, body)
    if flow.st is not None and s.orelse:
        f2 = I.exec_block(s.orelse, flow.st, fr)
        flow = Flow(f2.st, flow.rets + f2.rets, flow.brks + f2.brks, f2.conts)
        outer_brk = f2.brks
    outs = list(flow.brks)
    if flow.st is not None:
        outs.append((flow.st.pc, flow.st))
    return Flow(join(I, outs), rets=flow.rets)


def exec_segs(I, segs, st, body):
    """Run body over the elements; breaks of the loop are returned in .brks."""
    cur = st
    out = Flow(None)
    for s in segs:
        if cur is None:
            break
        if isinstance(s, It):
            try:
                with T.with_facts(cur.facts.poly()):
                    f = body(s.v, cur)
            except AbsRaise as e:
                I.do_raise(cur, e.exc, None, e.msg)
                cur = None
                break
            nxt = list(f.conts)
            if f.st is not None:
                nxt.append((f.st.pc, f.st))
            out.rets += f.rets
            out.brks += f.brks
            cur = join(I, nxt)
        elif isinstance(s, Loop):
            f = sym_loop(I, s.leg, s.segs, cur, body)
            out.rets += f.rets
            out.brks += f.brks
            cur = f.st
        elif isinstance(s, Cond):
            f = I.branch(s.c, cur, lambda x: exec_segs(I, s.a, x, body), lambda x: exec_segs(I, s.b, x, body))
            out.rets += f.rets
            out.brks += f.brks
            cur = f.st
        else:
            raise Undecided("loop over a list under construction")
    out.st = cur
    return out


def comprehension(I, e, k, st, fr):
    if k == len(e.generators):
        return (It(I.ev(e.elt, st, fr)),)
    g = e.generators[k]
    it = I.ev(g.iter, st, fr)
    segs = SQ.segs_of(I, st, it)

    def elem(v):
        I.assign(g.target, v, st, fr)

        def conds(j):
            if j == len(g.ifs):
                return comprehension(I, e, k + 1, st, fr)
            c = I.decide(I.cond(g.ifs[j], st, fr), st) if I.split else I.cond(g.ifs[j], st, fr)
            b = st.facts.known(c)
            if b is True:
                return conds(j + 1)
            if b is False:
                return ()
            old, opc = st.facts, st.pc
            st.facts = old.copy()
            st.facts.assume(c, True)
            st.pc = T.land(opc, c)
            with T.with_facts(st.facts.poly()):
                r = conds(j + 1)
            st.facts, st.pc = old, opc
            return (Cond(c, r, ()),)
        return conds(0)

    def walk(ss):
        out = []
        for s in ss:
            if isinstance(s, It):
                out += elem(s.v)
            elif isinstance(s, Loop):
                octx, ofacts, opc = st.ctx, st.facts, st.pc
                st.ctx = octx + (s.leg,)
                st.facts = ofacts.copy()
                st.facts.ge.append(s.leg.dim - 1)
                st.pc = TRUE
                I.raises.append([])
                trace = st.trace
                st.trace = ()
                with T.with_facts(st.facts.poly()):
                    inner = walk(s.segs)
                rs = I.raises.pop()
                st.ctx, st.facts, st.pc = octx, ofacts, opc
                st.trace = trace + ((Eff("loop", s.leg, st.trace),) if st.trace else ())
                lift_raises(I, rs, s.leg, opc)
                if inner:
                    out.append(Loop(s.leg, inner))
            elif isinstance(s, Cond):
                old, opc = st.facts, st.pc
                st.facts = old.copy()
                st.facts.assume(s.c, True)
                st.pc = T.land(opc, s.c)
                with T.with_facts(st.facts.poly()):
                    a = walk(s.a)
                st.facts = old.copy()
                st.facts.assume(s.c, False)
                st.pc = T.land(opc, T.lnot(s.c))
                with T.with_facts(st.facts.poly()):
                    b = walk(s.b)
                st.facts, st.pc = old, opc
                if a or b:
                    out.append(Cond(s.c, a, b))
            else:
                raise Undecided("comprehension over a list under construction")
        return tuple(out)
    return walk(segs)


def lift_raises(I, rs, l, opc):
    for r in rs:
        try:
            g = T.exists(r.guard, [l])
        except Undecided:
            g = I.top_bool("raise in loop")
        I.raises[-1].append(Raise(T.land(opc, g), r.exc, r.where, r.msg))


# --------------------------------------------------------------------------- locations
def locs_diff(I, A, B):
    """Locations existing in state A whose contents differ in B."""
    out = []
    for f, env in A.envs.items():
        eb = B.envs.get(f)
        if eb is None or eb is env:
            continue
        for n, v in eb.items():
            if n == "$parent":
                continue
            a = env.get(n, UNBOUND)
            if a is not v and not I.same(a, v):
                out.append(("e", f, n))
    for a, o in A.heap.items():
        p = B.heap.get(a)
        if p is o or p is None:
            continue
        if type(p) is not type(o):
            out.append(("x", a))
        elif isinstance(o, HArr):
            if o.base is not None:
                continue
            if o.ten is p.ten or (o.ten is not None and p.ten is not None and o.ten.key() == p.ten.key()):
                continue
            out.append(("a", a))
        elif isinstance(o, HList):
            if len(o.segs) == len(p.segs) and all(SQ.seg_same(I, x, y) for x, y in zip(o.segs, p.segs)):
                continue
            out.append(("l", a))
        elif isinstance(o, HInst):
            for k, v in p.attrs.items():
                u = o.attrs.get(k, UNBOUND)
                if u is not v and not I.same(u, v):
                    out.append(("i", a, k))
        elif isinstance(o, HDict):
            for k, v in p.items.items():
                u = o.items.get(k, UNBOUND)
                if u is not v and not I.same(u, v):
                    out.append(("d", a, k))
    return out


def get_loc(I, st, loc):
    if loc[0] == "e":
        return st.envs[loc[1]].get(loc[2], UNBOUND)
    o = st.heap[loc[1]]
    if loc[0] == "a":
        return o.ten
    if loc[0] == "l":
        return o.segs
    if loc[0] == "i":
        return o.attrs.get(loc[2], UNBOUND)
    if loc[0] == "d":
        return o.items.get(loc[2], UNBOUND)
    return o


def set_loc(I, st, loc, v):
    if loc[0] == "e":
        st.envs[loc[1]] = dict(st.envs[loc[1]])
        st.envs[loc[1]][loc[2]] = v
        return
    o = st.heap[loc[1]]
    if loc[0] == "a":
        st.heap[loc[1]] = HArr(v, o.kind, o.dt, o.tag)
    elif loc[0] == "l":
        st.heap[loc[1]] = HList(v, o.kind, o.tag)
    elif loc[0] == "i":
        at = dict(o.attrs)
        at[loc[2]] = v
        st.heap[loc[1]] = HInst(o.cls, at, o.tag)
    elif loc[0] == "d":
        it = dict(o.items)
        it[loc[2]] = v
        st.heap[loc[1]] = HDict(it, o.tag, o.open)
    else:
        st.heap[loc[1]] = v


class Phi:
    """Loop-carried location: its start-of-iteration placeholder."""

    def __init__(self, loc, init):
        self.loc, self.init = loc, init
        self.id = "φ%d" % fresh()
        self.symdims = False
        self.noint = False
        self.closed = None        # function k -> value at the start of iteration k
        self.dims = None

    def atom(self, dims, t):
        flags = ["phi"]
        if "bool" in t.flags:
            flags += ["ind", "real", "nn"]
        elif not self.noint and T._intlike(t):
            flags += ["int", "real"]
        elif T.is_real(t) and not self.noint:
            flags += ["real"]
        return T.atom_in(self.id, dims, flags)

    def phi_ten(self, t):
        if self.symdims:
            self.dims = [P(sym("%sd%d" % (self.id, k))) for k in range(t.ndim)]
        else:
            self.dims = list(t.shape)
        e = T.entry(self.atom(self.dims, t))
        if "bool" in t.flags:
            e = Ten(e.axes, e.terms, ("bool",))
        return e

    def install(self, I, st, l):
        v = self.init
        if self.closed is not None:
            return set_loc(I, st, self.loc, self.wrap(I, st, self.closed(P(l)) if l is not None else v))
        set_loc(I, st, self.loc, self.make(I, st, v))

    def wrap(self, I, st, t):
        if self.loc[0] == "a" or not isinstance(self.init, Ref):
            return t
        o = st.heap[self.init.a]
        if isinstance(o, HArr) and isinstance(t, Ten):
            return st.new(HArr(t, o.kind, o.dt))
        return t

    def make(self, I, st, v):
        if self.loc[0] == "a":
            return self.phi_ten(v) if v is not None else None
        if self.loc[0] == "l":
            return (PhiSeg(self.id),)
        if isinstance(v, Ten):
            return self.phi_ten(v)
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, HArr):
                t = I.arr_ten(st, v)
                return st.new(HArr(self.phi_ten(t), o.kind, o.dt)) if t is not None else Top("loop-carried")
            if isinstance(o, HList):
                return st.new(HList((PhiSeg(self.id),), o.kind))
            return Top("loop-carried object")
        if isinstance(v, (str, SQ.SStr)) and not (isinstance(v, str) and len(v) > 1):
            return SQ.SStr((PhiSeg(self.id),))
        if v is UNBOUND:
            return UNBOUND
        return Obj("phi", id=self.id)


def phi_atoms(I, st, v, seen=None):
    """Ids of the loop-carried placeholders a value depends on."""
    if seen is None:
        seen = set()
    out = set()

    def ten(t):
        for k, a in T.atoms_of(t).items():
            if a.kind == "in" and "phi" in a.flags:
                out.add(a.key)
        for x in t.shape:
            poly(x)
        for q in t.terms:
            poly(q.coef)
            poly(q.lm)
            for f in q.fs:
                for p in f.idx:
                    poly(p)

    def poly(p):
        for s in p.symbols():
            if s.kind == "v" and s.name.startswith("φ"):
                out.add(s.name.split("d")[0])
            if s.key in SQ.SIZES:
                ten(SQ.SIZES[s.key])

    def go(v):
        if isinstance(v, Ten):
            ten(v)
        elif isinstance(v, tuple):
            for x in v:
                go(x)
        elif isinstance(v, Gam):
            go(v.c), go(v.a), go(v.b)
        elif isinstance(v, (SQ.SStr, Iter)):
            go(v.segs)
        elif isinstance(v, PhiSeg):
            out.add(v.id)
        elif isinstance(v, It):
            go(v.v)
        elif isinstance(v, Loop):
            poly(v.leg.dim)
            go(v.segs)
        elif isinstance(v, Cond):
            go(v.c), go(v.a), go(v.b)
        elif isinstance(v, Rng):
            go((v.a, v.b, v.step))
        elif isinstance(v, Obj):
            if v.kind == "phi":
                out.add(v.f["id"])
            else:
                for x in v.f.values():
                    go(x)
        elif isinstance(v, Eff):
            for x in v.args:
                go(x)
        elif isinstance(v, Ref):
            if v.a in seen:
                return
            seen.add(v.a)
            o = st.heap.get(v.a)
            if isinstance(o, HArr):
                t = I.arr_ten(st, v)
                if t is not None:
                    ten(t)
            elif isinstance(o, HList):
                go(o.segs)
            elif isinstance(o, HDict):
                for x in o.items.values():
                    go(x)
            elif isinstance(o, HInst):
                for x in o.attrs.values():
                    go(x)
    go(v)
    return out


# --------------------------------------------------------------------------- symbolic loop
def sym_loop(I, l, segs, st, body):
    N = l.dim
    if l.extra is not None:
        raise Undecided("loop over a filtered array")
    pre = st
    phis = {}
    pre_pc = st.pc
    final = None
    nev, nnote = len(I.events), len(I.notes)
    for attempt in range(12):
        del I.events[nev:]
        del I.notes[nnote:]
        s0 = pre.copy()
        s0.pc, s0.trace = TRUE, ()
        s0.ctx = pre.ctx + (l,)
        s0.facts.ge.append(N - 1)
        for ph in phis.values():
            ph.install(I, s0, l)
        start = s0.copy()
        I.raises.append([])
        try:
            with T.with_facts(s0.facts.poly()):
                flow = exec_segs(I, segs, s0, body)
        finally:
            rs = I.raises.pop()
        end = flow.st
        changed = set(locs_diff(I, start, end)) if end is not None else set()
        again = False
        for loc in changed:
            if loc not in phis:
                if loc[0] == "x":
                    raise Undecided("object changes type in a loop")
                phis[loc] = Phi(loc, get_loc(I, pre, loc))
                again = True
        if again:
            continue
        if end is None:
            break
        # shape-changing and integrality demotion
        for loc, ph in phis.items():
            if ph.closed is not None:
                continue
            nx = get_loc(I, end, loc)
            tn, ti = as_tensor(I, end, nx), as_tensor(I, pre, ph.init)
            if tn is None or ti is None:
                continue
            if tn.ndim == ti.ndim and not ph.symdims and ph.dims is not None:
                if any(not (x - y).is_zero() for x, y in zip(tn.shape, ph.dims)):
                    if ph.id in phi_atoms(I, end, nx):
                        ph.symdims = True
                        again = True
            if not ph.noint and not again and ph.id in phi_atoms(I, end, nx):
                if ((T._intlike(ti) and not T._intlike(tn)) or (T.is_real(ti) and not T.is_real(tn))) and ti.terms is not None:
                    ph.noint = True
                    again = True
        if again:
            continue
        # closed forms needed by other locations
        sols = {}
        deps = {}
        for loc, ph in phis.items():
            nx = get_loc(I, end, loc)
            deps[loc] = phi_atoms(I, end, nx)
        ids = {ph.id: loc for loc, ph in phis.items()}
        need = set()
        for loc, d in deps.items():
            need |= {ids[i] for i in d if i in ids and ids[i] != loc}
        for g, x in flow.brks:
            need |= {ids[i] for i in phi_atoms(I, x, g) if i in ids}
        for g, v, x in flow.rets:
            need |= {ids[i] for i in phi_atoms(I, x, (g, v)) if i in ids}
        need |= {ids[i] for i in phi_atoms(I, end, end.trace) if i in ids}
        for r in rs:
            need |= {ids[i] for i in phi_atoms(I, end, r.guard) if i in ids}
        # locations read at intermediate values inside applications depend on themselves
        for loc, ph in phis.items():
            if ph.closed is None and loc in need and deps[loc] <= {ph.id}:
                f = solve(I, pre, end, l, N, ph, get_loc(I, end, loc))
                if f is not None and f[0] == "closed":
                    ph.closed = f[1]
                    again = True
        if again:
            continue
        break
    else:
        raise Undecided("loop summary did not settle")
    F = pre.facts
    # --- raises
    for r in rs:
        lift_raises(I, [r], l, pre_pc)
    # --- exits
    b = FALSE
    for g, x in flow.brks:
        b = T._bool(T.add(b, g))
    rr = FALSE
    for g, v, x in flow.rets:
        rr = T._bool(T.add(rr, g))
    out = Flow(None)
    if flow.brks and flow.rets:
        raise Undecided("loop with both break and return")
    ids = {ph.id: ph for ph in phis.values()}
    if flow.brks or flow.rets:
        g = b if flow.brks else rr
        if phi_atoms(I, pre, g) & set(ids):
            raise Undecided("exit condition depends on loop-carried values")
        ex = T.exists(g, [l])
        p = P(select_sym("first", g, l, N))
        if flow.brks:
            x = join(I, flow.brks)
            ret = None
        else:
            outs = flow.rets
            gg, ret, x = outs[-1]
            for g2, v2, s2 in reversed(outs[:-1]):
                M = I.merge(g2, s2, x, T._bool(T.add(s2.pc, x.pc)))
                ret = I.merge_val(g2, s2, v2, x, ret, M)
                x = M
        S = x.copy()
        for loc in set(locs_diff(I, pre, x)) | set(phis):
            v = get_loc(I, x, loc)
            d = phi_atoms(I, x, v) & set(ids)
            if loc in phis and d == {phis[loc].id} and I.same(v if loc[0] != "l" else None, None) is False and False:
                pass
            if d:
                nv = break_list(I, S, v, loc, ids, end, l, p)
                v = nv
            else:
                v = sub_any(I, S, v, {l: p})
            set_loc(I, S, loc, v)
        if ret is not None:
            if phi_atoms(I, S, ret) & set(ids):
                ret = Top("returned from inside a loop")
            else:
                ret = SQ.subst_val(I, S, ret, {l: p})
        S.facts = F.copy()
        S.ctx = pre.ctx
        S.trace = pre.trace + ((Eff("loop", l, end.trace if end is not None else (), g, x.trace),)
                               if (x.trace or (end is not None and end.trace)) else ())
        S.pc = T.land(pre_pc, ex)
        if flow.brks:
            out.brks.append((S.pc, S))
        else:
            out.rets.append((S.pc, ret, S))
        npc = T.land(pre_pc, T.lnot(ex))
    else:
        npc = pre_pc
    if end is None:
        # every iteration leaves the loop: falling through means zero iterations
        if PL.nonneg(N - 1, F.poly()):
            return out
        z = pre.copy()
        z.pc = npc
        out.st = z
        return out
    # --- normal exit
    S = end.copy()
    S.facts = F.copy()
    S.ctx = pre.ctx
    S.trace = pre.trace + ((Eff("loop", l, end.trace) if not (flow.brks or flow.rets) else
                            Eff("loop", l, end.trace, b if flow.brks else rr, ()),) if end.trace else ())
    S.pc = npc
    best = find_best(I, pre, end, l, N, phis)
    for loc, ph in phis.items():
        nx = get_loc(I, end, loc)
        if ph.closed is not None:
            v = ph.wrap(I, S, ph.closed(N))
        else:
            v = None
            if best is not None:
                v = best_value(I, S, end, l, N, ph, nx, best)
            if v is None:
                f = solve(I, pre, end, l, N, ph, nx, set(ids), S)
                if f is None:
                    I.notes.append("%s: loop-carried value of %s not summarised" % (I.where(), loc_name(loc)))
                    v = Top("loop-carried value of %s" % loc_name(loc)) if loc[0] != "a" and loc[0] != "l" else None
                    if loc[0] == "l":
                        v = (PhiSeg("⊤%d" % fresh()),)
                elif f[0] == "closed":
                    v = ph.wrap(I, S, f[1](N))
                else:
                    v = f[1]
        set_loc(I, S, loc, v)
    out.st = S
    return out


def loc_name(loc):
    return str(loc[2]) if loc[0] in ("e", "i", "d") else "object"


def sub_any(I, S, v, mp):
    if isinstance(v, tuple) and v and isinstance(v[0], (It, Loop, Cond, PhiSeg)):
        return SQ.subst_segs(I, S, v, mp)
    return SQ.subst_val(I, S, v, mp) if v is not None else None


def break_list(I, S, v, loc, ids, end, l, p):
    """Value at a break of a location that depends on loop-carried state."""
    if loc[0] == "l" and isinstance(v, tuple):
        # only the break iteration adds to the list: the others left it alone
        pass
    return Top("value at break") if loc[0] not in ("a", "l") else (None if loc[0] == "a" else (PhiSeg("⊤%d" % fresh()),))


def as_tensor(I, st, v):
    if isinstance(v, Ten):
        return v
    if isinstance(v, Ref) and isinstance(st.heap.get(v.a), HArr):
        return I.arr_ten(st, v)
    return None


def select_sym(kind, t, l, N):
    """Index symbol: first iteration where t holds / arg-minimum of t over the loop."""
    x = leg(N)
    body = T.Ten(((x,),), [T._tsub(q, {l: P(x)}) for q in T.freshen(t).terms])
    body = T.mk(body.axes, body.terms)
    fl = sorted(T.free_legs(body), key=lambda s: s.key)
    k = body.key()
    args = [P(f) for f in fl]
    if fl:
        kk, order = T.canon_open([body], fl)
        s = PL.app("%s⟦%s⟧" % (kind, kk), *[P(o) for o in order], flags=("nn",))
        s_extra = (kind, body, order)
    else:
        s = PL.sym("%s⟦%s⟧" % (kind, k), flags=("nn",))
        s_extra = (kind, body, [])
    SELECT[s.key] = s_extra
    return s


SELECT = {}


# --------------------------------------------------------------------------- solving one location
def solve(I, pre, end, l, N, ph, nx, ids=None, S=None):
    """('closed', k -> value) or ('val', value) or None."""
    d = phi_atoms(I, end, nx)
    own = ph.id in d
    others = {x for x in d if x != ph.id and (ids is None or x in ids)}
    if ph.loc[0] == "l":
        return solve_list(I, pre, end, l, N, ph, nx, others)
    if isinstance(nx, SQ.SStr):
        segs = split_phi(nx.segs, ph.id)
        if segs is None or others:
            return None
        init = ph.init.segs if isinstance(ph.init, SQ.SStr) else tuple(It(c) for c in ph.init)
        return ("val", SQ.SStr(init + ((Loop(l, segs[1]),) if segs[1] else ()))) if not segs[0] else None
    if isinstance(nx, Ref) and isinstance(end.heap.get(nx.a), HList) and own:
        segs = split_phi(end.heap[nx.a].segs, ph.id)
        o = pre.heap.get(ph.init.a) if isinstance(ph.init, Ref) else None
        if segs is None or others or not isinstance(o, HList) or segs[0]:
            return None
        tgt = S if S is not None else pre
        return ("val", tgt.new(HList(o.segs + ((Loop(l, segs[1]),) if segs[1] else ()))))
    if isinstance(nx, tuple) and isinstance(ph.init, tuple) and not own and not others:
        return last_value(I, pre, end, l, N, ph, nx, S)
    if not own:
        if others:
            return None
        return last_value(I, pre, end, l, N, ph, nx, S)
    if others:
        return None
    t = as_tensor(I, end, nx)
    x0 = as_tensor(I, pre, ph.init)
    if t is None or x0 is None:
        if isinstance(nx, Gam):
            return solve_gam(I, pre, end, l, N, ph, nx, S)
        return None
    if ph.symdims:
        return solve_kron(I, t, x0, l, N, ph)
    return solve_ten(I, t, x0, l, N, ph)


def at_zero(I, pre, N, v, init, S):
    if PL.nonneg(N - 1, pre.facts.poly()):
        return v
    c = T.pos(T.from_poly(N))
    if init is None or isinstance(init, (Ten,)) and not isinstance(v, Ten):
        return Gam(c, v, init)
    return I.merge_val(c, S, v, S, init, S)


def last_value(I, pre, end, l, N, ph, nx, S):
    S = S if S is not None else end
    v = SQ.subst_val(I, S, nx, {l: N - 1}) if nx is not None else None
    if ph.loc[0] == "a":
        if PL.nonneg(N - 1, pre.facts.poly()) or v is None or ph.init is None:
            return ("val", v)
        return ("val", I.ite_ten(T.pos(T.from_poly(N)), v, ph.init))
    return ("val", at_zero(I, pre, N, v, ph.init, S))


def split_phi(segs, pid):
    """(before, after) when exactly one placeholder segment occurs at top level."""
    k = [i for i, s in enumerate(segs) if isinstance(s, PhiSeg) and s.id == pid]
    if len(k) != 1:
        return None
    rest = segs[:k[0]] + segs[k[0] + 1:]
    if any(has_phiseg(s) for s in rest):
        return None
    return segs[:k[0]], segs[k[0] + 1:]


def has_phiseg(s):
    if isinstance(s, PhiSeg):
        return True
    if isinstance(s, Loop):
        return any(has_phiseg(x) for x in s.segs)
    if isinstance(s, Cond):
        return any(has_phiseg(x) for x in s.a + s.b)
    return False


def solve_list(I, pre, end, l, N, ph, segs, others):
    if others:
        return None
    sp = split_phi(segs, ph.id)
    if sp is None:
        return None
    before, after = sp
    # the rest must not read the list itself
    for part in (before, after):
        if ph.id in phi_atoms(I, end, part):
            return None
    init = ph.init
    if before and not after:
        y = leg(N)
        return ("val", (Loop(y, SQ.subst_segs(I, end, before, {l: N - 1 - P(y)})),) + tuple(init))
    if before:
        return None
    return ("val", tuple(init) + ((Loop(l, after),) if after else ()))


def phi0(t, pid, val):
    """Replace the placeholder by a constant everywhere outside opaque functions of it."""
    def fn(f):
        if f.atom.kind == "in" and f.atom.key == pid:
            return T.const(val)
        return None
    return T.subst_atom(t, fn)


def put_phi(t, pid, x):
    """Replace the placeholder by the Ten x (indexed alike)."""
    def fn(f):
        if f.atom.kind == "in" and f.atom.key == pid:
            return T.index_all(x, f.idx)
        return None
    return T.subst_atom(t, fn)


def prefix_sum(g, l, k):
    """Sum of g over iterations before k."""
    y = leg(P(k))
    g = T.freshen(g)
    return T.sum_leg(T.Ten(g.axes, [T._tsub(q, {l: P(y)}) for q in g.terms]), y)


def solve_ten(I, t, x0, l, N, ph):
    phi = T.entry(T.atom_in(ph.id, ph.dims, ph.atom(ph.dims, x0).flags))
    try:
        h = phi0(t, ph.id, 0)
    except (Undecided, ShapeErr):
        return None
    own_h = any(a.key == ph.id for a in T.atoms_of(h).values())
    if not own_h:
        # accumulation
        try:
            if T.add(phi, h).key() == t.key():
                def cl(k, h=h):
                    return T.add(x0, prefix_sum(h, l, k))
                return ("closed", cl)
        except (Undecided, ShapeErr):
            pass
        # parity accumulation
        try:
            if "bool" not in x0.flags and T.mod2(T.add(phi, h)).key() == t.key():
                def cl(k, h=h):
                    return T.mod2(T.add(x0, prefix_sum(h, l, k)))
                return ("closed", cl)
        except (Undecided, ShapeErr):
            pass
        # conditional overwrite: t = (1-c)*phi + B
        try:
            A = phi0(T.sub(t, h), ph.id, 1)
            if not any(a.key == ph.id for a in T.atoms_of(A).values()) and \
                    T.add(T.mul(A, phi), h).key() == t.key():
                c = T.sub(T.full(A.shape, 1), A)
                r = solve_overwrite(I, c, h, x0, l, N)
                if r is not None:
                    return r
        except (Undecided, ShapeErr):
            pass
    # product
    return None


def pair_deltas(t, l, y):
    """delta(p(l)) delta(p(y)) = delta(p(l)) delta(l - y) for p linear with a constant coefficient."""
    out = []
    for q in t.terms:
        fs = list(q.fs)
        ds = [i for i, f in enumerate(fs) if f.atom is T.DELTA]
        for i in ds:
            for j in ds:
                p, r = fs[i].idx[0], fs[j].idx[0]
                if i == j or l not in p.legs() or y not in r.legs() or y in p.legs():
                    continue
                if any((p.subst({l: P(y)}) - s * r).is_zero() for s in (1, -1)):
                    c = p.coeff(l)
                    if c is not None and c[0].as_fr() is not None and l not in c[1].symbols():
                        fs[j] = T.Factor(T.DELTA, False, [P(l) - P(y)])
        out.append(T.Term(q.coef, q.lm, fs, q.bound))
    return T.mk(t.axes, out)


def solve_overwrite(I, c, B, x0, l, N):
    """x := (1-c(l)) x + B(l) with c an indicator, B = c*B."""
    if l not in T.free_legs(c) and l not in T.free_legs(B):
        return ("closed", lambda k: T.add(T.mul(T.sub(T.full(c.shape, 1), c), x0), B))
    if T.mul(c, B).key() != B.key() and B.terms:
        return None
    # disjoint writes: c(l) c(l') = delta(l-l') c(l)
    y = leg(N)
    c = T.freshen(c)
    c2 = T.Ten(c.axes, [T._tsub(q, {l: P(y)}) for q in c.terms])
    c2 = T.freshen(c2)
    prod = T.mul(c, T.mk(c2.axes, c2.terms))
    dl = T.delta(P(l) - P(y))
    paired = pair_deltas(prod, l, y)
    diag = all(any(f.atom is T.DELTA and (f.idx[0] - P(l) + P(y)).is_zero() or f.atom is T.DELTA and (f.idx[0] + P(l) - P(y)).is_zero()
                   for f in q.fs) for q in paired.terms)
    if T.mul(dl, c).key() in (prod.key(), paired.key()) or \
            diag and T.rename(paired, {y: P(l)}).key() == c.key():
        def cl(k):
            cs = prefix_sum(c, l, k)
            return T.add(T.mul(T.sub(T.full(cs.shape, 1), cs), x0), prefix_sum(B, l, k))
        return ("closed", cl)
    # same value written whenever the condition holds
    if c.ndim == 0:
        v = None
        if not B.terms:
            v = T.const(0)
        else:
            L = T.lead(B)
            Lc = T.lead(c)
            if L and Lc:
                k = P(Poly({(): L})) * P(Poly({(): PL.cinv(Lc)}))
                if T.scale(c, k).key() == B.key():
                    v = T.const(k)
        if v is None and B.ndim == 0:
            # value independent of the iteration: evaluate B with the condition set
            v = None
        if v is not None:
            ex = T.exists(c, [l])
            r = T.ite(ex, v, x0)
            if "bool" in x0.flags:
                r = Ten(r.axes, r.terms, ("bool",))
            return ("val", r)
        try:
            p = P(select_sym("last", c, l, N))
            ex = T.exists(c, [l])
            v = T.rename(B, {l: p})
            cv = T.rename(c, {l: p})
            return ("val", T.add(T.mul(T.lnot(ex), x0), T.mul(ex, v)))
        except Undecided:
            return None
    return None


def solve_kron(I, t, x0, l, N, ph):
    """x := M(l) (x) x or x (x) M(l)."""
    nd = x0.ndim
    rest = []
    side = None
    base_axes = None
    t = T.freshen(t)
    for q in t.terms:
        ks = [k for k, f in enumerate(q.fs) if f.atom.key == ph.id]
        if len(ks) != 1 or q.fs[ks[0]].exp != 1 or q.fs[ks[0]].conj:
            return None
        f = q.fs[ks[0]]
        sd = []
        maxes = []
        for j in range(nd):
            p = f.idx[j]
            ls = list(p.legs())
            if len(ls) != 1 or not (p - P(ls[0])).is_zero() or ls[0] not in t.axes[j]:
                return None
            k = t.axes[j].index(ls[0])
            if k == 0:
                sd.append("R" if len(t.axes[j]) > 1 else "?")
                maxes.append(tuple(t.axes[j][1:]))
            elif k == len(t.axes[j]) - 1:
                sd.append("L")
                maxes.append(tuple(t.axes[j][:-1]))
            else:
                return None
        s1 = set(sd) - {"?"}
        if len(s1) != 1 or (side is not None and s1 != {side}):
            return None
        side = list(s1)[0]
        if base_axes is not None and base_axes != maxes:
            return None
        base_axes = maxes
        rest.append(T.Term(q.coef, q.lm, [g for k, g in enumerate(q.fs) if k != ks[0]], q.bound))
    if base_axes is None:
        return None
    M = T.mk(base_axes, rest)
    if any(a.key == ph.id for a in T.atoms_of(M).values()):
        return None
    if l not in T.free_legs(M):
        q = T.single(M)
        if q is not None and not q.bound and len(q.fs) == 1 and q.coef.const() == T.ONE and q.fs[0].atom.kind in ("in", "tpow") \
                and M.key() in (T.entry(q.fs[0].atom).key(), T.conjugate(T.entry(q.fs[0].atom)).key()):
            at, cj = q.fs[0].atom, q.fs[0].conj

            def cl(k):
                e = T.entry(T.atom_tpow(at, P(k)))
                if cj:
                    e = T.conjugate(e)
                return T.kron(e, x0) if side == "L" else T.kron(x0, e)
            return ("closed", cl)

    def cl2(k):
        return kron_seq(M, x0, l, P(k), side)
    return ("closed", cl2)


def kron_seq(M, x0, l, k, side):
    """x0 (x) M(0) (x) ... (x) M(k-1) (side R)."""
    m = k
    if side == "R":
        M1 = T.rename(M, {l: P(l) - 1}) if l in T.free_legs(M) else M
        # absorb the initial factor when it is the preceding element of the same sequence
        M0 = T.rename(M, {l: P(-1)}) if l in T.free_legs(M) else M
        if x0.ndim == M0.ndim and x0.key() == M0.key():
            return kron_atom(T.rename(M, {l: P(l) - 1}) if l in T.free_legs(M) else M, l, k + 1, side)
    r = kron_atom(M, l, k, side)
    if all(d.as_int() == 1 for d in x0.shape):
        return T.mul(r, T.mk((), x0.terms))
    return T.kron(x0, r) if side == "R" else T.kron(r, x0)


def kron_atom(M, l, k, side):
    y = leg(k)
    M = T.freshen(M)
    st = T.stack_leg(T.Ten(M.axes, [T._tsub(q, {l: P(y)}) for q in M.terms]), y)
    if side == "L":
        st = T.slice_axis(st, 0, 0, k, -1)
    dims = []
    for d in M.shape:
        q = d.pow(k)
        dims.append(q if q is not None else P(PL.app("pow", d, k, flags=("pos",))))
    return T.app_atom("kronseq", [st], dims)


def solve_gam(I, pre, end, l, N, ph, nx, S):
    """x := v if c else x for a value that is not numeric."""
    arms = [(nx.c, nx.a, nx.b), (T.lnot(nx.c), nx.b, nx.a)]
    for c, v, w in arms:
        if is_phi_val(I, end, w, ph) and ph.id not in phi_atoms(I, end, v):
            ex = T.exists(c, [l])
            p = P(select_sym("last", c, l, N))
            tgt = S if S is not None else end
            vv = SQ.subst_val(I, tgt, v, {l: p})
            return ("val", I.merge_val(ex, tgt, vv, tgt, ph.init, tgt))
    return None


def is_phi_val(I, st, w, ph):
    if isinstance(w, Obj) and w.kind == "phi":
        return w.f["id"] == ph.id
    if w is UNBOUND:
        return ph.init is UNBOUND
    t = as_tensor(I, st, w)
    if t is not None and ph.dims is not None:
        return t.key() == T.entry(T.atom_in(ph.id, ph.dims, ph.atom(ph.dims, t).flags)).key() or \
            T.single(t) is not None and len(T.single(t).fs) == 1 and T.single(t).fs[0].atom.key == ph.id
    return False


# --------------------------------------------------------------------------- best-so-far
def find_best(I, pre, end, l, N, phis):
    """(kind, objective v(l), condition key, negated) of a best-so-far update, if there is one."""
    for loc, ph in phis.items():
        if ph.closed is not None:
            continue
        nx = get_loc(I, end, loc)
        t = as_tensor(I, end, nx)
        if t is None or t.ndim or ph.id not in phi_atoms(I, end, nx):
            continue
        cands = {}
        for k, a in T.atoms_of(t).items():
            if a.kind == "app" and a.fname == "pos":
                for q in t.terms:
                    for f in q.fs:
                        if f.atom.key == a.key:
                            cands[T._fstr(f, {})] = f
        phi = T.entry(T.atom_in(ph.id, (), ph.atom((), as_tensor(I, pre, ph.init)).flags))
        for f in cands.values():
            def fix(v, f=f):
                ks = T._fstr(f, {})
                return T.subst_atom(t, lambda g: T.const(v) if T._fstr(g, {}) == ks else None)
            v1, v0 = fix(1), fix(0)
            C = T.mk((), [T.Term(P(1), P(1), [f], ())])
            for newv, oldv, neg in ((v1, v0, False), (v0, v1, True)):
                if oldv.key() != phi.key():
                    continue
                if any(a.key == ph.id for a in T.atoms_of(newv).values()):
                    continue
                lt = T.pos(T.sub(phi, newv))     # new value is smaller
                gt = T.pos(T.sub(newv, phi))
                Cn = T.lnot(C) if neg else C
                kind = None
                if Cn.key() == lt.key() or Cn.key() == T.lnot(gt).key():
                    kind = "argmin"
                elif Cn.key() == gt.key() or Cn.key() == T.lnot(lt).key():
                    kind = "argmax"
                if kind:
                    if {x for x in phi_atoms(I, end, newv)}:
                        continue
                    return dict(kind=kind, v=newv, f=f, neg=neg, loc=loc, ph=ph, C=C,
                                init=as_tensor(I, pre, ph.init))
    return None


def is_inf(t):
    q = T.single(t) if isinstance(t, Ten) else None
    return q is not None and len(q.fs) == 1 and q.fs[0].atom.key == "∞" and t.ndim == 0


def best_value(I, S, end, l, N, ph, nx, best):
    """Final value of a location updated exactly when the best-so-far improves."""
    f, neg = best["f"], best["neg"]
    ks = T._fstr(f, {})
    t = as_tensor(I, end, nx)
    if t is not None:
        if not any(T._fstr(g, {}) == ks for q in t.terms for g in q.fs):
            return None

        def fix(v):
            return T.subst_atom(t, lambda g: T.const(v) if T._fstr(g, {}) == ks else None)
        new, old = (fix(0), fix(1)) if neg else (fix(1), fix(0))
        q = T.single(old)
        if not (q is not None and len(q.fs) == 1 and q.fs[0].atom.key == ph.id):
            return None
        if ph.id in phi_atoms(I, end, new):
            return None
        new = new if not isinstance(nx, Ref) else I.new_arr(S, new)
    elif isinstance(nx, Gam):
        if nx.c.key() == best["C"].key():
            new, old = (nx.b, nx.a) if neg else (nx.a, nx.b)
        elif nx.c.key() == T.lnot(best["C"]).key():
            new, old = (nx.a, nx.b) if neg else (nx.b, nx.a)
        else:
            return None
        if not is_phi_val(I, end, old, ph):
            return None
    else:
        return None
    p = P(select_sym(best["kind"], best["v"], l, N))
    v = SQ.subst_val(I, S, new, {l: p})
    init = best["init"]
    if is_inf(init) if best["kind"] == "argmin" else is_inf(T.neg(init)):
        return v
    vb = T.rename(best["v"], {l: p})
    c = T.pos(T.sub(init, vb)) if best["kind"] == "argmin" else T.pos(T.sub(vb, init))
    return I.merge_val(c, S, v, S, ph.init, S)


# --------------------------------------------------------------------------- while
def while_loop(I, s, st, fr):
    """Concrete unrolling, counted loops, otherwise an opaque fixpoint."""
    cur = st
    out = Flow(None)
    for k in range(60):
        c = I.decide(I.cond(s.test, cur, fr), cur)
        kn = cur.facts.known(c)
        if kn is False:
            break
        if kn is None:
            f = while_sym(I, s, cur, fr)
            out.rets += f.rets
            out.brks += f.brks
            cur = f.st
            break
        f = I.exec_block(s.body, cur, fr)
        out.rets += f.rets
        out.brks += f.brks
        nxt = list(f.conts)
        if f.st is not None:
            nxt.append((f.st.pc, f.st))
        cur = join(I, nxt)
        if cur is None:
            break
    outs = list(out.brks)
    if cur is not None:
        if s.orelse:
            f2 = I.exec_block(s.orelse, cur, fr)
            out.rets += f2.rets
            cur = f2.st
        if cur is not None:
            outs.append((cur.pc, cur))
    return Flow(join(I, outs), rets=out.rets)


def while_sym(I, s, st, fr):
    """Loop with a symbolic trip count: counted when the test is counter < bound."""
    pre = st
    phis = {}
    for attempt in range(8):
        s0 = pre.copy()
        s0.pc, s0.trace = TRUE, ()
        for ph in phis.values():
            ph.install(I, s0, None)
        start = s0.copy()
        I.raises.append([])
        try:
            c = I.cond(s.test, s0, fr)
            s0.facts.assume(c, True)
            f = I.exec_block(s.body, s0, fr)
        finally:
            rs = I.raises.pop()
        nxt = list(f.conts)
        if f.st is not None:
            nxt.append((f.st.pc, f.st))
        end = join(I, nxt)
        if end is None:
            raise Undecided("while loop leaves on every path")
        ch = set(locs_diff(I, start, end))
        new = [x for x in ch if x not in phis]
        if not new:
            break
        for x in new:
            phis[x] = Phi(x, get_loc(I, pre, x))
    # counted loop: test is counter < bound
    for loc, ph in phis.items():
        nx = get_loc(I, end, loc)
        t, x0 = as_tensor(I, end, nx), as_tensor(I, pre, ph.init)
        if t is None or x0 is None or t.ndim:
            continue
        phi = T.entry(T.atom_in(ph.id, (), ph.atom((), x0).flags))
        step = T.as_poly(T.sub(t, phi))
        x0p = T.as_poly(x0)
        if step is None or x0p is None or step.as_int() not in (1, -1):
            continue
        for b in loop_bounds(c, phi, step.as_int()):
            n = (b - x0p) if step.as_int() == 1 else (x0p - b)
            if not n.legs() and PL.nonneg(n + 1, pre.facts.poly()):
                l = leg(n)

                def body(v, x):
                    # the induction variable is a loop-carried location like any other
                    return I.exec_block(s.body, x, fr)
                return sym_loop(I, l, (It(None),), pre, body)
    S = pre.copy()
    rec = dict(I=I, test=c, init={x: get_loc(I, pre, x) for x in phis}, phis=phis, end=end, pre=pre,
               names={loc_name(x): x for x in phis}, func=I.stack[-1][0] if I.stack else "?", brks=f.brks, rets=f.rets)
    I.loops.append(rec)
    for r in rs:
        I.raises[-1].append(Raise(I.top_bool("raise in while loop"), r.exc, r.where, r.msg))
    for loc, ph in phis.items():
        v = Obj("mu", loop=len(I.loops) - 1, loc=loc_name(loc)) if loc[0] in ("e", "i", "d") else None
        if loc[0] == "l":
            v = (PhiSeg("μ%d.%s" % (len(I.loops) - 1, "list%d" % loc[1])),)
        x0 = as_tensor(I, pre, ph.init) if loc[0] != "a" else ph.init
        if isinstance(x0, Ten) and x0.ndim == 0:
            v = T.inp("μ%d.%s" % (len(I.loops) - 1, loc_name(loc)), flags=("mu",))
        set_loc(I, S, loc, v)
    return Flow(S)


def loop_bounds(c, phi, step):
    """Candidate bounds b such that c is exactly phi < b (step 1) or phi > b (step -1)."""
    t = T.single(c)
    neg = False
    for cc, neg in ((c, False), (T.lnot(c), True)):
        t = T.single(cc)
        if t is None or t.bound or len(t.fs) != 1 or t.coef.const() != T.ONE or t.fs[0].atom.kind != "app" or t.fs[0].atom.fname != "pos":
            continue
        a = T.rename(t.fs[0].atom.args[0], dict(zip(t.fs[0].atom.params, t.fs[0].idx)))
        for sg in (1, -1):
            r = T.as_poly(T.add(a, T.scale(phi, sg)))
            if r is None:
                continue
            # a = r - sg*phi
            if sg == 1:      # pos(r - phi): phi < r ; negated: phi >= r
                if step == 1 and not neg:
                    yield r
                if step == -1 and neg:
                    yield r - 1
            else:            # pos(r + phi): phi > -r ; negated: phi <= -r
                if step == -1 and not neg:
                    yield -r
                if step == 1 and neg:
                    yield -r + 1
