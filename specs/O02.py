"""O02: the optimized objective is the documented one, with the caller's settings."""
from .common import *
from sa.paths import explore
from .O01 import samples, OpaqueObjectives

CO = "PyQCodes.chan._coherent."
PM = "PyQCodes.chan.param."
RULE = ("abstract runs of optimize_coherent and optimize_fidelity; the function handed to the optimizer, evaluated at a symbolic vector, equals minus the coherent information "
        "(or the fidelity, over pure states) of the decoded state at the requested use count; bounds, starts, iteration limit and pool size handed over are the caller's; "
        "the reported value is the negated (not negated) minimum, divided by n once when regularized; unknown names are rejected")
CLS = {"overparam": "OverParam", "cholesky": "CholeskyParam"}


def setup(s, par, n, what):
    small = par == "cholesky"
    if P(n).as_int() is None:
        s.fact(P(n) - 2)
    d = 2 if small else di
    if what == "fidelity":
        c = Chan(s, "dense", "channel", dims=(d, d), qubits=(1, 1))
    else:
        c = Chan(s, "dense", "channel", dims=(d, do), qubits=(1, 1))
    D = power_dim(c.di, n)
    R = P(1) if what == "fidelity" else P(2) if small else P(r)
    s.fact(D - R)
    nv = SQ.as_size(s.ten(s.meth(get(s, PM + CLS[par]), "numb_variables", s.num(D), s.num(R))))
    return c, D, R, nv


def start(s, c, what, n, R, par, **kw):
    s.I.optruns.clear()
    s.I.pools.clear()
    s.I.opaque_objective = OpaqueObjectives()
    a = [s.num(n)] + ([s.num(R)] if what == "coherent" else [])
    return s.meth(c.o, "optimize_" + what, *a, param=par, **kw)


REF = {
    "coherent": "-c.coherent_information(p.rho_from_vec(x, D, R), n)",
    "fidelity": "c.fidelity_two_states(p.rho_from_vec(x, D, R), n)",
}


def objective(s, c, what, n, D, R, par, nv):
    x = s.st.new(HArr(T.inp("ξ", nv, flags=("real",)), "nd", "f"))
    return s.ten(s.py(REF[what], c=c.o, p=get(s, PM + CLS[par]), x=x, D=s.num(D), R=s.num(R), n=s.num(n)))


def common_claims(s, c, what, n, D, R, par, nv):
    if not s.I.optruns:
        (s.chk.unk if s.I.notes else s.chk.bad)(s.name + ": optimizer", "no optimizer is run %s" % s.I.notes[:1])
        return None
    want = objective(s, c, what, n, D, R, par, nv)
    bw = s.ten(s.meth(get(s, PM + CLS[par]), "bounds", s.num(D), s.num(R)))
    seen = set()
    for rec in s.I.optruns:
        o = rec.get("objective_full", rec["objective"])
        if isinstance(o, Top):
            s.chk.unk(s.name + ": objective", o.why)
            continue
        b = rec["bounds"]
        key = (o.key(), b.key() if isinstance(b, Ten) else repr(b))
        if key in seen:
            continue
        seen.add(key)
        s.chk.eq(s, s.name + ": objective", o, want)
        if isinstance(b, Ten):
            s.chk.eq(s, s.name + ": bounds", b, bw)
        elif b is None:
            s.chk.bad(s.name + ": bounds", "no bounds are given to the optimizer")
        else:
            s.chk.unk(s.name + ": bounds", b.why)
    return s.I.optruns[-1]


def value(s, out, f, what, n, reg):
    f = T.neg(f) if what == "coherent" else f
    if reg:
        f = T.mul(f, T.recip(s.num(n)) if hasattr(T, "recip") else s.ten(s.py("1 / n", n=s.num(n))))
    s.chk.eq(s, s.name + ": reported value", s.py("d['optimal_val']", d=out), f)


def num_is(s, name, v, want):
    if isinstance(v, Ten) or isinstance(v, (int, float)):
        s.chk.eq(s, name, v, s.num(want) if not isinstance(want, Ten) else want)
    elif isinstance(v, Top):
        s.chk.unk(name, v.why)
    else:
        s.chk.bad(name, "%r instead of %s" % (v, want))


def slsqp(s, what, par, n, pool, reg=False):
    c, D, R, nv = setup(s, par, n, what)
    s.fact(P(L) - 1)
    xs, lst = samples(s, nv, L)
    kw = dict(optimizer="slsqp", samples=lst, maxiter=s.num(sym("mi")), use_pool=s.num(pool))
    if reg:
        kw["regularized"] = TRUE
    out = start(s, c, what, n, R, par, **kw)
    rec = common_claims(s, c, what, n, D, R, par, nv)
    if rec is None:
        return
    opts = rec["kw"]["options"]
    mi = opts.f["items"].get("maxiter") if isinstance(opts, Obj) and "items" in opts.f else None
    num_is(s, s.name + ": iteration limit", mi, sym("mi"))
    m = rec["kw"]["method"]
    s.chk.claim(s.name + ": method", isinstance(m, str) and m.lower() == "slsqp", "method %r" % (m,))
    l = [x for x in T.free_legs(rec["x0"])]
    x0 = rec["x0"]
    if len(l) == 1:
        s.chk.eq(s, s.name + ": starting points", T.mk(((l[0],),) + x0.axes, x0.terms), s.ten(xs))
    else:
        s.chk.unk(s.name + ": starting points", "not one run per start")
    if pool:
        pa, pk = s.I.pools[-1] if s.I.pools else ((), {})
        num_is(s, s.name + ": pool size", pk.get("processes", pk.get("nodes", pk.get("ncpus", pa[0] if pa else None))), pool)
    else:
        s.chk.claim(s.name + ": no pool", not s.I.pools, "a pool is started")


def diffev(s, what, par, n, own, reg=False):
    c, D, R, nv = setup(s, par, n, what)
    kw = dict(optimizer="diffev", maxiter=s.num(sym("mi")))
    if own:
        s.fact(P(L) - 5)
        xs, kw["samples"] = samples(s, nv, L)
    if reg:
        kw["regularized"] = TRUE
    out = start(s, c, what, n, R, par, **kw)
    rec = common_claims(s, c, what, n, D, R, par, nv)
    if rec is None:
        return
    num_is(s, s.name + ": iteration limit", rec["kw"]["maxiter"], sym("mi"))
    init = rec["kw"]["init"]
    if own:
        if isinstance(init, Ten):
            s.chk.eq(s, s.name + ": starting points", init, s.ten(xs))
        elif isinstance(init, str):
            s.chk.bad(s.name + ": starting points", "population %r instead of the given starts" % init)
        else:
            s.chk.unk(s.name + ": starting points", "population %r" % (init,))
    else:
        s.chk.claim(s.name + ": population", isinstance(init, str), "population %r without given starts" % (init,))
    o = rec["objective"]
    value(s, out, T.app_atom("opt_fun:diffev", [o], [], flags=("real",)), what, n, reg)
    s.chk.eq(s, s.name + ": reported state", s.py("d['optimal_rho']", d=out),
             s.ten(s.meth(get(s, PM + CLS[par]), "rho_from_vec", s.st.new(HArr(T.app_atom("opt_x:diffev", [o], [nv], flags=("real",)), "nd", "f")), s.num(D), s.num(R))))


def lipschitz(s, what, optimizer, own):
    """Sampled starts join the caller's; a sampler that fails stops the run."""
    chk = s.chk

    def go(decider):
        t = chk.session()
        t.I.decider = decider
        t.name = s.name
        c, D, R, nv = setup(t, "overparam", 1, what)
        kw = dict(optimizer=optimizer, lipschitz=t.num(2))
        rows = []
        if own:
            rows = [t.arr("x%d" % i, nv, dt="f", flags=("real",)) for i in range(3)]
            kw["samples"] = t.lst(list(rows), "arg:samples")
        o = {}
        with T.with_facts(t.st.facts.poly()):
            try:
                out = start(t, c, what, 1, R, "overparam", **kw)
            except AbsRaise as e:
                return t, {"raised": e.exc}
            rec = common_claims(t, c, what, 1, D, R, "overparam", nv)
            o["starts"] = None
            vec = [t.ten(x) for x in rows]
            if optimizer == "diffev":
                o["starts"] = rec["kw"]["init"]
            else:
                o["starts"] = [q["x0"] for q in t.I.optruns]
            o["own"] = vec
        return t, o
    ps = explore(go, ["PyQCodes._optimize."], limit=8 if chk.deep else 3)
    good = 0
    for p in ps:
        if "raised" in p.out:
            continue
        good += 1
        st_, own_ = p.out["starts"], p.out["own"]
        rows = None
        if isinstance(st_, Ten) and st_.ndim == 2:
            k = T.axdim(st_.axes[0]).as_int()
            rows = [T.index_axis(st_, 0, P(i)) for i in range(k)] if k is not None else None
        elif isinstance(st_, list):
            rows = st_
        if rows is None:
            chk.unk(s.name + ": starts", "population %r" % (st_,))
            continue
        keys = {x.key() for x in rows}
        want = {x.key() for x in own_}
        chk.claim(s.name + ": the caller's starts are used", want <= keys, "a given start is not used")
        rnd = [k for k in keys if "rnd:" in k]
        chk.claim(s.name + ": the sampled starts are used", len(keys) == len(want) + 2 and len(rnd) == 2, "%d starts besides the caller's" % (len(keys) - len(want)))
    chk.claim(s.name + ": a completed sampler runs", good > 0, "no path reaches the optimizer")


def unknown(s, what, key, val):
    c, D, R, nv = setup(s, "overparam", 1, what)
    xs, lst = samples(s, nv, L)
    s.fact(P(L) - 5)
    kw = dict(optimizer="slsqp", samples=lst)
    par = "overparam"
    if key == "param":
        par = val
    else:
        kw[key] = val
    s.chk.rejects(s, s.name, lambda: start(s, c, what, 1, R, par, **kw))


def unknown_objective(s):
    c, D, R, nv = setup(s, "overparam", 1, "coherent")
    xs, lst = samples(s, nv, L)
    s.fact(P(L) - 5)
    s.chk.rejects(s, s.name, lambda: s.call(get(s, CO + "optimize_procedure"), c.o, s.num(1), s.num(R), optimizer="slsqp", samples=lst, objective="purity"))


def run(c):
    for what in ("coherent", "fidelity"):
        for par in ("overparam", "cholesky"):
            for k in ((1, 2, n) if par == "overparam" else (1,)):
                if what == "fidelity" and k != 1 and not c.deep:
                    continue
                for pool in (0, 3):
                    c.scenario("%s slsqp %s, n=%s, pool %s" % (what, par, k, pool), slsqp, what, par, k, pool)
                for own in (False, True):
                    c.scenario("%s diffev %s, n=%s%s" % (what, par, k, ", own starts" if own else ""), diffev, what, par, k, own)
        for key, val in (("optimizer", "nelder"), ("param", "bloch")):
            c.scenario("%s: unknown %s" % (what, key), unknown, what, key, val)
        for opt in ("slsqp", "diffev"):
            for own in (False, True):
                c.scenario("%s: sampled starts, %s%s" % (what, opt, ", own starts" if own else ""), lipschitz, what, opt, own)
    for k in (1, 3, n):
        c.scenario("coherent regularized, n=%s" % k, diffev, "coherent", "overparam", k, False, True)
    c.scenario("unknown objective", unknown_objective)
