"""O01: the reported optimum is the best run, with that run's value, state and success."""
from .common import *
from sa import loops

CO = "PyQCodes.chan._coherent."
PM = "PyQCodes.chan.param."
RULE = ("abstract runs of optimize_procedure over a list of starting points of any length: value, state and success flag are those of one run, the run whose minimized "
        "objective is lowest; the state is the parameterization of that run's final vector for the given size and rank; one process and a pool give the same result")


class OpaqueObjectives(dict):
    """Objective terms stand for themselves here: what is minimized is the subject of O02."""

    def __bool__(self):
        return True


def objective_of(s):
    o = s.I.optruns[0]["objective"]
    if isinstance(o, Top):
        raise Undecided("objective: %s" % o.why)
    return o


def best(s, xs, L, lab, rank, par, D, sign):
    """Reference: arg-minimum over the runs started at xs (array L x nv), with the objective the code handed over."""
    o = objective_of(s)
    nv = T.axdim(xs.axes[1])
    l = leg(P(L))
    x0 = T.index_axis(xs, 0, P(l))
    f = T.app_atom("opt_fun:" + lab, [x0, o], [], flags=("real",))
    x = T.app_atom("opt_x:" + lab, [x0, o], [nv], flags=("real",))
    ok = T.app_atom("opt_ok:" + lab, [x0, o], [], flags=("ind", "real", "nn"))
    p = P(loops.select_sym("argmin", f, l, P(L)))
    f, x, ok = [T.index_axis(T.mk(((l,),) + q.axes, q.terms), 0, p) for q in (f, x, ok)]
    return finish(s, x, f, ok, rank, par, D, sign)


def finish(s, x, f, ok, rank, par, D, sign):
    rho = s.meth(get(s, PM + par), "rho_from_vec", s.st.new(HArr(x, "nd", "f")), s.num(D), s.num(rank))
    return T.neg(f) if sign < 0 else f, s.ten(rho), ok


def setup(s, par, rank, objective):
    d = (3 if s.chk.deep else 2) if par == "cholesky" else di
    if objective == "fidelity":
        c = Chan(s, "dense", "channel", dims=(d, d), qubits=(1, 1))
    else:
        c = Chan(s, "dense", "channel", dims=(d, do), qubits=(1, b))
    D, R = c.di, P(rank)
    s.fact(D - R)
    cls = {"overparam": "OverParam", "cholesky": "CholeskyParam"}[par]
    nv = s.meth(get(s, PM + cls), "numb_variables", s.num(D), s.num(R))
    nv = SQ.as_size(s.ten(nv))
    return c, D, R, cls, nv


def samples(s, nv, L):
    xs = s.arr("x", L, nv, dt="f", flags=("real",))
    l = leg(P(L))
    row = T.index_axis(s.ten(xs), 0, P(l))
    ref = s.st.new(HList((Loop(l, (It(s.st.new(HArr(row, "nd", "f", "arg:samples"))),)),), "list", "arg:samples"))
    return xs, ref


def run_proc(s, c, n, R, **kw):
    mark = len(s.raises())
    s.I.optruns.clear()
    s.I.opaque_objective = OpaqueObjectives()
    out = s.call(get(s, CO + "optimize_procedure"), c.o, s.num(n), s.num(R), **kw)
    return out, mark


def compare(s, out, ref, mark):
    val, rho, ok = ref
    for key, want in (("optimal_val", val), ("optimal_rho", rho), ("success", ok)):
        got = s.py("d[k]", d=out, k=key)
        s.chk.eq(s, s.name + ": " + key, got, want, extra=("opt_fun:minimize:slsqp", "opt_fun:diffev"))
    s.chk.no_raise(s, s.name, mark, within=CO)


def slsqp(s, par, objective, pool, rank):
    c, D, R, cls, nv = setup(s, par, rank, objective)
    xs, lst = samples(s, nv, L)
    s.fact(P(L) - 1)
    out, mark = run_proc(s, c, 1, R, optimizer="slsqp", param=par, objective=objective, samples=lst, use_pool=s.num(pool))
    compare(s, out, best(s, s.ten(xs), L, "minimize:slsqp", R, cls, D, -1 if objective == "coherent" else 1), mark)


def diffev(s, par, objective, own, rank):
    c, D, R, cls, nv = setup(s, par, rank, objective)
    kw = {}
    if own:
        xs, lst = samples(s, nv, L)
        s.fact(P(L) - 5)
        kw["samples"] = lst
    out, mark = run_proc(s, c, 1, R, optimizer="diffev", param=par, objective=objective, **kw)
    o = objective_of(s)
    x = T.app_atom("opt_x:diffev", [o], [nv], flags=("real",))
    f = T.app_atom("opt_fun:diffev", [o], [], flags=("real",))
    ok = T.app_atom("opt_ok:diffev", [o], [], flags=("ind", "real", "nn"))
    compare(s, out, finish(s, x, f, ok, R, cls, D, -1 if objective == "coherent" else 1), mark)


def run(c):
    for par in ("overparam", "cholesky"):
        for objective, rank in (("coherent", r if par == "overparam" else 2), ("fidelity", 1)):
            for pool in (0, 3):
                c.scenario("slsqp %s %s pool %s" % (par, objective, pool), slsqp, par, objective, pool, rank)
            for own in (False, True):
                c.scenario("diffev %s %s%s" % (par, objective, " own starts" if own else ""), diffev, par, objective, own, rank)
