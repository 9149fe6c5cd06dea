"""O03: every initial guess passes the Lipschitz test, or failure is reported."""
from .common import *
from sa import paths
from sa.paths import explore

OP = "PyQCodes._optimize."
PM = "PyQCodes.chan.param."
RULE = ("trace partitioning of the sampler: for every number of guesses and tries up to the bound, every combination of outcomes of the acceptance test is one abstract path over "
        "symbolic candidates and an uninterpreted objective; on each, accepted vectors, their objective values, the success flag, the number of draws and the path condition "
        "equal those of the Lipschitz rule")

REF = """
def sampler(f, nsize, rank, param, chan, n, numb_samples, numb_tries):
    xs = [param.random_vectors(nsize, rank)]
    rs = [param.rho_from_vec(xs[0], nsize, rank)]
    fs = [-f(xs[0], nsize, rank, param, chan, n)]
    tries = 0
    while tries < numb_tries and len(xs) < numb_samples:
        x = param.random_vectors(nsize, rank)
        r = param.rho_from_vec(x, nsize, rank)
        if np.max(fs) <= np.min([fs[i] + np.sum(np.abs(r - rs[i])) for i in range(len(xs))]):
            xs.append(x)
            rs.append(r)
            fs.append(-f(x, nsize, rank, param, chan, n))
        tries += 1
    return xs, fs, len(xs) == numb_samples
sampler
"""


def session(chk, decider):
    s = chk.session()
    s.I.decider = decider
    return s


def outcome(s, chan, r, mark):
    o = {}
    xs, fs, ok = r
    try:
        xs, fs = items(s, xs), items(s, fs)
        o["number of guesses"] = len(xs)
        o["number of values"] = len(fs)
        for i, x in enumerate(xs):
            o["guess %d" % i] = s.ten(x)
        for i, x in enumerate(fs):
            o["value %d" % i] = s.ten(x)
        o["success"] = s.I.truth(s.st, ok)
    except Undecided as e:
        o["result"] = "lost: %s" % e
    return o


def sampler(chk, par, m, tries, kw, f):
    D, R = (di, r) if par == "OverParam" else (P(2), P(2))
    cls = {}

    def one(make):
        def run(decider):
            s = session(chk, decider)
            D_, R_ = s.num(D), s.num(R)
            if P(D).as_int() is None:
                s.fact(P(D) - P(R))
            chan = s.st.new(HList([], "list"))

            def objective(I, st, a, k, node=None):
                if len(a) != 6 or a[4] is not chan or not same_class(a[3], param):
                    raise Undecided("objective called with other arguments")
                return T.app_atom("objective", [I.ten(st, a[0]), I.ten(st, a[1]), I.ten(st, a[2]), I.ten(st, a[5])], [], flags=("real",))
            param = get(s, PM + par)
            args = [PyFn("objective", objective), D_, R_, param, chan, s.num(n)]
            with T.with_facts(s.st.facts.poly()):
                fn = make(s)
                if kw:
                    out = s.call(fn, *args, numb_samples=s.num(m), numb_tries=s.num(tries))
                else:
                    out = s.call(fn, *args, s.num(m), s.num(tries))
                o = outcome(s, chan, out, 0)
            s.draws = sum(1 for e in s.st.trace if e.kind == "draw")
            return s, o
        return run
    got = explore(one(lambda s: get(s, OP + "initial_guesses_lipschitz")), [OP], limit=24)
    want = explore(one(lambda s: s.py(REF)), ["reference"], limit=24)
    return got, want


def same_class(x, y):
    return getattr(x, "qual", repr(x)) == getattr(y, "qual", repr(y))


def case(s, par, m, tries, kw):
    got, want = sampler(s.chk, par, m, tries, kw, None)
    s.chk.eqpaths(s.name, got, want)
    draws = 1 if par == "OverParam" else 2
    for g in got:
        s.chk.claim(s.name + ": candidates", g.ses.draws <= draws * (tries + 1), "%d vectors drawn for %d tries" % (g.ses.draws // draws, tries))
    if not got.complete:
        raise Undecided("more paths than the bound")


def run(c):
    top = 4 if c.deep else 3
    for m in range(1, top + 1):
        for t in range(0, top + 1):
            c.scenario("overparam, %d guesses, %d tries" % (m, t), case, "OverParam", m, t, True)
    c.scenario("cholesky, 2 guesses, 2 tries", case, "CholeskyParam", 2, 2, False)
