"""X02: every name, attribute and call of the library resolves on every path."""
from .common import *
from .borrow import *
from sa.resolve import Lib as Source, Resolver

RULE = ("name resolution, path-sensitive definite assignment, attribute lookup on inferred library types and argument binding over the source of every "
        "library function; and, over the abstract runs of the other properties' configurations, no path ends in an undefined name, a missing attribute of "
        "a library object or a call its signature rejects")


def unresolved(exc, msg):
    """Is the exception a failure to resolve something of the library?"""
    if exc in ("NameError", "UnboundLocalError"):
        return True
    if exc == "AttributeError":
        return True
    return exc == "TypeError" and any(x in msg for x in ("() takes", "() got", "() missing"))


def judge(chk, name, sessions):
    bad = {}
    for s in sessions:
        for r in s.I.raises[0]:
            if not unresolved(r.exc, r.msg) or "PyQCodes" not in r.where:
                continue
            w = surely(s, r.guard)
            if w is not False:
                k = (r.exc, r.msg, r.where)
                bad[k] = bad.get(k, False) or w is True
    for (exc, msg, where), sure in bad.items():
        (chk.bad if sure else chk.unk)("run of " + name, "%s: %s at %s" % (exc, msg, where), where)


def static(c):
    r = Resolver(Source(c.root))
    n = {}
    for status, kind, where, line, detail in r.run():
        if status == "holds":
            n[kind, where] = n.get((kind, where), 0) + 1
        elif status == "violated":
            c.bad("%s in %s" % (kind, where), detail, "%s:%d" % (where, line))
        else:
            c.unk("%s in %s" % (kind, where), detail, "%s:%d" % (where, line))
    for (kind, where), k in sorted(n.items()):
        c.ok("%s in %s" % (kind, where), "%d uses resolve" % k)
    for f in r.fns:
        c.covered.add(f.where)


def members(s, what, rep, props):
    """Every public property of an object, whatever it was built from."""
    from . import C07, circuits
    from sa import mq
    din, dout = P(di).pow(P(a)), P(do).pow(P(b))
    if what == "choi":
        ch = T.inp("J", P(di).pow(P(a)) * P(do).pow(P(b)), P(di).pow(P(a)) * P(do).pow(P(b)))
        v = s.st.new(HArr(ch, "nd", "c", "arg:J"))
        if rep == "channel":
            o = s.call(get(s, CH + "AnalyticQChan"), v, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do))
        else:
            o = s.call(get(s, "PyQCodes.chan._choi.ChoiQutip"), v, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do))
    elif what == "kraus":
        ops, _ = C07.ops_value(s, "nd", K, dout, din)
        f, kw = C07.ctor(s, *rep)
        s.fact(P(K) - 1)
        o = s.call(f, ops, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do), **kw)
    elif what == "code":
        arr = s.py("np.array([[1,0,0,1,0,0,1,1,0,0],[0,1,0,0,1,0,0,1,1,0],[1,0,1,0,0,0,0,0,1,1],[0,1,0,1,0,1,0,0,0,1]])") if rep == "array" else \
            s.py("['XZZXI', 'IXZZX', 'XIXZZ', 'ZXIXZ']")
        o = s.call(s.get("PyQCodes.codes.StabilizerCode"), arr, s.num(5), s.num(1))
    else:
        eng, reg = circuits.engine(s, 2), circuits.qreg(s, 2)
        if what == "adaptor":
            o = s.call(s.get("PyQCodes.device_adaptor.ProjectQDeviceAdaptor"), eng, reg)
        else:
            o = s.call(s.get("PyQCodes.find_codes.QDeviceChannel"), eng, reg, PyFn("chan", lambda I, st, args, kw: None))
    for p in props:
        try:
            s.attr(o, p)
        except AbsRaise:
            pass


def objects(c, src):
    def props(name):
        k = next((x for x in src.classes if x.name == name), None)
        if k is None:
            return []
        return sorted({n for y in src.mro(k) for n in y.props})
    for rep in (("channel", "dense"), ("channel", "sparse"), ("kraus", "dense"), ("kraus", "sparse")):
        nm = "AnalyticQChan" if rep[0] == "channel" else "DenseKraus" if rep[1] == "dense" else "SparseKraus"
        c.scenario("members of %s %s" % (nm, rep[1]), members, "kraus", rep, props(nm))
    c.scenario("members of AnalyticQChan choi", members, "choi", "channel", props("AnalyticQChan"))
    c.scenario("members of ChoiQutip", members, "choi", "choi", props("ChoiQutip"))
    for form in ("array", "strings"):
        c.scenario("members of StabilizerCode from " + form, members, "code", form, props("StabilizerCode"))
    c.scenario("members of ProjectQDeviceAdaptor", members, "adaptor", "", props("ProjectQDeviceAdaptor"))
    c.scenario("members of QDeviceChannel", members, "qdev", "", props("QDeviceChannel"))


def run(c):
    if not Source(c.root).mods:
        raise Anchor("package PyQCodes")
    static(c)
    b = Borrow(c, judge)
    objects(b, Source(c.root))
    b.everything()
    b.into(c)
