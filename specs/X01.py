"""X01: library calls leave their arguments and hidden global state alone."""
import ast

from .common import *
from .borrow import *
from sa import check as CK, mq
from sa.resolve import Lib as Source, walk_own, text, params

RULE = ("over the abstract runs of every property's configurations: the heap reachable from the arguments of each public call is the same before and after it, "
        "and no run reseeds the global generator or stores to module-level data; constructed objects share no mutable storage with their arguments; "
        "over the source: no function stores to module or class data, mutates a default argument or reseeds the generator")

SELFLESS = ("StabilizerCode",)     # instances whose contents count as arguments


# ------------------------------------------------------------------ heaps
def refs(I, st, v, out=None, depth=0):
    """Addresses of the arrays, lists, dictionaries and stabilizer objects reachable from a value."""
    out = {} if out is None else out
    if depth > 12:
        return out
    if isinstance(v, Ref):
        if v.a in out or v.a not in st.heap:
            return out
        o = st.heap[v.a]
        if isinstance(o, HArr):
            out[v.a] = o
            if o.base is not None:
                refs(I, st, o.base, out, depth + 1)
        elif isinstance(o, HList):
            if any(isinstance(x, It) and isinstance(x.v, Obj) for x in o.segs):
                return out              # a quantum register
            out[v.a] = o
            for x in o.segs:
                for y in values(x):
                    refs(I, st, y, out, depth + 1)
        elif isinstance(o, HDict):
            out[v.a] = HDict(o.items, o.tag, o.open)
            for y in o.items.values():
                refs(I, st, y, out, depth + 1)
        elif isinstance(o, HInst) and o.cls.name in SELFLESS:
            out[v.a] = HInst(o.cls, o.attrs, o.tag)
            for y in o.attrs.values():
                refs(I, st, y, out, depth + 1)
    elif isinstance(v, (tuple, list)):
        for y in v:
            refs(I, st, y, out, depth + 1)
    elif isinstance(v, Gam):
        refs(I, st, v.a, out, depth + 1)
        refs(I, st, v.b, out, depth + 1)
    return out


def values(seg):
    if isinstance(seg, It):
        return [seg.v]
    if isinstance(seg, Loop):
        return [y for x in seg.segs for y in values(x)] if hasattr(seg, "segs") else []
    return []


def label(o):
    return (getattr(o, "tag", None) or "") if isinstance(getattr(o, "tag", None), str) else ""


def diff(chk, s, before, what):
    """Obligation: everything reachable before is unchanged now."""
    st, I = s.st, s.I
    worst, why = "holds", ""

    def note(k, d):
        nonlocal worst, why
        if k == "violated" or worst == "holds":
            worst, why = k, d
    for a_, o in before.items():
        n_ = st.heap.get(a_)
        if n_ is o or n_ is None:
            continue
        if type(n_) is not type(o):
            note("violated", "%s replaced" % label(o))
        elif isinstance(o, HArr):
            if o.base is not None:
                continue                # a view: its base is compared
            if n_.ten is None or o.ten is None:
                if n_.ten is not o.ten:
                    note("undecided", "array %s after the call is unknown" % label(o))
                continue
            k = same_ten(s, o.ten, n_.ten)
            if k is not True:
                note("violated" if k is False else "undecided", "array %s is changed" % label(o))
        elif isinstance(o, HList):
            k = same_segs(s, o.segs, n_.segs)
            if k is not True:
                note("violated" if k is False else "undecided", "list %s is changed" % label(o))
        elif isinstance(o, HDict):
            if set(o.items) != set(n_.items):
                note("violated", "dictionary %s is changed" % label(o))
            elif not all(I.same(o.items[k], n_.items[k]) for k in o.items):
                note("undecided", "values of dictionary %s" % label(o))
        elif isinstance(o, HInst):
            for k, v in o.attrs.items():
                w = n_.attrs.get(k)
                if k not in n_.attrs:
                    note("violated", "attribute %s.%s removed" % (o.cls.name, k))
                elif not I.same(v, w):
                    r = same_val(s, before, v, w)
                    if r is not True:
                        note("violated" if r is False else "undecided", "attribute %s of the %s passed is changed" % (k, o.cls.name))
    if worst == "violated" and s.I.notes:
        worst = "undecided"
    chk.add(what, worst, why)
    return worst


def blank():
    """A check that only collects obligations."""
    c = CK.Check.__new__(CK.Check)
    c.obs, c.tier, c.seed = [], "quick", 1
    return c


def same_ten(s, a_, b_):
    a_, b_ = M.strip(a_), M.strip(b_)
    if a_.key() == b_.key():
        return True
    c = blank()
    try:
        CK.Check.eq(c, s, "x", b_, a_)
    except Exception:
        return None
    r = {o["status"] for o in c.obs}
    return False if "violated" in r else True if r == {"holds"} else None


def same_segs(s, a_, b_):
    if a_ is b_ or len(a_) == len(b_) and all(x is y or s.I.same(getattr(x, "v", x), getattr(y, "v", y)) for x, y in zip(a_, b_)):
        return True
    if all(isinstance(x, It) for x in a_ + b_):
        if len(a_) != len(b_):
            return False
        rs = []
        for x, y in zip(a_, b_):
            if s.I.same(x.v, y.v):
                continue
            if isinstance(x.v, Ten) and isinstance(y.v, Ten):
                rs.append(same_ten(s, x.v, y.v))
            elif isinstance(x.v, Ref) and isinstance(y.v, Ref):
                ox, oy = s.st.heap.get(x.v.a), s.st.heap.get(y.v.a)
                rs.append(False if type(ox) is not type(oy) else same_val(s, {}, x.v, y.v))
            else:
                rs.append(None)
        return False if False in rs else None if None in rs else True
    return None


def same_val(s, before, v, w):
    """Same contents of two values of the heap (v as it was before)."""
    if isinstance(v, Ten) and isinstance(w, Ten):
        return same_ten(s, v, w)
    if isinstance(v, Ref) and isinstance(w, Ref):
        o, p = before.get(v.a, s.st.heap.get(v.a)), s.st.heap.get(w.a)
        if isinstance(o, HArr) and isinstance(p, HArr):
            try:
                x = o.ten if o.base is None else s.I.arr_ten(s.st, v)
                y = s.I.arr_ten(s.st, w)
                return same_ten(s, x, y) if x is not None and y is not None else None
            except Exception:
                return None
        if isinstance(o, HList) and isinstance(p, HList):
            return same_segs(s, o.segs, p.segs)
    return None


# ------------------------------------------------------------------ watched calls
class Watched(Ses):
    """A session that compares the arguments of every outermost library call before and after it."""
    depth = 0

    def call(self, f, *args, **kw):
        if self.depth:
            return Ses.call(self, f, *args, **kw)
        b = refs(self.I, self.st, tuple(args) + tuple(kw.values()))
        self.depth += 1
        try:
            return Ses.call(self, f, *args, **kw)
        finally:
            self.depth -= 1
            if b:
                if not hasattr(self, "kept"):
                    self.kept = []
                c = blank()
                try:
                    diff(c, self, b, callee(f))
                except Exception as e:
                    c.obs = [dict(name=callee(f), status="undecided", detail="comparison: %s" % e, where="", term="")]
                self.kept += c.obs


def callee(f):
    x = getattr(f, "func", None) or f
    return str(getattr(x, "qual", None) or getattr(x, "name", None) or type(f).__name__)


def judge(chk, name, sessions):
    seen = set()
    for s in sessions:
        for o in getattr(s, "kept", []):
            nm = "arguments of %s in %s" % (o["name"], name)
            if (nm, o["status"]) not in seen:
                seen.add((nm, o["status"]))
                chk.add(nm, o["status"], o["detail"], o["where"])
        for e in s.I.events:
            if e[0] not in ("global-random", "global-store") or "PyQCodes" not in str(e[2]):
                continue
            w = surely(s, e[3])
            if w is False or (e, w) in seen:
                continue
            seen.add((e[:3], w))
            (chk.bad if w else chk.unk)("%s in %s" % (e[0], name), "%s at %s" % (e[1], e[2]), str(e[2]))


# ------------------------------------------------------------------ shared storage
def held(I, st, v, out=None, depth=0):
    """Arrays reachable from an object (through instances, lists, dictionaries and views)."""
    out = {} if out is None else out
    if depth > 12:
        return out
    if isinstance(v, Ref) and v.a in st.heap and v.a not in out:
        o = st.heap[v.a]
        out[v.a] = o
        if isinstance(o, HArr):
            if o.base is not None:
                held(I, st, o.base, out, depth + 1)
        elif isinstance(o, HList):
            for x in o.segs:
                for y in values(x):
                    held(I, st, y, out, depth + 1)
        elif isinstance(o, HDict):
            for y in o.items.values():
                held(I, st, y, out, depth + 1)
        elif isinstance(o, HInst):
            for y in o.attrs.values():
                held(I, st, y, out, depth + 1)
    elif isinstance(v, (tuple, list)):
        for y in v:
            held(I, st, y, out, depth + 1)
    elif isinstance(v, Gam):
        held(I, st, v.a, out, depth + 1)
        held(I, st, v.b, out, depth + 1)
    return out


def shared(s, make):
    """The object built from arrays holds none of them."""
    f, args, kw = make(s)
    st = s.st
    given = {}
    for v in list(args) + list(kw.values()):
        held(s.I, st, v, given)
    given = {k: o for k, o in given.items() if isinstance(o, HArr)}
    o = s.call(f, *args, **kw)
    got = held(s.I, s.st, o)
    both = [k for k in given if k in got]
    nm = s.name + ": holds no array of the caller"
    if not any(isinstance(x, HInst) for x in got.values()):
        s.chk.unk(nm, "the object is not known")
    elif both:
        where = [k for i in got.values() if isinstance(i, HInst) for k, v in i.attrs.items() if set(held(s.I, s.st, v)) & set(both)]
        if s.I.notes:
            s.chk.unk(nm, "%s, but the analysis lost information: %s" % (where, s.I.notes[0]))
        else:
            s.chk.bad(nm, "the array %s given by the caller is held in attribute %s" % (label(given[both[0]]) or "", ", ".join(where)))
    elif any(isinstance(v, Top) for i in got.values() if isinstance(i, HInst) for v in i.attrs.values()):
        s.chk.unk(nm, "an attribute is unknown")
    else:
        s.chk.ok(nm, "%d arrays given, %d objects held" % (len(given), len(got)))


def kraus_args(level, rep, form):
    def make(s):
        from . import C07
        din, dout = P(di).pow(P(a)), P(do).pow(P(b))
        s.fact(P(K) - 1)
        ops, _ = C07.ops_value(s, form, K, dout, din)
        f, kw = C07.ctor(s, level, rep)
        return f, [ops, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do)], kw
    return make


def few_args(level, rep, k):
    """A list of k separate arrays."""
    def make(s):
        from . import C07
        din, dout = P(di).pow(P(a)), P(do).pow(P(b))
        f, kw = C07.ctor(s, level, rep)
        ops = s.lst([s.arr("K%d" % i, dout, din) for i in range(k)], "arg:K")
        return f, [ops, s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do)], kw
    return make


def choi_args(level):
    def make(s):
        nn = P(di).pow(P(a)) * P(do).pow(P(b))
        f = get(s, CH + "AnalyticQChan") if level == "channel" else get(s, "PyQCodes.chan._choi.ChoiQutip")
        return f, [s.arr("J", nn, nn), s.lst([s.num(a), s.num(b)]), s.num(di), s.num(do)], {}
    return make


def code_args(form, logical, dt="f"):
    def make(s):
        f = s.get("PyQCodes.codes.StabilizerCode")
        src = "np.array([[1,0,0,1,0,0,1,1,0,0],[0,1,0,0,1,0,0,1,1,0],[1,0,1,0,0,0,0,0,1,1],[0,1,0,1,0,1,0,0,0,1]]%s)" % (", dtype=float" if dt == "f" else "")
        if form == "arrays":
            v = s.py("A = %s\n[np.array(A[0]), np.array(A[1]), np.array(A[2]), np.array(A[3])]" % src)
        else:
            v = s.py(src)
        kw = {}
        if logical:
            kw["logical_ops"] = s.py("(np.array([[1,1,1,1,1,0,0,0,0,0]]), np.array([[0,0,0,0,0,1,1,1,1,1]]))")
        return f, [v, s.num(5), s.num(1)], kw
    return make


def sharing(c):
    for level in ("channel", "kraus"):
        for rep in ("dense", "sparse"):
            for form in ("nd", "list") + (("coo",) if rep == "sparse" else ()):
                c.scenario("%s %s from %s" % (level, rep, form), shared, kraus_args(level, rep, form))
            c.scenario("%s %s from a list of 2" % (level, rep), shared, few_args(level, rep, 2))
        c.scenario("%s from a Choi matrix" % level, shared, choi_args(level))
    for form in ("array", "arrays"):
        for logical in (False, True):
            for dt in "fi":
                c.scenario("code from %s %s%s" % (form, dt, " with logical operators" if logical else ""), shared, code_args(form, logical, dt))


# ------------------------------------------------------------------ hidden state in the source
MUTATORS = set("append extend insert remove pop clear update setdefault add discard sort reverse fill popitem resize put itemset setflags partition "
               "__setitem__ appendleft".split())
SEEDERS = {"numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "numpy.random.mtrand.seed", "numpy.random.set_bit_generator"}


class Hidden:
    def __init__(self, c):
        from sa.resolve import Resolver
        self.c, self.lib = c, Source(c.root)
        self.r = Resolver(self.lib)
        self.n = 0

    def where(self, m, n, fn):
        return "%s:%s:%d" % (m.rel, fn.q if fn else "<module>", getattr(n, "lineno", 0))

    def root(self, e):
        """Name an expression like a.b[c].d starts with."""
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return e

    def stores(self, m):
        """(node, the expression written through, how)"""
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                yield n, n.value, "assignment to " + text(n)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                yield n, n.target, "in-place update of " + n.target.id
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                yield n, n.func.value, "call of " + text(n.func)
            elif isinstance(n, ast.Call) and text(n.func) in ("np.fill_diagonal", "np.put", "np.place", "np.copyto", "np.random.shuffle", "random.shuffle", "setattr") and n.args:
                yield n, n.args[0], "call of " + text(n.func)

    def run(self):
        for m in self.lib.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    fn = self.r.own.get(id(n))
                    names = [x for x in n.names if any(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Store) for y in walk_own(fn.node))]
                    if names:
                        self.c.bad("module data", "function assigns the module-level name %s" % ", ".join(names), self.where(m, n, fn))
                if isinstance(n, ast.Call):
                    fn = self.r.own.get(id(n))
                    for t in self.r.typ(n.func, fn, m) or ():
                        self.n += 1
                        if t[0] == "ext" and "%s.%s" % (t[1], t[2]) in SEEDERS:
                            self.c.bad("global random state", "call of %s" % text(n.func), self.where(m, n, fn))
            for n, e, how in self.stores(m):
                fn = self.r.own.get(id(n))
                if fn is None:
                    continue
                self.n += 1
                self.store(m, n, e, how, fn)
            self.defaults(m)
        self.c.ok("hidden state in the source", "%d stores and calls looked at in %d modules" % (self.n, len(self.lib.mods)))

    def store(self, m, n, e, how, fn):
        r = self.root(e)
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ("type", "globals", "vars") and isinstance(n, (ast.Attribute, ast.Subscript)):
            k = r.func.id
            if k == "globals" or k == "type" and isinstance(n, ast.Attribute) and n.value is r:
                self.c.bad("module data", how, self.where(m, n, fn))
            return
        if not isinstance(r, ast.Name) or self.r.comp_bound(r, fn):
            return
        sc = self.r.scope(fn, r.id)
        if sc is None:
            b = self.lib.lookup(m.name, r.id)
            if isinstance(n, ast.AugAssign) or b is None:
                return
            if b[0] in ("val", "cls", "fn"):
                # an object made when the module was loaded
                if isinstance(n, ast.Call) and b[0] != "val":
                    return
                self.c.bad("module data", "%s changes the module-level %s" % (how, r.id), self.where(m, n, fn))
            elif b[0] in ("mod", "extobj") and isinstance(n, (ast.Attribute, ast.Subscript)):
                self.c.bad("module data", "%s changes the imported %s" % (how, r.id), self.where(m, n, fn))
            return
        me, f = self.r.selfname(sc)
        if f is sc and r.id == me or sc.clsm and sc.node.args.args and r.id == sc.node.args.args[0].arg:
            cls = f.cls if f is sc and r.id == me else sc.cls
            if sc.clsm and isinstance(n, ast.Attribute) and n.value is r:
                self.c.bad("class data", "%s is kept between calls" % how, self.where(m, n, fn))
                return
            # self.X[...] or self.X.append(...) where X is an object of the class body
            x = e
            while isinstance(x, (ast.Attribute, ast.Subscript)) and not (isinstance(x, ast.Attribute) and x.value is r):
                x = x.value
            if isinstance(x, ast.Attribute) and cls is not None:
                k = next((k for k in self.lib.mro(cls) if x.attr in k.cvars), None)
                if k is not None and not any(x.attr in q.attrs for q in self.lib.mro(cls)):
                    self.c.bad("class data", "%s changes an object shared by all instances" % how, self.where(m, n, fn))

    def defaults(self, m):
        for fn in self.r.fns:
            if fn.mod is not m:
                continue
            a_ = fn.node.args
            pos = a_.posonlyargs + a_.args
            for p_, d in list(zip(pos[::-1], a_.defaults[::-1])) + [(x, d) for x, d in zip(a_.kwonlyargs, a_.kw_defaults) if d is not None]:
                if isinstance(d, ast.Constant) or isinstance(d, ast.Tuple) and not d.elts:
                    continue
                if isinstance(d, (ast.Name, ast.Attribute, ast.UnaryOp)):
                    continue
                self.n += 1
                self.default(m, fn, p_.arg, isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)))

    def default(self, m, fn, p_, mutable):
        if not mutable:
            return
        rebound = any(isinstance(x, ast.Name) and x.id == p_ and isinstance(x.ctx, ast.Store) and not isinstance(self.r.parent.get(id(x)), ast.AugAssign)
                      for x in walk_own(fn.node))
        alias = {p_}
        for x in walk_own(fn.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in alias:
                alias |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        kept = []
        for n in walk_own(fn.node):
            hit = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id in alias:
                hit = "assignment to " + text(n)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in alias:
                hit = "in-place update of " + n.target.id
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name) and n.func.value.id in alias:
                hit = "call of " + text(n.func)
            if hit:
                st = self.c.unk if rebound else self.c.bad
                st("default arguments", "%s changes the default of parameter %s, which later calls see" % (hit, p_), self.where(m, n, fn))
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in alias:
                kept += [t for t in n.targets if isinstance(t, ast.Attribute)]
        for t in kept:                # kept by an object whose methods change it
            cls = fn.cls
            for k in (self.lib.mro(cls) + self.lib.subclasses(cls)) if cls else []:
                for g in k.fns():
                    for n in walk_own(g.node):
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                            e = n.value
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                            e = n.func.value
                        else:
                            continue
                        if text(e) == text(t) and not rebound:
                            self.c.bad("default arguments", "%s keeps the default of parameter %s and %s changes it" % (fn.q, p_, g.q), self.where(m, n, g))


def run(c):
    if not Source(c.root).mods:
        raise Anchor("package PyQCodes")
    Hidden(c).run()
    sharing(c)
    b = Borrow(c, judge)
    b.everything()
    old, CK.Ses = CK.Ses, Watched
    try:
        b.into(c)
    finally:
        CK.Ses = old
