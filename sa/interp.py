"""Gated single-assignment interpretation of the repository's syntax trees.

Every statement is analysed once per abstract context.  Branches are joined with gates, loops are
summarised by closed forms (induction variables, sums, scatters, folds, first match, best-so-far)
and library calls by their algebraic meaning.  Nothing of the repository is imported or run."""
import ast
import os
from fractions import Fraction as Fr
from .poly import Poly, P, sym, leg
from . import poly as PL
from . import ten as T
from .ten import Ten, Undecided, ShapeErr
from .vals import *
from . import seqs as SQ


class AbsRaise(Exception):
    """The analysed code raises here on every path."""

    def __init__(self, exc, msg=""):
        Exception.__init__(self, exc, msg)
        self.exc, self.msg = exc, msg


class Flow:
    __slots__ = ("st", "rets", "brks", "conts")

    def __init__(self, st=None, rets=(), brks=(), conts=()):
        self.st, self.rets, self.brks, self.conts = st, list(rets), list(brks), list(conts)


class Raise:
    def __init__(self, guard, exc, where, msg=""):
        self.guard, self.exc, self.where, self.msg = guard, exc, where, msg

    def __repr__(self):
        return "raise %s at %s if %s (%s)" % (self.exc, self.where, self.guard.key(), self.msg)


MAXUNROLL = 40
LIBROOTS = {"numpy", "scipy", "sparse", "qutip", "picos", "cvxopt", "projectq", "pathos", "itertools", "warnings",
            "abc", "math", "functools", "operator", "collections", "copy", "random", "os", "sys", "typing", "time", "cmath"}


class Program:
    """Parsed repository: modules, functions, classes."""

    def __init__(self, root, pkg="PyQCodes"):
        self.root, self.pkg = root, pkg
        self.mods = {}
        self.src = {}
        base = os.path.join(root, pkg)
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in dn if d not in ("tests", "__pycache__")]
            for f in sorted(fn):
                if f.endswith(".py"):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(path) as h:
                        s = h.read()
                    self.src[name] = rel
                    self.mods[name] = ast.parse(s, rel)
        self.nfun = sum(isinstance(n, ast.FunctionDef) for m in self.mods.values() for n in ast.walk(m))


class Interp:
    decider = None
    split = False

    def __init__(self, prog):
        self.prog = prog
        self.modenv = {}          # module -> fid of its environment
        self.base = State()
        self.raises = [[]]
        self.pools = []
        self.stack = []           # (func qual, node) for reports
        self.events = []
        self.loops = []
        self.optruns = []
        self.draws = {}
        self.notes = []
        self.covered = set()      # functions analysed
        self.callsites = set()
        from . import models
        self.models = models
        self.depth = 0
        self.steps = 0
        self._loading = set()

    # ------------------------------------------------------------------ modules
    def module(self, name, st=None):
        if name in self.modenv:
            return self.modenv[name]
        fid = fresh()
        self.modenv[name] = fid
        self.base.envs[fid] = {"__name__": name}
        tree = self.prog.mods[name]
        fr = Frame(fid, name, name, None)
        flow = self.exec_block(tree.body, self.base, fr)
        return fid

    def load_all(self):
        for m in sorted(self.prog.mods):
            self.module(m)

    def get(self, mod, name):
        self.module(mod)
        return self.base.envs[self.modenv[mod]][name]

    def start(self):
        return self.base.copy()

    # ------------------------------------------------------------------ reporting helpers
    def where(self, node=None):
        q = self.stack[-1][0] if self.stack else "?"
        ln = getattr(node, "lineno", None)
        return "%s:%s" % (q, ln) if ln else q

    def do_raise(self, st, exc, node, msg="", guard=None):
        self.raises[-1].append(Raise(st.pc if guard is None else guard, exc, self.where(node), msg))

    # ------------------------------------------------------------------ merging
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ten) and isinstance(b, Ten):
            return a.terms == b.terms and a.axes == b.axes or (a.ndim == b.ndim and a.key() == b.key())
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, SQ.SStr) or isinstance(b, SQ.SStr):
            return SQ.sstr_same(self, a, b)
        if type(a) is type(b) and isinstance(a, (str, bytes, Lib, type(None))):
            return a == b
        if isinstance(a, Gam) and isinstance(b, Gam):
            return a.c.key() == b.c.key() and self.same(a.a, b.a) and self.same(a.b, b.b)
        return False

    def merge(self, c, A, B, pc):
        """State that is A when the indicator c holds and B otherwise."""
        S = State()
        S.rng = max(A.rng, B.rng)
        S.ctx, S.controls = A.ctx, A.controls
        S.pc = pc
        S.facts = FactSet([g for g in A.facts.ge if g in B.facts.ge],
                          {k: v for k, v in A.facts.truth.items() if B.facts.truth.get(k) == v})
        # trace
        k = 0
        while k < len(A.trace) and k < len(B.trace) and A.trace[k] is B.trace[k]:
            k += 1
        S.trace = A.trace[:k]
        if len(A.trace) > k or len(B.trace) > k:
            S.trace += (Eff("if", c, A.trace[k:], B.trace[k:]),)
        self._mA, self._mB, self._mS = A, B, S
        # heap
        for a in A.heap:
            if a not in B.heap:
                S.heap[a] = A.heap[a]
            elif A.heap[a] is B.heap[a]:
                S.heap[a] = A.heap[a]
        for a in B.heap:
            if a not in A.heap:
                S.heap[a] = B.heap[a]
        for a in A.heap:
            if a in B.heap and A.heap[a] is not B.heap[a]:
                S.heap[a] = self.merge_obj(c, A, A.heap[a], B, B.heap[a], S)
        for f in set(A.envs) | set(B.envs):
            ea, eb = A.envs.get(f), B.envs.get(f)
            if ea is None or eb is None:
                S.envs[f] = dict(ea if ea is not None else eb)
                continue
            if ea == eb:
                S.envs[f] = dict(ea)
                continue
            e = {}
            for n in list(ea) + [x for x in eb if x not in ea]:
                x, y = ea.get(n, UNBOUND), eb.get(n, UNBOUND)
                e[n] = x if x is y else self.merge_val(c, A, x, B, y, S)
            S.envs[f] = e
        return S

    def merge_obj(self, c, A, x, B, y, S):
        if type(x) is not type(y):
            return HArr(None)
        if isinstance(x, HArr):
            if x.base is not None and y.base is not None:
                return x
            ta, tb = x.ten, y.ten
            t = None
            if ta is not None and tb is not None:
                t = self.ite_ten(c, ta, tb)
            return HArr(t, x.kind, x.dt if x.dt == y.dt else None, x.tag or y.tag)
        if isinstance(x, HList):
            return HList(self.merge_segs(c, A, x.segs, B, y.segs, S), x.kind, x.tag or y.tag)
        if isinstance(x, HDict):
            items = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                items[k] = self.merge_val(c, A, x.items.get(k, UNBOUND), B, y.items.get(k, UNBOUND), S)
            return HDict(items, x.tag or y.tag, x.open)
        if isinstance(x, HInst):
            at = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                u, v = x.attrs.get(k, UNBOUND), y.attrs.get(k, UNBOUND)
                at[k] = u if u is v else self.merge_val(c, A, u, B, v, S)
            return HInst(x.cls, at, x.tag)
        return x

    def merge_segs(self, c, A, sa, B, sb, S):
        k = 0
        while k < len(sa) and k < len(sb) and SQ.seg_same(self, sa[k], sb[k]):
            k += 1
        ra, rb = sa[k:], sb[k:]
        if not ra and not rb:
            return sa
        if len(ra) == 1 and len(rb) == 1 and isinstance(ra[0], It) and isinstance(rb[0], It):
            v = self.merge_val(c, A, ra[0].v, B, rb[0].v, S)
            return sa[:k] + (It(v),)
        return sa[:k] + (Cond(c, ra, rb),)

    def ite_ten(self, c, a, b):
        try:
            if a.ndim != b.ndim:
                return None
            for p, q in zip(a.shape, b.shape):
                if not (p - q).is_zero():
                    return None
            r = T.ite(c, a, b)
            if "bool" in a.flags and "bool" in b.flags:
                r = Ten(r.axes, r.terms, ("bool",))
            return r
        except (Undecided, ShapeErr):
            return None

    def merge_val(self, c, A, x, B, y, S):
        if x is y or self.same(x, y):
            return x
        if isinstance(x, Top):
            return x
        if isinstance(y, Top):
            return y
        k = cbool(c)
        if k is not None:
            return x if k else y
        if isinstance(x, Ten) and isinstance(y, Ten):
            r = self.ite_ten(c, x, y)
            if r is not None:
                return r
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.merge_val(c, A, u, B, v, S) for u, v in zip(x, y))
        if isinstance(x, Ref) and isinstance(y, Ref):
            ox, oy = A.heap.get(x.a), B.heap.get(y.a)
            if isinstance(ox, HArr) and isinstance(oy, HArr) and ox.kind == oy.kind:
                tx, ty = self.arr_ten(A, x), self.arr_ten(B, y)
                if tx is not None and ty is not None:
                    t = self.ite_ten(c, tx, ty)
                    if t is not None:
                        return S.new(HArr(t, ox.kind, ox.dt if ox.dt == oy.dt else None, ox.tag or oy.tag))
            if isinstance(ox, HList) and isinstance(oy, HList) and ox.kind == oy.kind:
                return S.new(HList(self.merge_segs(c, A, ox.segs, B, oy.segs, S), ox.kind, ox.tag or oy.tag))
            if isinstance(ox, HInst) and isinstance(oy, HInst) and ox.cls is oy.cls:
                return S.new(self.merge_obj(c, A, ox, B, oy, S))
            if isinstance(ox, HDict) and isinstance(oy, HDict):
                return S.new(self.merge_obj(c, A, ox, B, oy, S))
        if isinstance(x, (str, SQ.SStr)) and isinstance(y, (str, SQ.SStr)):
            r = SQ.sstr_merge(self, c, A, x, B, y, S)
            if r is not None:
                return r
        return Gam(c, x, y)

    # ------------------------------------------------------------------ arrays
    def arr_ten(self, st, ref):
        """Current contents of an array object."""
        o = st.heap[ref.a]
        if not isinstance(o, HArr):
            return None
        if o.base is None:
            return o.ten
        b = self.arr_ten(st, o.base)
        if b is None:
            return None
        if o.ten is not None and o.ten[0] is b:
            return o.ten[1]
        with T.with_facts(st.facts.poly()):
            r = o.view(b)
        st.heap[ref.a] = HArr((b, r), o.kind, o.dt, o.tag, o.base, o.view, o.put)
        return r

    def new_arr(self, st, t, kind="nd", dt=None, tag=None):
        if t is None:
            return Top("array of unknown contents")
        if kind == "nd" and t.ndim == 0:
            return t
        return st.new(HArr(t, kind, dt, tag))

    def new_view(self, st, ref, view, put=None, kind=None):
        o = st.heap[ref.a]
        b = self.arr_ten(st, ref)
        r = view(b)
        if r.ndim == 0 and o.kind == "nd":
            return r
        return st.new(HArr((b, r), kind or o.kind, o.dt, o.tag, ref, view, put))

    def set_arr(self, st, ref, t, node=None):
        """Overwrite the contents of an array object (through views)."""
        o = st.heap[ref.a]
        if o.tag:
            self.events.append(("mutate", o.tag, self.where(node), st.pc))
        if o.base is None:
            st.heap[ref.a] = HArr(t, o.kind, o.dt, o.tag)
            return
        b = self.arr_ten(st, o.base)
        if t is None or b is None or o.put is None:
            self.set_arr(st, o.base, None, node)
            return
        self.set_arr(st, o.base, o.put(b, t), node)

    def is_arr(self, st, v):
        return isinstance(v, Ref) and isinstance(st.heap.get(v.a), HArr)

    def obj(self, st, v):
        return st.heap.get(v.a) if isinstance(v, Ref) else None

    def ten(self, st, v):
        """Numeric contents of any value as a Ten."""
        if isinstance(v, Ten):
            return v
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, HArr):
                t = self.arr_ten(st, v)
                if t is None:
                    raise Undecided("unknown array contents")
                return t
            if isinstance(o, HList):
                return SQ.to_ten(self, st, o.segs)
        if isinstance(v, tuple):
            return SQ.to_ten(self, st, tuple(It(x) for x in v))
        if isinstance(v, (Iter, Rng)):
            return SQ.to_ten(self, st, SQ.segs_of(self, st, v))
        if isinstance(v, Gam):
            a, b = self.ten(st, v.a), self.ten(st, v.b)
            r = self.ite_ten(v.c, a, b)
            if r is not None:
                return r
            raise Undecided("gated arrays of different shapes")
        if isinstance(v, Top):
            raise Undecided(v.why)
        if v is None or isinstance(v, (str, SQ.SStr)):
            raise AbsRaise("TypeError", "number expected")
        raise Undecided("not numeric: %r" % (v,))

    # ------------------------------------------------------------------ truth
    def truth(self, st, v, node=None):
        """Indicator Ten of the truth of a value."""
        if isinstance(v, Ten):
            if v.ndim:
                if all(d.as_int() == 1 for d in v.shape):
                    v = T.Ten((), T.mk((), v.terms).terms, v.flags)
                else:
                    raise AbsRaise("ValueError", "truth value of an array is ambiguous")
            if "bool" in v.flags:
                return v
            if cbool(v) is not None:
                return boolv(cbool(v))
            return T.lnot(T.eq0(v))
        if v is None:
            return FALSE
        if isinstance(v, str):
            return boolv(len(v) > 0)
        if isinstance(v, SQ.SStr):
            return T.pos(SQ.length(self, st, v.segs))
        if isinstance(v, tuple):
            return boolv(len(v) > 0)
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, HArr):
                return self.truth(st, self.arr_ten(st, v), node)
            if isinstance(o, HList):
                return T.pos(SQ.length(self, st, o.segs))
            if isinstance(o, HDict):
                if o.open is None:
                    return boolv(len(o.items) > 0)
            else:
                return TRUE
        if isinstance(v, Gam):
            return T.ite(v.c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, (FuncV, ClassV, Lib, BoundM, PyFn, LibM, ModV)):
            return TRUE
        if isinstance(v, Rng):
            return T.pos(SQ.length(self, st, SQ.segs_of(self, st, v)))
        if isinstance(v, Top):
            return self.top_bool(v.why)
        if isinstance(v, Obj):
            return TRUE
        raise Undecided("truth of %r" % (v,))

    def top_bool(self, why):
        t = T.inp("⊤%d" % fresh(), flags=("ind", "real", "nn", "top"))
        return Ten(t.axes, t.terms, ("bool",))

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st, fr):
        flow = Flow(st)
        for s in body:
            if flow.st is None:
                break
            f = self.exec_stmt(s, flow.st, fr)
            flow.rets += f.rets
            flow.brks += f.brks
            flow.conts += f.conts
            flow.st = f.st
        return flow

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("analysis budget")
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement %s" % type(s).__name__)
        try:
            with T.with_facts(st.facts.poly()):
                return m(s, st, fr)
        except AbsRaise as e:
            self.do_raise(st, e.exc, s, e.msg)
            return Flow(None)

    def st_Pass(self, s, st, fr):
        return Flow(st)

    def st_Global(self, s, st, fr):
        for n in s.names:
            fr.globals.add(n)
        return Flow(st)

    def st_Nonlocal(self, s, st, fr):
        for n in s.names:
            fr.nonlocals.add(n)
        return Flow(st)

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, (ast.Yield,)):
            v = self.ev(s.value.value, st, fr)
            lst = st.envs[fr.fid].get("$yield")
            o = st.heap[lst.a]
            st.heap[lst.a] = HList(o.segs + (It(v),), "list")
            return Flow(st)
        self.ev(s.value, st, fr)
        return Flow(st)

    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return Flow(st)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return Flow(st)

    def st_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, st, fr, s.target)
            v = self.ev(s.value, st, fr)
            self.aug(s.target, cur, op, v, st, fr, lambda r: self.assign(s.target, r, st, fr))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, st, fr)
            cur = self.getattr(o, s.target.attr, st, fr, s.target)
            v = self.ev(s.value, st, fr)
            self.aug(s.target, cur, op, v, st, fr, lambda r: self.setattr(o, s.target.attr, r, st, fr, s.target))
        else:
            o = self.ev(s.target.value, st, fr)
            ix = self.ev_index(s.target.slice, st, fr)
            cur = self.getitem(o, ix, st, fr, s.target)
            v = self.ev(s.value, st, fr)
            self.aug(s.target, cur, op, v, st, fr, lambda r: self.setitem(o, ix, r, st, fr, s.target))
        return Flow(st)

    def aug(self, node, cur, op, v, st, fr, put):
        o = self.obj(st, cur)
        if isinstance(o, HArr):
            r = self.binop(op, cur, v, st, node)
            if o.kind == "nd" and not isinstance(r, Top):
                rt = self.ten(st, r)
                if len(rt.axes) != len(self.arr_ten(st, cur).axes):
                    raise AbsRaise("ValueError", "in-place operation changes shape")
                dt = self.models.dtype_of(self, st, r)
                if o.dt in ("i", "b") and (op == "Div" or dt in ("f", "c")):
                    raise AbsRaise("TypeError", "in-place operation would change integer dtype")
                if o.dt == "f" and dt == "c":
                    raise AbsRaise("TypeError", "in-place operation would change real dtype")
                self.set_arr(st, cur, rt, node)
                put(cur)
                return
            if isinstance(r, Top) and o.kind == "nd":
                self.set_arr(st, cur, None, node)
                put(cur)
                return
            put(r)
            return
        if isinstance(o, HList) and op == "Add":
            if o.tag:
                self.events.append(("mutate", o.tag, self.where(node), st.pc))
            st.heap[cur.a] = HList(o.segs + tuple(SQ.segs_of(self, st, v)), o.kind, o.tag)
            put(cur)
            return
        put(self.binop(op, cur, v, st, node))

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[fr.fid][t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                ix = self.ev_index(t.slice, st, fr)
                self.models.delitem(self, st, o, ix, t)
        return Flow(st)

    def st_Import(self, s, st, fr):
        for a in s.names:
            nm = a.name
            if a.asname:
                self.bind(a.asname, self.import_mod(nm), st, fr)
            else:
                self.bind(nm.split(".")[0], self.import_mod(nm.split(".")[0]), st, fr)
        return Flow(st)

    def import_mod(self, nm):
        if nm in self.prog.mods:
            self.module(nm)
            return ModV(nm)
        return ModV(nm)

    def st_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            parts = fr.module.split(".")
            is_pkg = self.prog.src.get(fr.module, "").endswith("__init__.py")
            keep = len(parts) - s.level + (1 if is_pkg else 0)
            mod = ".".join(parts[:keep] + ([s.module] if s.module else []))
        if mod in self.prog.mods:
            fid = self.module(mod)
            env = self.base.envs[fid]
            for a in s.names:
                if a.name == "*":
                    names = self._all(mod)
                    for n in names:
                        if n in env:
                            self.bind(n, env[n], st, fr)
                else:
                    sub = mod + "." + a.name
                    if a.name in env:
                        self.bind(a.asname or a.name, env[a.name], st, fr)
                    elif sub in self.prog.mods:
                        self.bind(a.asname or a.name, self.import_mod(sub), st, fr)
                    else:
                        self.bind(a.asname or a.name, Top("import of %s" % sub), st, fr)
                        self.events.append(("unresolved-import", sub, self.where(s), st.pc))
            return Flow(st)
        for a in s.names:
            self.bind(a.asname or a.name, self.models.lib_name(mod + "." + a.name), st, fr)
        return Flow(st)

    def _all(self, mod):
        env = self.base.envs[self.modenv[mod]]
        v = env.get("__all__")
        if isinstance(v, Ref):
            return [x.v for x in self.base.heap[v.a].segs]
        return [n for n in env if not n.startswith("_")]

    def st_FunctionDef(self, s, st, fr):
        f = self.make_func(s, st, fr)
        kind = None
        for d in s.decorator_list:
            nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)
            if nm in ("staticmethod", "property", "classmethod", "setter", "abstractstaticmethod", "abstractmethod"):
                kind = nm
        self.bind(s.name, f, st, fr)
        return Flow(st)

    def make_func(self, s, st, fr, cls=None):
        a = s.args
        defaults = tuple(self.ev(d, st, fr) for d in a.defaults)
        kwd = {k.arg: self.ev(d, st, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        nm = getattr(s, "name", "<lambda>")
        qual = (fr.qual + "." if fr.qual else "") + nm
        return FuncV(s, fr.module, fr.fid, qual, cls, defaults, kwd)

    def st_ClassDef(self, s, st, fr):
        bases = []
        for b in s.bases:
            bases.append(self.ev(b, st, fr))
        c = ClassV(s.name, fr.module, bases, {}, s)
        cfr = Frame(fresh(), fr.module, fr.qual + "." + s.name, fr.fid)
        st.envs[cfr.fid] = {"$parent": fr.fid}
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                f = self.make_func(x, st, cfr, c)
                f.fid = fr.fid
                kind, setter = "method", None
                for d in x.decorator_list:
                    nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)
                    if nm in ("staticmethod", "abstractstaticmethod"):
                        kind = "static"
                    elif nm == "classmethod":
                        kind = "class"
                    elif nm in ("property", "abstractproperty", "cached_property"):
                        kind = "property"
                    elif nm == "setter":
                        kind = "setter"
                if kind == "setter":
                    old = c.members.get(x.name)
                    if old is not None:
                        c.members[x.name] = Member("property", old.val, f)
                        continue
                c.members[x.name] = Member(kind, f)
            elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                v = self.ev(x.value, st, cfr) if x.value is not None else None
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name):
                        c.members[t.id] = Member("const", v)
                        st.envs[cfr.fid][t.id] = v
        self.bind(s.name, c, st, fr)
        return Flow(st)

    def st_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else None
        return Flow(None, rets=[(st.pc, v, st)])

    def st_Raise(self, s, st, fr):
        nm = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            nm = getattr(e, "id", getattr(e, "attr", "Exception"))
        self.do_raise(st, nm, s)
        return Flow(None)

    def st_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if self.split:
            c = self.decide(c, st)
        k = st.facts.known(c)
        if k is True:
            return Flow(st)
        g = T.land(st.pc, T.lnot(c))
        if k is False:
            self.do_raise(st, "AssertionError", s)
            return Flow(None)
        self.do_raise(st, "AssertionError", s, guard=g)
        st.facts.assume(c, True)
        return Flow(st)

    def cond(self, node, st, fr):
        try:
            v = self.ev(node, st, fr)
            return self.truth(st, v, node)
        except Undecided as e:
            return self.top_bool(str(e))

    def decide(self, c, st):
        """Trace partitioning: with a decider installed, an open test is decided by it and assumed."""
        if self.decider is None or st.facts.known(c) is not None:
            return c
        b = self.decider(self, c, st)
        if b is None:
            return c
        st.facts.assume(c, b)
        return boolv(b)

    def st_If(self, s, st, fr):
        c = self.decide(self.cond(s.test, st, fr), st)
        return self.branch(c, st, lambda x: self.exec_block(s.body, x, fr), lambda x: self.exec_block(s.orelse, x, fr))

    def branch(self, c, st, fa, fb):
        k = st.facts.known(c)
        if k is True:
            return fa(st)
        if k is False:
            return fb(st)
        sa, sb = st.copy(), st.copy()
        pc = st.pc
        sa.pc, sb.pc = T.land(pc, c), T.land(pc, T.lnot(c))
        sa.facts.assume(c, True)
        sb.facts.assume(c, False)
        with T.with_facts(sa.facts.poly()):
            A = fa(sa)
        with T.with_facts(sb.facts.poly()):
            B = fb(sb)
        out = Flow(None, A.rets + B.rets, A.brks + B.brks, A.conts + B.conts)
        if A.st is not None and B.st is not None:
            clean = not (A.rets or B.rets or A.brks or B.brks or A.conts or B.conts)
            npc = pc if clean else T._bool(T.add(A.st.pc, B.st.pc))
            out.st = self.merge(c, A.st, B.st, npc)
        elif A.st is not None or B.st is not None:
            out.st = A.st if A.st is not None else B.st
            if not out.rets and not out.brks and not out.conts:
                # the other side only raised: downstream values assume it did not
                out.st.pc = pc
        return out

    def st_With(self, s, st, fr):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
            exits.append(v)
        old = st.controls
        for v in exits:
            if isinstance(v, Obj) and v.kind == "control":
                st.controls = st.controls + (v.f["q"],)
        flow = self.exec_block(s.body, st, fr)
        for g in [flow.st] + [x[-1] for x in flow.rets + flow.brks + flow.conts]:
            if g is not None:
                g.controls = old
        return flow

    def st_Try(self, s, st, fr):
        # only the non-raising path is followed; handlers are reported as unsupported when reachable
        self.raises.append([])
        flow = self.exec_block(s.body, st, fr)
        rs = self.raises.pop()
        if rs and s.handlers:
            raise Undecided("exception handler")
        self.raises[-1] += rs
        if flow.st is not None and s.orelse:
            f2 = self.exec_block(s.orelse, flow.st, fr)
            flow = Flow(f2.st, flow.rets + f2.rets, flow.brks + f2.brks, flow.conts + f2.conts)
        if flow.st is not None and s.finalbody:
            f2 = self.exec_block(s.finalbody, flow.st, fr)
            flow = Flow(f2.st, flow.rets + f2.rets, flow.brks + f2.brks, flow.conts + f2.conts)
        return flow

    def st_Break(self, s, st, fr):
        return Flow(None, brks=[(st.pc, st)])

    def st_Continue(self, s, st, fr):
        return Flow(None, conts=[(st.pc, st)])

    # ------------------------------------------------------------------ loops
    def st_For(self, s, st, fr):
        from . import loops
        it = self.ev(s.iter, st, fr)
        return loops.for_loop(self, s, it, st, fr)

    def st_While(self, s, st, fr):
        from . import loops
        return loops.while_loop(self, s, st, fr)

    # ------------------------------------------------------------------ names
    def bind(self, name, v, st, fr):
        if name in fr.globals:
            fid = self.modenv[fr.module]
            self.events.append(("global-store", fr.module + "." + name, self.where(None), st.pc))
            st.envs[fid][name] = v
            return
        if name in fr.nonlocals:
            fid = fr.parent
            while fid is not None:
                if name in st.envs.get(fid, {}):
                    st.envs[fid][name] = v
                    return
                fid = st.envs[fid].get("$parent")
        st.envs[fr.fid][name] = v

    def name(self, name, st, fr, node=None):
        fid = fr.fid
        while fid is not None:
            env = st.envs.get(fid)
            if env is None:
                env = self.base.envs.get(fid, {})
            if name in env:
                v = env[name]
                if v is UNBOUND:
                    raise AbsRaise("UnboundLocalError", name)
                if isinstance(v, Gam):
                    v = self.ungam(st, v, name, node)
                return v
            fid = env.get("$parent")
        mf = self.modenv.get(fr.module)
        env = st.envs.get(mf) or self.base.envs.get(mf, {})
        if name in env:
            return env[name]
        b = self.models.builtin(name)
        if b is not None:
            return b
        self.events.append(("undefined", name, self.where(node), st.pc))
        raise AbsRaise("NameError", name)

    def ungam(self, st, v, name="", node=None):
        """Resolve a gate under the current facts; drop unbound arms (they raise on their guard)."""
        while isinstance(v, Gam):
            k = st.facts.known(v.c)
            if k is True:
                v = v.a
            elif k is False:
                v = v.b
            elif v.a is UNBOUND and v.b is not UNBOUND:
                self.do_raise(st, "UnboundLocalError", node, name, T.land(st.pc, v.c))
                v = v.b
            elif v.b is UNBOUND and v.a is not UNBOUND:
                self.do_raise(st, "UnboundLocalError", node, name, T.land(st.pc, T.lnot(v.c)))
                v = v.a
            else:
                break
        if v is UNBOUND:
            raise AbsRaise("UnboundLocalError", name)
        return v

    # ------------------------------------------------------------------ assignment targets
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st, t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            ix = self.ev_index(t.slice, st, fr)
            self.setitem(o, ix, v, st, fr, t)
        else:
            raise Undecided("assignment target")

    def unpack(self, v, n, st, node=None):
        if isinstance(v, Gam):
            a, b = self.unpack(v.a, n, st, node), self.unpack(v.b, n, st, node)
            return [self.merge_val(v.c, st, x, st, y, st) for x, y in zip(a, b)]
        if isinstance(v, tuple):
            if len(v) != n:
                raise AbsRaise("ValueError", "unpacking %d values into %d" % (len(v), n))
            return list(v)
        if isinstance(v, Top):
            return [v] * n
        segs = SQ.segs_of(self, st, v)
        vs = SQ.concrete(self, st, segs, 64)
        if vs is None:
            raise Undecided("unpacking of a symbolic sequence")
        if len(vs) != n:
            raise AbsRaise("ValueError", "unpacking %d values into %d" % (len(vs), n))
        return vs

    def setattr(self, o, name, v, st, fr, node=None):
        if isinstance(o, Gam):
            o = self.ungam(st, o, name, node)
        h = self.obj(st, o)
        if isinstance(h, HInst):
            m = h.cls.lookup(name)
            if m is not None and m.kind == "property":
                if m.setter is None:
                    raise AbsRaise("AttributeError", "can't set attribute %s" % name)
                self.call(BoundM(o, m.setter), [v], {}, st, node)
                return
            if h.tag:
                self.events.append(("mutate", "%s.%s" % (h.tag, name), self.where(node), st.pc))
            at = dict(h.attrs)
            at[name] = v
            st.heap[o.a] = HInst(h.cls, at, h.tag)
            return
        if isinstance(o, ModV):
            self.events.append(("global-store", o.name + "." + name, self.where(node), st.pc))
            return
        if isinstance(o, ClassV):
            self.events.append(("global-store", o.name + "." + name, self.where(node), st.pc))
            return
        self.models.lib_setattr(self, st, o, name, v, node)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            return Top("expression %s" % type(e).__name__)
        try:
            v = m(e, st, fr)
        except Undecided as x:
            self.notes.append("%s: %s" % (self.where(e), x))
            return Top("%s at %s" % (x, self.where(e)))
        except ShapeErr as x:
            raise AbsRaise("ShapeError", str(x))
        return v

    def ex_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bool):
            return boolv(v)
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            t = num(Fr(str(v)) if v == v and abs(v) != float("inf") else 0)
            return Ten(t.axes, t.terms, ("float",))
        if isinstance(v, complex):
            return T.const(Poly({(): (Fr(str(v.real)), Fr(str(v.imag)))} if v else {}))
        if v is Ellipsis:
            return Obj("ellipsis")
        return v

    def ex_JoinedStr(self, e, st, fr):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, st, fr)
        return Top("formatted string")

    def ex_Name(self, e, st, fr):
        return self.name(e.id, st, fr, e)

    def ex_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                vs = SQ.concrete(self, st, SQ.segs_of(self, st, self.ev(x.value, st, fr)), 64)
                if vs is None:
                    raise Undecided("starred symbolic sequence")
                out += vs
            else:
                out.append(self.ev(x, st, fr))
        return tuple(out)

    def ex_List(self, e, st, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += SQ.segs_of(self, st, self.ev(x.value, st, fr))
            else:
                segs.append(It(self.ev(x, st, fr)))
        return st.new(HList(segs))

    def ex_Set(self, e, st, fr):
        return st.new(HList([It(self.ev(x, st, fr)) for x in e.elts], "set"))

    def ex_Dict(self, e, st, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.obj(st, self.ev(v, st, fr))
                if not isinstance(src, HDict) or src.open is not None:
                    raise Undecided("dict merge")
                d.update(src.items)
                continue
            kk = self.ev(k, st, fr)
            d[self.dkey(kk)] = self.ev(v, st, fr)
        return st.new(HDict(d))

    def dkey(self, k):
        if isinstance(k, str):
            return k
        if isinstance(k, Ten):
            return ("num", k.key())
        if k is None:
            return ("none",)
        if isinstance(k, tuple):
            return ("tup",) + tuple(self.dkey(x) for x in k)
        raise Undecided("dictionary key")

    def ex_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        op = type(e.op).__name__
        if op == "Not":
            return T.lnot(self.truth(st, v, e))
        return self.unary(op, v, st, e)

    def unary(self, op, v, st, node):
        if isinstance(v, Gam):
            return self.lift(v, st, lambda x, s: self.unary(op, x, s, node))
        if isinstance(v, Top):
            return v
        t = self.ten(st, v)
        o = self.obj(st, v)
        k, dt = (o.kind, o.dt) if isinstance(o, HArr) else ("nd", None)
        if op == "USub":
            r = T.neg(t)
            if "float" in t.flags:
                r = Ten(r.axes, r.terms, ("float",))
            return self.new_arr(st, r, k, dt)
        if op == "UAdd":
            return v
        if op == "Invert":
            if "bool" in t.flags:
                return self.new_arr(st, T.lnot(t), k, "b")
            return self.new_arr(st, T.sub(T.neg(t), T.full(t.shape, 1)), k, dt)
        raise Undecided("unary " + op)

    def lift(self, g, st, fn):
        """Apply fn to both arms of a gate."""
        k = st.facts.known(g.c)
        if k is True:
            return fn(g.a, st)
        if k is False:
            return fn(g.b, st)
        if g.a is UNBOUND or g.b is UNBOUND:
            return fn(self.ungam(st, g), st)
        sa, sb = st.copy(), st.copy()
        sa.pc, sb.pc = T.land(st.pc, g.c), T.land(st.pc, T.lnot(g.c))
        sa.facts.assume(g.c, True)
        sb.facts.assume(g.c, False)
        va = vb = None
        try:
            with T.with_facts(sa.facts.poly()):
                va = fn(g.a, sa)
        except AbsRaise as e:
            self.raises[-1].append(Raise(sa.pc, e.exc, self.where(), e.msg))
            sa = None
        try:
            with T.with_facts(sb.facts.poly()):
                vb = fn(g.b, sb)
        except AbsRaise as e:
            self.raises[-1].append(Raise(sb.pc, e.exc, self.where(), e.msg))
            sb = None
        if sa is None and sb is None:
            raise AbsRaise("Error", "both alternatives raise")
        if sa is None or sb is None:
            keep = sa if sa is not None else sb
            self.replace(st, keep)
            return va if sa is not None else vb
        M = self.merge(g.c, sa, sb, st.pc)
        v = self.merge_val(g.c, sa, va, sb, vb, M)
        pc = st.pc
        self.replace(st, M)
        st.pc = pc
        return v

    def replace(self, st, other):
        pc = st.pc
        st.envs, st.heap, st.trace, st.facts, st.rng = other.envs, other.heap, other.trace, other.facts, other.rng
        st.pc = pc

    def ex_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        extra = FactSet()
        s2 = st
        depth = 0
        for i, x in enumerate(e.values):
            v = self.ev(x, s2, fr)
            c = self.truth(s2, v, x)
            k = s2.facts.known(c)
            last = i == len(e.values) - 1
            if k is not None:
                if k is isand:
                    if last and acc is None:
                        return v
                    continue
                # short circuit
                if acc is None:
                    return v
                c = boolv(k)
                acc = T.land(acc, c) if isand else T.lor(acc, c)
                return acc
            if acc is None and last:
                return v if isinstance(v, Ten) and "bool" in v.flags else (v if depth == 0 and i == 0 else c)
            acc = c if acc is None else (T.land(acc, c) if isand else T.lor(acc, c))
            if not last:
                if s2 is st:
                    s2 = st.copy()
                s2.facts.assume(c, isand)
                s2.pc = T.land(s2.pc, c if isand else T.lnot(c))
                facts = s2.facts.poly()
                T._FACTS.append(facts)
                depth += 1
        for _ in range(depth):
            T._FACTS.pop()
        if acc is None:
            return boolv(isand)
        if s2 is not st:
            for a in s2.heap:
                if a not in st.heap:
                    st.heap[a] = s2.heap[a]
        return acc

    def ex_IfExp(self, e, st, fr):
        c = self.decide(self.cond(e.test, st, fr), st)
        return self.lift(Gam(c, e.body, e.orelse), st, lambda x, s: self.ev(x, s, fr))

    def ex_Lambda(self, e, st, fr):
        f = self.make_func(e, st, fr)
        return f

    def ex_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            v = self.compare(type(op).__name__, left, right, st, e)
            if acc is None:
                acc = v
            else:
                acc = T.land(self.truth(st, acc), self.truth(st, v))
            left = right
        return acc

    def compare(self, op, a, b, st, node):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Gam):
                return self.lift(x, st, (lambda z, s: self.compare(op, z, y, s, node)) if not sw else
                                 (lambda z, s: self.compare(op, y, z, s, node)))
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b, st)
            return T.lnot(r) if op == "IsNot" else r
        if op in ("In", "NotIn"):
            r = self.models.contains(self, st, a, b, node)
            return T.lnot(r) if op == "NotIn" else r
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top_bool("comparison of unknown value")
        strs = (str, SQ.SStr)
        if op not in ("NotEq",) and any(isinstance(x, Obj) and x.kind in ("pexpr", "pvar") for x in (a, b)):
            return Obj("pexpr", op=op, a=self.models.freeze(self, st, a), b=self.models.freeze(self, st, b))
        if op in ("Eq", "NotEq"):
            r = None
            if isinstance(a, strs) or isinstance(b, strs):
                r = SQ.str_eq(self, st, a, b)
            elif a is None or b is None:
                if self.is_arr(st, a) or self.is_arr(st, b):
                    raise Undecided("array == None")
                r = boolv(a is None and b is None)
            elif isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    r = FALSE
                else:
                    r = TRUE
                    for x, y in zip(a, b):
                        r = T.land(r, self.truth(st, self.compare("Eq", x, y, st, node)))
            elif isinstance(a, (Lib, ClassV, FuncV)) or isinstance(b, (Lib, ClassV, FuncV)):
                r = boolv(a is b or a == b)
            elif isinstance(self.obj(st, a), HList) and isinstance(self.obj(st, b), HList):
                r = SQ.seq_eq(self, st, self.obj(st, a).segs, self.obj(st, b).segs)
            elif (isinstance(self.obj(st, a), HList) and isinstance(b, tuple)) or (isinstance(self.obj(st, b), HList) and isinstance(a, tuple)):
                r = FALSE
            if r is not None:
                return T.lnot(r) if op == "NotEq" else r
        if a is None or b is None or isinstance(a, strs) or isinstance(b, strs):
            raise AbsRaise("TypeError", "ordering of %r and %r" % (a, b))
        ta, tb = self.ten(st, a), self.ten(st, b)
        r = self.models.cmp_ten(op, ta, tb)
        if r.ndim == 0 and not (self.is_arr(st, a) or self.is_arr(st, b)):
            return r
        ka = self.obj(st, a).kind if self.is_arr(st, a) else self.obj(st, b).kind if self.is_arr(st, b) else "nd"
        return self.new_arr(st, r, ka, "b")

    def is_same(self, a, b, st):
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top_bool("identity of unknown")
        if a is None or b is None:
            return boolv(a is b)
        if isinstance(a, Ten) and isinstance(b, Ten) and ("bool" in a.flags or "bool" in b.flags):
            return T.eq0(T.sub(a, b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            return boolv(a == b)
        if isinstance(a, Ten) or isinstance(b, Ten):
            if isinstance(a, Ten) and isinstance(b, Ten):
                return T.eq0(T.sub(a, b))
            return FALSE
        return boolv(a is b or a == b)

    def ex_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node):
        if isinstance(a, Gam):
            return self.lift(a, st, lambda x, s: self.binop(op, x, b, s, node))
        if isinstance(b, Gam):
            return self.lift(b, st, lambda x, s: self.binop(op, a, x, s, node))
        return self.models.binop(self, st, op, a, b, node)

    def ex_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.getattr(o, e.attr, st, fr, e)

    def getattr(self, o, name, st, fr, node):
        if isinstance(o, Gam):
            o = self.ungam(st, o, name, node)
            if isinstance(o, Gam):
                return self.lift(o, st, lambda x, s: self.getattr(x, name, s, fr, node))
        if isinstance(o, Top):
            return Top(o.why)
        h = self.obj(st, o)
        if isinstance(h, HInst):
            m = h.cls.lookup(name)
            if m is not None and m.kind == "property":
                return self.call(BoundM(o, m.val), [], {}, st, node)
            if name in h.attrs:
                v = h.attrs[name]
                if isinstance(v, Gam):
                    v = self.ungam(st, v, name, node)
                if v is UNBOUND:
                    raise AbsRaise("AttributeError", name)
                return v
            if m is not None:
                if m.kind == "method":
                    return BoundM(o, m.val)
                if m.kind == "class":
                    return BoundM(h.cls, m.val)
                return m.val
            if name == "__class__":
                return h.cls
            if name == "__dict__":
                return st.new(HDict(h.attrs))
            self.events.append(("attribute", "%s.%s" % (h.cls.name, name), self.where(node), st.pc))
            raise AbsRaise("AttributeError", "%s.%s" % (h.cls.name, name))
        if isinstance(o, ModV):
            if o.name in self.prog.mods:
                env = self.base.envs[self.module(o.name)]
                if name in env:
                    return env[name]
                sub = o.name + "." + name
                if sub in self.prog.mods:
                    return self.import_mod(sub)
                raise AbsRaise("AttributeError", sub)
            return self.models.lib_name(o.name + "." + name)
        if isinstance(o, ClassV):
            m = o.lookup(name)
            if m is None:
                if name == "__name__":
                    return o.name
                self.events.append(("attribute", "%s.%s" % (o.name, name), self.where(node), st.pc))
                raise AbsRaise("AttributeError", "%s.%s" % (o.name, name))
            if m.kind == "class":
                return BoundM(o, m.val)
            return m.val
        return self.models.lib_getattr(self, st, o, name, node)

    # ---------------------------------------------------------------- subscripts
    def ev_index(self, e, st, fr):
        if isinstance(e, ast.Index):
            e = e.value
        if isinstance(e, ast.Slice):
            return SliceV(*[self.ev(x, st, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, st, fr) for x in e.elts)
        return self.ev(e, st, fr)

    def ex_Slice(self, e, st, fr):
        return self.ev_index(e, st, fr)

    def ex_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        ix = self.ev_index(e.slice, st, fr)
        return self.getitem(o, ix, st, fr, e)

    def getitem(self, o, ix, st, fr, node):
        if isinstance(o, Gam):
            o = self.ungam(st, o, "", node)
            if isinstance(o, Gam):
                return self.lift(o, st, lambda x, s: self.getitem(x, ix, s, fr, node))
        if isinstance(ix, Gam):
            return self.lift(ix, st, lambda x, s: self.getitem(o, x, s, fr, node))
        return self.models.getitem(self, st, o, ix, node)

    def setitem(self, o, ix, v, st, fr, node):
        if isinstance(o, Gam):
            o = self.ungam(st, o, "", node)
        return self.models.setitem(self, st, o, ix, v, node)

    # ---------------------------------------------------------------- comprehensions
    def ex_ListComp(self, e, st, fr):
        segs = self.comp(e, st, fr)
        return st.new(HList(segs))

    def ex_GeneratorExp(self, e, st, fr):
        return Iter(self.comp(e, st, fr))

    def ex_SetComp(self, e, st, fr):
        return st.new(HList(self.comp(e, st, fr), "set"))

    def ex_DictComp(self, e, st, fr):
        e2 = ast.copy_location(ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators), e)
        segs = self.comp(e2, st, fr)
        vs = SQ.concrete(self, st, segs, 64)
        if vs is None:
            raise Undecided("symbolic dictionary")
        return st.new(HDict({self.dkey(k): v for k, v in vs}))

    def comp(self, e, st, fr):
        from . import loops
        cfr = Frame(fresh(), fr.module, fr.qual, fr.fid)
        st.envs[cfr.fid] = {"$parent": fr.fid}
        return loops.comprehension(self, e, 0, st, cfr)

    def ex_Starred(self, e, st, fr):
        raise Undecided("starred expression")

    def ex_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    # ---------------------------------------------------------------- calls
    def ex_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.super_obj(e, st, fr)
        f = self.ev(e.func, st, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                vs = SQ.concrete(self, st, SQ.segs_of(self, st, v), 64)
                if vs is None:
                    raise Undecided("starred symbolic arguments")
                args += vs
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                o = self.obj(st, v)
                if not isinstance(o, HDict):
                    raise Undecided("** of unknown")
                if o.open is not None:
                    kw["**"] = v
                for kk, vv in o.items.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def super_obj(self, e, st, fr):
        if e.args:
            c = self.ev(e.args[0], st, fr)
            o = self.ev(e.args[1], st, fr) if len(e.args) > 1 else None
        else:
            c = fr.cls
            o = st.envs[fr.fid].get(fr.selfname) if fr.selfname else None
        return Obj("super", cls=c, recv=o)

    def call(self, f, args, kw, st, node):
        if isinstance(f, Gam):
            f = self.ungam(st, f, "", node)
            if isinstance(f, Gam):
                return self.lift(f, st, lambda x, s: self.call(x, args, kw, s, node))
        self.callsites.add((self.stack[-1][0] if self.stack else "?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        if isinstance(f, BoundM):
            if isinstance(f.func, PyFn):
                return f.func.fn(self, st, [f.recv] + list(args), kw)
            return self.call_func(f.func, [f.recv] + list(args), kw, st, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, st, node)
        if isinstance(f, PyFn):
            return f.fn(self, st, args, kw)
        if isinstance(f, Top):
            return Top(f.why)
        h = self.obj(st, f)
        if isinstance(h, HInst):
            m = h.cls.lookup("__call__")
            if m is not None:
                return self.call_func(m.val, [f] + list(args), kw, st, node)
        return self.models.call(self, st, f, args, kw, node)

    def instantiate(self, c, args, kw, st, node):
        for b in c.mro():
            for x in b.bases:
                if isinstance(x, Lib) and x.name.split(".")[-1] in ("Exception", "ValueError", "TypeError", "RuntimeError"):
                    return Obj("exception", name=c.name)
        o = st.new(HInst(c, {}))
        m = c.lookup("__init__")
        if m is not None:
            self.call_func(m.val, [o] + list(args), kw, st, node)
        elif args or kw:
            raise AbsRaise("TypeError", "%s() takes no arguments" % c.name)
        return o

    def bind_args(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            self.events.append(("arity", f.qual, self.where(node), st.pc))
            raise AbsRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.qual, len(names), len(args)))
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        open_ = None
        for k, v in kw.items():
            if k == "**":
                open_ = v
                continue
            if k in names or k in kwonly:
                if k in env:
                    self.events.append(("arity", f.qual, self.where(node), st.pc))
                    raise AbsRaise("TypeError", "%s() got multiple values for %s" % (f.qual, k))
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.events.append(("arity", f.qual, self.where(node), st.pc))
                raise AbsRaise("TypeError", "%s() got an unexpected keyword argument %s" % (f.qual, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = st.new(HDict(rest))
        off = len(names) - len(f.defaults)
        for i, n in enumerate(names):
            if n not in env:
                if i >= off:
                    env[n] = f.defaults[i - off]
                else:
                    self.events.append(("arity", f.qual, self.where(node), st.pc))
                    raise AbsRaise("TypeError", "%s() missing argument %s" % (f.qual, n))
        for n in kwonly:
            if n not in env:
                if n in f.kwdefaults:
                    env[n] = f.kwdefaults[n]
                else:
                    raise AbsRaise("TypeError", "%s() missing keyword argument %s" % (f.qual, n))
        if open_ is not None:
            # an open dictionary overrides defaults by name
            for n in names + kwonly:
                if n in getattr(self, "open_names", {}):
                    pass
        return env

    def call_func(self, f, args, kw, st, node):
        if self.depth > 40:
            raise Undecided("call depth")
        env = self.bind_args(f, args, kw, st, node)
        fid = fresh()
        env["$parent"] = f.fid
        st.envs[fid] = env
        fr = Frame(fid, f.module, f.qual, f.fid)
        fr.cls = f.cls
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        fr.selfname = names[0] if names else None
        self.covered.add(f.qual)
        if isinstance(f.node, ast.Lambda):
            self.stack.append((f.qual, node))
            try:
                return self.ev(f.node.body, st, fr)
            finally:
                self.stack.pop()
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
        if gen:
            st.envs[fid]["$yield"] = st.new(HList(()))
        outer_pc = st.pc
        st.pc = TRUE
        self.raises.append([])
        self.stack.append((f.qual, node))
        self.depth += 1
        try:
            flow = self.exec_block(f.node.body, st, fr)
        finally:
            self.depth -= 1
            self.stack.pop()
            rs = self.raises.pop()
        for r in rs:
            self.raises[-1].append(Raise(T.land(outer_pc, r.guard), r.exc, r.where, r.msg))
        outs = list(flow.rets)
        if flow.st is not None:
            outs.append((flow.st.pc, None, flow.st))
        if not outs:
            st.pc = outer_pc
            raise AbsRaise("(callee)", "%s always raises" % f.qual)
        # fold the outcomes; the last one is the default
        g, v, s = outs[-1]
        if gen:
            v = s.envs[fid]["$yield"]
        for g2, v2, s2 in reversed(outs[:-1]):
            if gen:
                v2 = s2.envs[fid]["$yield"]
            M = self.merge(g2, s2, s, TRUE)
            v = self.merge_val(g2, s2, v2, s, v, M)
            s = M
        self.replace(st, s)
        st.pc = outer_pc
        # frames are kept: closures may refer to them
        return v


class Frame:
    def __init__(self, fid, module, qual, parent):
        self.fid, self.module, self.qual, self.parent = fid, module, qual, parent
        self.globals, self.nonlocals = set(), set()
        self.cls = None
        self.selfname = None


def walk_own(fn):
    """Nodes of a function body without nested functions."""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                st.append(c)
