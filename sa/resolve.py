"""Name, attribute and call resolution over the source of the library (nothing is run).

Modules are parsed; scopes, class members and module exports are tables; definite assignment is a forward analysis over
the paths of each function, each path carrying the facts its conditions give; instance types come from constructor calls,
properties, methods that return one, and the arguments of calls inside the library."""
import ast
import builtins
import glob
import importlib
import itertools
import os
import sys

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__"}
MAXPATHS = 256


def text(e):
    return ast.unparse(e)


class Ext:
    """Names exported by installed packages, read from their source."""

    def __init__(self):
        self.base = [p for p in sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))]
        self.cache = {}

    def files(self, dotted):
        rel = dotted.replace(".", "/")
        out = []
        for b in self.base:
            for suf in ("/__init__.pyi", "/__init__.py", ".pyi", ".py"):
                if os.path.exists(os.path.join(b, rel + suf)):
                    out.append(os.path.join(b, rel + suf))
        d = [os.path.join(b, rel) for b in self.base if os.path.isdir(os.path.join(b, rel))]
        return out, d

    def std(self, dotted):
        """Names of a module of the standard library."""
        if dotted.split(".")[0] in sys.stdlib_module_names:
            try:
                return set(dir(importlib.import_module(dotted)))
            except ImportError:
                return set()
        return None

    def names(self, dotted, depth=0):
        """(names found, complete?)"""
        if dotted not in self.cache:
            s = self.std(dotted)
            self.cache[dotted] = (s, True) if s is not None else (set(), False)
            if s is None:
                self.cache[dotted] = self.parse(dotted, depth)
        return self.cache[dotted]

    def parse(self, dotted, depth):
        fs, ds = self.files(dotted)
        if not fs or depth > 6:
            return set(), False
        out, opened = set(), False
        stub = any(f.endswith(".pyi") for f in fs)
        for d in ds:
            for f in os.listdir(d):
                out.add(f.split(".")[0])
        for f in fs:
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except (SyntaxError, UnicodeDecodeError):
                opened = True
                continue
            lazy = not f.endswith(".pyi")
            pkg = dotted if os.path.basename(f).startswith("__init__") else dotted.rpartition(".")[0]
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    out.add(n.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "setattr", "exec", "locals", "vars"):
                    opened |= lazy and not stub
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        out.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    m = n.module or ""
                    if n.level:
                        p = pkg.split(".")
                        p = p[:len(p) - (n.level - 1)]
                        m = ".".join(p + ([m] if m else []))
                    for a in n.names:
                        if a.name == "*":
                            e, c = self.names(m, depth + 1)
                            out |= e
                            opened |= not c
                        else:
                            out.add(a.asname or a.name)
        return out, not opened


class Fn:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        decs = [text(d) for d in getattr(node, "decorator_list", [])]
        self.decs = decs
        self.static = "staticmethod" in decs or "abstractstaticmethod" in decs
        self.clsm = "classmethod" in decs
        self.prop = any(d in ("property", "abstractproperty", "cached_property", "functools.cached_property") for d in decs)
        self.setter = any(d.endswith(".setter") for d in decs)
        self.abstract = any(d.split(".")[-1].startswith("abstract") for d in decs)
        known = {"staticmethod", "abstractstaticmethod", "classmethod", "property", "abstractproperty", "abstractmethod",
                 "abc.abstractmethod", "cached_property", "functools.cached_property"}
        self.odd = any(d not in known and not d.endswith((".setter", ".deleter", ".getter")) for d in decs)
        self.q = (cls.name + "." if cls else "") + ((outer.q + ".") if outer and not cls else "") + self.name

    @property
    def where(self):
        return "%s:%s" % (self.mod.rel, self.q)


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.props, self.setters, self.attrs, self.cvars = {}, {}, set(), {}, set()
        self.open = False
        self.subs = []
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(mod, n, self)
                if f.setter:
                    self.setters.add(n.name)
                    self.props.setdefault(n.name, f)
                    self.attrfns = getattr(self, "attrfns", []) + [f]
                elif f.prop:
                    self.props[n.name] = f
                else:
                    self.methods[n.name] = f
            else:
                for t in ast.walk(n):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.cvars.add(t.id)
        for f in self.fns():
            if f.name in ("__getattr__", "__getattribute__", "__setattr__"):
                self.open = True
            if f.static or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for t in ast.walk(f.node):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and isinstance(t.ctx, ast.Store):
                    self.attrs.setdefault(t.attr, []).append((f, t))
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("setattr", "vars") and t.args and text(t.args[0]) == me:
                    self.open = True
                if isinstance(t, ast.Attribute) and t.attr == "__dict__" and text(t.value) == me:
                    self.open = True

    def fns(self):
        return list(self.methods.values()) + [f for f in self.props.values()] + [f for f in getattr(self, "attrfns", []) if f not in self.props.values()]


class Mod:
    def __init__(self, lib, name, path, rel):
        self.lib, self.name, self.rel = lib, name, rel
        self.tree = ast.parse(open(path, encoding="utf-8").read(), path)
        self.binds = {}        # name -> ("fn",Fn) ("cls",Cls) ("mod",dotted) ("from",dotted,name) ("val",node)
        self.stars = []
        self.open = False
        self.pkg = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        self.all = None
        for n in self.stmts(self.tree.body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.binds[n.name] = ("fn", Fn(self, n))
            elif isinstance(n, ast.ClassDef):
                self.binds[n.name] = ("cls", Cls(self, n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.binds[a.asname] = ("mod", a.name)
                    else:
                        self.binds[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                m = self.absolute(n)
                for a in n.names:
                    if a.name == "*":
                        self.stars.append((m, n))
                    else:
                        self.binds[a.asname or a.name] = ("from", m, a.name)
            else:
                for t in ast.walk(n):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.binds.setdefault(t.id, ("val", n))
                    if isinstance(t, ast.ExceptHandler) and t.name:
                        self.binds.setdefault(t.name, ("val", n))
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and text(n.targets[0]) == "__all__":
                    try:
                        self.all = [ast.literal_eval(x) for x in n.value.elts]
                    except (ValueError, AttributeError):
                        self.open = True
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.binds.setdefault(x, ("val", n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec"):
                self.open = True

    def stmts(self, body):
        for n in body:
            yield n
            if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for f in ("body", "orelse", "finalbody"):
                    yield from self.stmts(getattr(n, f, []))
                for h in getattr(n, "handlers", []):
                    yield from self.stmts(h.body)

    def absolute(self, n):
        m = n.module or ""
        if n.level:
            p = self.pkg.split(".")
            p = p[:len(p) - (n.level - 1)]
            m = ".".join(p + ([m] if m else []))
        return m


class Lib:
    """All modules of the package without its tests."""

    def __init__(self, root, package="PyQCodes"):
        self.root, self.package = root, package
        self.mods, self.ext = {}, Ext()
        for d, dirs, files in os.walk(os.path.join(root, package)):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__", "tex") and not x.startswith("."))
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    dotted = rel[:-3].replace(os.sep, ".")
                    if dotted.endswith(".__init__"):
                        dotted = dotted[:-9]
                    self.mods[dotted] = Mod(self, dotted, p, rel)
        self.classes = [b[1] for m in self.mods.values() for b in m.binds.values() if b[0] == "cls"]
        for c in self.classes:
            for b in self.bases(c):
                if isinstance(b, Cls):
                    b.subs.append(c)

    # ---------------------------------------------------------------- modules
    def exports(self, dotted, seen=()):
        """(set of names a star import brings, open?)"""
        if dotted in self.mods:
            m = self.mods[dotted]
            if dotted in seen:
                return set(), False
            if m.all is not None:
                return set(m.all), False
            out, opened = {n for n in m.binds if not n.startswith("_")}, m.open
            for s, _ in m.stars:
                e, o = self.exports(s, seen + (dotted,))
                out |= {n for n in e if not n.startswith("_")}
                opened |= o
            return out, opened
        n, c = self.ext.names(dotted)
        return n, not c

    def has(self, dotted, name):
        """Does module `dotted` have attribute name: True, False, None."""
        if dotted in self.mods:
            m = self.mods[dotted]
            if name in m.binds or dotted + "." + name in self.mods or name in BUILTINS:
                return True
            opened = m.open
            for s, _ in m.stars:
                e, o = self.exports(s, (dotted,))
                if name in e:
                    return True
                opened |= o
            return None if opened else False
        n, c = self.ext.names(dotted)
        if name in n or name.startswith("__"):
            return True
        return False if c else None

    def lookup(self, dotted, name, depth=0):
        """Binding of name in a library module, following imports."""
        if depth > 8 or dotted not in self.mods:
            return ("extobj", dotted, name)
        m = self.mods[dotted]
        b = m.binds.get(name)
        if b is None:
            if dotted + "." + name in self.mods:
                return ("mod", dotted + "." + name)
            for s, _ in reversed(m.stars):
                if name in self.exports(s, (dotted,))[0]:
                    return self.lookup(s, name, depth + 1)
            return None
        if b[0] == "from":
            if b[1] in self.mods:
                if b[1] + "." + b[2] in self.mods and b[2] not in self.mods[b[1]].binds:
                    return ("mod", b[1] + "." + b[2])
                return self.lookup(b[1], b[2], depth + 1)
            return ("extobj", b[1], b[2])
        return b

    # ---------------------------------------------------------------- classes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = self.lookup(c.mod.name, b.id)
                out.append(r[1] if r and r[0] == "cls" else ("ext", b.id, r))
            else:
                out.append(("ext", text(b), None))
        return out

    def mro(self, c, seen=None):
        seen = [] if seen is None else seen
        if c in seen:
            return seen
        seen.append(c)
        for b in self.bases(c):
            if isinstance(b, Cls):
                self.mro(b, seen)
        return seen

    def isopen(self, c):
        """Members cannot be listed (foreign base class or dynamic attributes)."""
        for k in self.mro(c):
            if k.open:
                return True
            for b in self.bases(k):
                if not isinstance(b, Cls) and b[1] not in ("ABC", "object", "abc.ABC"):
                    return True
        return False

    def member(self, c, name):
        """("method",Fn) ("prop",Fn) ("attr",..) ("cvar",) ("object",) None"""
        for k in self.mro(c):
            if name in k.props:
                return ("prop", k.props[name])
            if name in k.methods:
                return ("method", k.methods[name])
            if name in k.cvars:
                return ("cvar", k)
        for k in self.mro(c):
            if name in k.attrs:
                return ("attr", k)
        if hasattr(object, name) or name in ("__dict__", "__module__", "__weakref__", "__name__", "__qualname__", "__mro__", "__bases__"):
            return ("object", None)
        return None

    def subclasses(self, c):
        out = []
        for s in c.subs:
            out.append(s)
            out += self.subclasses(s)
        return out

    def settable(self, c, name):
        for k in self.mro(c):
            if name in k.props:
                return name in k.setters
            if name in k.methods or name in k.cvars:
                return True
        return True

    def abstracts(self, c):
        """Abstract methods an instance of c would still have (only when an ABC base makes them count)."""
        m = self.mro(c)
        if not any(not isinstance(b, Cls) and b[1] in ("ABC", "abc.ABC") for k in m for b in self.bases(k)):
            return set()
        names = {n for k in m for n, f in list(k.methods.items()) + list(k.props.items()) if f.abstract}
        out = set()
        for n in names:
            for k in m:
                f = k.methods.get(n) or k.props.get(n)
                if f is not None or n in k.cvars:
                    if f is not None and f.abstract:
                        out.add(n)
                    break
        return out

    def functions(self):
        """All functions, methods and nested functions."""
        out = []
        for m in self.mods.values():
            for b in m.binds.values():
                if b[0] == "fn":
                    out.append(b[1])
                elif b[0] == "cls":
                    out += b[1].fns()
        done = []
        while out:
            f = out.pop(0)
            done.append(f)
            for n in walk_own(f.node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and n is not f.node:
                    out.append(Fn(f.mod, n, None, f))
        return done


def walk_own(node):
    """Nodes of a function without the inside of nested functions (which are yielded themselves)."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                todo[:0] = n.decorator_list
            if not isinstance(n, ast.ClassDef):
                todo[:0] = [d for d in n.args.defaults + n.args.kw_defaults if d is not None]
            continue
        todo[:0] = list(ast.iter_child_nodes(n))


def params(node):
    a = node.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def stored(node):
    if not hasattr(node, "_stored"):
        node._stored = stored_(node)
    return node._stored


def stored_(node):
    """Names bound in the scope of a function (not in nested functions or comprehensions)."""
    out, glob_ = set(params(node)), set()
    comp = set()
    for n in walk_own(node):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for t in ast.walk(g.target):
                    comp.add(id(t))
    for n in walk_own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp:
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob_ |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out - glob_


# ------------------------------------------------------------------ conditions
def atoms(e, out):
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            atoms(v, out)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        atoms(e.operand, out)
    else:
        e2, _ = norm(e)
        out[text(e2)] = e2
    return out


NEG = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}


def norm(e):
    """(positive form, sign)"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG:
        return ast.Compare(e.left, [NEG[type(e.ops[0])]()], e.comparators), False
    return e, True


def val(e, asg):
    if isinstance(e, ast.BoolOp):
        vs = [val(v, asg) for v in e.values]
        return all(vs) if isinstance(e.op, ast.And) else any(vs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not val(e.operand, asg)
    if isinstance(e, ast.Constant):
        return bool(e.value)
    p, s = norm(e)
    return asg[text(p)] == s


def eqconst(e):
    """(subject text, constant) of a comparison with one constant."""
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.Is)) and isinstance(e.comparators[0], ast.Constant):
        return text(e.left), repr(e.comparators[0].value)
    return None


def inconsts(e):
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.In) and isinstance(e.comparators[0], (ast.List, ast.Tuple, ast.Set)) \
            and all(isinstance(x, ast.Constant) for x in e.comparators[0].elts):
        return text(e.left), {repr(x.value) for x in e.comparators[0].elts}
    return None


def models(facts, limit=4096):
    """Assignments of truth values to the atoms under which all facts hold; None when too many."""
    at = {}
    for e, _ in facts:
        atoms(e, at)
    at = {k: v for k, v in at.items() if not isinstance(v, ast.Constant)}
    names = sorted(at)
    if 2 ** len(names) > limit:
        return None
    out = []
    eq = {n: eqconst(at[n]) for n in names}
    inn = {n: inconsts(at[n]) for n in names}
    for bits in range(2 ** len(names)):
        asg = {n: bool(bits >> i & 1) for i, n in enumerate(names)}
        seen, good = {}, True
        for n in names:
            if eq[n] and asg[n]:
                s, c = eq[n]
                if seen.get(s, c) != c:
                    good = False
                    break
                seen[s] = c
        if not good:
            continue
        for n in names:
            if inn[n]:
                s, cs = inn[n]
                if s in seen:
                    good = good and (asg[n] == (seen[s] in cs))
                elif asg[n]:
                    # the value is one of the constants: not all of them are excluded
                    out_ = {eq[m][1] for m in names if eq[m] and eq[m][0] == s and not asg[m]}
                    good = good and not cs <= out_
        # a subject known through its truth value and through constants
        for s, c in seen.items():
            if s in asg and asg[s] == (c in ("None", "False", "0", "''")):
                good = False
        if good and all(val(e, asg) == v for e, v in facts):
            out.append(asg)
    return out


class Path:
    __slots__ = ("done", "facts", "soft")

    def __init__(self, done=frozenset(), facts=(), soft=False):
        self.done, self.facts, self.soft = done, facts, soft

    def key(self):
        return (self.done, tuple(sorted((text(e), v) for e, v in self.facts)), self.soft)

    def bind(self, name):
        f = tuple((e, v) for e, v in self.facts if not any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e)))
        return Path(self.done | {name}, f, self.soft)

    def unbind(self, name):
        p = self.bind(name)
        return Path(p.done - {name}, p.facts, p.soft)

    def drop(self, t):
        f = tuple((e, v) for e, v in self.facts if t not in text(e))
        return Path(self.done, f, self.soft)

    def fact(self, e, v):
        """None when the fact contradicts the path."""
        e2, s = norm(e)
        if not s:
            e, v = e2, not v
        if (text(e), v) in {(text(a), b) for a, b in self.facts}:
            return self
        f = self.facts + ((e, v),)
        m = models(f)
        if m is not None and not m:
            return None
        return Path(self.done, f, self.soft)


class Assigned:
    """Which uses of local names may come before any assignment."""

    def __init__(self, fn):
        self.fn = fn
        self.local = stored(fn.node) - set(params(fn.node))
        self.uses = {}         # id(node) -> [node, defined, [undefined paths]]
        self.rebound = {n.id for n in walk_own(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if isinstance(fn.node, ast.Lambda):
            self.expr(fn.node.body, [Path()])
        else:
            self.block(fn.node.body, [Path()])

    def merge(self, ps):
        out, seen = [], set()
        for p in ps:
            k = p.key()
            if k not in seen:
                seen.add(k)
                out.append(p)
        if len(out) > MAXPATHS:
            by = {}
            for p in out:
                by.setdefault(p.done, p)
            out = [Path(p.done, (), True) for p in by.values()][:MAXPATHS]
        return out

    # ---------------------------------------------------------------- expressions
    def use(self, n, ps):
        r = self.uses.setdefault(id(n), [n, 0, []])
        for p in ps:
            if n.id in p.done:
                r[1] += 1
            else:
                r[2].append(p)

    def expr(self, e, ps, bound=frozenset()):
        """Check the names an expression reads; returns the paths after it (walrus binds)."""
        if e is None or not ps:
            return ps
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local and e.id not in bound:
                self.use(e, ps)
            return ps
        if isinstance(e, ast.Lambda):
            return ps
        if isinstance(e, ast.NamedExpr):
            ps = self.expr(e.value, ps, bound)
            return [p.bind(e.target.id) for p in ps]
        if isinstance(e, ast.IfExp):
            ps = self.expr(e.test, ps, bound)
            a, b = self.split(e.test, ps)
            self.expr(e.body, a, bound)
            self.expr(e.orelse, b, bound)
            return ps
        if isinstance(e, ast.BoolOp):
            cur = ps
            for v in e.values:
                self.expr(v, cur, bound)
                a, b = self.split(v, cur)
                cur = a if isinstance(e.op, ast.And) else b
            return ps
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set(bound)
            cur = ps
            for g in e.generators:
                cur = self.expr(g.iter, cur, frozenset(b))
                b |= {t.id for t in ast.walk(g.target) if isinstance(t, ast.Name)}
                for c in g.ifs:
                    self.expr(c, cur, frozenset(b))
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, cur, frozenset(b))
            return ps
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice, ast.FormattedValue)):
                ps = self.expr(c.value if isinstance(c, ast.keyword) else c, ps, bound)
        return ps

    def split(self, test, ps):
        a, b = [], []
        for p in ps:
            x = self.assume(p, test, True)
            y = self.assume(p, test, False)
            a += x
            b += y
        return self.merge(a), self.merge(b)

    def assume(self, p, e, v):
        if isinstance(e, ast.Constant):
            return [p] if bool(e.value) == v else []
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(p, e.operand, not v)
        if isinstance(e, ast.BoolOp) and (isinstance(e.op, ast.And)) == v:
            cur = [p]
            for x in e.values:
                cur = [r for q in cur for r in self.assume(q, x, v)]
            return cur
        if any(isinstance(n, (ast.Yield, ast.Await, ast.NamedExpr)) for n in ast.walk(e)):
            return [Path(p.done, p.facts, True)]
        q = p.fact(e, v)
        return [q] if q is not None else []

    # ---------------------------------------------------------------- statements
    def target(self, t, ps):
        if isinstance(t, ast.Name):
            return [p.bind(t.id) for p in ps]
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                ps = self.target(x, ps)
            return ps
        if isinstance(t, ast.Starred):
            return self.target(t.value, ps)
        self.expr_parts(t, ps)
        return [p.drop(text(t)) for p in ps]

    def expr_parts(self, t, ps):
        for c in ast.iter_child_nodes(t):
            if isinstance(c, ast.expr):
                self.expr(c, ps)

    def block(self, body, ps, loop=None):
        """loop: dict(brk=[], cont=[]) of the innermost loop. Returns the paths that fall through."""
        for s in body:
            if not ps:
                return []
            ps = self.merge(self.stmt(s, ps, loop))
        return ps

    def stmt(self, s, ps, loop):
        if isinstance(s, ast.Assign):
            ps = self.expr(s.value, ps)
            for t in s.targets:
                ps = self.target(t, ps)
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant):
                    name = ast.Name(t.id, ast.Load())
                    c = s.value.value
                    if isinstance(c, bool) or c is None:
                        ps = [q for q in (p.fact(name, bool(c)) for p in ps) if q]
                    if c is None or isinstance(c, str):
                        op = ast.Is() if c is None else ast.Eq()
                        ps = [q for q in (p.fact(ast.Compare(name, [op], [ast.Constant(c)]), True) for p in ps) if q]
            return ps
        if isinstance(s, ast.AugAssign):
            ps = self.expr(s.value, ps)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local:
                    self.use(s.target, ps)
                return [p.bind(s.target.id) for p in ps]
            return self.target(s.target, ps)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return ps
            return self.target(s.target, self.expr(s.value, ps))
        if isinstance(s, ast.Expr):
            return self.expr(s.value, ps)
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ([s.value] if isinstance(s, ast.Return) else [s.exc, s.cause]):
                ps = self.expr(x, ps)
            return []
        if isinstance(s, ast.Assert):
            self.expr(s.test, ps)
            a, b = self.split(s.test, ps)
            self.expr(s.msg, b)
            return a
        if isinstance(s, ast.If):
            ps = self.expr(s.test, ps)
            a, b = self.split(s.test, ps)
            return self.block(s.body, a, loop) + self.block(s.orelse, b, loop)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            ps = self.expr(s.iter, ps)
            ps = self.target(s.target, ps)
            lp = dict(brk=[], cont=[])
            end = self.block(s.body, ps, lp) + lp["cont"]
            return self.block(s.orelse, self.merge(end), loop) + lp["brk"]
        if isinstance(s, ast.While):
            ps = self.expr(s.test, ps)
            a, b = self.split(s.test, ps)
            lp = dict(brk=[], cont=[])
            end = self.block(s.body, a or [Path(p.done, p.facts, True) for p in ps], lp) + lp["cont"]
            if isinstance(s.test, ast.Constant) and s.test.value:
                return lp["brk"]
            return self.block(s.orelse, self.merge(end), loop) + lp["brk"]
        if isinstance(s, ast.Break):
            if loop is not None:
                loop["brk"] += ps
            return []
        if isinstance(s, ast.Continue):
            if loop is not None:
                loop["cont"] += ps
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                ps = self.expr(i.context_expr, ps)
                if i.optional_vars is not None:
                    ps = self.target(i.optional_vars, ps)
            return self.block(s.body, ps, loop)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            end = self.block(s.body, ps, loop)
            out = self.block(s.orelse, end, loop) if s.orelse else end
            for h in s.handlers:
                hs = [Path(p.done, (), True) for p in ps]
                if h.name:
                    hs = [p.bind(h.name) for p in hs]
                hs = self.block(h.body, hs, loop)
                out = out + ([p.unbind(h.name) for p in hs] if h.name else hs)
            if s.finalbody:
                out = self.block(s.finalbody, out or [Path(p.done, (), True) for p in ps], loop) if out else \
                    (self.block(s.finalbody, [Path(p.done, (), True) for p in ps], loop), [])[1]
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                ps = self.expr(d, ps)
            return [p.bind(s.name) for p in ps]
        if isinstance(s, ast.ClassDef):
            return [p.bind(s.name) for p in ps]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                ps = [p.bind((a.asname or a.name).split(".")[0]) for p in ps]
            return ps
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), ps)
                    ps = [p.unbind(t.id) for p in ps]
                else:
                    self.expr_parts(t, ps)
            return ps
        if s.__class__.__name__ == "Match":
            ps = self.expr(s.subject, ps)
            out = [Path(p.done, p.facts, True) for p in ps]
            for c in s.cases:
                q = ps
                for n in ast.walk(c.pattern):
                    nm = getattr(n, "name", None) or getattr(n, "rest", None)
                    if isinstance(nm, str):
                        q = [p.bind(nm) for p in q]
                out += self.block(c.body, q, loop)
            return out
        return ps

    # ---------------------------------------------------------------- verdict
    def guards(self, name):
        """Names in the conditions around the assignments of a name (".x" for an attribute of self)."""
        out = set()

        def walk(body, tests):
            for st in body:
                hit = isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == name
                head = [x for x in ast.iter_child_nodes(st) if isinstance(x, (ast.expr, ast.withitem))]
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    for h in head + ([st] if not hasattr(st, "body") else []):
                        hit = hit or any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) or
                                         isinstance(x, ast.Attribute) and "." + x.attr == name and isinstance(x.ctx, ast.Store) for x in ast.walk(h))
                if hit:
                    for t in tests:
                        out.update(x.id for x in ast.walk(t) if isinstance(x, ast.Name))
                t2 = tests + ([st.test] if isinstance(st, (ast.If, ast.While)) else [])
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    for f in ("body", "orelse", "finalbody"):
                        walk(getattr(st, f, []), t2)
                    for h in getattr(st, "handlers", []):
                        walk(h.body, t2)
        if not isinstance(self.fn.node, ast.Lambda):
            walk(self.fn.node.body, [])
        return out

    def simple(self, p, name):
        """Is the path certainly taken by some call: the conditions that decide whether the name is assigned are about
        arguments, and some values the code names satisfy everything the path says about these arguments."""
        if p.soft:
            return False
        rel = self.guards(name)
        while True:
            facts = [(e, v) for e, v in p.facts if rel & {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}]
            more = {x.id for e, _ in facts for x in ast.walk(e) if isinstance(x, ast.Name)} - set(TYPES) - {"isinstance", "callable", "len"}
            if more <= rel:
                break
            rel |= more
        rel -= set(TYPES) | {"isinstance", "callable", "len"}
        par = set(params(self.fn.node)) - self.rebound
        if not rel or not rel <= par or len(rel) > 3:
            return False
        cand = {v: self.candidates(v) for v in rel}
        vs = sorted(rel)
        for combo in itertools.product(*[cand[v] for v in vs]):
            asg = dict(zip(vs, combo))
            try:
                if all(bool(concrete(e, asg)) == v for e, v in facts):
                    return True
            except Unknown:
                continue
        return False

    def candidates(self, v):
        """Values of an argument that the code itself names: constants it is compared with, neighbours of numbers, its default."""
        out = []
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Compare) and any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Constant):
                        out.append(x.value)
                        if isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                            out += [int(x.value) + 1, int(x.value) - 1]
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and text(n.args[0]) == v and len(n.args) == 2:
                for t in n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]:
                    out.append(TYPES[text(t)] if text(t) in TYPES else Some(text(t)))
            if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)) and any(isinstance(x, ast.Name) and x.id == v for x in bare(n.test)):
                out += [True, False]
        a = self.fn.node.args
        for x, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if x.arg == v and isinstance(d, ast.Constant):
                out.append(d.value)
        strs = any(isinstance(x, str) for x in out)
        if not strs and None in out:
            out.append(Some("object"))
        return out

    def verdicts(self):
        """[(node, "holds"|"violated"|"undecided", detail)]"""
        out = []
        for n, d, und in self.uses.values():
            if not und:
                out.append((n, "holds", ""))
            elif not d:
                hard = [p for p in und if not p.soft]
                out.append((n, "violated" if hard else "undecided", "local name %s is read before any assignment" % n.id))
            else:
                hard = [p for p in und if self.simple(p, n.id)]
                if hard:
                    out.append((n, "violated", "local name %s is not assigned when %s" % (n.id, why(hard[0]))))
                else:
                    out.append((n, "undecided", "local name %s may not be assigned when %s" % (n.id, why(und[0]))))
        return out


class Unknown(Exception):
    pass


class Some:
    """A value of a named type."""

    def __init__(self, name):
        self.name = name


TYPES = {"int": 1, "float": 0.5, "str": "?", "list": [0], "tuple": (0,), "dict": {0: 0}, "bool": True, "complex": 1j}


def bare(e):
    """Operands of a condition that are read for their truth value."""
    if isinstance(e, ast.BoolOp):
        return [y for x in e.values for y in bare(x)]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return bare(e.operand)
    return [e]


def concrete(e, asg):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name) and e.id in asg:
        return asg[e.id]
    if isinstance(e, ast.BoolOp):
        vs = [concrete(x, asg) for x in e.values]
        return all(vs) if isinstance(e.op, ast.And) else any(vs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not concrete(e.operand, asg)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = concrete(e.operand, asg)
        if isinstance(v, (int, float)):
            return -v
    if isinstance(e, (ast.Tuple, ast.List)):
        return [concrete(x, asg) for x in e.elts]
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = concrete(e.left, asg), concrete(e.comparators[0], asg)
        o = e.ops[0]
        if isinstance(o, (ast.Eq, ast.Is)):
            return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
        if isinstance(o, (ast.NotEq, ast.IsNot)):
            return not concrete(ast.Compare(e.left, [ast.Eq()], e.comparators), asg)
        if isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, (list, tuple)):
            return (a in b) == isinstance(o, ast.In)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}.get(type(o))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
        v = concrete(e.args[0], asg)
        ts = [text(t) for t in (e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]])]
        if isinstance(v, Some):
            return v.name in ts
        if all(t in TYPES for t in ts):
            return any(isinstance(v, type(TYPES[t])) for t in ts)
        return False
    raise Unknown


def atoms_of(facts):
    at = {}
    for e, _ in facts:
        atoms(e, at)
    return {k: v for k, v in at.items() if not isinstance(v, ast.Constant)}


def why(p):
    return " and ".join(("" if v else "not ") + "(" + text(e) + ")" for e, v in p.facts)[:200] or "the function is called"


# ------------------------------------------------------------------ names, attributes and calls
class Resolver:
    def __init__(self, lib):
        self.lib = lib
        self.fns = lib.functions()
        self.out = []          # (status, kind, where, line, detail)
        self.parent = {}
        self.own = {}          # id(node) -> Fn that contains it
        for m in lib.mods.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parent[id(c)] = n
        self.fnof = {id(f.node): f for f in self.fns}
        for f in self.fns:
            for n in walk_own(f.node):
                self.own.setdefault(id(n), f)
                if id(n) in self.fnof:
                    self.own[id(n)] = f
        self.rets, self.busy, self.vt = {}, set(), {}
        self.ptypes = {}

    # ---------------------------------------------------------------- scopes
    def scope(self, fn, name):
        """The function (fn or an enclosing one) whose local the name is."""
        while fn is not None:
            if name in stored(fn.node) or self.global_in(fn, name):
                return None if self.global_in(fn, name) else fn
            fn = fn.outer
        return None

    def global_in(self, fn, name):
        return name in fn.node._globals if hasattr(fn.node, "_globals") else self.global_slow(fn, name)

    def global_slow(self, fn, name):
        fn.node._globals = {x for n in walk_own(fn.node) if isinstance(n, ast.Global) for x in n.names}
        return name in fn.node._globals

    def comp_bound(self, n, fn):
        """Is the name bound by a comprehension around it?"""
        p = self.parent.get(id(n))
        while p is not None and p is not (fn.node if fn else None):
            if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in p.generators:
                    if any(isinstance(t, ast.Name) and t.id == n.id for t in ast.walk(g.target)):
                        return True
            p = self.parent.get(id(p))
        return False

    def caught(self, n, *names):
        """Is the node inside a try that catches one of the named exceptions (or all)?"""
        p, c = self.parent.get(id(n)), n
        while p is not None:
            if isinstance(p, ast.Try) and c in p.body:
                for h in p.handlers:
                    t = text(h.type) if h.type is not None else "Exception"
                    if any(x in t for x in names + ("Exception",)):
                        return True
            c, p = p, self.parent.get(id(p))
        return False

    def say(self, status, kind, mod, n, fn, detail):
        self.out.append((status, kind, "%s:%s" % (mod.rel, fn.q if fn else "<module>"), getattr(n, "lineno", 0), detail))

    def names(self):
        for m in self.lib.mods.values():
            opened = m.open
            star = set()
            for s, n in m.stars:
                e, o = self.lib.exports(s, (m.name,))
                star |= e
                opened |= o
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    dotted = m.absolute(n)
                    if dotted.split(".")[0] == self.lib.package and dotted not in self.lib.mods:
                        self.say("violated", "import", m, n, self.own.get(id(n)), "module %s does not exist" % dotted)
                        continue
                    for a in n.names:
                        if a.name == "*":
                            continue
                        h = self.lib.has(dotted, a.name)
                        st = {True: "holds", False: "violated", None: "undecided"}[h]
                        if h is False and self.caught(n, "ImportError"):
                            st = "undecided"
                        self.say(st, "import", m, n, self.own.get(id(n)), "name %s imported from %s" % (a.name, dotted))
                if not (isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))):
                    continue
                fn = self.own.get(id(n))
                if (fn is not None and self.scope(fn, n.id)) or self.comp_bound(n, fn):
                    continue
                if n.id in m.binds or n.id in star or n.id in BUILTINS:
                    self.say("holds", "name", m, n, fn, n.id)
                    continue
                p, c, cb = self.parent.get(id(n)), n, False
                while p is not None:      # class scope: only code directly in the class body sees it
                    if isinstance(p, ast.FunctionDef) and c in p.body or isinstance(p, ast.Lambda):
                        break
                    if isinstance(p, ast.ClassDef):
                        cb = cb or any(isinstance(t, ast.Name) and t.id == n.id and isinstance(t.ctx, ast.Store) or
                                       isinstance(t, ast.FunctionDef) and t.name == n.id for b in p.body for t in ast.walk(b))
                        break
                    c, p = p, self.parent.get(id(p))
                if cb:
                    continue
                st = "undecided" if opened or self.caught(n, "NameError") else "violated"
                self.say(st, "name", m, n, fn, "name %s is not defined in %s:%s" % (n.id, m.rel, fn.q if fn else "<module>"))

    def assigned(self):
        for f in self.fns:
            for n, v, d in Assigned(f).verdicts():
                if v == "violated" and self.caught(n, "NameError", "UnboundLocalError"):
                    v = "undecided"
                self.say(v, "assigned", f.mod, n, f, d or n.id)

    # ---------------------------------------------------------------- types
    def selfname(self, fn):
        f = fn
        while f is not None and f.cls is None:
            f = f.outer
        if f is None or f.static or f.clsm or not f.node.args.args:
            return None, None
        return f.node.args.args[0].arg, f

    def typ(self, e, fn, mod):
        """Set of types, or None when unknown."""
        k = (id(e), id(fn))
        if k in self.busy:
            return None
        self.busy.add(k)
        try:
            return self._typ(e, fn, mod)
        finally:
            self.busy.discard(k)

    def _typ(self, e, fn, mod):
        if isinstance(e, ast.Name):
            if self.comp_bound(e, fn):
                return None
            sc = self.scope(fn, e.id) if fn else None
            if sc is None:
                b = self.lib.lookup(mod.name, e.id)
                return self.of_binding(b)
            me, f = self.selfname(sc)
            if f is sc and e.id == me and e.id not in {n.id for n in walk_own(sc.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}:
                return {("inst", f.cls)}
            if sc is fn:
                v = self.before(e, fn)
                if v is not None:
                    return self.typ(v, fn, mod)
            return self.local(sc, e.id)
        if isinstance(e, ast.Attribute):
            ts = self.typ(e.value, fn, mod)
            if ts is None:
                return None
            out = set()
            for t in ts:
                r = self.attr_type(t, e.attr)
                if r is None:
                    return None
                out |= r
            return out
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
                me, f = self.selfname(fn) if fn else (None, None)
                return {("super", f.cls)} if f else None
            ts = self.typ(e.func, fn, mod)
            if ts is None:
                return None
            out = set()
            for t in ts:
                if t[0] == "cls":
                    out.add(("inst", t[1]))
                elif t[0] in ("fn", "bound"):
                    r = self.returns(t[1])
                    if r is None:
                        return None
                    out |= r
                else:
                    return None
            return out
        if isinstance(e, ast.IfExp):
            a, b = self.typ(e.body, fn, mod), self.typ(e.orelse, fn, mod)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult, ast.Sub, ast.MatMult)):
            ts = self.typ(e.left, fn, mod)
            if ts and all(t[0] == "inst" for t in ts):
                nm = {ast.Add: "__add__", ast.Mult: "__mul__", ast.Sub: "__sub__", ast.MatMult: "__matmul__"}[type(e.op)]
                out = set()
                for t in ts:
                    m = self.lib.member(t[1], nm)
                    r = self.returns(m[1]) if m and m[0] == "method" else None
                    if r is None:
                        return None
                    out |= r
                return out
        return None

    def of_binding(self, b):
        if b is None:
            return None
        if b[0] == "cls":
            return {("cls", b[1])}
        if b[0] == "fn":
            return {("fn", b[1])}
        if b[0] == "mod":
            return {("mod", b[1])}
        if b[0] == "extobj":
            if self.lib.ext.files(b[1] + "." + b[2])[0]:
                return {("mod", b[1] + "." + b[2])}
            return {("ext", b[1], b[2])}
        return None

    def attr_type(self, t, a):
        if t[0] == "mod":
            if t[1] in self.lib.mods:
                return self.of_binding(self.lib.lookup(t[1], a))
            if self.lib.ext.files(t[1] + "." + a)[0]:
                return {("mod", t[1] + "." + a)}
            return {("ext", t[1], a)}
        if t[0] in ("inst", "cls", "super"):
            c = t[1]
            m = None
            if t[0] == "super":
                for k in self.lib.mro(c)[1:]:
                    if a in k.methods or a in k.props:
                        m = ("method", k.methods[a]) if a in k.methods else ("prop", k.props[a])
                        break
            else:
                m = self.lib.member(c, a)
            if m is None:
                return None
            if m[0] == "method":
                f = m[1]
                # a method of a subclass may be the one called
                if t[0] == "inst" and any(a in s.methods for s in self.lib.subclasses(c)):
                    return {("bound", x, t[0]) for x in [f] + [s.methods[a] for s in self.lib.subclasses(c) if a in s.methods]}
                return {("bound", f, t[0])}
            if m[0] == "prop" and t[0] != "cls":
                return self.returns(m[1])
            if m[0] == "attr" and t[0] != "cls":
                return self.attr_values(c, a)
        return None

    def attr_values(self, c, a):
        out = set()
        for k in self.lib.mro(c) + self.lib.subclasses(c):
            for f, tgt in k.attrs.get(a, []):
                p = self.parent.get(id(tgt))
                if not (isinstance(p, ast.Assign) and tgt in p.targets):
                    return None
                r = self.typ(p.value, self.own.get(id(p), f), f.mod)
                if r is None:
                    return None
                out |= r
        return out or None

    def before(self, n, fn):
        """The expression a name was last assigned on every path to this use, if one assignment dominates it."""
        c, p = n, self.parent.get(id(n))
        while p is not None and c is not fn.node:
            if isinstance(p, (ast.For, ast.While, ast.Try)) and any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in ast.walk(p)):
                return None
            if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                pass
            for f in ("body", "orelse", "finalbody"):
                b = getattr(p, f, None)
                if isinstance(b, list) and c in b:
                    for s in reversed(b[:b.index(c)]):
                        if any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(s)):
                            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in s.targets):
                                return s.value
                            return None
            c, p = p, self.parent.get(id(p))
        return None

    def local(self, fn, name):
        if name in params(fn.node):
            return None
        out = set()
        for n in walk_own(fn.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                p = self.parent.get(id(n))
                if not (isinstance(p, ast.Assign) and n in p.targets):
                    return None
                r = self.typ(p.value, fn, fn.mod)
                if r is None:
                    return None
                out |= r
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                f = self.fnof.get(id(n))
                if f is None:
                    return None
                out.add(("fn", f))
            elif isinstance(n, (ast.ClassDef, ast.ExceptHandler)) and n.name == name or isinstance(n, (ast.Nonlocal,)) and name in n.names:
                return None
            elif isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name).split(".")[0] == name for a in n.names):
                for a in n.names:
                    if (a.asname or a.name).split(".")[0] != name:
                        continue
                    if isinstance(n, ast.Import):
                        out.add(("mod", a.name if a.asname else name))
                    else:
                        m = fn.mod.absolute(n)
                        r = self.of_binding(self.lib.lookup(m, a.name) if m in self.lib.mods else ("extobj", m, a.name))
                        if r is None:
                            return None
                        out |= r
        return out or None

    def returns(self, f):
        if id(f.node) in self.rets:
            return self.rets[id(f.node)]
        self.rets[id(f.node)] = None
        if f.odd or f.abstract or isinstance(f.node, ast.Lambda):
            return None
        out, ok = set(), False
        for n in walk_own(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)) and self.own.get(id(n)) is f:
                return None
            if isinstance(n, ast.Return):
                ok = True
                r = self.typ(n.value, f, f.mod) if n.value is not None else None
                if r is None:
                    return None
                out |= r
        self.rets[id(f.node)] = out if ok and out else None
        return self.rets[id(f.node)]

    # ---------------------------------------------------------------- attributes
    def lacks(self, t, a):
        """True: certainly no such attribute; False: there; None: cannot tell."""
        if t[0] == "mod":
            h = self.lib.has(t[1], a)
            return None if h is None else not h
        if t[0] in ("inst", "cls", "super"):
            c = t[1]
            if self.lib.isopen(c):
                return None
            m = self.lib.member(c, a)
            if t[0] == "super":
                return None if a in c.attrs or (m and m[0] != "object") else (not hasattr(object, a))
            if m is None:
                return None if any(self.lib.member(s, a) for s in self.lib.subclasses(c)) else True
            if m[0] == "attr" and t[0] == "cls":
                return True
            return False
        return None

    def attributes(self):
        for m in self.lib.mods.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Attribute):
                    continue
                fn = self.own.get(id(n))
                ts = self.typ(n.value, fn, m)
                if isinstance(n.ctx, ast.Store):
                    if ts and all(t[0] == "inst" and not self.lib.isopen(t[1]) for t in ts):
                        bad = [t for t in ts if not self.lib.settable(t[1], n.attr)]
                        if bad and len(bad) == len(ts):
                            self.say("violated", "attribute", m, n, fn, "%s.%s is a property without a setter" % (bad[0][1].name, n.attr))
                        elif not bad:
                            self.say("holds", "attribute", m, n, fn, text(n))
                    continue
                if ts is None:
                    self.param_attr(n, fn, m)
                    continue
                ls = [self.lacks(t, n.attr) for t in ts]
                if all(x is False for x in ls):
                    self.say("holds", "attribute", m, n, fn, text(n))
                    self.method_value(n, ts, fn, m)
                elif all(x is True for x in ls) and not self.guarded(n, fn):
                    t = next(iter(ts))
                    self.say("violated", "attribute", m, n, fn, "%s has no attribute %s (%s)" % (getattr(t[1], "name", t[1]), n.attr, text(n)))
                else:
                    self.say("undecided", "attribute", m, n, fn, "%s may lack %s" % (text(n.value), n.attr))

    def guarded(self, n, fn):
        if self.caught(n, "AttributeError"):
            return True
        node = fn.node if fn else None
        while fn is not None and fn.outer is not None:
            fn = fn.outer
            node = fn.node
        return node is not None and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") for x in ast.walk(node))

    def param_attr(self, n, fn, m):
        """Attribute of an argument: the types the library itself passes."""
        if not isinstance(n.value, ast.Name) or fn is None:
            return
        sc = self.scope(fn, n.value.id)
        if sc is None or n.value.id not in params(sc.node):
            return
        if any(isinstance(x, ast.Name) and x.id == n.value.id and isinstance(x.ctx, ast.Store) for x in walk_own(sc.node)):
            return
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr", "type", "issubclass") and
               any(isinstance(y, ast.Name) and y.id == n.value.id for y in ast.walk(x)) for x in ast.walk(sc.node)):
            return
        for site, ts in self.ptypes.get(id(sc.node), {}).get(n.value.id, []):
            if ts is None:
                continue
            ls = [self.lacks(t, n.attr) for t in ts]
            if all(x is True for x in ls) and not self.guarded(n, fn):
                t = next(iter(ts))
                self.say("violated", "attribute", m, n, fn, "%s has no attribute %s (%s, passed at %s)" % (getattr(t[1], "name", t[1]), n.attr, text(n), site))
            elif all(x is False for x in ls):
                self.say("holds", "attribute", m, n, fn, text(n) + " for the caller at " + site)

    def method_value(self, n, ts, fn, m):
        """A method used as if it were its value."""
        if not all(t[0] == "inst" and (self.lib.member(t[1], n.attr) or ("",))[0] == "method" for t in ts):
            return
        p = self.parent.get(id(n))
        wrong = (isinstance(p, ast.Subscript) and p.value is n or isinstance(p, ast.BinOp) or isinstance(p, ast.UnaryOp) and not isinstance(p.op, ast.Not)
                 or isinstance(p, (ast.For, ast.comprehension)) and p.iter is n
                 or isinstance(p, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in p.ops)
                 or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("len", "int", "range", "sum", "enumerate", "list") and n in p.args)
        if wrong:
            self.say("violated", "attribute", m, n, fn, "method %s is used as a value" % text(n))

    # ---------------------------------------------------------------- calls
    def signature(self, t):
        """(Fn, number of leading parameters supplied) or ("none",) for a class without __init__, or None."""
        if t[0] == "fn":
            return t[1], 0
        if t[0] == "bound":
            f = t[1]
            if f.static:
                return f, 0
            if f.clsm or t[2] != "cls":
                return f, 1
            return f, 0
        if t[0] == "cls":
            c = t[1]
            if self.lib.isopen(c) or any(x in k.methods for k in self.lib.mro(c) for x in ("__new__", "__call__")):
                return None
            m = self.lib.member(c, "__init__")
            if m and m[0] == "method":
                return m[1], 1
            return "none", 0
        return None

    def bind(self, call, f, skip):
        """None when the arguments fit the signature, else what does not; "?" when unknown."""
        if f == "none":
            return "takes no arguments" if call.args or call.keywords else None
        if f.odd:
            return "?"
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        ponly = [x.arg for x in a.posonlyargs]
        kwo = [x.arg for x in a.kwonlyargs]
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = sum(not isinstance(x, ast.Starred) for x in call.args)
        if npos > len(pos) and a.vararg is None:
            return "takes %d positional arguments, %d given" % (len(pos), npos)
        given = set() if star else set(pos[:npos])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg not in [x for x in pos if x not in ponly] + kwo and a.kwarg is None:
                return "has no parameter %s" % k.arg
            if k.arg in given:
                return "gets %s twice" % k.arg
            given.add(k.arg)
        if star or dstar:
            return "?"
        nd = len(a.defaults)
        allpos = [x.arg for x in a.posonlyargs + a.args]
        req = [x for x in allpos[:len(allpos) - nd] if x in pos] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        miss = [x for x in req if x not in given]
        if miss:
            return "misses %s" % ", ".join(miss)
        return None

    def collect(self):
        """Types the library passes for each parameter."""
        for m in self.lib.mods.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Call):
                    continue
                fn = self.own.get(id(n))
                ts = self.typ(n.func, fn, m)
                for t in ts or ():
                    s = self.signature(t)
                    if s is None or s[0] == "none" or any(isinstance(x, ast.Starred) for x in n.args):
                        continue
                    f, skip = s
                    pos = [x.arg for x in f.node.args.posonlyargs + f.node.args.args][skip:]
                    for name, e in list(zip(pos, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg]:
                        self.ptypes.setdefault(id(f.node), {}).setdefault(name, []).append(("%s:%d" % (m.rel, n.lineno), self.typ(e, fn, m)))

    def calls(self):
        for m in self.lib.mods.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Call):
                    continue
                fn = self.own.get(id(n))
                ts = self.typ(n.func, fn, m)
                if not ts:
                    continue
                res = []
                for t in ts:
                    if t[0] == "inst":
                        c = self.lib.member(t[1], "__call__")
                        res.append("is not callable" if c is None and not self.lib.isopen(t[1]) else "?")
                        continue
                    s = self.signature(t)
                    if s is None:
                        res.append("?")
                        continue
                    r = self.bind(n, *s)
                    if r is None and t[0] == "cls" and self.lib.abstracts(t[1]):
                        r = "is abstract: %s" % ", ".join(sorted(self.lib.abstracts(t[1])))
                    res.append(r)
                if all(r is None for r in res):
                    self.say("holds", "call", m, n, fn, text(n.func))
                elif all(r not in (None, "?") for r in res):
                    st = "undecided" if self.caught(n, "TypeError") else "violated"
                    self.say(st, "call", m, n, fn, "call of %s: %s" % (text(n.func), res[0]))
                elif any(r not in (None, "?") for r in res):
                    self.say("undecided", "call", m, n, fn, "call of %s: %s" % (text(n.func), [r for r in res if r not in (None, "?")][0]))

    # ---------------------------------------------------------------- attributes set by the constructor
    def constructed(self):
        """Attributes read unconditionally by a method although some constructor call leaves them unset."""
        for c in self.lib.classes:
            init = c.methods.get("__init__")
            if init is None or self.lib.isopen(c):
                continue
            me = init.node.args.args[0].arg if init.node.args.args else None
            if me is None:
                continue
            elsewhere = {a for k in self.lib.mro(c) + self.lib.subclasses(c) for a, l in k.attrs.items() if any(f is not init for f, _ in l)}
            called = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(init.node))
            w = AttrAssigned(init, me)
            for a in sorted(c.attrs):
                if a in elsewhere or a in c.cvars or called and any(a in k.attrs for k in self.lib.mro(c)[1:]):
                    continue
                und = [p for p in w.ends if ("." + a) not in p.done]
                hard = [p for p in und if w.simple(p, "." + a)]
                if not und:
                    self.say("holds", "constructed", c.mod, init.node, init, "self.%s is set on every path of the constructor" % a)
                    continue
                reads = []
                for f in c.fns():
                    if f is init or f.static or not f.node.args.args:
                        continue
                    for x in walk_own(f.node):
                        if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load) and text(x.value) == f.node.args.args[0].arg:
                            reads.append((f, x, self.plain(f, x)))
                if hard and any(p for _, _, p in reads):
                    f, x, _ = [r for r in reads if r[2]][0]
                    self.say("violated", "constructed", c.mod, x, f, "self.%s is not set by the constructor when %s" % (a, why(hard[0])))
                else:
                    self.say("undecided" if reads else "holds", "constructed", c.mod, init.node, init, "self.%s may be unset" % a)

    def plain(self, f, x):
        """Is the read reached by every call of f?"""
        p, c = self.parent.get(id(x)), x
        while p is not None and c is not f.node:
            if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp, ast.While, ast.For, ast.Try, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.FunctionDef)) and p is not f.node:
                return False
            if p is f.node:
                for s in f.node.body:
                    if s is c:
                        return True
                    if any(isinstance(y, (ast.Return, ast.Raise, ast.Assert)) for y in ast.walk(s)):
                        return False
                return False
            c, p = p, self.parent.get(id(p))
        return False

    def run(self):
        self.names()
        self.assigned()
        self.collect()
        self.attributes()
        self.calls()
        self.constructed()
        return self.out


class AttrAssigned(Assigned):
    """Paths of a constructor with the attributes each sets (".name")."""

    def __init__(self, fn, me):
        self.me, self.ends = me, []
        super().__init__(fn)

    def block(self, body, ps, loop=None):
        out = super().block(body, ps, loop)
        if body is self.fn.node.body:
            self.ends += out
        return out

    def target(self, t, ps):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
            return [Path(p.done | {"." + t.attr}, p.drop(text(t)).facts, p.soft) for p in ps]
        return super().target(t, ps)

    def stmt(self, s, ps, loop):
        if isinstance(s, ast.Return):
            self.ends += ps
        return super().stmt(s, ps, loop)
