"""Scenario driver: abstract calls of the public interface and comparison with reference values."""
import ast
from .poly import P, sym, leg, Poly
from . import ten as T
from .ten import Ten, Undecided, ShapeErr
from .vals import *
from .interp import Interp, Program, AbsRaise, Frame, Raise
from . import seqs as SQ
from . import models as M


class Ses:
    """One abstract run on a program."""

    def __init__(self, prog, base=None):
        self.I = Interp(prog)
        self.I.load_all()
        self.st = self.I.start()
        self.res = None

    # -- inputs
    def arr(self, name, *dims, dt="c", kind="nd", flags=(), tag=True):
        t = T.inp(name, *[P(d) for d in dims], flags=flags)
        return self.st.new(HArr(t, kind, dt, ("arg:" + name) if tag else None))

    def lst(self, vals, tag=None):
        return self.st.new(HList([It(v) for v in vals], "list", tag))

    def num(self, x):
        return T.from_poly(P(x)) if not isinstance(x, Ten) else x

    # -- calls
    def get(self, dotted):
        mod, _, name = dotted.rpartition(".")
        return self.I.get(mod, name)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        fix = lambda v: (TRUE if v else FALSE) if isinstance(v, bool) else v
        with T.with_facts(self.st.facts.poly()):
            return self.I.call(f, [fix(v) for v in args], {k: fix(v) for k, v in kw.items()}, self.st, None)

    def attr(self, o, name):
        with T.with_facts(self.st.facts.poly()):
            return self.I.getattr(o, name, self.st, None, None)

    def meth(self, o, name, *args, **kw):
        return self.call(self.attr(o, name), *args, **kw)

    def ten(self, v):
        return M.strip(self.I.ten(self.st, v))

    def raises(self):
        return self.I.raises[0]

    def fact(self, *ps):
        for p in ps:
            self.st.facts.ge.append(P(p))

    def py(self, src, **env):
        """Interpret a reference snippet with the same abstract semantics; the value of its last expression."""
        tree = ast.parse("import numpy as np\nimport scipy.linalg\n" + src)
        fid = fresh()
        self.st.envs[fid] = dict(env, __name__="reference")
        fr = Frame(fid, "reference", "reference", None)
        body = tree.body
        last = body[-1]
        with T.with_facts(self.st.facts.poly()):
            st = self.st.copy()
            flow = self.I.exec_block(body[:-1] if isinstance(last, ast.Expr) else body, st, fr)
            if flow.st is None:
                raise AbsRaise("(reference)", "snippet always raises")
            if flow.st is not self.st:
                self.I.replace(self.st, flow.st)
            if isinstance(last, ast.Expr):
                return self.I.ev(last.value, self.st, fr)
