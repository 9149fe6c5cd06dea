"""Trace partitioning: run an abstract call once per outcome of the tests the analysis cannot decide."""
from . import ten as T
from .ten import Undecided
from .vals import *


class Path:
    def __init__(self, conds, out, ses):
        self.conds, self.out, self.ses = conds, out, ses

    def guard(self):
        g = TRUE
        for c, b in self.conds:
            g = T.land(g, c if b else T.lnot(c))
        return g

    def sig(self):
        """Set of assumed literals; equal signatures mean the same path condition."""
        return frozenset((c if b else T.lnot(c)).key() for c, b in self.conds)


class Paths(list):
    complete = True


def explore(run, modules, limit=64):
    """run(decider) -> (Ses, outcome).  Tests inside `modules` are decided both ways."""
    done, todo = Paths(), [[]]
    while todo:
        pre = todo.pop()
        conds = []

        def decider(I, c, st):
            fn = I.stack[-1][0] if I.stack else ""
            if modules is not None and not any(fn.startswith(m) for m in modules):
                return None
            i = len(conds)
            b = pre[i] if i < len(pre) else True
            conds.append((c, b))
            return b
        s, out = run(decider)
        done.append(Path(conds, out, s))
        if len(done) > limit:
            done.complete = False
            return done
        for i in range(len(conds) - 1, len(pre) - 1, -1):
            todo.append([b for _, b in conds[:i]] + [False])
    return done


class Split(Exception):
    def __init__(self, bit):
        self.bit = bit


class Bits:
    """Unknown input bits, some of them assumed."""

    def __init__(self, asg):
        self.asg = dict(asg)
        self.names = {}

    def bit(self, name):
        if name in self.asg:
            return T.const(self.asg[name])
        t = T.scalar_atom("bit:" + name, ("ind", "real", "nn"))
        self.names[t.terms[0].fs[0].atom.key] = name
        return t

    def array(self, name, rows, cols, fixed=None):
        """rows x cols bits; fixed[(i, j)] gives an entry a set value."""
        f = fixed or {}
        return T.stack_list([T.stack_list([T.const(f[(i, j)]) if (i, j) in f else self.bit("%s.%d.%d" % (name, i, j))
                                           for j in range(cols)]) for i in range(rows)])

    def decider(self, I, c, st):
        hit = sorted(self.names[k] for k in T.atoms_of(c) if k in self.names)
        if hit:
            raise Split(hit[0])
        return None


def cubes(run, limit=300):
    """Partition all values of the input bits into cubes on which every test of the call is decided.

    run(bits) -> (Ses, outcome) builds its inputs from `bits`; a test that depends on a bit splits the cube on it."""
    done, todo = Paths(), [{}]
    while todo:
        asg = todo.pop()
        b = Bits(asg)
        try:
            s, out = run(b)
        except Split as e:
            todo.append(dict(asg, **{e.bit: 1}))
            todo.append(dict(asg, **{e.bit: 0}))
            continue
        done.append(Path([], out, s))
        done[-1].asg = asg
        if len(done) >= limit and todo:
            done.complete = False
            return done
    return done
