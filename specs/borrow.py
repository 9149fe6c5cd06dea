"""Scenarios of the other properties, run again to look at something else."""
import importlib

from .common import *

QUICK = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "M02", "O01", "O02", "O03", "S01", "S02", "S03", "S09",
         "D01", "D02", "D03", "F02")
LONG = ("M01", "S04", "S05", "S06", "S07", "S08", "F01")


class Borrow(Check):
    """Runs the scenarios of other properties; keeps only what `judge` says about the runs."""

    def __init__(self, chk, judge):
        Check.__init__(self, chk.pid, chk.tier, chk.root)
        self.prog, self.klist, self.t0, self.judge = chk.prog, chk.klist, chk.t0, judge
        self.sessions = []

    def drain(self):          # the specs drain themselves: run everything together at the end
        pass

    def perform(self, name, fn, *a, **k):
        Check.perform(self, name, fn, *a, **k)
        cut = [o for o in self.obs if o["status"] == "undecided" and o["detail"].startswith(("analysis", "internal"))]
        self.obs = []
        ss, self.sessions = self.sessions, []
        self.judge(self, name, ss)
        if not self.obs:
            (self.ok(name) if not cut else self.unk(name, cut[0]["detail"]))

    def finish(self, s):
        self.sessions += [s] + self.more
        Check.finish(self, s)

    def take(self, pids, most=None):
        """Queue the scenarios of the named properties (at most so many of each, evenly spread)."""
        for pid in pids:
            mod = importlib.import_module("specs." + pid)
            k = len(self.queue)
            try:
                mod.run(self)
            except Anchor:
                continue
            new = self.queue[k:]
            if most is not None and len(new) > most:
                new = [new[i * len(new) // most] for i in range(most)]
            self.queue[k:] = [(pid + ": " + q[0],) + tuple(q[1:]) for q in new]

    def everything(self):
        self.take(QUICK)
        self.take(LONG, None if self.deep else 6)

    def into(self, c):
        Check.drain(self)
        c.obs += self.obs
        c.covered |= self.covered
        c.callsites |= self.callsites
        c.steps += self.steps
        c.scen += self.scen
        c.stop = self.stop


def surely(s, guard):
    """Can the guard hold: False no, True yes, None unknown."""
    w = rand.holds_somewhere(guard, s.st.facts.ge)
    if w is None:
        return False
    opaque = {f for f in rand.funs(guard) if not f.startswith("in:")} - rand.BASIC
    return None if w == "unknown" or s.I.notes or opaque else True
