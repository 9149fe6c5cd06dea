"""Obligations, verdicts, evidence."""
import json
import os
import struct
import time
import traceback
from . import ten as T, rand, seqs as SQ, models as M
from .poly import P
from .ten import Ten, Undecided, ShapeErr
from .vals import *
from .interp import Program, AbsRaise
from .spec import Ses

PKG = "PyQCodes."


class Anchor(Exception):
    """The construct a property is about is not in the tree any more."""


class Slow(BaseException):
    """Raised into the analysis when one scenario takes too long."""


class Check:
    def __init__(self, pid, tier="quick", root="/repo"):
        self.pid, self.tier, self.root = pid, tier, root
        self.prog = Program(root)
        self.obs = []          # dict(name, status, detail, where)
        self.covered, self.callsites, self.steps = set(), set(), 0
        self.scen = 0
        self.t0 = time.time()
        self.stop, self.klist = None, []
        self.limit = 3000 if tier == "thorough" else 420
        self.scen_limit = 900 if tier == "thorough" else 150
        self.started = None
        self.jobs = int(os.environ.get("SA_JOBS", "0")) or len(os.sched_getaffinity(0))
        self.queue = []
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    @property
    def deep(self):
        return self.tier == "thorough"

    # -------------------------------------------------------------- recording
    def add(self, name, status, detail="", where="", term=""):
        self.obs.append(dict(name=name, status=status, detail=detail, where=where, term=term))

    def ok(self, name, term=""):
        self.add(name, "holds", term=term)

    def bad(self, name, detail, where=""):
        self.add(name, "violated", detail, where)

    def unk(self, name, detail, where=""):
        self.add(name, "undecided", detail, where)

    def claim(self, name, cond, detail="", where=""):
        """cond: True, False or None (undecided)."""
        if cond is None:
            self.unk(name, detail, where)
        elif cond:
            self.ok(name)
        else:
            self.bad(name, detail, where)
        return cond

    def known(self, v):
        return next((x for x in self.klist if x["match"] in v["name"] or x["match"] in v["detail"]), None)

    def enough(self):
        """Stop when the verdict is clear or the time is used up."""
        if self.stop:
            return True
        new = [o for o in self.obs if o["status"] == "violated" and not self.known(o)]
        if len(new) >= 12:
            self.stop = "stopped after %d violations" % len(new)
        elif time.time() - self.t0 > self.limit:
            self.stop = "time limit"
            self.unk("remaining scenarios", "time limit of %d s" % self.limit)
        return bool(self.stop)

    # -------------------------------------------------------------- scenarios
    more = []

    def scenario(self, name, fn, *a, **k):
        """Queue one abstract scenario."""
        if self.jobs > 1:
            self.queue.append((name, fn, a, k))
        else:
            self.perform(name, fn, *a, **k)

    def drain(self):
        """Run the queued scenarios on all cores."""
        import pickle
        import select
        import signal
        q, self.queue = self.queue, []
        if not q:
            return
        self.scen += len(q)
        jobs = min(self.jobs, len(q))
        rd, wr = os.pipe()
        os.write(wr, b"".join(struct.pack("<I", i) for i in range(len(q))))
        os.close(wr)
        kids = {}
        for _ in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid:
                os.close(w)
                kids[r] = [pid, b"", None]
                continue
            try:
                os.close(r)
                self.jobs, self.started = 1, None

                def slow(*_):
                    raise Slow
                signal.signal(signal.SIGALRM, slow)
                while True:
                    h = os.read(rd, 4)
                    if len(h) < 4:
                        break
                    i = struct.unpack("<I", h)[0]
                    self.send(w, (i, None))
                    self.obs, self.covered, self.callsites, self.steps, self.scen = [], set(), set(), 0, 0
                    self.t0, self.stop = time.time(), None
                    signal.setitimer(signal.ITIMER_REAL, self.scen_limit)
                    name, fn, a, k = q[i]
                    try:
                        self.perform(name, fn, *a, **k)
                    except Slow:
                        self.unk(name, "analysis took more than %d s" % self.scen_limit)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    self.send(w, (i, (self.obs, self.covered, self.callsites, self.steps)))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(rd)
        done, fate = {}, {}
        while kids:
            ready, _, _ = select.select(list(kids), [], [], 1.0)
            for r in ready:
                d = os.read(r, 1 << 20)
                k = kids[r]
                if not d:
                    if k[2] is not None:
                        fate[k[2]] = "the analysis process ended"
                    os.waitpid(k[0], 0)
                    os.close(r)
                    del kids[r]
                    continue
                k[1] += d
                while len(k[1]) >= 4:
                    n = struct.unpack("<I", k[1][:4])[0]
                    if len(k[1]) < 4 + n:
                        break
                    i, res = pickle.loads(k[1][4:4 + n])
                    k[1] = k[1][4 + n:]
                    k[2] = i if res is None else None
                    if res is not None:
                        done[i] = res
            viol = sum(1 for x in done.values() for o in x[0] if o["status"] == "violated" and not self.known(o))
            if viol >= 12 and not self.deep:
                self.stop = "stopped after %d violations" % viol
            elif time.time() - self.t0 > self.limit:
                self.stop = "time limit of %d s" % self.limit
            if self.stop:
                for r, k in kids.items():
                    os.kill(k[0], signal.SIGKILL)
                    os.waitpid(k[0], 0)
                    os.close(r)
                break
        for i, (name, *_) in enumerate(q):
            if i in done:
                obs, cov, cs, st = done[i]
                self.obs += obs
                self.covered |= cov
                self.callsites |= cs
                self.steps += st
            elif i in fate:
                self.unk(name, fate[i])
        if self.stop:
            left = len(q) - len(done)
            if left and self.stop.startswith("time"):
                self.unk("%d further scenarios" % left, self.stop)

    @staticmethod
    def send(w, x):
        import pickle
        d = pickle.dumps(x)
        d = struct.pack("<I", len(d)) + d
        while d:
            d = d[os.write(w, d):]

    def perform(self, name, fn, *a, **k):
        """Run one abstract scenario; analysis limits make it undecided, never a violation."""
        if self.enough():
            return None
        self.scen += 1
        T._FACTS[:] = T._FACTS[:1]
        s = Ses(self.prog)
        s.chk, s.name = self, name
        try:
            self.started = time.time()
            try:
                r = fn(s, *a, **k)
            finally:
                self.started = None
        except Slow:
            self.unk(name, "analysis took more than %d s" % self.scen_limit)
            r = None
        except (Undecided, ) as e:
            self.unk(name, "analysis: %s" % e)
            r = None
        except AbsRaise as e:
            self.raised(s, name, e)
            r = None
        except Anchor as e:
            self.add(name, "anchor", str(e))
            r = None
        except ShapeErr as e:
            self.unk(name, "shape: %s" % e)
            r = None
        except RecursionError:
            self.unk(name, "analysis depth")
            r = None
        except Exception as e:      # a fault of the analysis itself is no verdict
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.unk(name, "internal %s: %s @ %s" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1].name))
            r = None
        self.finish(s)
        return r

    def session(self):
        """A further session of the running scenario."""
        s = Ses(self.prog)
        s.chk, s.name = self, ""
        self.more.append(s)
        return s

    def finish(self, s):
        for x in self.more:
            self.covered |= x.I.covered
            self.callsites |= x.I.callsites
            self.steps += x.I.steps
        self.more.clear()
        self.covered |= s.I.covered
        self.callsites |= s.I.callsites
        self.steps += s.I.steps

    def lost(self, s):
        """Reasons the abstract run lost information that could hide the truth of a raise."""
        return [n for n in s.I.notes]

    def raised(self, s, name, e):
        """An abstract call ended in an exception on every path."""
        rs = s.raises()
        real = [r for r in rs if not r.exc.startswith("(")]
        loc = "; ".join("%s at %s %s" % (r.exc, r.where, r.msg) for r in (real or rs)[-3:]) or str(e)
        if s.I.notes:
            self.unk(name, "raises (%s) but the analysis lost information: %s" % (loc, s.I.notes[0]))
        else:
            self.bad(name, "valid use always raises: %s" % (loc if real or rs else "%s %s" % e.args[:2] if len(e.args) > 1 else str(e)),
                     real[-1].where if real else "")

    def no_raise(self, s, name, since=0, within=None):
        """No exception is possible on this scenario's inputs (raised in the module `within`, if given)."""
        for r in s.raises()[since:]:
            if r.exc.startswith("(") or (within and within not in r.where):
                continue
            g = T.cur_facts()
            w = rand.holds_somewhere(r.guard, s.st.facts.ge)
            if w is None:
                continue            # guard unsatisfied on every sample: not reported
            if w == "unknown":
                self.unk(name + ": no exception", "%s at %s %s" % (r.exc, r.where, r.msg), r.where)
                return False
            opaque = {f for f in rand.funs(r.guard) if not f.startswith("in:")} - rand.BASIC
            if s.I.notes or opaque:
                self.unk(name + ": no exception", "%s at %s %s (guard involves %s)" % (r.exc, r.where, r.msg, s.I.notes[:1] or sorted(opaque)), r.where)
                return False
            self.bad(name + ": no exception", "valid input raises %s at %s %s (for example %s)" % (r.exc, r.where, r.msg, w), r.where)
            return False
        self.ok(name + ": no exception")
        return True

    def rejects(self, s, name, thunk, given=None):
        """Every input of this scenario (on which the indicator `given` holds) is rejected with an exception."""
        name = name + ": rejected"
        mark = len(s.raises())
        try:
            thunk()
        except AbsRaise as e:
            rs = s.raises()[mark:]
            if s.I.notes and not rs:
                self.unk(name, "raises, but the analysis lost information: %s" % s.I.notes[0])
                return None
            self.ok(name, "raises %s" % (rs[-1].exc if rs else e))
            return True
        rs = s.raises()[mark:]
        tot = None
        for r in rs:
            if r.exc.startswith("("):
                continue
            tot = r.guard if tot is None else T.lor(tot, r.guard)
        if tot is None:
            if s.I.notes:
                self.unk(name, "analysis lost information: %s" % s.I.notes[0])
                return None
            self.bad(name, "no path of the call raises")
            return False
        miss = T.lnot(tot) if given is None else T.land(given, T.lnot(tot))
        if miss.key() == T.zeros([]).key():
            self.ok(name, "always raises")
            return True
        opaque = {f for f in rand.funs(miss) if not f.startswith("in:")} - rand.BASIC - (rand.funs(given) if given is not None else set())
        opaque |= {f for f in rand.funs(miss) if f.startswith(("in:φ", "in:⊤", "in:rnd"))}
        w = rand.holds_somewhere(miss, s.st.facts.ge, samples=60, more=20 if self.deep else 4)
        if w is None:
            self.add(name, "holds", detail="rejected on every random interpretation")
            return True
        if w == "unknown" or opaque or s.I.notes:
            self.unk(name, "acceptance depends on %s" % (s.I.notes[:1] or sorted(opaque) or miss.key()[:200]))
            return None
        self.bad(name, "accepted without an exception, for example %s" % w)
        return False

    def gate(self, s, name, since, bad):
        """An exception is raised exactly when the indicator `bad` holds."""
        tot = None
        for r in s.raises()[since:]:
            if not r.exc.startswith("("):
                tot = r.guard if tot is None else T.lor(tot, r.guard)
        if tot is None:
            tot = T.zeros([])
        if s.I.notes:
            self.unk(name, "analysis lost information: %s" % s.I.notes[0])
            return None
        return self.eq(s, name, tot, bad)

    # -------------------------------------------------------------- values
    def eq(self, s, name, actual, expected, extra=(), strict=False):
        """actual (value or Ten) equals one of the expected Tens."""
        exps = expected if isinstance(expected, list) else [expected]
        where = ""
        try:
            a = s.ten(actual)
        except Undecided as e:
            self.unk(name, "value lost: %s" % e)
            return None
        except AbsRaise as e:
            self.bad(name, "not numeric: %s" % (e,))
            return False
        exps = [e if isinstance(e, Ten) else s.ten(e) for e in exps]
        exps = [M.strip(e) for e in exps]
        for e in exps:
            if a.ndim == e.ndim and a.key() == e.key():
                self.ok(name, a.key())
                return True
        worst = None
        allowed = set(rand.BASIC) | set(extra)
        for e in exps:
            allowed |= rand.funs(e)
        foreign = rand.funs(a) - allowed
        foreign = {f for f in foreign if not (f.startswith("in:") and not f.startswith(("in:rnd", "in:φ", "in:⊤")))}
        if a.ndim != exps[0].ndim:
            self.bad(name, "result has %d axes instead of %d: %s" % (a.ndim, exps[0].ndim, a.key()[:400]))
            return False
        wit = None
        for e in exps:
            r = rand.compare(a, e, s.st.facts.ge, samples=8 if not self.deep else 20, seed0=self.seed)
            if r == "same":
                self.add(name, "holds", detail="equal on every random interpretation (keys differ)", term=a.key())
                return True
            if r == "unknown":
                self.unk(name, "not comparable: %s  versus  %s" % (a.key()[:300], e.key()[:300]))
                return None
            wit = r[1]
        if foreign:
            self.unk(name, "involves functions the reference does not use: %s" % sorted(foreign))
            return None
        self.bad(name, "%s; computed term %s; expected %s" % (wit, a.key()[:500], exps[0].key()[:500]))
        return False

    def eqpaths(self, name, got, want, extra=()):
        """Two partitioned runs have the same outcome (dict of Tens, numbers, strings) wherever their path conditions meet."""
        refs = {}
        for w in want:
            refs.setdefault(w.sig(), []).append(w)
        for g in got:
            hit = refs.get(g.sig())
            for w in (hit or want):
                if hit:
                    both = None
                else:
                    both = T.land(g.guard(), w.guard())
                    r = rand.holds_somewhere(both, g.ses.st.facts.ge)
                    if r is None:
                        continue
                    if r == "unknown":
                        self.unk(name, "path conditions not comparable")
                        continue
                lab = "%s [%s]" % (name, "".join("T" if b else "F" for _, b in g.conds))
                for k in sorted(set(g.out) | set(w.out)):
                    x, y = g.out.get(k), w.out.get(k)
                    if isinstance(x, Top) or (isinstance(x, str) and x.startswith("lost:")):
                        self.unk(lab + ": " + k, "value lost: %s" % x)
                    elif isinstance(x, Ten) and isinstance(y, Ten):
                        if x.ndim != y.ndim:
                            self.bad(lab + ": " + k, "%d axes instead of %d" % (x.ndim, y.ndim))
                        elif both is None or x.key() == y.key():
                            self.eq(g.ses, lab + ": " + k, x, y, extra=extra)
                        else:
                            self.eq(g.ses, lab + ": " + k, T.mul(x, both), T.mul(y, both), extra=extra)
                    elif x == y:
                        self.ok(lab + ": " + k)
                    else:
                        self.bad(lab + ": " + k, "%s instead of %s" % (x, y))

    def eqpoly(self, s, name, actual, p):
        return self.eq(s, name, actual, T.from_poly(P(p)))

    # -------------------------------------------------------------- outcome
    def report(self, evdir, cmd, rule, trusted):
        self.drain()
        viol = [o for o in self.obs if o["status"] == "violated"]
        dis = [o for o in self.obs if o["status"] == "holds"]
        und = [o for o in self.obs if o["status"] == "undecided"]
        anc = [o for o in self.obs if o["status"] == "anchor"]
        new, old = [], []
        for v in viol:
            k = self.known(v)
            (old if k else new).append((v, k))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "proof" if not und else "other",
            "coverage": {
                "obligations": len(self.obs), "discharged": len(dis), "undecided": len(und),
                "canonical": sum(1 for o in dis if not o["detail"]), "random_interpretation": sum(1 for o in dis if o["detail"]),
                "scenarios": self.scen, "functions_analysed": sorted(self.covered), "call_sites": len(self.callsites),
                "statements_interpreted": self.steps, "checker_cmd": cmd, "rule": rule,
                "trusted_base": trusted,
                "explanation": "Obligations of the property over abstract runs of the public interface on the current source; "
                               "each discharged obligation is an equality of canonical terms or a fact about the effects of all paths.",
                "samples": [{"obligation": o["name"], "term": o["term"][:300]} for o in dis[:6]],
                "undecided_obligations": [{"obligation": o["name"], "reason": o["detail"][:300]} for o in und],
                "violations": [{"obligation": o["name"], "detail": o["detail"][:600], "where": o["where"]} for o in viol],
            },
            "assumptions": trusted, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        ev["level"] = LEVEL
        os.makedirs(evdir, exist_ok=True)
        path = os.path.join(evdir, self.pid + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print("%s: %d obligations, %d hold, %d undecided, %d violated (%d known); %d functions, %d call sites, %.1f s"
              % (self.pid, len(self.obs), len(dis), len(und), len(viol), len(old), len(self.covered), len(self.callsites), ev["wall_s"]))
        for o in und:
            print("  undecided: %s -- %s" % (o["name"], o["detail"][:200]))
        seen = set()
        for v, k in old:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        if anc and not new:
            for o in anc:
                print("  anchor lost: %s -- %s" % (o["name"], o["detail"]))
            if not dis:
                return 2
        if new:
            rp = os.path.join(evdir, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for v, _ in new:
                    f.write("%s\n  where: %s\n  %s\n" % (v["name"], v["where"], v["detail"]))
            for v, _ in new[:6]:
                print("  violated: %s [%s] -- %s" % (v["name"], v["where"], v["detail"][:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not dis:
            print("  nothing could be decided")
            return 2
        return 0


LEVEL = "other"


def load_known(path):
    out = {}
    if os.path.exists(path):
        for e in json.load(open(path)).get("findings", []):
            out.setdefault(e["property"], []).append(e)
    return out
