"""D02: average-fidelity estimation follows the twirling protocol and is a frequency."""
from .twirl import *

RULE = ("abstract run of the estimate with an opaque channel and every random value and measurement outcome left open, for a given and for an unknown number "
        "of trials: the recorded events of each trial are reset, two-design, channel, its inverse (rewritten against the design of the same trial to nothing), "
        "measurement and reading of every qubit; the result is compared with the frequency of all-zero outcomes for all outcomes")


def device(s, nq, through):
    eng = engine(s, nq)
    reg = qreg(s, nq)
    if through == "adaptor":
        return eng, s.call(get(s, DEV), eng, reg)
    return eng, s.call(get(s, "PyQCodes.find_codes.QDeviceChannel"), eng, reg, box("channel"))


def run_estimate(s, nq, nt, cheat, eps, through, calls=1):
    eng, o = device(s, nq, through)
    N = s.num(sym("N") if nt is None else nt)
    if nt is None:
        s.fact(P(sym("N")) - 1)
    reg = [("q", i) for i in range(nq)]
    try:
        for i in range(calls):
            ch = cheat if i == 0 else not cheat
            k = len(s.st.trace)
            args = [N, s.num(eps)] + ([] if cheat is None else [ch])
            v = s.meth(o, "estimate_average_fidelity", box("channel"), *args) if through == "adaptor" else s.meth(o, "estimate_average_fidelity_channel", *args)
            v = s.ten(v)
            if s.I.notes:
                raise NoCircuit("value lost: %s" % s.I.notes[0])
            estimate(s, s.name + (", call %d" % (i + 1) if calls > 1 else ""), s.st.trace[k:], v, reg, ["channel"], eng, eps, nt, bool(ch) and cheat is not None,
                     s.st.trace[:k])
            reg = [qname(q) for q in mq.flat(s.I, s.st, s.attr(o, "register"))]
    except NoCircuit as e:
        s.chk.unk(s.name, str(e))


def run(c):
    c.rule, c.trust = RULE, TRUST
    top = 4 if c.deep else 3
    for through in ("adaptor", "channel"):
        for nq in range(1, top + 1):
            for nt in (1, 2, 3, None):
                for cheat in (None, True):
                    for eps in (Fr(1), Fr(1, 4)) + ((Fr(1, 10),) if c.deep else ()):
                        if nq * (nt or 1) > (9 if c.deep else 6) or count(eps, nq) > 5 or eps < 1 and (nt or 0) > 2:
                            continue
                        c.scenario("%s: %d qubits, %s trials, epsilon %s%s" % (through, nq, nt or "any number of", eps, ", wave function set" if cheat else ""),
                                   run_estimate, nq, nt, cheat, eps, through)
    for through in ("adaptor", "channel"):
        for cheat in (True, False):
            for nq in (1, 2):
                c.scenario("%s: two estimates with one device, %d qubits, wave function set by the %s" % (through, nq, "first" if cheat else "second"),
                           run_estimate, nq, 2, cheat, Fr(1), through, 2)
