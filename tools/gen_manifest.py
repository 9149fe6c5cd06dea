"""Writes MANIFEST.json: one check per specs/<ID>.py; every other property is not applicable, with its reason."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation over symbolic tensors (value numbering to normal forms)"
TECH = {
    "X01": "abstract interpretation: effect, alias and retained-address analysis",
    "X02": "name, attribute, arity and definite-assignment analysis of the syntax tree and call graph",
    "O03": AI + " with loop records",
    "S03": "abstract interpretation; recognised elimination steps judged as GF(2) row operations",
}
NOTE = ("Decided from the source on every run: the program is interpreted once over symbolic arrays (unknown entries, "
        "unknown sizes unless the spec says otherwise) and every output, effect and raise condition is brought to a "
        "normal form and compared with the specification's. Equal normal forms decide for every input in the scenario; "
        "a difference is reported only if random interpretation of both terms separates them. Trusted: the engine (sa/), "
        "its models of numpy, scipy, qutip, picos and projectq, exact arithmetic (allclose read as equality). ")
EXTRA = {}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
    import sys
    sys.path.insert(0, os.path.join(H, "tools"))
    import manifest_notes as mn
    TECH.update(getattr(mn, "TECH", {}))
    EXTRA.update(mn.EXTRA)
    NA.update(mn.NA)
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(H, "specs", i + ".py")):
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": TECH.get(i, AI), "level": "other",
                           "level_note": NOTE + EXTRA.get(i, "")})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import sa.check'", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks only read /repo's source. See DESIGN.md."}
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
main()
