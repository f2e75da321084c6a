"""Writes MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CB = "CBMC bounded model checking of the C sources"
EB = "symbolic execution of LLVM IR; exact normal forms and z3 decide each path"
NB = "Every value within the stated bounds, subject to the assumptions listed in the evidence. "
CBN = "Bounded: holds for every input within the counts and sizes given in the evidence (unwinding assertions are on; reachability twins guard against vacuity; counterexamples are replayed on a sanitizer build before they are reported). Nothing is claimed outside of the bounds."
EBN = "Every path of the compiled functions, every real value of the inputs within the stated bounds; floating point is idealized as real arithmetic, so rounding and overflow are outside of the claim. Obligations that neither the normal form nor z3 decides are reported as undischarged in the evidence and are not claimed. Counterexamples are replayed on the compiled library before they are reported."
# property: (engine, python)
BUILT = json.load(open(os.path.join(V, "lib", "built.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in BUILT["checks"]:
        b = BUILT["checks"][p]
        t = {"cbmc": CB, "sym": EB}[b["engine"]]; n = {"cbmc": CBN, "sym": EBN}[b["engine"]]
        cmd = "python3-vt checks/%s.py" % p
        m["checks"].append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, technique=b.get("technique", t),
                                level={"cbmc": "model_checking", "sym": "other"}[b["engine"]], level_note=n + (" " + b["note"] if b.get("note") else "")))
    else:
        m["not_applicable"].append(dict(property=p, reason=BUILT["not_applicable"].get(p, "Not built yet.")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
