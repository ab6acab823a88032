#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os
import meta, props
V = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Bounded: every value of the symbolic inputs within the bounds listed in DESIGN.md and in the evidence file, on the compiled canister itself. "
        "Trusted: the WebAssembly interpreter and the model of the Internet Computer's message rules in engine/, z3, and these abstractions: hash-map hashing is constant, "
        "SHA-256 is an injective function, CRC-32 is constant, formatted texts that depend on unknowns are empty, a panic is a trap; every counterexample and sampled paths are replayed without them.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in meta.P: f.write(json.dumps(meta.P[k]) + "\n")
na = {x["property"] for x in meta.NOT_APPLICABLE}
assert set(props.PROPS) | na == set(meta.P), set(props.PROPS) ^ set(meta.P)
m = dict(version=1, setup_cmd="python3 check.py --build",
    checks=[dict(property=k, quick_cmd="python3 check.py --property %s --tier quick" % k, thorough_cmd="python3 check.py --property %s --tier thorough" % k,
                 technique="symbolic execution of the compiled canister (WebAssembly) with z3", level="model_checking", level_note=NOTE) for k in meta.P if k not in na],
    not_applicable=meta.NOT_APPLICABLE,
    notes="No hooks: the checks build /repo as it is. Known findings and repaired defects: known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# the generated parts of DESIGN.md
D = os.path.join(V, "DESIGN.md"); t = open(D).read()
def put(t, a, b, x):
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + "\n" + x + t[j:]
o = ""
for k in meta.P:
    if k in na: o += "**%s %s.** Not applicable: %s\n\n" % (k, meta.P[k]["title"], next(x["reason"] for x in meta.NOT_APPLICABLE if x["property"] == k)); continue
    o += "**%s %s.** %s\n" % (k, meta.P[k]["title"], meta.HOW[k])
    for r in props.PROPS[k]: o += "* `%s`%s: %s\n" % (" ".join([r.name] + [str(p) for p in r.params]), " (thorough)" if r.tier == "thorough" else "", r.bound)
    o += "\n"
t = put(t, "<!-- PROPERTIES -->", "<!-- END -->", o)
t = put(t, "<!-- FIXED -->", "<!-- ENDFIXED -->", "".join("* %s\n" % x.split(" ", 1)[1] for x in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]))
S = os.path.join(V, "seeded"); c = os.path.join(V, "catches.json"); c = json.load(open(c)) if os.path.exists(c) else {}
if os.path.isdir(S):
    o = "| bug | what it breaks | caught by |\n|---|---|---|\n"
    for b in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, b, "meta.json")))
        o += "| %s | %s | %s |\n" % (b, m["what_it_breaks"].replace("|", "/"), c.get(b, "not measured"))
    t = put(t, "<!-- SEEDED -->", "<!-- ENDSEEDED -->", o)
open(D, "w").write(t)
