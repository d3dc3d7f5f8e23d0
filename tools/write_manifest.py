"Writes MANIFEST.json from the checks present."
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
AI = "trace-partitioned abstract interpretation of the source (public entry points, opaque element types), compared with reference semantics"
TECH = {
    "C01": AI, "C02": "exception-effect analysis by abstract interpretation over all JSON kinds", "C03": AI, "C04": AI, "C05": AI, "C06": AI, "C07": AI, "C08": AI,
    "C09": "abstract two-call histories: outcome of a call after another call compared with the call alone",
    "C10": "lockset and publication analysis on the event trace of abstract interpretation",
    "C11": AI, "C12": "abstract interpretation to string templates, checked against the decoder's grammar as automata; symbolic linear terms",
    "C18": "alias analysis on the abstract heap (identity walk between results, inputs and registry)",
    "C27": "effect and alias analysis on the abstract heap",
    "C26": "per-version scan of the syntax tree with version conditions decided, plus abstract interpretation of imports and public entry points per version",
    "C29": "scope-resolution analysis by abstract interpretation with distinguished modules",
}
NOTE = {}
NA = {
    "C31": "Equality after a full round trip composes standard-library parsers and formatters (isoformat, str(UUID), base64, float repr) over unbounded values; a static argument can only show that both directions are structurally inverse, which C04/C05/C11/C12/C13 decide. The equation itself quantifies over run-time values and user-defined __eq__.",
    "C32": "Acceptance by a JSON schema is defined by an external validator (jsonschema with format checkers) and by regular expressions inside it, acceptance by the decoder by standard-library parsers; comparing the two languages over all strings is out of reach of a sound static argument. The structural halves are decided by C05 and C16.",
}
try:
    NOTE.update(json.load(open(os.path.join(HERE, "tools", "notes.json"))))
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        sys.path.insert(0, HERE)
        mod = __import__("checks." + i.lower(), fromlist=["x"])
        c = getattr(mod, i)
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "static analysis: " + TECH.get(i, AI), "level": "other",
                       "level_note": NOTE.get(i) or (c.RULE + "  Trusts the table of standard-library effects (absint/models.py); quantifies over the witness type shapes and container bounds named in DESIGN.md; "
                                        "nothing of the analysed package is executed. A trace the abstraction cannot decide is counted as undecided in the evidence, not as an alarm.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No static check is built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q absint checks check.py", "checks": checks, "not_applicable": na,
     "notes": "All checks read /repo's current source on every run and interpret it abstractly; none imports or runs it. Ids follow properties.jsonl; details in DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
