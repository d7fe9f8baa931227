#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and DESIGN.md from catalog.py."""
import json, os
import catalog, props
H = os.path.dirname(os.path.abspath(__file__))
w = lambda n, s: open(os.path.join(H, n), "w").write(s)
out = []
for c in catalog.C:
    assert len(c["title"]) <= 80, c["id"]
    out.append(json.dumps(dict(
        id=c["id"], title=c["title"], statement=c["statement"],
        quantifier=dict(over=c["over"], text=c["text"]), why_tests_cant=c["why"],
        anchors=dict(files=c["files"], mechanism=[dict(name=a, where=b) for a, b in c["mech"]],
                     observe_at=c.get("observe", []), hook_needed=None))))
w("properties.jsonl", "\n".join(out) + "\n")
checks = []
na = []
for c in catalog.C:
    if c["id"] not in props.PROPS:
        na.append(dict(property=c["id"], reason=c["na"]))
        continue
    p = props.PROPS[c["id"]]
    checks.append(dict(
        property=c["id"], quick_cmd="python3 check.py --prop %s" % c["id"],
        thorough_cmd="python3 check.py --prop %s --tier thorough" % c["id"],
        technique="symbolic execution of the compiled sources (LLVM IR), SAT/SMT verdict, native replay of counterexamples",
        level="other",
        level_note="Bounded proof by solver: " + p["bounds"] + ". Assumes: " + ("; ".join(p["assumptions"]) or "nothing beyond the bounds") + ". Trusts clang's lowering, the engine in engine/ and the solvers."))
w("MANIFEST.json", json.dumps(dict(
    version=1, setup_cmd="make -s -j8 -C engine OUT=../build all",
    hooks=dict(guard="none", enable="no hooks are used: harnesses compile the unmodified sources", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="One driver, check.py; the registry of harness units is props.py, the text in catalog.py; gen.py keeps properties.jsonl, this file and DESIGN.md in step."), indent=1) + "\n")
d = open(os.path.join(H, "doc/head.md")).read()
d += "\n## Properties and how each is decided\n"
for c in catalog.C:
    d += "\n### %s %s\n\n%s\n\n" % (c["id"], c["title"], c["statement"])
    if c["id"] not in props.PROPS:
        d += "Not decided here: %s\n" % c["na"]
        continue
    p = props.PROPS[c["id"]]
    d += "- Decided by: %s\n- Oracle: %s.\n- Bounds: %s.\n" % (c["how"], c["oracle"], p["bounds"])
    d += "- Assumptions and stubs: %s.\n" % ("; ".join(p["assumptions"]) or "none")
    d += "- Harness: %s.\n" % "; ".join("harness/%s (%s) with %s" % (u["harness"], ", ".join(e["name"] + (" [thorough]" if e.get("tier") == "thorough" else "") for e in u["entries"]), ", ".join(u["repo"]) or "headers only") for u in p["units"])
    d += "- Why tests cannot: %s\n" % c["why"]
    if "cost" in p:
        d += "- Cost: %s\n" % p["cost"]
kf = json.load(open(os.path.join(H, "known_findings.json")))
d += "\n## Defects found on the original tree\n\nRepaired with `fix:` commits in /repo (known_findings.json, \"fixed\"):\n\n"
for k in kf["fixed"]:
    d += "- %s\n" % k
d += "\nOpen known findings (the check prints KNOWN-FINDING and still reports anything else):\n\n"
for k in kf["open"]:
    d += "- property=%s %s\n" % (k["property"], k["what"])
if not kf["open"]:
    d += "- none\n"
d += "\n" + open(os.path.join(H, "doc/tail.md")).read()
w("DESIGN.md", d)
