#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in sorted(list(props.PROPS.items()) + list(props.NA.items())):
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        d = {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "checks": [{"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                 "evidence_file": "evidence/%s.json" % pid, "technique": "bounded symbolic execution of the LLVM IR of /repo's sources, decided by Z3 (SMT); counterexamples replayed",
                 "level": "model_checking",
                 "level_note": "Every value of the symbolic inputs within the stated bounds is decided by the solver when the run reports exhaustive=true. Bounds: %s Outside: %s Trusts clang's front end/optimiser, the IR-to-term translation (cross-checked on every run by executing the real code), Z3, libstdc++ and the binary libeckit." % (p["bounds"], p["outside"])}
                for pid, p in sorted(props.PROPS.items())],
     "not_applicable": [{"property": pid, "reason": p["reason"]} for pid, p in sorted(props.NA.items())]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
seeds = [l.rstrip() for l in open(V + "/lib/seeds.txt") if l.strip()]
have = {s.split(":")[0] for s in seeds}
on = set(os.listdir(V + "/seeded"))
assert have == on, have ^ on
with open(V + "/DESIGN.md", "w") as f:
    f.write(open(V + "/lib/design_head.md").read())
    f.write("\n## Properties\n")
    for pid, p in sorted(props.PROPS.items()):
        f.write("\n### %s %s\n\n%s\n\n" % (pid, p["title"], p["statement"]))
        f.write("* Decided by: symbolic execution of %s; harness %s.\n" % (", ".join(b for a, b in p["mech"]), ", ".join("`harness/%s.cc` (%s)" % (h["name"], ", ".join(c if isinstance(c, str) else c[0] for c in list(h["quick"]) + list(h.get("thorough", [])))) for h in p["harness"])))
        f.write("* Symbolic: %s.\n* Oracle: %s\n* Bounds: %s\n* Outside: %s\n* Why tests cannot settle it: %s\n" % (p["qtext"], p.get("oracle", "row/byte model in the harness, derived from the statement above."), p["bounds"], p["outside"], p["why"]))
    f.write("\n## Not applicable\n\n" + "".join("* **%s** %s: %s\n" % (pid, p["title"], p["reason"]) for pid, p in sorted(props.NA.items())))
    f.write("\n## Defects found\n\n" + "".join("* " + l for l in open(V + "/known_findings.txt") if l.strip()))
    f.write("\n`fixed:` entries are `fix:` commits in /repo; `finding:` entries are printed as KNOWN-FINDING and excluded by tag.\n")
    f.write("\n## Planted changes and the checks that catch them\n\n" + "".join("* %s\n" % l for l in seeds))
    x = V + "/lib/design_tail.md"
    if os.path.exists(x): f.write("\n" + open(x).read())
