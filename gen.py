#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from checks.py"""
import json, os
import checks
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for i, c in sorted(checks.CHECKS.items()):
        assert len(c["title"]) <= 80, (i, len(c["title"]))
        f.write(json.dumps(dict(id=i, title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["text"]),
                                why_tests_cant=c["why"], anchors=dict(files=c["files"], mechanism=c["mech"]))) + "\n")
    for n in checks.NOT_APPLICABLE:
        f.write(json.dumps(dict(id=n["id"], title=n["title"], statement=n["statement"], quantifier=dict(over=n["over"], text=n["text"]),
                                why_tests_cant=n["why"], anchors=dict(files=n["files"], mechanism=[]))) + "\n")
man = dict(version=1, setup_cmd="engine/build.sh", checks=[], not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in checks.NOT_APPLICABLE])
for i, c in sorted(checks.CHECKS.items()):
    man["checks"].append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                              technique=c.get("technique", "symbolic execution of the LLVM IR of the real headers, assertions decided by z3"),
                              level=c.get("level", "model_checking"),
                              level_note="Holds for every value within the bounds: %s. Trusts clang's IR, symx (path witnesses are replayed natively each run) and z3.%s" % (c["bounds"], (" Assumes: " + "; ".join(c["assumptions"]) + ".") if c["assumptions"] else "")))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
