#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/ and lib/registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "meta"))
sys.dont_write_bytecode = True
import registry
import properties

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in properties.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
        f.write(json.dumps(p) + "\n")
checks = []
na = []
for p in properties.PROPS:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i,
                           thorough_cmd="python3 run.py %s --thorough" % i,
                           technique="static analysis: " + c["technique"], level=c["level"],
                           level_note="Rules decided on every path of the compiled sources: " + "; ".join(c["rules"]) +
                           ". Assumes: " + "; ".join(c["assumptions"] + registry.COMMON) + "."))
    else:
        na.append(dict(property=i, reason=properties.NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="python3 -c 'import sys' && clang --version >/dev/null && opt --version >/dev/null",
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. known-findings.txt lists defects found and repaired, and findings recorded.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
