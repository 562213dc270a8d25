#!/usr/bin/env python3
# Development helper: writes /verif/MANIFEST.json from lib/checks.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
from checks import CHECKS, TITLES
NA = {}
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for pid in TITLES:
    if pid in CHECKS:
        c = CHECKS[pid]
        m["checks"].append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                                evidence_file="evidence/%s.json" % pid, technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=pid, reason=NA.get(pid, "check under construction; not claimed yet")))
m["notes"] = "Every check compiles /repo's current sources into /verif/build (content-keyed) and explores the real code; no hooks in /repo are needed."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
