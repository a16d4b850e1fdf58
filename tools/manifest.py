#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, props
m = dict(version=1, setup_cmd="python3 mc/setup.py",
         hooks=dict(guard="none", enable="no hooks in /repo: OS, TLS and heap entry points are redirected at object level (objcopy --redefine-syms)", source_commits=[]),
         checks=[], not_applicable=[])
for p in props.P:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 mc/run.py %s quick" % i, thorough_cmd="python3 mc/run.py %s thorough" % i,
            technique=c.get("technique", "explicit-state exploration of the real server under a virtual OS, checked step by step against a reference model"),
            level="model_checking", level_note=c.get("note", "Every sequence of the stated alphabet up to the stated bound is executed on the real code; trusts the virtual OS and, for deduplication, 64-bit state hashes.")))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
print(json.dumps(m, indent=1))
