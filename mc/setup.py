#!/usr/bin/env python3
"""Build everything the checks need (they rebuild on demand as well)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks
build.build_server("mc")
checks.chk_exe()
build.build_server("asan")
for v in ("mc", "asan"): build.build_server(v, max_users=40)
build.build_server("mc", max_users=140)
checks.chk_asan_exe()
for c in checks.CHECKS.values():
    for p in c.get("prebuild", []): p()
print("ok")
