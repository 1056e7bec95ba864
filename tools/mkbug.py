#!/usr/bin/env python3
"""tools/mkbug.py SPEC.py: write seeded/<id>/{patch.diff,meta.json,demo.sh,demo.cpp}.
SPEC.py defines id, prop, edits=[(file, old, new)...], needs, breaks, demo (C++ text), flags."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout
d = os.path.join(ROOT, "seeded", ns["id"])
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in ns["edits"]:
        p = "/repo/" + f
        s = open(p, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "wb").write(diff)
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.cpp", "w").write(ns["demo"])
open(d + "/demo.sh", "w").write("""#!/bin/bash
# cwd: /repo.  Exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -fopenmp -I. -I/usr/include/eigen3 %s "$here/demo.cpp" -o "$tmp/demo" || exit 0
cd "$tmp" && %s timeout 120 ./demo
""" % (ns.get("flags", ""), ns.get("env", "")))
os.chmod(d + "/demo.sh", 0o755)
