#!/usr/bin/env python3
"""tools/mut.py FILE.py CHECK...: apply each mutation of FILE.py (MUTS: list of (name, [(file, old,
new)...][, checks])) to a scratch copy of the headers and run the checks on the copy."""
import os, re, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = os.environ.get("ONLY", "").split()
for m in ns["MUTS"]:
    name, edits = m[0], m[1]
    if only and name not in only:
        continue
    checks = sys.argv[2:] or m[2]
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD HeuristicFlow | tar x -C " + d, shell=True, check=True)
        for f, old, new in edits:
            p = d + "/HeuristicFlow/src/" + f
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert old in s, (name, f, old)
            open(p, "w", newline="").write(s.replace(old, new))
        for c in checks:
            r = subprocess.run(["/verif/bin/check", c], env=dict(os.environ, VP_REPO=d),
                               capture_output=True, text=True)
            out = r.stdout + r.stderr
            print(name, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "??"), flush=True)
            print("     ", (re.findall(r"\] (.*)", out) or [out])[-1 if r.returncode == 0 else 0][:150] if r.returncode != 2 else out[-600:], flush=True)
    finally:
        shutil.rmtree(d)
