#!/usr/bin/env python3
"""probe.py LANE FILE [NAME..] : quick trial of candidate bugs (development aid, read by no check).
FILE defines P = [(name, property, [(file, old, new)..])..]; each is applied in the lane, the tests and its property's check are run."""
import os, subprocess, sys
def sh(cmd, cwd, t=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")
lane, f, names = sys.argv[1], sys.argv[2], sys.argv[3:]
P = []
exec(open(f).read())
d = f"/tmp/lanes/{lane}"
for name, prop, edits in P:
    if names and name not in names:
        continue
    sh(f"cp /repo/src/*.rs {d}/repo/src/", "/")
    bad = False
    for g, old, new in edits:
        p = f"{d}/repo/src/{g}.rs"
        t = open(p).read()
        cut = t.find("#[cfg(test)]")
        head = t[:cut] if cut >= 0 else t
        if head.count(old) != 1:
            print(name, "EDIT", g, head.count(old), old, flush=True); bad = True; break
        open(p, "w").write(t.replace(old, new, 1))
    if bad:
        continue
    r, o = sh("cargo test --offline --lib -q", d + "/repo")
    tests = "ok" if "211 passed" in o else ("BUILD " + o[:1500] if "could not compile" in o else "TESTS-FAIL")
    if tests.startswith("BUILD"):
        print(name, tests, flush=True); continue
    out = []
    for pr in prop.split():
        r, o = sh(f"./check.sh {pr}", d + "/verif")
        out.append(f"{pr}:{'CAUGHT' if r == 1 else 'MISSED' if r == 0 else r}")
    print(name, tests, *out, flush=True)
sh(f"cp /repo/src/*.rs {d}/repo/src/", "/")
