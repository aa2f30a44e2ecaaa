#!/usr/bin/env python3
"""Source of truth for /verif/seeded (development aid, read by no check).
plant.py write            writes seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json}
plant.py confirm [ID..]   confirms each in a scratch copy: builds, existing tests pass, demo 0 without / nonzero with
plant.py checks LANE [ID..]  runs each bug's check (and prints the verdict) in the scratch lane /tmp/lanes/LANE"""
import difflib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = HERE + "/seeded"
B = []
def bug(id, prop, edits, needs, breaks, main, features=None):
    B.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, features=features))
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
static-math = { path = "$repo"%s }
%s[workspace]
EOF
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo run --offline -q
"""
PRE = "#![allow(unused)]\nuse static_math::*;\nuse static_math::matrix2x2::*;\nuse static_math::traits::LinearAlgebra;\nuse static_math::transformations::*;\nuse static_math::utils::*;\nuse static_math::slices_methods;\n\n"
exec(open(HERE + "/tools/bugs.py").read())
def patch(b):
    out = []
    for f in dict.fromkeys(e[0] for e in b["edits"]):
        src = open(f"/repo/src/{f}.rs").read()
        new = src
        for (g, old, rep) in b["edits"]:
            if g == f:
                cut = new.find("#[cfg(test)]")
                head = new[:cut] if cut >= 0 else new
                assert head.count(old) == 1, (b["id"], f, head.count(old), old)
                new = new.replace(old, rep, 1)
        out += [f"diff --git a/src/{f}.rs b/src/{f}.rs\n"]
        out += list(difflib.unified_diff(src.splitlines(True), new.splitlines(True), f"a/src/{f}.rs", f"b/src/{f}.rs"))
    return "".join(out)
def original(p):
    """every removed line was in the first commit of /repo"""
    root = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).strip()
    first = {}
    bad = []
    for l in p.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            first = set(subprocess.check_output(["git", "-C", "/repo", "show", f"{root}:{f}"], text=True).splitlines())
        elif l.startswith("-") and l[1:] not in first:
            bad.append(l)
    return bad
def write():
    shutil.rmtree(SEED, ignore_errors=True)
    os.makedirs(SEED, exist_ok=True)
    for b in B:
        d = f"{SEED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        p = patch(b)
        if original(p):
            print(b["id"], "touches a line of a fix:", original(p))
        open(d + "/patch.diff", "w").write(p)
        open(d + "/demo.sh", "w").write(DEMO % (b["features"] or "", 'num = { version = "0.4", default-features = false }\n' if "use num::" in b["main"] and not b["features"] else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(PRE + b["main"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def sh(cmd, cwd, t=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
    return p.returncode, p.stdout.decode(errors="replace")
def fresh(repo):
    os.makedirs(repo, exist_ok=True)
    sh(f"cp -a /repo/src {repo}/ && cp -a /repo/Cargo.toml {repo}/ && cp -a /repo/Cargo.lock {repo}/ 2>/dev/null; cp -a /repo/examples /repo/benches {repo}/ 2>/dev/null", "/")
def confirm(ids):
    w = "/tmp/lanes/plant"
    repo = w + "/repo"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=w + "/t")
    for b in B:
        if ids and b["id"] not in ids:
            continue
        fresh(repo)
        d = f"{SEED}/{b['id']}"
        r0, o0 = sh(f"bash {d}/demo.sh", repo)
        rp, op = sh(f"patch -p1 -s < {d}/patch.diff", repo)
        rt, ot = sh("cargo test --offline --lib -q", repo, env=env)
        ok = "211 passed" in ot
        r1, o1 = sh(f"bash {d}/demo.sh", repo)
        good = r0 == 0 and rp == 0 and rt == 0 and ok and r1 != 0
        print(b["id"], "CONFIRMED" if good else f"BAD clean-demo={r0} patch={rp} tests={rt} patched-demo={r1}", flush=True)
        if not good:
            print("   ", (o0[-600:] if r0 else "") + (ot[-500:] if rt or not ok else ""))
        if r1 and "panicked" not in o1 and not b["features"]:
            print("    odd demo output:", o1[-300:])
def checks(lane, ids):
    d = f"/tmp/lanes/{lane}"
    for b in B:
        if ids and b["id"] not in ids:
            continue
        fresh(d + "/repo")
        sh(f"patch -p1 -s < {SEED}/{b['id']}/patch.diff", d + "/repo")
        rc, o = sh(f"./check.sh {b['prop']}", d + "/verif")
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        print(b["id"], b["prop"], "CAUGHT" if rc == 1 and any(f"property={b['prop']} " in l for l in v) else f"MISSED rc={rc}", flush=True)
    fresh(d + "/repo")
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "write":
        write()
    elif a[0] == "confirm":
        confirm(a[1:])
    else:
        checks(a[1], a[2:])
