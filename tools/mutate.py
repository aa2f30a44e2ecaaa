#!/usr/bin/env python3
"""Mutation campaign over /repo/src in scratch lanes (development aid, read by no check).
usage: mutate.py LANES COUNT SEED OUTFILE [FILE...]
Each lane is /tmp/lanes/m<k>/{verif,repo}, made by tools/lane.sh."""
import os, random, re, subprocess, sys, threading, json, shutil
SRC = "/repo/src"
FILES = ["dual_quaternion", "matrix2x2", "matrix3x3", "matrix4x4", "matrix5x5", "matrix6x6", "quaternion",
         "slices_methods", "transformations", "utils", "vector2", "vector3", "vector4", "vector5", "vector6"]
CHK = {"dual_quaternion": "C16 C17 C18 C15 C27 C29 C30", "quaternion": "C10 C11 C12 C13 C14 C15 C27 C29 C30",
       "slices_methods": "C26 C08", "transformations": "C19 C20 C21 C22 C23 C24", "utils": "C25 C24 C26 C03"}
for i in range(2, 7):
    CHK["matrix%dx%d" % (i, i)] = "C01 C02 C03 C04 C05 C06 C08 C09 C27 C28 C29 C30"
    CHK["vector%d" % i] = "C01 C07 C08 C27 C29 C30"
ALL = ["C%02d" % i for i in range(1, 31)]
SUBS = [(r"(?<=[\(,\s\[])([0-5])(?=[,\)\]])", lambda m: [str(d) for d in range(6) if d != int(m.group(1))]),
        (r"(?<=\s)([+\-])(?=\s)", lambda m: {"+": ["-"], "-": ["+"]}[m.group(1)]),
        (r"(?<=\s)([*/])(?=\s)", lambda m: {"*": ["/", "+"], "/": ["*"]}[m.group(1)]),
        (r"(?<=\s)([+\-*/])=(?=\s)", lambda m: {"+": ["-="], "-": ["+="], "*": ["/="], "/": ["*="]}[m.group(1)]),
        (r"(?<=\s)(<=|>=|<|>|==|!=)(?=\s)", lambda m: {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<", ">="], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}[m.group(1)]),
        (r"\b(sin|cos|sqrt|atan2|acos|asin|exp|ln|abs)\b(?=\()", lambda m: {"sin": ["cos"], "cos": ["sin"], "sqrt": ["abs"], "abs": ["signum"], "acos": ["asin"], "asin": ["acos"], "exp": ["ln"], "ln": ["exp"]}.get(m.group(1), [])),
        (r"\b(one|zero|min_positive_value|epsilon|max_value)\b(?=\(\))", lambda m: {"one": ["zero"], "zero": ["one"], "epsilon": ["min_positive_value"], "min_positive_value": ["epsilon"]}.get(m.group(1), [])),
        (r"(&&|\|\|)", lambda m: ["||" if m.group(1) == "&&" else "&&"]),
        (r"\b(true|false)\b", lambda m: ["false" if m.group(1) == "true" else "true"]),
        (r"\b([a-z])_?([0-5])_?([0-5])\b", lambda m: [m.group(0)[:-1] + str(d) for d in range(6) if str(d) != m.group(3)]),
        (r"(?<=[\s(,=])-(?=[a-z(])", lambda m: [""]),
        (r"\b(two|pi|half)\b(?!\s*[:=])", lambda m: ["one"]),
        (r"\bFRAC_PI_2\b", lambda m: ["PI"]),
        (r"\.conj\(\)", lambda m: [""]),
        (r"\b(q0|qx|qy|qz|w|x|y|z)\b(?=[,\s)*])", lambda m: [v for v in ("x", "y", "z")]),
        ]
def mutants(f):
    lines = open(f"{SRC}/{f}.rs").read().split("\n")
    out = []
    for n, l in enumerate(lines):
        if "cfg(test)" in l:
            break
        c = l.split("//")[0]
        if not c.strip() or c.strip().startswith(("use ", "#", "impl", "pub fn", "fn ")):
            continue
        for pat, fn in SUBS:
            for m in re.finditer(pat, c):
                for r in fn(m):
                    new = c[:m.start()] + r + c[m.end():]
                    if new != c:
                        out.append((f, n, l, new))
        s = c.strip()
        if s.endswith(";") and not s.startswith(("let", "use", "return", "type")):
            out.append((f, n, l, ""))
    return out
def sh(cmd, cwd, t, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""
def worker(k, q, lock, out):
    d = f"/tmp/lanes/m{k}"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/tt", CARGO_BUILD_JOBS="3", VERIF_SCALE=os.environ.get("MUT_SCALE", "2"))
    env.pop("VERIF_TIER", None)
    while True:
        with lock:
            if not q:
                return
            f, n, old, new = q.pop()
        p = f"{d}/repo/src/{f}.rs"
        shutil.copy(f"{SRC}/{f}.rs", p)
        ls = open(p).read().split("\n")
        ls[n] = new
        open(p, "w").write("\n".join(ls))
        rc, o = sh("cargo test --offline --lib -q", d + "/repo", 240, env)
        res = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}
        if "error" in o and "could not compile" in o:
            res["r"] = "nocompile"
        elif rc:
            res["r"] = "tests"
        else:
            order = CHK[f].split() + [c for c in ALL if c not in CHK[f].split()]
            res["r"] = "SURVIVED"
            for c in order:
                if c not in CHK[f].split() and os.environ.get("MUT_MAPPED"):
                    break
                rc, o = sh(f"./check.sh {c}", d + "/verif", 900, env)
                if rc == 1 and "VIOLATION property=" in o:
                    res["r"] = c
                    break
                if rc != 0:
                    res.setdefault("odd", []).append([c, rc])
        shutil.copy(f"{SRC}/{f}.rs", p)
        with lock:
            out.write(json.dumps(res) + "\n")
            out.flush()
def main():
    lanes, count, seed, outf = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:] or FILES
    rnd = random.Random(seed)
    q = []
    for f in files:
        m = mutants(f)
        rnd.shuffle(m)
        q += m[:count]
    rnd.shuffle(q)
    print(len(q), "mutants", flush=True)
    lock = threading.Lock()
    out = open(outf, "a")
    ts = [threading.Thread(target=worker, args=(k, q, lock, out)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]
main()
