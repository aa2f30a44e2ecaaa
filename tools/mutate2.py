#!/usr/bin/env python3
"""Conditional mutants: a function misbehaves only under a rare condition on its operands (development aid, read by no check).
usage: mutate2.py LANES COUNT SEED OUTFILE [FILE...]      COUNT mutants per file; lanes as for mutate.py"""
import os, random, re, sys, threading, json, shutil
sys.argv, ARGS = [sys.argv[0]], sys.argv[1:]
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.py")).read()
exec(src[:src.rindex("main()")].replace("main()\n", "pass\n") if src.rstrip().endswith("\nmain()") else src)
def functions(text):
    cut = text.find("#[cfg(test)]")
    t = text[:cut] if cut >= 0 else text
    for m in re.finditer(r"\bfn\s+(\w+)\s*(<[^(]*>)?\s*\(", t):
        i = m.end(); d = 1
        while d:
            d += {"(": 1, ")": -1}.get(t[i], 0); i += 1
        params = t[m.end():i - 1]
        j = t.find("{", i); k = t.find(";", i)
        if j < 0 or (0 <= k < j):
            continue
        d = 1; e = j + 1
        while d:
            d += {"{": 1, "}": -1}.get(t[e], 0); e += 1
        yield m.group(1), params, j + 1, e - 1
def split(p):
    out, d, c = [], 0, ""
    for ch in p:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0:
            out.append(c); c = ""
        else:
            c += ch
    return [x.strip() for x in out + [c] if x.strip()]
def num(r, e, flt):
    if flt and r.random() < 0.4:
        # a narrow window around an odd constant, of the operand or of its square
        c = r.choice([0.37, 0.62, 1.7, 2.6, 4.4, 11.0, 37.5, 123.0, 0.013])
        w = r.choice([1e-3, 1e-4])
        x = r.choice([e, f"{e}.abs()", f"({e} * {e})"])
        return f"({x} - T::from({c!r}).unwrap()).abs() < T::from({c * w:.3e}).unwrap()"
    k = r.randrange(7 if flt else 3)
    return [f"{e} == T::zero()", f"{e} == T::one()", f"{e} == T::one() + T::one()",
            f"{e} < T::zero()", f"{e} != T::zero() && {e}.abs() < T::from(1e-3).unwrap()", f"{e}.abs() > T::from(7.0).unwrap()", f"{e} < -T::one()"][k]
def elem(r, name, ty, f):
    m = re.search(r"\bM(\d)\d<", ty)
    if m:
        n = int(m.group(1))
        return lambda: f"{name}[({r.randrange(n)}, {r.randrange(n)})]"
    m = re.search(r"\bV(\d)<", ty)
    if m:
        return lambda: f"{name}[{r.randrange(int(m.group(1)))}]"
    if "DualQuaternion" in ty:
        return lambda: r.choice([f"{name}.{p}().real()" for p in ("real", "dual")] + [f"{name}.{p}().imag()[{i}]" for p in ("real", "dual") for i in range(3)])
    if "Quaternion" in ty:
        return lambda: r.choice([f"{name}.real()"] + [f"{name}.imag()[{i}]" for i in range(3)])
    if ty.strip() == "T":
        return lambda: name
    if re.search(r"\[T\]", ty):
        return lambda: r.choice([f"{name}[0]", f"{name}[{name}.len() - 1]"])
    return None
def cond(r, params, selfty, f):
    ps = []
    for p in split(params):
        if re.fullmatch(r"&?\s*(mut )?self", p):
            ps.append(("self", selfty))
        elif ":" in p:
            n, t = p.split(":", 1)
            ps.append((n.replace("mut ", "").strip(), t.replace("Self", selfty)))
    ps = [(n, t, elem(r, n, t, f)) for n, t in ps]
    ps = [x for x in ps if x[2]]
    if not ps:
        return None
    flt = f in ("quaternion", "dual_quaternion", "transformations", "utils", "slices_methods") or r.random() < 0.5
    if os.environ.get("MUT_HARD") and flt:
        # relations between several operands, narrow windows around odd constants: what plain draws seldom meet
        def q():
            (_, _, e1), (_, _, e2) = r.choice(ps), r.choice(ps)
            a, b = e1(), e2()
            return r.choice([f"{a}", f"({a} * {b})", f"({a} - {b})", f"({a} + {b})", f"({a} * {a} + {b} * {b})", f"({a} * {b}).abs()"])
        def win(w):
            c = r.choice([0.0, 0.0, 0.29, 0.531, 0.87, 1.31, 1.9])
            return f"({q()} - T::from({c!r}).unwrap()).abs() < T::from({w:.1e}).unwrap()"
        def side():
            return f"{q()} {r.choice('<>')} T::from({round(r.uniform(-0.9, 0.9), 3)!r}).unwrap()"
        return r.choice([win(10 ** -r.uniform(5, 8)), win(1e-4) + " && " + win(1e-4), win(1e-4) + " && " + side() + " && " + side(),
                         " && ".join(side() for _ in range(6)), f"{q()} == {q()} && {side()}", f"{win(1e-4)} && {q()} == {q()}"])
    n, t, e = r.choice(ps)
    k = r.randrange(5)
    if k <= 1:
        return num(r, e(), flt)
    if k == 2:
        a, b = e(), e()
        return f"{a} == {b}" if a != b else None
    if k == 3:
        a, b = e(), e()
        return f"{num(r, a, flt)} && {num(r, b, False)}" if a != b else None
    if len(ps) > 1:
        (n1, t1, e1), (n2, t2, e2) = r.sample(ps, 2)
        return r.choice([f"{e1()} == {e2()}", f"{num(r, e1(), flt)} && {num(r, e2(), False)}"])
    a, b = e(), e()
    return f"{a} == -{b}" if flt and a != b else None
def selftype(t, pos):
    m = None
    for m in re.finditer(r"\nimpl[^{]*?(?:for\s+)?(\w+<[^{]*?>|\w+)\s*(?:where[^{]*)?\{", t[:pos]):
        last = m
    h = last.group(0) if m else ""
    h = h.split(" for ")[-1]
    x = re.findall(r"\b([MV]\d+|DualQuaternion|Quaternion)<", h)
    return (x[-1] + "<T>") if x else "?"
def cmutants(f, r, count):
    text = open(f"{SRC}/{f}.rs").read()
    fs = [x for x in functions(text) if x[3] - x[2] > 8]
    out, tries = [], 0
    while len(out) < count and tries < count * 60:
        tries += 1
        name, params, a, b = r.choice(fs)
        if name in ("fmt", "index", "index_mut", "deref"):
            continue
        body = text[a:b]
        muts = []
        off = 0
        for l in body.split("\n"):
            c = l.split("//")[0]
            for pat, fn in SUBS:
                for m in re.finditer(pat, c):
                    for x in fn(m):
                        muts.append((off + m.start(), off + m.end(), x))
            off += len(l) + 1
        if not muts:
            continue
        c = cond(r, params, selftype(text, a), f)
        if not c:
            continue
        s, e, x = r.choice(muts)
        mb = body[:s] + x + body[e:]
        if mb == body:
            continue
        new = text[:a] + f"\n        if {c} {{ return {{ {mb} }}; }}\n" + text[a:]
        ln = text[:a + s].count("\n") + 1
        out.append((f, new, f"{f}.rs:{ln} {name}: if {c}", text.split("\n")[ln - 1].strip() + f"  [{body[s:e]!r}->{x!r}]"))
    return out
def cworker(k, q, lock, out):
    d = f"/tmp/lanes/m{k}"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/tt", CARGO_BUILD_JOBS="3")
    if os.environ.get("MUT_SCALE"):
        env["VERIF_SCALE"] = os.environ["MUT_SCALE"]
    env.pop("VERIF_TIER", None)
    while True:
        with lock:
            if not q:
                return
            f, new, what, where = q.pop()
        p = f"{d}/repo/src/{f}.rs"
        open(p, "w").write(new)
        rc, o = sh("cargo test --offline --lib -q", d + "/repo", 240, env)
        res = {"what": what, "where": where}
        if "error" in o and "could not compile" in o:
            res["r"] = "nocompile"
        elif rc:
            res["r"] = "tests"
        else:
            order = CHK[f].split() + ([] if os.environ.get("MUT_MAPPED") else [c for c in ALL if c not in CHK[f].split()])
            res["r"] = "SURVIVED"
            for c in order:
                rc, o = sh(f"./check.sh {c}", d + "/verif", 900, env)
                if rc == 1 and "VIOLATION property=" in o:
                    res["r"] = c
                    break
                if rc != 0:
                    res.setdefault("odd", []).append([c, rc])
        shutil.copy(f"{SRC}/{f}.rs", p)
        with lock:
            out.write(json.dumps(res) + "\n")
            out.flush()
def cmain():
    lanes, count, seed, outf = int(ARGS[0]), int(ARGS[1]), int(ARGS[2]), ARGS[3]
    r = random.Random(seed)
    q = []
    for f in ARGS[4:] or FILES:
        q += cmutants(f, r, count)
    r.shuffle(q)
    print(len(q), "mutants", flush=True)
    if lanes == 0:
        for x in q[:40]:
            print(x[2], "|", x[3])
        return
    lock = threading.Lock()
    out = open(outf, "a")
    ts = [threading.Thread(target=cworker, args=(k, q, lock, out)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]
cmain()
