//! C29: operations return, repeat, agree between threads, build modes and precisions.
use mon::monitor::harness_panic;
use mon::sweep::*;
use mon::*;
use std::sync::{Arc, Barrier};

fn judge_return(m: &mut Mon, name: &'static str, o: &Outcome) {
    match o {
        Ok(_) => {
            m.check("returns", true, String::new);
        }
        Err(e) if harness_panic(e) => m.harness_errors.push(format!("{}: {}", name, e)),
        Err(e) => {
            m.check("returns", false, || format!("{} panicked: {}", name, e));
        }
    }
}
fn finite(o: &Outcome) -> bool {
    o.as_ref().map(|x| x.v.iter().all(|v| v.is_finite())).unwrap_or(false)
}

fn returns<T: Fl>(m: &mut Mon, ops: &[Op<T>], mode: Mode, seed: u64) {
    let i = m.index();
    let op = &ops[(i % ops.len() as u64) as usize];
    let (a, log) = exec(op, seed, mode, i);
    m.input(op.name, &log);
    judge_return(m, op.name, &a);
    let (b, log2) = exec(op, seed, mode, i);
    m.check("repeats bit by bit", same_bits(&a, &b) && log == log2 || log.iter().any(|x| x.is_nan()), || format!("{}: {:?} then {:?}", op.name, a, b));
    if mode == Mode::Tame && op.flags & INF == 0 {
        m.check("finite results from tame inputs", finite(&a), || format!("{} gives {:?}", op.name, a));
    }
    m.hit(match mode {
        Mode::Hostile => "hostile inputs",
        Mode::Special => "special inputs",
        Mode::Tame => "tame inputs",
        Mode::Scaled => "scaled inputs",
        Mode::Wide => "wide inputs",
    });
    if log.iter().any(|x| *x == 0.0 && x.is_sign_negative()) {
        m.hit("negative zero");
    }
    if log.iter().any(|x| *x != 0.0 && x.abs() < T::MINP) {
        m.hit("subnormal");
    }
    if log.iter().any(|x| x.abs() > 1e30) {
        m.hit("huge");
    }
    m.hit(if finite(&a) { "finite result" } else { "overflow or NaN result" });
    m.hit(op.name);
}

/// inputs searched for, on watched numbers
fn pursued<T: Fl>(m: &mut Mon, r: &mut Rng, ops: &[Op<T>]) {
    let op = &ops[r.below(ops.len())];
    let mode = *r.pick(&[Mode::Hostile, Mode::Hostile, Mode::Special, Mode::Tame, Mode::Scaled, Mode::Wide]);
    let mut again = r.clone();
    let (a, log) = exec_on(op, r, mode);
    m.input(op.name, &log);
    judge_return(m, op.name, &a);
    let (b, log2) = exec_on(op, &mut again, mode);
    m.check("repeats bit by bit", same_bits(&a, &b) && log == log2 || log.iter().any(|x| x.is_nan()), || format!("{}: {:?} then {:?}", op.name, a, b));
    m.hit("pursued inputs");
}

fn precision(m: &mut Mon, o32: &[Op<f32>], o64: &[Op<f64>], seed: u64) {
    let i = m.index();
    let k = (i % o32.len() as u64) as usize;
    let (p, q) = (&o32[k], &o64[k]);
    if p.flags & NO32 != 0 {
        return;
    }
    for mode in [Mode::Tame, Mode::Special] {
        if mode == Mode::Special && p.flags & (NOSPECIAL | NO32S) != 0 {
            continue;
        }
        let (a, la) = exec(p, seed, mode, i);
        let (b, lb) = exec(q, seed, mode, i);
        if la != lb {
            m.harness_errors.push(format!("{}: inputs differ between precisions", p.name));
            return;
        }
        m.input(p.name, &la);
        judge_return(m, p.name, &a);
        judge_return(m, p.name, &b);
        let d = distance(&b, &a);
        m.small("single follows double precision", d, 5e-3, || format!("{} {:?}: f32 {:?} f64 {:?}", p.name, mode, a, b));
        m.hit("precisions compared");
    }
}

fn threads(m: &mut Mon, r: &mut Rng, ops: &Arc<Vec<Op<f64>>>, ops32: &Arc<Vec<Op<f32>>>, seed: u64) {
    let i = m.index();
    let mode = *r.pick(&MODES);
    let n = ops.len();
    let n32 = ops32.len();
    let want: Arc<Vec<Outcome>> = Arc::new((0..n).map(|k| exec(&ops[k], seed, mode, i).0).collect());
    let want32: Arc<Vec<Outcome>> = Arc::new((0..n32).map(|k| exec(&ops32[k], seed, mode, i).0).collect());
    const TH: usize = 6;
    let bar = Arc::new(Barrier::new(TH));
    let hs: Vec<_> = (0..TH)
        .map(|t| {
            let (ops, ops32, want, want32, bar) = (ops.clone(), ops32.clone(), want.clone(), want32.clone(), bar.clone());
            std::thread::spawn(move || {
                let mut bad = vec![];
                bar.wait();
                for round in 0..2 {
                    for s in 0..n {
                        // threads meet on the same operations, in different orders
                        let k = if (t + round) % 2 == 0 { s } else { n - 1 - s };
                        let o = exec(&ops[k], seed, mode, i).0;
                        if !same_bits(&o, &want[k]) {
                            bad.push(format!("{}: {:?} alone, {:?} with other threads", ops[k].name, want[k], o));
                        }
                        if k < n32 {
                            let o = exec(&ops32[k], seed, mode, i).0;
                            if !same_bits(&o, &want32[k]) {
                                bad.push(format!("{}: {:?} alone, {:?} with other threads", ops32[k].name, want32[k], o));
                            }
                        }
                    }
                }
                bad
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(b) => {
                m.check("same with other threads", b.is_empty(), || b.first().cloned().unwrap_or_default());
            }
            Err(_) => m.harness_errors.push("thread panicked".into()),
        }
    }
    m.input("all operations", &[i as f64, seed as f64]);
    m.hit("thread group");
}

/// the same cases in another build mode
fn other<T: Fl>(m: &mut Mon, o: &Other, t: &'static str, ops: &[Op<T>], seed: u64, batch: u64) {
    let i = m.index();
    let mode = MODES[(i % MODES.len() as u64) as usize];
    let (a, b) = (i * batch, i * batch + batch);
    let got = match o.outcomes(t, mode, a, b, seed, ops.len()) {
        Ok(x) => x,
        Err(e) if o.name == "Miri" => {
            if e.contains("Undefined Behavior") || e.contains("memory leaked") || e.contains("overflow") {
                m.check("no undefined behaviour", false, || e);
            } else {
                // the interpreter cannot run here: nothing was observed by it
                m.hit("Miri not available");
            }
            return;
        }
        Err(e) if e.starts_with(NO_RETURN) => {
            m.check("returns", false, || e);
            return;
        }
        Err(e) => {
            m.harness_errors.push(e);
            return;
        }
    };
    if o.name == "Miri" {
        m.check("no undefined behaviour", true, String::new);
    }
    let mut k = 0;
    for idx in a..b {
        for op in ops {
            let (here, log) = exec(op, seed, mode, idx);
            if idx == a {
                m.input(op.name, &log);
            }
            judge_return(m, op.name, &got[k]);
            judge_return(m, op.name, &here);
            if op.flags & NOCMP == 0 && (mode != Mode::Special || op.flags & NOSPECIAL == 0) && (mode != Mode::Wide || op.flags & NOWIDE == 0) {
                match agreement(op, seed, mode, idx, &here, &got[k]) {
                    Some(x) => {
                        m.small("agrees within the sensitivity to rounding", x, 1.0, || format!("{} {} {:?} {:?}: {:?} here, {:?} in {}", op.name, t, mode, log, here, got[k], o.name));
                    }
                    None => m.hit("not determined to rounding"),
                }
            }
            if mode == Mode::Tame || mode == Mode::Scaled {
                m.small("same results in every build mode", distance(&here, &got[k]), if T::IS32 { 1e-4 } else { 1e-11 }, || format!("{} {}: {:?} here, {:?} in {}", op.name, t, here, got[k], o.name));
            }
            k += 1;
        }
    }
    m.hit(o.name);
}

fn main() {
    let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    let builds = [Other::exe(format!("{}/debug/sweepdump", dir), "debug build"), Other::exe(format!("{}/plain/sweepdump", dir), "release build without checks")];
    let manifest = format!("{}/mon/Cargo.toml", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let miri = Other {
        cmd: ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--locked", "--manifest-path", &manifest, "--bin", "sweepdump", "--"].iter().map(|s| s.to_string()).collect(),
        env: vec![("CARGO_TARGET_DIR".into(), format!("{}/miri", dir)), ("MIRIFLAGS".into(), "-Zmiri-strict-provenance".into())],
        name: "Miri",
    };
    let (o32, o64) = (Arc::new(all32()), Arc::new(all64()));
    mon::monitor::run(
        "C29",
        "every public operation (the table of sweep.rs) on hostile finite inputs (zeros, signed zeros, subnormals, huge, tiny, mixed), special exact inputs and tame inputs, in f32 and f64; non-trivial: at least two different input numbers",
        |p| {
            let seed = p.seed;
            let (a, b) = (&o32, &o64);
            p.wl("hostile f64", 150_000, 12_000_000, move |m, _| returns(m, b, Mode::Hostile, seed));
            p.wl("hostile f32", 150_000, 12_000_000, move |m, _| returns(m, a, Mode::Hostile, seed));
            p.wl("special f64", 30_000, 1_000_000, move |m, _| returns(m, b, Mode::Special, seed));
            p.wl("special f32", 30_000, 1_000_000, move |m, _| returns(m, a, Mode::Special, seed));
            p.wl("tame f64", 30_000, 2_000_000, move |m, _| returns(m, b, Mode::Tame, seed));
            p.wl("tame f32", 30_000, 2_000_000, move |m, _| returns(m, a, Mode::Tame, seed));
            p.wl("scaled f64", 30_000, 2_000_000, move |m, _| returns(m, b, Mode::Scaled, seed));
            p.wl("scaled f32", 30_000, 2_000_000, move |m, _| returns(m, a, Mode::Scaled, seed));
            p.wl("wide f64", 60_000, 4_000_000, move |m, _| returns(m, b, Mode::Wide, seed));
            p.wl("wide f32", 60_000, 4_000_000, move |m, _| returns(m, a, Mode::Wide, seed));
            let (w64, w32) = (ops::<W64>(), ops::<W32>());
            p.guided("guided f64", 80_000, 6_000_000, move |m, r| pursued(m, r, &w64));
            p.guided("guided f32", 40_000, 3_000_000, move |m, r| pursued(m, r, &w32));
            let n = o32.len().min(o64.len()) - 1;
            p.wl("precision", 120_000, 6_000_000, move |m, _| precision(m, &a[..n], &b[..n], seed));
            p.wl("threads", 30, 2500, move |m, r| threads(m, r, b, a, seed));
            for o in &builds {
                let w = if o.name == "debug build" { ("debug f64", "debug f32") } else { ("release f64", "release f32") };
                p.wl(w.0, 24, 1500, move |m, _| other(m, o, "f64", b, seed, 8));
                p.wl(w.1, 24, 1500, move |m, _| other(m, o, "f32", a, seed, 8));
                p.require(&[o.name], 20);
            }
            if p.thorough {
                let o = &miri;
                p.wl("Miri f64", 1, 24, move |m, _| other(m, o, "f64", b, seed, 1));
                p.wl("Miri f32", 1, 24, move |m, _| other(m, o, "f32", a, seed, 1));
            }
            p.require(&["hostile inputs", "special inputs", "tame inputs", "scaled inputs", "wide inputs", "negative zero", "subnormal", "huge", "finite result", "overflow or NaN result", "precisions compared", "pursued inputs"], 1000);
            p.require(&["thread group"], 20);
            let names: Vec<&'static str> = o64.iter().map(|o| o.name).collect();
            p.require(&names, 20);
            p.extra("operations", names.len().to_string());
            p.assume("documented domains: no row of zeros for lu, a vector with a direction for axis_angle, an invertible divisor, non-empty slices for extremes, quadrants 1 to 4");
            p.assume("f32 against f64 is judged on well conditioned inputs that both precisions represent exactly");
        },
    )
}
