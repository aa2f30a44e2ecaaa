//! C28: the no_std configuration builds and computes the same results.
use mon::monitor::harness_panic;
use mon::sweep::*;
use mon::*;
use std::process::Command;

/// a cargo build in the no-std configuration; Err carries the end of its log
fn build(dir: &str, args: &[&str], target: &str) -> Result<(), String> {
    let o = Command::new("cargo").current_dir(dir).args(["build", "--offline", "--locked"]).args(args).env("CARGO_TARGET_DIR", target).output();
    match o {
        Ok(o) if o.status.success() => Ok(()),
        Ok(o) => {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            let t: String = e.lines().filter(|l| l.starts_with("error") || l.contains("-->")).take(12).collect::<Vec<_>>().join(" / ");
            Err(if t.is_empty() { e.chars().take(1500).collect() } else { t })
        }
        Err(e) => Err(format!("cargo: {}", e)),
    }
}

fn compare<T: Fl>(m: &mut Mon, o: &Other, t: &'static str, ops: &[Op<T>], seed: u64) {
    const B: u64 = 24;
    let i = m.index();
    let mode = MODES[(i % MODES.len() as u64) as usize];
    let (a, b) = (i * B, i * B + B);
    let got = match o.outcomes(t, mode, a, b, seed, ops.len()) {
        Ok(x) => x,
        Err(e) if e.starts_with(NO_RETURN) => {
            m.check("returns in both or in neither", false, || e);
            return;
        }
        Err(e) => {
            m.harness_errors.push(e);
            return;
        }
    };
    let tol = if T::IS32 { 2e-4 } else { 1e-11 };
    let mut k = 0;
    for idx in a..b {
        for op in ops {
            let (here, log) = exec(op, seed, mode, idx);
            let there = &got[k];
            k += 1;
            if idx < a + 4 {
                m.input(op.name, &log);
            }
            if let Err(e) = there {
                if harness_panic(e) {
                    m.harness_errors.push(format!("{}: {}", op.name, e));
                    return;
                }
            }
            m.check("returns in both or in neither", here.is_ok() == there.is_ok(), || format!("{} {} {:?} {:?}: std {:?}, no_std {:?}", op.name, t, mode, log, here, there));
            let compared = match mode {
                Mode::Tame | Mode::Scaled => true,
                Mode::Special => op.flags & (NOSPECIAL | NOCMP) == 0,
                Mode::Hostile | Mode::Wide => false,
            };
            if op.flags & NOCMP == 0 && mode != Mode::Hostile && (mode != Mode::Special || op.flags & NOSPECIAL == 0) && (mode != Mode::Wide || op.flags & NOWIDE == 0) {
                match agreement(op, seed, mode, idx, &here, there) {
                    Some(x) => {
                        m.small("agrees within the sensitivity to rounding", x, 1.0, || format!("{} {} {:?} {:?}: std {:?}, no_std {:?}", op.name, t, mode, log, here, there));
                    }
                    None => m.hit("not determined to rounding"),
                }
            }
            if compared {
                m.small("same results", distance(&here, there), tol, || format!("{} {} {:?} {:?}: std {:?}, no_std {:?}", op.name, t, mode, log, here, there));
                m.hit(op.name);
                m.hit(if same_bits(&here, there) { "same bits" } else { "last bits differ" });
            }
        }
    }
    m.hit(t);
}

fn main() {
    let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let (td, tm) = (format!("{}/nostd-consumer", dir), format!("{}/nostd-mon", dir));
    let mut builds: Vec<(&'static str, Result<(), String>)> = vec![("freestanding consumer (no std, own panic handler)", build(&format!("{}/nostd", verif), &[], &td))];
    if thorough {
        builds.push(("freestanding consumer, release", build(&format!("{}/nostd", verif), &["--release"], &td)));
    }
    builds.push(("every public operation (sweep) in the no-std configuration", build(&format!("{}/mon", verif), &["--release", "--no-default-features", "--features", "nostd", "--bin", "sweepdump"], &tm)));
    let ok = builds.last().unwrap().1.is_ok();
    let o = Other::exe(format!("{}/release/sweepdump", tm), "no-std build");
    let (o32, o64) = (all32(), all64());
    mon::monitor::run(
        "C28",
        "every public operation (the table of sweep.rs) run by a build with the default features and by one with default features off and no-std on, on the same inputs; non-trivial: at least two different input numbers",
        |p| {
            let seed = p.seed;
            let (a, b, o, bl) = (&o32, &o64, &o, &builds);
            p.wl("builds", 1, 1, move |m, _| {
                for (what, r) in bl {
                    m.input(what, &[0.0, 1.0]);
                    m.check("builds without std", r.is_ok(), || format!("{}: {}", what, r.as_ref().err().unwrap()));
                }
                m.hit("built");
            });
            if ok {
                p.wl("f64", 60, 6000, move |m, _| compare(m, o, "f64", b, seed));
                p.wl("f32", 60, 6000, move |m, _| compare(m, o, "f32", a, seed));
                p.require(&["f64", "f32"], 100);
                // evidence that two different elementary function libraries were compared
                p.require(&["same bits", "last bits differ"], 1000);
                let names: Vec<&'static str> = b.iter().map(|o| o.name).collect();
                p.require(&names, 100);
                p.extra("operations", names.len().to_string());
            }
            p.assume("results may differ by what moving each input by up to 64 rounding errors changes (times 64); an outcome whose kind changes under such moves is not judged");
            p.assume("the host is the only target whose standard library is installed; absence of std is shown by linking a freestanding consumer with its own panic handler");
        },
    )
}
