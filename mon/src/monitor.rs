//! The monitor: drives workloads over the real crate, counts what it observed,
//! records every oracle judgment, and turns that into a three-valued verdict
//! plus an evidence file.
use crate::rng::{hash_str, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// listed known findings of this property: (signature, description)
static KNOWN: OnceLock<Vec<(String, String)>> = OnceLock::new();

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// message and place of the last panic caught on this thread
pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).map(|(m, l)| format!("{} at {}", m, l)).unwrap_or_default()
}
/// a panic raised by the harness itself rather than by the code under test
pub fn harness_panic(s: &str) -> bool {
    s.contains(" at src/") || s.contains("/mon/src/")
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            let mut b = p.borrow_mut();
            *b = Some((msg, loc));
        });
    }));
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub wl: String,
    pub idx: u64,
    pub check: String,
    pub detail: String,
    pub input: String,
}

#[derive(Default)]
pub struct Mon {
    pub cases: u64,
    pub judged: BTreeMap<&'static str, (u64, f64)>,
    pub classes: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub harness_errors: Vec<String>,
    known_seen: BTreeMap<&'static str, u64>,
    /// comparison sites of the crate the guided workloads watched
    sites: BTreeMap<String, crate::spy::Site>,
    pursued: u64,
    /// guided cases left unjudged because the search had driven a generator to a degenerate draw
    degenerate: u64,
    /// the inputs of this workload have to be finite; this case's are not
    finite_only: bool,
    void: bool,
    wl: &'static str,
    idx: u64,
    hash: u64,
    nontrivial: bool,
    input: String,
    verbose: bool,
    /// record violations of this case only
    only: Option<u64>,
}

impl Mon {
    /// declare the case's input: hashed for distinctness, printed on violation
    pub fn input(&mut self, what: &str, xs: &[f64]) {
        let mut h = self.hash ^ hash_str(what);
        for x in xs {
            h = (h ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
        }
        self.hash = h;
        self.void |= xs.iter().any(|x| !x.is_finite());
        // non-trivial: at least two different values, not all of them zero
        if xs.len() < 2 {
            if xs.iter().any(|x| *x != 0.0) {
                self.nontrivial = true;
            }
        } else if xs.iter().any(|x| *x != xs[0]) {
            self.nontrivial = true;
        }
        if self.input.len() < 4000 {
            if !self.input.is_empty() {
                self.input.push_str("; ");
            }
            self.input.push_str(what);
            self.input.push('=');
            self.input.push_str(&format!("{:?}", xs));
        }
    }
    /// count an observed event / regime
    #[inline]
    pub fn index(&self) -> u64 {
        self.idx
    }
    pub fn hit(&mut self, class: &'static str) {
        *self.classes.entry(class).or_insert(0) += 1;
    }
    pub fn violate(&mut self, check: &str, detail: String) {
        if self.verbose {
            println!("  FAILED {}: {}", check, detail);
        }
        if self.only.is_some_and(|o| o != self.idx) {
            return;
        }
        if self.viols.len() < 40 {
            let v = Viol { wl: self.wl.to_string(), idx: self.idx, check: check.to_string(), detail, input: self.input.clone() };
            self.viols.push(v);
        }
    }
    /// a deviation with a stable signature (call site and failure mode): reported as a known
    /// finding when known_findings.txt lists exactly this signature, a violation otherwise
    pub fn deviate(&mut self, sig: &'static str, detail: impl FnOnce() -> String) {
        if KNOWN.get().is_some_and(|k| k.iter().any(|x| x.0 == sig)) {
            *self.known_seen.entry(sig).or_insert(0) += 1;
        } else {
            let s = detail();
            self.violate(sig, s);
        }
    }
    /// an oracle judgment
    #[inline]
    pub fn check(&mut self, name: &'static str, ok: bool, d: impl FnOnce() -> String) -> bool {
        let e = self.judged.entry(name).or_insert((0, 0.0));
        e.0 += 1;
        if !ok {
            let s = d();
            self.violate(name, s);
        }
        ok
    }
    /// a numeric judgment: |got-want| <= tol (NaN fails); tracks how close to the bound it came
    #[inline]
    pub fn close(&mut self, name: &'static str, got: f64, want: f64, tol: f64, d: impl FnOnce() -> String) -> bool {
        let err = if got == want { 0.0 } else { (got - want).abs() };
        self.small(name, err, tol, || format!("got {:e} want {:e} ({})", got, want, d()))
    }
    /// err <= tol
    #[inline]
    pub fn small(&mut self, name: &'static str, err: f64, tol: f64, d: impl FnOnce() -> String) -> bool {
        let e = self.judged.entry(name).or_insert((0, 0.0));
        e.0 += 1;
        let ok = err <= tol;
        if ok {
            let ratio = if tol > 0.0 { err / tol } else { 0.0 };
            if ratio > e.1 {
                e.1 = ratio;
            }
        } else {
            let s = format!("error {:e} > bound {:e}: {}", err, tol, d());
            self.violate(name, s);
        }
        ok
    }
    fn merge(&mut self, o: Mon) {
        self.cases += o.cases;
        for (k, v) in o.judged {
            let e = self.judged.entry(k).or_insert((0, 0.0));
            e.0 += v.0;
            e.1 = e.1.max(v.1);
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known_seen {
            *self.known_seen.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.sites {
            let e = self.sites.entry(k).or_insert_with(|| crate::spy::Site::new());
            for i in 0..4 {
                e.seen[i] += v.seen[i];
            }
            e.closest = e.closest.min(v.closest);
        }
        self.pursued += o.pursued;
        self.degenerate += o.degenerate;
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.viols.extend(o.viols);
        self.harness_errors.extend(o.harness_errors);
    }
}

/// lanes of a guided workload; each is one sequential search
const LANES: u64 = 16;
type Wl<'a> = Box<dyn Fn(&mut Mon, &mut Rng) + Sync + 'a>;

pub struct Plan<'a> {
    pub id: &'static str,
    pub rule: &'static str,
    pub thorough: bool,
    pub seed: u64,
    wls: Vec<(&'static str, u64, Wl<'a>)>,
    guided: HashSet<&'static str>,
    /// guided workloads that draw NaN and infinities on purpose
    any: HashSet<&'static str>,
    req: Vec<(&'static str, u64)>,
    assume: Vec<String>,
    extra: Vec<(String, String)>,
    scale: f64,
}

impl<'a> Plan<'a> {
    /// register a workload with its number of cases in the quick and thorough tier
    pub fn wl(&mut self, name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Mon, &mut Rng) + Sync + 'a) {
        let n = if self.thorough { thorough } else { quick };
        let n = ((n as f64 * self.scale) as u64).max(1);
        self.wls.push((name, n, Box::new(f)));
    }
    /// the same, searched instead of drawn: f runs the crate on watched scalars (spy.rs) and the search
    /// prefers inputs that show a comparison of the crate a new outcome or bring its two sides closer
    pub fn guided(&mut self, name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Mon, &mut Rng) + Sync + 'a) {
        self.wl(name, quick, thorough, f);
        self.wls.last_mut().unwrap().1 = (self.wls.last().unwrap().1 / LANES).max(1) * LANES;
        self.guided.insert(name);
    }
    /// a guided workload whose operands may be NaN or infinite
    pub fn guided_any(&mut self, name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Mon, &mut Rng) + Sync + 'a) {
        self.guided(name, quick, thorough, f);
        self.any.insert(name);
    }
    /// events that must have been observed, else the run is inconclusive
    pub fn require(&mut self, classes: &[&'static str], min: u64) {
        for c in classes {
            self.req.push((c, min));
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assume.push(s.to_string());
    }
    /// an extra raw JSON member of the coverage object
    pub fn extra(&mut self, k: &str, json: String) {
        self.extra.push((k.to_string(), json));
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn thread_cpu_ms(tid_path: &str) -> u64 {
    // fields 14,15 of /proc/self/task/TID/stat in clock ticks (100 Hz)
    let s = std::fs::read_to_string(tid_path).unwrap_or_default();
    if let Some(p) = s.rfind(')') {
        let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
        if f.len() > 13 {
            let u: u64 = f[11].parse().unwrap_or(0);
            let k: u64 = f[12].parse().unwrap_or(0);
            return (u + k) * 10;
        }
    }
    0
}

struct Slot {
    case_no: AtomicU64,
    cur: Mutex<(String, u64)>,
    tid: Mutex<String>,
}

const HANG_CPU_MS: u64 = 40_000;

/// the case that brought the sides of one comparison closest, and what is known about moving them
struct Goal {
    draws: Vec<u64>,
    d: f64,
    /// draws that moved the distance
    moves: Vec<u16>,
    /// next draw and value to try: where the last two points of a line meet zero
    next: Option<(usize, u64)>,
    fails: u32,
}
/// one lane of a guided search: a function of the seed, the workload and the lane.  Runs its first n cases.
fn exec_lane(m: &mut Mon, seed: u64, name: &'static str, lane: u64, per: u64, n: u64, f: &Wl, tick: &dyn Fn(u64) -> bool) {
    let mut how = Rng::new(seed, hash_str(name) ^ 0x7a7e, lane);
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut keys: Vec<crate::spy::Key> = vec![];
    let mut goals: HashMap<crate::spy::Key, Goal> = HashMap::new();
    crate::spy::open();
    for i in 0..n {
        let idx = lane * per + i;
        if !tick(idx) {
            break;
        }
        let fresh = Rng::new(seed, hash_str(name), idx);
        let mut first = vec![];
        // the comparison aimed at, the draw changed for it (or several)
        let mut at: Option<(crate::spy::Key, Option<usize>)> = None;
        if i >= 32 && !corpus.is_empty() && how.chance(0.88) {
            m.pursued += 1;
            // of a few comparisons whose sides have not met yet the one that disappointed least
            let k = (0..5).map(|_| *how.pick(&keys)).filter(|k| goals[k].d != 0.0).min_by_key(|k| goals[k].fails);
            match k {
                Some(k) if how.chance(0.75) => {
                    let g = goals.get_mut(&k).unwrap();
                    if let Some((j, v)) = g.next.take().filter(|n| n.0 < g.draws.len()) {
                        first = g.draws.clone();
                        first[j] = v;
                        at = Some((k, Some(j)));
                    } else if how.chance(0.8) && !g.draws.is_empty() {
                        first = g.draws.clone();
                        let lim = first.len().min(1 << (2 + how.below(11)));
                        let j = if !g.moves.is_empty() && how.chance(0.7) { (*how.pick(&g.moves) as usize).min(first.len() - 1) } else { how.below(lim) };
                        first[j] = nudge(first[j], &mut how);
                        at = Some((k, Some(j)));
                    } else {
                        first = vary(&g.draws, &corpus, &mut how);
                        at = Some((k, None));
                    }
                }
                _ => first = vary(how.pick(&corpus), &corpus, &mut how),
            }
        }
        crate::spy::aim(at.map(|a| a.0));
        let mut r = fresh.on_tape(first);
        let kept = (m.viols.len(), m.harness_errors.len());
        m.void = false;
        crate::spy::wild();
        exec_with(m, name, idx, &mut r, f);
        // draws chosen by the search meet points a random draw never does, where a generator divides zero by
        // zero: operands that no caller was promised anything for
        if (crate::spy::wild() > 0 || m.void) && m.finite_only {
            m.viols.truncate(kept.0);
            m.harness_errors.truncate(kept.1);
            m.degenerate += 1;
        }
        let (news, aimed) = crate::spy::news();
        let made = r.recorded();
        if let Some((k, j)) = at {
            let g = goals.get_mut(&k).unwrap();
            let (old, new) = (g.d, aimed.unwrap_or(f64::NAN));
            if let Some(j) = j {
                if new != old && new.is_finite() && old.is_finite() && j < made.len() && j < g.draws.len() {
                    if !g.moves.contains(&(j as u16)) && g.moves.len() < 64 {
                        g.moves.push(j as u16);
                    }
                    let (x, y) = (g.draws[j] as f64, made[j] as f64);
                    let z = x - old * (y - x) / (new - old);
                    if z.is_finite() && z > 0.0 && z < 1.8e19 {
                        g.next = Some((j, z as u64));
                    }
                }
            }
            if new.abs() < old.abs() {
                g.fails /= 2;
                g.d = new;
                g.draws = made.clone();
                if new == 0.0 {
                    g.next = None;
                }
            } else {
                g.fails += 1;
            }
        }
        if !news.is_empty() {
            if corpus.len() < 4000 {
                corpus.push(made.clone());
            } else {
                let c = how.below(corpus.len());
                corpus[c] = made.clone();
            }
            for (k, d) in news {
                match goals.get_mut(&k) {
                    Some(g) => {
                        if d.abs() < g.d.abs() {
                            *g = Goal { draws: made.clone(), d, moves: std::mem::take(&mut g.moves), next: None, fails: g.fails / 2 };
                        }
                    }
                    None => {
                        keys.push(k);
                        let d = if d.is_nan() { f64::INFINITY } else { d };
                        goals.insert(k, Goal { draws: made.clone(), d, moves: vec![], next: None, fails: 0 });
                    }
                }
            }
        }
    }
    crate::spy::aim(None);
    for (k, v) in crate::spy::close() {
        let e = m.sites.entry(k).or_insert_with(crate::spy::Site::new);
        for i in 0..4 {
            e.seen[i] += v.seen[i];
        }
        e.closest = e.closest.min(v.closest);
    }
}
/// another value for one draw
fn nudge(x: u64, how: &mut Rng) -> u64 {
    match how.below(8) {
        0 => how.u64(),
        1 => x ^ 1 << how.below(64),
        2 => *how.pick(&[0, u64::MAX, 1 << 63, 1 << 62, 3 << 62]),
        // a step of any size up or down
        _ => {
            let d = how.u64() >> how.below(62);
            if how.chance(0.5) { x.saturating_add(d) } else { x.saturating_sub(d) }
        }
    }
}
/// a case's draws, slightly changed
fn vary(t: &[u64], corpus: &[Vec<u64>], how: &mut Rng) -> Vec<u64> {
    let mut t = t.to_vec();
    if t.is_empty() {
        return t;
    }
    if how.chance(0.05) {
        // the beginning of one case and the end of another
        let o = how.pick(corpus);
        let k = how.below(t.len());
        t.truncate(k);
        t.extend(o.iter().skip(k));
        return t;
    }
    for _ in 0..*how.pick(&[1, 1, 1, 2, 2, 3, 6]) {
        let lim = t.len().min(1 << (2 + how.below(11)));
        let i = how.below(lim);
        match how.below(8) {
            0 => t[i] = t[how.below(lim)],
            1 => {
                let j = how.below(lim);
                t.swap(i, j)
            }
            _ => t[i] = nudge(t[i], how),
        }
    }
    t
}
fn exec_case(m: &mut Mon, seed: u64, name: &'static str, idx: u64, f: &Wl) {
    // every eighth case is the one before with one draw replaced or two exchanged, so that consecutive operands
    // share most components (state kept from one call to the next would show)
    let mut r = if idx % 8 == 7 {
        Rng::new(seed, hash_str(name), idx - 1).neighbour(&mut Rng::new(seed, !hash_str(name), idx))
    } else {
        Rng::new(seed, hash_str(name), idx)
    };
    exec_with(m, name, idx, &mut r, f)
}
fn exec_with(m: &mut Mon, name: &'static str, idx: u64, r: &mut Rng, f: &Wl) {
    m.wl = name;
    m.idx = idx;
    m.hash = hash_str(name);
    m.nontrivial = false;
    m.input.clear();
    let res = catch_unwind(AssertUnwindSafe(|| f(m, r)));
    if res.is_err() {
        let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
        if loc.starts_with("src/") || loc.contains("/mon/src/") {
            m.harness_errors.push(format!("{}:{} harness panic: {} at {}", name, idx, msg, loc));
        } else {
            m.violate("panic", format!("operation panicked: {} at {}", msg, loc));
        }
    }
    m.cases += 1;
    if m.nontrivial && m.distinct.len() < 3_000_000 {
        let h = m.hash;
        m.distinct.insert(h);
    }
    if idx < 2 && m.samples.len() < 64 && !m.input.is_empty() {
        let mut t: String = format!("{}#{}: {}", name, idx, m.input);
        if t.len() > 400 {
            let mut e = 400;
            while !t.is_char_boundary(e) {
                e -= 1
            }
            t.truncate(e);
            t.push_str("...");
        }
        m.samples.push(t);
    }
}

pub fn run<'a>(id: &'static str, rule: &'static str, build: impl FnOnce(&mut Plan<'a>)) -> ! {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 2.5 } else { 12.0 });
    let args: Vec<String> = std::env::args().collect();
    let mut replay: Option<(String, u64)> = None;
    let mut i = 1;
    while i < args.len() {
        if args[i] == "--replay" && i + 1 < args.len() {
            let (w, n) = args[i + 1].rsplit_once(':').expect("--replay workload:index");
            replay = Some((w.to_string(), n.parse().expect("index")));
            i += 1;
        }
        i += 1;
    }
    install_panic_hook();
    let _ = KNOWN.set(load_known(id));
    let mut plan = Plan { id, rule, thorough, seed, wls: vec![], guided: HashSet::new(), any: HashSet::new(), req: vec![], assume: vec![], extra: vec![], scale };
    build(&mut plan);

    if let Some((w, n)) = replay {
        let mut m = Mon { verbose: true, ..Default::default() };
        let mut found = false;
        for (name, total, f) in &plan.wls {
            if *name == w && plan.guided.contains(name) {
                // the search up to the case before, then the case itself
                found = true;
                let per = total / LANES;
                let mut quiet = Mon { only: Some(n), ..Default::default() };
                quiet.finite_only = !plan.any.contains(name);
                exec_lane(&mut quiet, seed, name, n / per, per, n % per + 1, f, &|_| true);
                println!("replay property={} workload={} index={} seed={}", id, w, n, seed);
                println!("  input: {}", quiet.input);
                m = quiet;
            } else if *name == w {
                found = true;
                if n % 8 == 7 {
                    exec_case(&mut Mon::default(), seed, name, n - 1, f);
                }
                exec_case(&mut m, seed, name, n, f);
                println!("replay property={} workload={} index={} seed={}", id, w, n, seed);
                println!("  input: {}", m.input);
            }
        }
        for v in &m.viols {
            println!("  violation: {} -- {}", v.check, v.detail);
        }
        for h in &m.harness_errors {
            println!("  harness error: {}", h);
        }
        if !found {
            println!("no such workload");
        }
        std::process::exit(if m.viols.is_empty() { 0 } else { 1 });
    }

    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let budget = Duration::from_secs(if thorough { 700 } else { 240 });
    const PASSES: u64 = LANES;
    // work list: (pass, workload) chunks, so every workload progresses evenly
    let mut chunks: Vec<(usize, u64, u64)> = vec![];
    for p in 0..PASSES {
        for (w, (_, n, _)) in plan.wls.iter().enumerate() {
            if plan.guided.contains(plan.wls[w].0) {
                // one lane per pass
                chunks.push((w, n / LANES * p, n / LANES * (p + 1)));
                continue;
            }
            let (a, b) = (n * p / PASSES, n * (p + 1) / PASSES);
            let step = ((b - a) / threads as u64 + 1).min(4096);
            let mut x = a;
            while x < b {
                chunks.push((w, x, (x + step).min(b)));
                x += step;
            }
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let truncated = AtomicBool::new(false);
    let total = Mutex::new(Mon::default());
    let slots: Vec<Arc<Slot>> = (0..threads)
        .map(|_| Arc::new(Slot { case_no: AtomicU64::new(0), cur: Mutex::new((String::new(), 0)), tid: Mutex::new(String::new()) }))
        .collect();
    let hang: Mutex<Option<(String, u64)>> = Mutex::new(None);
    let plan_ref = &plan;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let slot = slots[t].clone();
            let (next, stop, total, chunks, truncated) = (&next, &stop, &total, &chunks, &truncated);
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let tid = std::fs::read_link("/proc/thread-self").map(|p| format!("/proc/{}/stat", p.display())).unwrap_or_default();
                    *slot.tid.lock().unwrap() = tid;
                    let mut m = Mon::default();
                    loop {
                        let c = next.fetch_add(1, SeqCst) as usize;
                        if c >= chunks.len() || stop.load(SeqCst) {
                            break;
                        }
                        if t0.elapsed() > budget {
                            truncated.store(true, SeqCst);
                            break;
                        }
                        let (w, a, b) = chunks[c];
                        let (name, _, f) = &plan_ref.wls[w];
                        if plan_ref.guided.contains(name) {
                            m.finite_only = !plan_ref.any.contains(name);
                            exec_lane(&mut m, seed, name, a / (b - a), b - a, b - a, f, &|idx| {
                                *slot.cur.lock().unwrap() = (name.to_string(), idx);
                                slot.case_no.fetch_add(1, SeqCst);
                                let late = t0.elapsed() > budget;
                                if late {
                                    truncated.store(true, SeqCst);
                                }
                                !late && !stop.load(SeqCst)
                            });
                        } else {
                        for idx in a..b {
                            *slot.cur.lock().unwrap() = (name.to_string(), idx);
                            slot.case_no.fetch_add(1, SeqCst);
                            exec_case(&mut m, seed, name, idx, f);
                        }
                        }
                        if m.viols.len() >= 20 || m.harness_errors.len() >= 20 {
                            stop.store(true, SeqCst);
                            break;
                        }
                    }
                    slot.case_no.store(u64::MAX, SeqCst);
                    total.lock().unwrap().merge(m);
                })
                .unwrap();
            hs.push(h);
        }
        // watchdog: a single case that burns HANG_CPU_MS of its thread's CPU time did not return
        let (slots2, done2, hang2) = (&slots, &done, &hang);
        sc.spawn(move || {
            let mut base: Vec<(u64, u64)> = vec![(0, 0); slots2.len()];
            while !done2.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                if base.iter().all(|_| true) && t0.elapsed() < Duration::from_secs(5) {
                    continue;
                }
                for (i, s) in slots2.iter().enumerate() {
                    let c = s.case_no.load(SeqCst);
                    let cpu = thread_cpu_ms(&s.tid.lock().unwrap());
                    if c == u64::MAX {
                        continue;
                    }
                    if base[i].0 != c {
                        base[i] = (c, cpu);
                    } else if cpu.saturating_sub(base[i].1) > HANG_CPU_MS {
                        let cur = s.cur.lock().unwrap().clone();
                        *hang2.lock().unwrap() = Some(cur.clone());
                        // the stuck thread cannot be joined: report from here
                        let path = write_replay(id, seed, &[Viol { wl: cur.0.clone(), idx: cur.1, check: "hang".into(), detail: format!("operation did not return within {} ms of CPU time", HANG_CPU_MS), input: String::new() }]);
                        let m = Mon { cases: 1, ..Default::default() };
                        write_evidence(plan_ref, &m, t0, 1, &["hang".to_string()], false);
                        println!("hang in workload {} case {}", cur.0, cur.1);
                        println!("VIOLATION property={} replay={}", id, path);
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs {
            if h.join().is_err() {
                total.lock().unwrap().harness_errors.push(format!("monitor thread ended: {}", take_panic()));
            }
        }
        done.store(true, SeqCst);
    });
    let m = total.into_inner().unwrap();
    let mut missing = vec![];
    for (c, min) in &plan.req {
        let n = *m.classes.get(c).unwrap_or(&0);
        if n < *min {
            missing.push(format!("{} observed {} < {}", c, n, min));
        }
    }
    // known findings (exact signatures) were counted apart by deviate()
    let fresh: Vec<Viol> = m.viols.clone();
    for (sig, what) in KNOWN.get().unwrap() {
        if let Some(n) = m.known_seen.get(sig.as_str()) {
            println!("KNOWN-FINDING: property={} {} ({} observations)", id, what, n);
        }
    }
    let nv = fresh.len();
    write_evidence(&plan, &m, t0, nv, &missing, truncated.load(SeqCst));
    let njudge: u64 = m.judged.values().map(|v| v.0).sum();
    println!(
        "{} tier={} seed={} cases={} distinct_nontrivial={} judgments={} classes={} wall={:.1}s{}",
        id,
        tier,
        seed,
        m.cases,
        m.distinct.len(),
        njudge,
        m.classes.len(),
        t0.elapsed().as_secs_f64(),
        if truncated.load(SeqCst) { " (time budget reached)" } else { "" }
    );
    if std::env::var("VERIF_RATIOS").is_ok() {
        for (k, v) in &m.judged {
            println!("  judged {:40} {:>10}  max err/bound {:.3e}", k, v.0, v.1);
        }
        for (k, v) in &m.classes {
            println!("  class  {:40} {:>10}", k, v);
        }
        for (k, s) in &m.sites {
            println!("  site   {:40} {:?} closest {:e}", k, s.seen, s.closest);
        }
    }
    if nv > 0 {
        let path = write_replay(id, seed, &fresh);
        for v in fresh.iter().take(5) {
            println!("  {} #{} {}: {}", v.wl, v.idx, v.check, v.detail);
            println!("     input: {}", v.input);
        }
        println!("VIOLATION property={} replay={}", id, path);
        std::process::exit(1);
    }
    if !m.harness_errors.is_empty() {
        println!("INCONCLUSIVE property={} harness error: {}", id, m.harness_errors[0]);
        std::process::exit(3);
    }
    if !missing.is_empty() {
        println!("INCONCLUSIVE property={} {}", id, missing.join("; "));
        std::process::exit(3);
    }
    if njudge == 0 {
        println!("INCONCLUSIVE property={} nothing was observed", id);
        std::process::exit(3);
    }
    println!("HELD property={} on everything observed", id);
    std::process::exit(0);
}

fn load_known(id: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> sig=<signature> ## <what fails>
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={} sig=", id)) {
            if let Some((sig, what)) = rest.split_once(" ## ") {
                out.push((sig.to_string(), what.to_string()));
            }
        }
    }
    out
}

pub fn write_replay(id: &str, seed: u64, vs: &[Viol]) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-seed{}.txt", dir, id, seed);
    let mut s = String::new();
    s.push_str(&format!("property {} seed {}\n", id, seed));
    for v in vs.iter().take(20) {
        s.push_str(&format!(
            "\nworkload {} index {}\n  check: {}\n  detail: {}\n  input: {}\n  rerun: VERIF_SEED={} ./check.sh {} --replay {}:{}\n",
            v.wl, v.idx, v.check, v.detail, v.input, seed, id, v.wl, v.idx
        ));
    }
    let _ = std::fs::write(&p, s);
    p
}

fn write_evidence(plan: &Plan, m: &Mon, t0: Instant, nv: usize, missing: &[String], truncated: bool) {
    let mut samples: Vec<String> = m.samples.clone();
    samples.sort();
    samples.dedup();
    samples.truncate(24);
    if samples.is_empty() {
        samples.push("(no case completed)".into());
    }
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", jstr(plan.id), jstr(if plan.thorough { "thorough" } else { "quick" }), plan.seed));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", m.cases, m.distinct.len()));
    j.push_str(&format!("  \"rule\": {},\n", jstr(plan.rule)));
    j.push_str(&format!("  \"samples\": [{}],\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ")));
    j.push_str("  \"oracle_judgments\": {");
    j.push_str(&m.judged.iter().map(|(k, v)| format!("{}: {{\"count\": {}, \"max_error_over_bound\": {:.4e}}}", jstr(k), v.0, v.1)).collect::<Vec<_>>().join(",\n   "));
    j.push_str("},\n  \"events_observed\": {");
    j.push_str(&m.classes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n  \"known_findings_observed\": {");
    j.push_str(&m.known_seen.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n");
    if !plan.guided.is_empty() {
        let two = m.sites.values().filter(|s| s.seen.iter().filter(|n| **n > 0).count() > 1).count();
        j.push_str(&format!("  \"watched_sites\": {}, \"watched_sites_with_several_outcomes\": {}, \"pursued_cases\": {}, \"degenerate_cases_not_judged\": {},\n  \"watched\": [", m.sites.len(), two, m.pursued, m.degenerate));
        let f = |s: &crate::spy::Site| format!("less {} equal {} greater {} unordered {} closest {:e}", s.seen[0], s.seen[1], s.seen[2], s.seen[3], s.closest);
        j.push_str(&m.sites.iter().map(|(k, s)| jstr(&format!("{}: {}", k, f(s)))).collect::<Vec<_>>().join(",\n   "));
        j.push_str("],\n");
    }
    j.push_str(&format!("  \"workloads\": {{{}}},\n", plan.wls.iter().map(|(n, c, _)| format!("{}: {}", jstr(n), c)).collect::<Vec<_>>().join(", ")));
    for (k, v) in &plan.extra {
        j.push_str(&format!("  {}: {},\n", jstr(k), v));
    }
    j.push_str(&format!("  \"time_budget_reached\": {},\n  \"inconclusive\": [{}]\n }},\n", truncated, missing.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"assumptions\": [{}],\n", plan.assume.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), nv));
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, plan.id), j);
}
