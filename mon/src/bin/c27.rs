//! C27: Display writes the elements in order, into the given formatter only.
use mon::*;
use std::fmt::{Display, Write as _};
use std::io::Write as _;
use std::process::{Command, Stdio};

/// a value to format, with the number texts per line that must appear
struct Item {
    what: &'static str,
    val: Box<dyn Display + Send + Sync>,
    rows: Vec<Vec<String>>,
    mag: Vec<f64>,
}

trait Txt: El + Display + Send + Sync {
    fn txt(self) -> String {
        // `.2` has no effect on integers
        format!("{:.2}", self)
    }
}
impl Txt for f32 {}
impl Txt for f64 {}
impl Txt for i32 {}
impl Txt for i64 {}
impl Txt for u8 {}
impl Txt for i8 {}
impl Txt for u32 {}

fn val<T: Txt>(r: &mut Rng) -> T {
    if T::FLOAT {
        let x = match r.below(12) {
            0 => f64::NAN,
            1 => r.sign() * f64::INFINITY,
            2 => r.sign() * r.logmag(5.0, if T::U > 1e-10 { 30.0 } else { 60.0 }),
            3 => r.sign() * r.logmag(-9.0, -2.0),
            // ties and near ties of the second decimal
            4 => r.int(-2000, 2000) as f64 / 8.0,
            5 => (r.int(-2000, 2000) as f64 + 0.5) / 100.0,
            6 => r.sign() * 0.995,
            _ => gen::scalar(r),
        };
        of_f::<T>(x)
    } else {
        match r.below(5) {
            0 => T::of_i(0),
            1 => T::of_i(if T::SIGNED { -128 } else { 255 }),
            2 => T::of_i(if T::SIGNED { 127 } else { 99 }),
            _ => T::of_i(r.int(if T::SIGNED { -120 } else { 0 }, 120)),
        }
    }
}
fn mag<T: Txt>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| x.dd().f()).collect()
}
fn vec_item<V: Ve<T> + Display + Send + Sync + 'static, T: Txt>(r: &mut Rng, what: &'static str) -> Item {
    let a: Vec<T> = (0..V::N).map(|_| val(r)).collect();
    Item { what, mag: mag(&a), rows: vec![a.iter().map(|x| x.txt()).collect()], val: Box::new(V::mk(&a)) }
}
fn mat_item<M: Ma<T> + Display + Send + Sync + 'static, T: Txt>(r: &mut Rng, what: &'static str) -> Item {
    let n = M::N;
    let a: Vec<T> = (0..n * n).map(|_| val(r)).collect();
    Item { what, mag: mag(&a), rows: (0..n).map(|i| (0..n).map(|j| a[i * n + j].txt()).collect()).collect(), val: Box::new(M::mk(&a)) }
}
fn quat<T: Txt>(r: &mut Rng) -> (Quaternion<T>, Vec<T>) {
    let a: Vec<T> = (0..4).map(|_| val(r)).collect();
    (Quaternion::new(a[0], V3::new([a[1], a[2], a[3]])), a)
}
fn q_item<T: Txt>(r: &mut Rng) -> Item {
    let (q, a) = quat::<T>(r);
    Item { what: "Quaternion", mag: mag(&a), rows: vec![a.iter().map(|x| x.txt()).collect()], val: Box::new(q) }
}
fn dq_item<T: Txt>(r: &mut Rng) -> Item {
    let ((p, a), (q, b)) = (quat::<T>(r), quat::<T>(r));
    let t = |a: &[T]| a.iter().map(|x| x.txt()).collect::<Vec<_>>();
    let mut all = a.clone();
    all.extend(b.iter());
    Item { what: "DualQuaternion", mag: mag(&all), rows: vec![t(&a), t(&b)], val: Box::new(DualQuaternion::new(p, q)) }
}
fn items<T: Txt>(r: &mut Rng) -> Vec<Item> {
    vec![
        vec_item::<V2<T>, T>(r, "V2"),
        vec_item::<V3<T>, T>(r, "V3"),
        vec_item::<V4<T>, T>(r, "V4"),
        vec_item::<V5<T>, T>(r, "V5"),
        vec_item::<V6<T>, T>(r, "V6"),
        mat_item::<M22<T>, T>(r, "M22"),
        mat_item::<M33<T>, T>(r, "M33"),
        mat_item::<M44<T>, T>(r, "M44"),
        mat_item::<M55<T>, T>(r, "M55"),
        mat_item::<M66<T>, T>(r, "M66"),
        q_item::<T>(r),
    ]
}
fn all(r: &mut Rng) -> Vec<Item> {
    let mut v = match r.below(8) {
        0 => items::<i32>(r),
        1 => items::<i64>(r),
        2 => items::<u8>(r),
        3 => items::<i8>(r),
        4 => items::<u32>(r),
        5 | 6 => items::<f32>(r),
        _ => items::<f64>(r),
    };
    // DualQuaternion::new needs a float element
    v.push(if r.chance(0.5) { dq_item::<f32>(r) } else { dq_item::<f64>(r) });
    v
}

/// number tokens per non-blank line; None if something that is no number (or label) appears
fn tokens(s: &str) -> Vec<Vec<String>> {
    let mut t = s.to_string();
    for l in ["real:", "dual:", "q0:", "q:"] {
        t = t.replace(l, " ");
    }
    t.lines()
        .map(|l| l.split(|c: char| c.is_whitespace() || "[]|(),;".contains(c)).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>())
        .filter(|l: &Vec<String>| !l.is_empty())
        .collect()
}

/// a sink that accepts `left` bytes and then fails
struct Sink {
    got: String,
    left: usize,
    failed: bool,
    after: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += s.len();
            return Err(std::fmt::Error);
        }
        let mut k = s.len().min(self.left);
        while !s.is_char_boundary(k) {
            k -= 1
        }
        self.got.push_str(&s[..k]);
        self.left -= k;
        if k < s.len() {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

fn text(m: &mut Mon, r: &mut Rng) {
    for it in all(r) {
        m.input(it.what, &it.mag);
        let a = format!("{}", it.val);
        let got = tokens(&a);
        if it.rows.len() > 2 || it.what == "M22" {
            // a matrix: one row per line
            m.check("row-major elements, one row per line", got == it.rows, || format!("{} gives {:?} want {:?}", it.what, a, it.rows));
        } else {
            let (g, w): (Vec<String>, Vec<String>) = (got.concat(), it.rows.concat());
            m.check("components in order", g == w, || format!("{} gives {:?} want {:?}", it.what, a, w));
        }
        let b = format!("{}", it.val);
        m.check("same text each time", a == b, || format!("{:?} then {:?}", a, b));
        // the caller's flags change nothing about which numbers are written
        let f = match r.below(7) {
            0 => format!("{:#}", it.val),
            1 => format!("{:.0}", it.val),
            2 => format!("{:.5}", it.val),
            3 => format!("{:40}", it.val),
            4 => format!("{:+}", it.val),
            5 => format!("{:<012.1}", it.val),
            _ => format!("{:^#9.3}", it.val),
        };
        m.check("components in order under format flags", tokens(&f).concat() == it.rows.concat(), || format!("{} gives {:?} want {:?}", it.what, f, it.rows));
        m.check("to_string", it.val.to_string() == a, || a.clone());
        // surrounded by other text, and through io::Write
        let c = format!("<{}>{}<", it.val, it.val);
        m.check("embedded", c == format!("<{}>{}<", a, a), || format!("{:?}", c));
        let mut o: Vec<u8> = vec![];
        let w = write!(&mut o, "{}", it.val);
        m.check("io destination", w.is_ok() && o == a.as_bytes(), || format!("{:?} {:?}", w, String::from_utf8_lossy(&o)));
        m.hit(it.what);
        if it.mag.iter().any(|x| *x < 0.0) {
            m.hit("negative");
        }
        if it.mag.iter().any(|x| !x.is_finite()) {
            m.hit("not finite");
        }
        // failing sinks
        let k = r.below(a.len() + 2);
        let mut s = Sink { got: String::new(), left: k, failed: false, after: 0 };
        let e = write!(s, "{}", it.val);
        m.check("error propagates", e.is_err() == (k < a.len()), || format!("{} room for {} of {} bytes: {:?}", it.what, k, a.len(), e));
        m.check("prefix only", s.got == a[..k.min(a.len())], || format!("{:?} of {:?}", s.got, a));
        m.check("nothing written after the error", s.after == 0, || format!("{} bytes", s.after));
        m.hit(if k < a.len() { "sink failed" } else { "sink had room" });
    }
}
/// every failing position of every type
fn faults(m: &mut Mon, r: &mut Rng) {
    for it in all(r) {
        let a = format!("{}", it.val);
        for k in 0..a.len() {
            let mut s = Sink { got: String::new(), left: k, failed: false, after: 0 };
            let e = write!(s, "{}", it.val);
            m.check("error propagates", e.is_err(), || format!("{} room for {} of {} bytes", it.what, k, a.len()));
            m.check("prefix only", s.got == a[..k], || format!("{:?} of {:?}", s.got, a));
            m.check("nothing written after the error", s.after == 0, || format!("{} bytes", s.after));
        }
        m.input(it.what, &it.mag);
    }
    m.hit("every fault position");
}

/// another process formats values: nothing may reach its stdout, stderr or directory by itself
fn process(m: &mut Mon, seed: u64) {
    let idx = m.index();
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("c27-{}-{}", std::process::id(), idx));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let loud = idx % 2 == 1;
    let run = Command::new(exe).env("VERIF_CHILD", format!("{}:{}:{}", seed, idx, loud as u8)).current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output();
    let left: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name()).collect()).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    let o = run.expect("cannot start the child process");
    if o.status.code() != Some(0) {
        m.harness_errors.push(format!("child ended with {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
        return;
    }
    let (mut want, mut r) = (String::new(), Rng::new(seed, 77, idx));
    let mut n = 0;
    for _ in 0..20 {
        for it in all(&mut r) {
            n += 1;
            if n <= 12 {
                m.input(it.what, &it.mag);
            }
            if loud {
                let _ = write!(want, "<{}>", it.val);
            }
        }
    }
    let (so, se) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    if loud {
        m.check("stdout as destination", so == want, || format!("{} bytes want {} bytes: {:?}", so.len(), want.len(), so.chars().take(200).collect::<String>()));
        m.hit("stdout was the destination");
    } else {
        m.check("nothing on stdout", so.is_empty(), || format!("{:?}", so.chars().take(200).collect::<String>()));
        m.hit("quiet process");
    }
    m.check("nothing on stderr", se.is_empty(), || format!("{:?}", se.chars().take(200).collect::<String>()));
    m.check("no file left", left.is_empty(), || format!("{:?}", left));
}
fn child(spec: &str) -> ! {
    let p: Vec<u64> = spec.split(':').map(|x| x.parse().unwrap()).collect();
    let mut r = Rng::new(p[0], 77, p[1]);
    let mut total = 0;
    for _ in 0..20 {
        for it in all(&mut r) {
            if p[2] == 1 {
                print!("<{}>", it.val);
            } else {
                total += format!("{}", it.val).len();
                let mut s = Sink { got: String::new(), left: total % 40, failed: false, after: 0 };
                let _ = write!(s, "{}", it.val);
            }
        }
    }
    let _ = std::io::stdout().flush();
    std::process::exit(if p[2] == 1 || total > 0 { 0 } else { 9 });
}

fn main() {
    if let Ok(s) = std::env::var("VERIF_CHILD") {
        child(&s);
    }
    mon::monitor::run(
        "C27",
        "every Display type with assorted integer and float components (negative, huge, tiny, ties of the second decimal, NaN, infinities): the number texts are compared with the element's own two decimal text, in order; sinks that fail after any number of bytes; child processes whose stdout, stderr and directory are watched; non-trivial: at least two different components",
        |p| {
            let seed = p.seed;
            p.wl("text", 6000, 600_000, text);
            p.wl("faults", 60, 6000, faults);
            p.wl("process", 10, 400, move |m, _| process(m, seed));
            p.require(&["V2", "V3", "V4", "V5", "V6", "M22", "M33", "M44", "M55", "M66", "Quaternion", "DualQuaternion", "negative", "not finite", "sink failed", "sink had room"], 200);
            p.require(&["every fault position", "quiet process", "stdout was the destination"], 5);
            p.assume("the element's own Display with two decimals is the reference for a number's text");
        },
    )
}
