//! C13: quaternion exp, ln, pow, sqrt, sin, cos against the complex functions.
use mon::qref::*;
use mon::*;

type C = (f64, f64);
fn cmul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn cexp(a: C) -> C {
    let e = a.0.exp();
    (e * a.1.cos(), e * a.1.sin())
}
fn cln(a: C) -> C {
    (a.0.hypot(a.1).ln(), a.1.atan2(a.0))
}
fn csin(a: C) -> C {
    (a.0.sin() * a.1.cosh(), a.0.cos() * a.1.sinh())
}
fn ccos(a: C) -> C {
    (a.0.cos() * a.1.cosh(), -a.0.sin() * a.1.sinh())
}
/// split q = a + b u with b >= 0
fn split(q: &[f64; 4]) -> (C, Option<[f64; 3]>) {
    let b = norm3(&[q[1], q[2], q[3]]);
    if b == 0.0 {
        ((q[0], 0.0), None)
    } else {
        ((q[0], b), Some([q[1] / b, q[2] / b, q[3] / b]))
    }
}
fn join(c: C, u: &[f64; 3]) -> [f64; 4] {
    [c.0, c.1 * u[0], c.1 * u[1], c.1 * u[2]]
}
/// compare with the complex value; for real arguments any unit axis may carry an imaginary part
fn cmp<T: Fl>(m: &mut Mon, name: &'static str, q: &[f64; 4], got: &Quaternion<T>, want: C, tol: f64) {
    let g = qf(got);
    match split(q).1 {
        Some(u) => {
            let w = join(want, &u);
            m.small(name, maxdiff(&g, &w), tol, || format!("<{}> f({:?}) = {:?} want {:?}", T::NAME, q, g, w));
        }
        None => {
            m.small(name, maxdiff(&[g[0], norm3(&[g[1], g[2], g[3]])], &[want.0, want.1.abs()]), tol, || format!("<{}> real argument f({:?}) = {:?} want {:?}", T::NAME, q, g, want));
            m.hit("real argument");
        }
    }
}
fn arg<T: Fl>(m: &mut Mon, r: &mut Rng) -> [f64; 4] {
    let q = match r.below(11) {
        0 => [r.sign() * r.logmag(-3.0, 1.0), 0.0, 0.0, 0.0],
        9 => {
            let w = if r.chance(0.7) || T::IS32 { 10.0 } else { 60.0 };
            let s = r.logmag(-w, w);
            let u = gen::unitq(r);
            m.hit("any magnitude");
            [s * u[0], s * u[1], s * u[2], s * u[3]]
        }
        10 => {
            let a = scale3(&gen::axis(r), r.logmag(-1.0, 4.0));
            [r.range(-30.0, 30.0), a[0], a[1], a[2]]
        }
        1 => {
            let a = axis_small(r);
            m.hit("tiny imaginary part");
            [r.range(-3.0, 3.0), a[0], a[1], a[2]]
        }
        2 => if r.chance(0.5) { gen::quat(r, 3.0) } else { gen::unitq(r) },
        3 => {
            let n = if r.chance(0.2) { gen::near(r).min(8.0) } else { r.range(0.0, 8.0) };
            let a = scale3(&gen::axis(r), n);
            m.hit("large imaginary part");
            [r.range(-3.0, 3.0), a[0], a[1], a[2]]
        }
        4 => [r.int(-3, 3) as f64, r.int(-3, 3) as f64, r.int(-3, 3) as f64, r.int(-3, 3) as f64],
        5 => {
            let s = r.logmag(if T::IS32 { -2.0 } else { -5.0 }, 0.5);
            let u = gen::unitq(r);
            [s * u[0], s * u[1], s * u[2], s * u[3]]
        }
        6 => {
            let a = scale3(&gen::axis(r), gen::angle(r).abs());
            [0.0, a[0], a[1], a[2]]
        }
        _ => [r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-2.0, 2.0), r.range(-2.0, 2.0)],
    };
    rd4::<T>(&q)
}
fn axis_small(r: &mut Rng) -> [f64; 3] {
    scale3(&gen::axis(r), r.logmag(-20.0, -2.0))
}
fn finite<T: Fl>(m: &mut Mon, name: &'static str, q: &Quaternion<T>) {
    m.check(name, qf(q).iter().all(|x| x.is_finite()), || format!("{:?}", qf(q)));
}

fn funs<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let a = arg::<T>(m, r);
    m.input(&format!("q<{}>", T::NAME), &a);
    let raw = q_of::<T>(&a);
    let n = qnorm(&a);
    let (c, _) = split(&a);
    // exp, for any argument
    let ex = raw.exp();
    let ec = cexp(c);
    let eabs = c.0.exp();
    if c.0 < 80.0 {
        cmp(m, "exp", &a, &ex, ec, e * eabs * (6.0 + 3.0 * n) + T::MINP);
        finite(m, "exp finite", &ex);
    }
    // sin and cos (the crate goes through exp(+-q u)), where cosh stays representable
    if c.1 < 40.0 {
        let ch = c.1.cosh();
        // arguments whose imaginary part is below eps are treated as real
        let small = if c.1 <= 1.1 * e { 2.0 * c.1 } else { 0.0 };
        let tol = e * ch * (24.0 + 12.0 * n) + small;
        cmp(m, "sin", &a, &raw.sin(), csin(c), tol);
        cmp(m, "cos", &a, &raw.cos(), ccos(c), tol);
        finite(m, "sin finite", &raw.sin());
        finite(m, "cos finite", &raw.cos());
        let (s, k) = (raw.sin(), raw.cos());
        let one = s * s + k * k;
        m.small("sin^2+cos^2", maxdiff(&qf(&one), &[1.0, 0.0, 0.0, 0.0]), (e * (60.0 + 30.0 * n)) * ch * ch + 4.0 * small * ch, || format!("{:?}", qf(&one)));
    }
    if n < if T::IS32 { 1e-11 } else { 1e-65 } {
        return;
    }
    // the rest needs a nonzero quaternion; also in its flagged form when unit
    let mut forms = vec![(raw, a)];
    if (n - 1.0).abs() < 4.0 * e {
        let f = raw.normalize().unwrap();
        let fa = qf(&f);
        forms.push((f, fa));
        m.hit("flagged unit argument");
    }
    for (q, a) in forms {
        let (c, _) = split(&a);
        let lc = cln(c);
        let ln = q.ln();
        let la = 1.0 + lc.0.abs();
        let ltol = e * 16.0 * la;
        // an imaginary part below rounding relative to the real part may be read as real
        let flat = if c.1 / n <= 1.1 * e { 4.0 * (c.1 / n) } else { 0.0 };
        if flat > 0.0 && c.0 < 0.0 {
            // axis replaced by x: only the size of the imaginary part is determined
            let g = qf(&ln);
            m.small("ln near negative reals", maxdiff(&[g[0], norm3(&[g[1], g[2], g[3]])], &[lc.0, lc.1]), ltol + flat, || format!("ln {:?} = {:?}", a, g));
        } else {
            cmp(m, "ln", &a, &ln, lc, ltol + flat);
        }
        finite(m, "ln finite", &ln);
        let back = qf(&ln.exp());
        m.small("exp(ln q) = q", maxdiff(&back, &a), e * n * (24.0 + 8.0 * la) + 4.0 * flat * n + if flat > 0.0 { 4.0 * c.1 } else { 0.0 }, || format!("{:?} -> {:?}", a, back));
        let s = q.sqrt();
        finite(m, "sqrt finite", &s);
        let sl = cexp((0.5 * lc.0, 0.5 * lc.1));
        if !(flat > 0.0 && c.0 < 0.0) {
            cmp(m, "sqrt", &a, &s, sl, e * n.sqrt() * (24.0 + 8.0 * la) + 4.0 * flat * n.sqrt());
        }
        let s2 = qf(&(s * s));
        m.small("sqrt(q)^2 = q", maxdiff(&s2, &a), e * n * (48.0 + 16.0 * la) + 8.0 * flat * n + if flat > 0.0 { 4.0 * c.1 } else { 0.0 }, || format!("{:?} -> {:?}", a, s2));
        // real and same-axis powers
        let p: C = match r.below(5) {
            4 => (T::of(gen::near_in(r, -12.0, 12.0)).f(), 0.0),
            0 => (r.int(-12, 12) as f64, 0.0),
            1 => (T::of(r.sign() * if r.chance(0.5) { r.range(0.0, 2.0) } else { r.logmag(-6.0, 1.3) }).f(), 0.0),
            2 if c.1 > 1e-3 => (T::of(r.range(-1.0, 1.0)).f(), r.range(-1.0, 1.0)),
            _ => (*r.pick(&[0.0, 1.0, 2.0, -1.0, 0.5, 3.0]), 0.0),
        };
        let pq = match split(&a).1 {
            Some(u) => rd4::<T>(&join(p, &u)),
            None => [p.0, 0.0, 0.0, 0.0],
        };
        m.input("exponent", &pq);
        let z = cmul(p, lc);
        let w = cexp(z);
        let mag = z.0.exp();
        if z.0.abs() > 70.0 {
            m.hit("power out of range");
            continue;
        }
        let amp = 1.0 + (p.0.abs() + p.1.abs()) * (lc.0.abs() + lc.1 + 1.0);
        let tol = e * mag * (24.0 + 16.0 * amp) + 4.0 * flat * amp * mag;
        let got = q.pow(q_of::<T>(&pq));
        finite(m, "pow finite", &got);
        if !(flat > 0.0 && c.0 < 0.0) {
            cmp(m, "pow", &a, &got, w, tol);
        }
        if p.1 == 0.0 && p.0.fract() == 0.0 && p.0 >= 0.0 && flat == 0.0 {
            let mut acc = [Dd::ONE, Dd::ZERO, Dd::ZERO, Dd::ZERO];
            for _ in 0..p.0 as i32 {
                acc = qmul(&acc, &dd4(&a));
            }
            m.small("integer power", maxdiff(&qf(&got), &f4(&acc)), tol, || format!("{:?}^{} = {:?} want {:?}", a, p.0, qf(&got), f4(&acc)));
            m.hit("integer power");
        }
    }
    if c.0 < 0.0 && c.1 == 0.0 {
        m.hit("negative real argument");
    }
}
fn main() {
    monitor::run("C13", "argument with two different components; distinct by components, exponent and element type", |p| {
        p.wl("functions", 120_000, 8_000_000, |m, r| if r.chance(0.6) { funs::<f64>(m, r) } else { funs::<f32>(m, r) });
        p.guided("guided functions", 24000, 1333333, |m, r| if r.chance(0.7) { funs::<W64>(m, r) } else { funs::<W32>(m, r) });
        p.require(&["real argument", "negative real argument", "tiny imaginary part", "large imaginary part", "flagged unit argument", "integer power"], 100);
        p.assume("sin/cos treat an imaginary part whose square is below machine epsilon as real, so they carry an extra error of that size; ln, sqrt and pow are judged on nonzero quaternions; pow on real and same-axis exponents");
    })
}
