//! Constants the workloads concentrate around: general ones (rounding units, powers of ten, fractions of pi) and the numeric
//! literals that the code under test mentions.  They only steer the inputs; what is judged is always what the code does.
use std::sync::OnceLock;

static DICT: OnceLock<(Vec<f64>, Vec<f64>)> = OnceLock::new();
const LO: f64 = 1e-14;
const HI: f64 = 1e6;

fn base() -> Vec<f64> {
    use std::f64::consts::*;
    let mut v = vec![f64::EPSILON, f32::EPSILON as f64, f64::EPSILON.sqrt(), (f32::EPSILON as f64).sqrt()];
    v.extend((-12..=4).map(|k| 10f64.powi(k)));
    v.extend([0.25, 0.5, 0.75, 0.9, 0.99, 0.999, 0.9995, 0.9999, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0, 20.0, 50.0, 180.0, 360.0]);
    v.extend([PI / 6.0, FRAC_PI_4, PI / 3.0, FRAC_PI_2, 0.75 * PI, PI, 1.5 * PI, 2.0 * PI, 4.0 * PI, FRAC_1_SQRT_2, SQRT_2, 3f64.sqrt(), E]);
    v
}
/// the numeric literals of a source text, without its comments, strings and tests
pub fn literals(text: &str) -> Vec<f64> {
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    let (mut out, mut depth) = (vec![], 0usize);
    for line in text.lines() {
        let c: Vec<char> = line.chars().collect();
        let (mut i, mut instr) = (0, false);
        while i < c.len() {
            let two = (c[i], c.get(i + 1).copied().unwrap_or(' '));
            if depth > 0 {
                if two == ('*', '/') {
                    depth -= 1;
                    i += 1
                }
                i += 1;
                continue;
            }
            if instr {
                if c[i] == '\\' {
                    i += 1
                } else if c[i] == '"' {
                    instr = false
                }
                i += 1;
                continue;
            }
            match two {
                ('/', '/') => break,
                ('/', '*') => {
                    depth += 1;
                    i += 2;
                    continue;
                }
                ('"', _) => instr = true,
                (d, _) if d.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_' || c[i - 1] == '.')) => {
                    let mut j = i;
                    let mut s = String::new();
                    while j < c.len() {
                        let k = c[j];
                        let exp = (k == '-' || k == '+') && matches!(c[j - 1], 'e' | 'E');
                        if k == '.' && c.get(j + 1) == Some(&'.') {
                            break;
                        }
                        if !(k.is_ascii_digit() || k == '.' || k == '_' || k == 'e' || k == 'E' || exp) {
                            break;
                        }
                        if k != '_' {
                            s.push(k)
                        }
                        j += 1;
                    }
                    let fl = s.contains(['.', 'e', 'E']);
                    if let Ok(x) = s.trim_end_matches('.').parse::<f64>() {
                        if fl || x >= 7.0 {
                            out.push(x)
                        }
                    }
                    i = j;
                    continue;
                }
                _ => {}
            }
            i += 1;
        }
    }
    out
}
fn from_source() -> Vec<f64> {
    let dir = env!("CARGO_MANIFEST_DIR");
    let toml = std::fs::read_to_string(format!("{}/Cargo.toml", dir)).unwrap_or_default();
    let path = toml.lines().find(|l| l.starts_with("static-math")).and_then(|l| l.split("path = \"").nth(1)).and_then(|l| l.split('"').next());
    let mut v = vec![];
    if let Some(p) = path {
        let mut files: Vec<_> = std::fs::read_dir(format!("{}/src", p)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files {
            v.extend(literals(&std::fs::read_to_string(f).unwrap_or_default()));
        }
    }
    tidy(v)
}
fn tidy(mut v: Vec<f64>) -> Vec<f64> {
    v.retain(|x| (LO..=HI).contains(x));
    v.sort_by(f64::total_cmp);
    v.dedup();
    v
}
fn get() -> &'static (Vec<f64>, Vec<f64>) {
    DICT.get_or_init(|| (base(), from_source()))
}
/// the literals found, for another build of the workload
pub fn export() -> String {
    let v: Vec<String> = get().1.iter().map(|x| format!("{:x}", x.to_bits())).collect();
    if v.is_empty() { "-".into() } else { v.join(",") }
}
pub fn import(s: &str) {
    let v = s.split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits).collect();
    let _ = DICT.set((base(), v));
}
/// one of the constants (positive); u, w in [0,1)
pub fn pick(u: f64, w: f64) -> f64 {
    let (b, s) = get();
    let v = if s.is_empty() || u < 0.4 { b } else { s };
    v[(w * v.len() as f64) as usize]
}

#[cfg(test)]
mod tests {
    #[test]
    fn finds_literals() {
        let t = "let a = 0.5; // 9.9\n/* 8.8\n 7.7 */ let b = 1e-6 + x.1 + 1.; a[3]; 0..9; \"4.4\" f(100_f64, 1_000, 2.5e+3f32)\n#[cfg(test)] 6.6";
        assert_eq!(super::literals(t), vec![0.5, 1e-6, 1.0, 100.0, 1000.0, 2500.0]);
    }
}
