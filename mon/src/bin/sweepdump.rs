//! Prints the outcomes of the operation sweep, for comparison with another build.
//! args: f32|f64 <mode index> <first> <last> <seed> <dictionary of constants>
use mon::sweep::*;
use std::io::Write;

fn dump<T: mon::Fl>(ops: Vec<Op<T>>, mode: Mode, a: u64, b: u64, seed: u64) {
    let so = std::io::stdout();
    let mut o = std::io::BufWriter::new(so.lock());
    for idx in a..b {
        for op in &ops {
            let (r, _) = exec(op, seed, mode, idx);
            match r {
                Ok(x) => {
                    o.write_all(&[0]).unwrap();
                    o.write_all(&(x.v.len() as u32).to_le_bytes()).unwrap();
                    for y in x.v {
                        o.write_all(&y.to_bits().to_le_bytes()).unwrap();
                    }
                }
                Err(e) => {
                    o.write_all(&[1]).unwrap();
                    o.write_all(&(e.len() as u32).to_le_bytes()).unwrap();
                    o.write_all(e.as_bytes()).unwrap();
                }
            }
        }
    }
    o.flush().unwrap();
}
fn main() {
    mon::monitor::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a[i].parse().unwrap() };
    mon::dict::import(&a[6]);
    let mode = MODES[n(2) as usize];
    if a[1] == "f32" {
        dump(all32(), mode, n(3), n(4), n(5));
    } else {
        dump(all64(), mode, n(3), n(4), n(5));
    }
}
