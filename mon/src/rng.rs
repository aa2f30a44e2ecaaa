//! xoshiro256++ seeded with splitmix64; no dependency, reproducible everywhere.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    n: u32,
    /// draws replaced by another value
    over: [(u32, u64); 2],
    /// draws to make first, then those of the generator; what was drawn is kept
    tape: Option<(Vec<u64>, Vec<u64>)>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64, stream: u64, idx: u64) -> Self {
        let mut x = seed.wrapping_mul(0xA0761D6478BD642F) ^ stream.rotate_left(17) ^ idx.wrapping_mul(0xE7037ED1A0B428DB);
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s, n: 0, over: [(u32::MAX, 0); 2], tape: None }
    }
    /// the same draws except that one is replaced, or two are exchanged, as chosen by `how`
    pub fn neighbour(&self, how: &mut Rng) -> Rng {
        let lim = 1usize << (1 + how.below(8));
        let (i, j) = (how.below(lim) as u32, how.below(lim) as u32);
        let mut r = self.clone();
        if how.chance(0.5) {
            let (mut c, mut v) = (self.clone(), [0; 2]);
            for k in 0..=i.max(j) {
                let x = c.u64();
                if k == i {
                    v[0] = x
                }
                if k == j {
                    v[1] = x
                }
            }
            r.over = [(i, v[1]), (j, v[0])];
        } else {
            r.over[0] = (i, how.u64());
        }
        r
    }
    /// the same generator with the first draws given; all draws are recorded
    pub fn on_tape(mut self, first: Vec<u64>) -> Rng {
        self.tape = Some((first, vec![]));
        self
    }
    /// the draws made so far
    pub fn recorded(&mut self) -> Vec<u64> {
        self.tape.take().map(|t| t.1).unwrap_or_default()
    }
    pub fn u64(&mut self) -> u64 {
        let mut x = self.next();
        if let Some((first, made)) = &mut self.tape {
            if let Some(y) = first.get(made.len()) {
                x = *y
            }
            if made.len() < 4096 {
                made.push(x)
            }
        }
        let n = self.n;
        self.n += 1;
        if n == self.over[0].0 {
            return self.over[0].1;
        }
        if n == self.over[1].0 {
            return self.over[1].1;
        }
        x
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (((self.u64() >> 32) * n as u64) >> 32) as usize
    }
    /// uniform integer in a..=b
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & 1 == 0 { 1.0 } else { -1.0 }
    }
    /// log-uniform magnitude 10^[a,b]
    pub fn logmag(&mut self, a: f64, b: f64) -> f64 {
        10f64.powf(self.range(a, b))
    }
    pub fn normal(&mut self) -> f64 {
        let u = self.unit().max(1e-300);
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * self.unit()).cos()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
