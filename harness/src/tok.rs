//! Projection of f32 values to the tokens the specification works with, and JSON writing.

/// `[0, 64*v]` exactly representable small dyadic; `[1, bits, round(v*2^16)]` other finite;
/// `[2,0]` NaN; `[3,0]` +inf; `[4,0]` -inf.
pub fn tok(v: f32) -> String {
    if v.is_nan() {
        return "[2,0]".into();
    }
    if v.is_infinite() {
        return if v > 0.0 { "[3,0]".into() } else { "[4,0]".into() };
    }
    let s = v as f64 * 64.0;
    if s.fract() == 0.0 && s.abs() < 16777216.0 {
        return format!("[0,{}]", s as i64);
    }
    format!("[1,{},{}]", v.to_bits() as i32, fx(v))
}

/// v * 2^16 rounded, clipped to +-2^30.
pub fn fx(v: f32) -> i64 {
    fx64(v as f64)
}

pub fn fx64(v: f64) -> i64 {
    let s = (v * 65536.0).round();
    if s.is_nan() {
        return 1 << 30;
    }
    s.clamp(-1073741824.0, 1073741824.0) as i64
}

pub fn toks(v: &[f32]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&tok(*x));
    }
    s.push(']');
    s
}

pub fn ints<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

/// Scaled integers of a list of floats.
pub fn fxs(v: &[f32]) -> String {
    ints(&v.iter().map(|x| fx(*x)).collect::<Vec<i64>>())
}

/// Innermost constructor name of a (nested) error value.
pub fn errname<E: std::fmt::Debug>(e: E) -> String {
    let s = format!("{:?}", e);
    let t = s.trim_end_matches(')');
    t.rsplit('(').next().unwrap_or(t).to_string()
}

/// Small deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn sym(&mut self) -> f64 {
        2.0 * self.unit() - 1.0
    }
    /// Any float of a magnitude between 2^lo and 2^hi.
    pub fn scaled(&mut self, lo: i64, hi: i64) -> f32 {
        let e = self.range(lo, hi - 1) as i32;
        let m = (1.0 + self.unit()) * if self.chance(0.5) { 1.0 } else { -1.0 };
        (m * 2f64.powi(e)) as f32
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn gauss(&mut self) -> f64 {
        let mut s = 0.0;
        for _ in 0..12 {
            s += self.unit();
        }
        s - 6.0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Random unit quaternion.
    pub fn quat(&mut self) -> [f64; 4] {
        loop {
            let q = [self.gauss(), self.gauss(), self.gauss(), self.gauss()];
            let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
            if n > 0.1 {
                return [q[0] / n, q[1] / n, q[2] / n, q[3] / n];
            }
        }
    }
    /// Random unit 3-vector.
    pub fn dir(&mut self) -> [f64; 3] {
        loop {
            let q = [self.gauss(), self.gauss(), self.gauss()];
            let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]).sqrt();
            if n > 0.1 {
                return [q[0] / n, q[1] / n, q[2] / n];
            }
        }
    }
}
