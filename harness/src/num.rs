//! Self-contained numeric cases: one event per call, inputs as integers, results as scaled integers.
use crate::out::{begin, guard, Out, Trace};
use crate::tok::*;
use linalg::linalg as la;
use linalg::matrix::Matrix;
use linalg::vector::Vector;

pub const ONE: f64 = 65536.0;

/// Observed results of one case.
#[derive(Default)]
pub struct Obs {
    pub o: Vec<Vec<i64>>,
    pub b: Vec<String>,
    pub nf: bool,
}

impl Obs {
    /// Scaled integer; NaN, infinities and values beyond 2^30 raise the flag.
    pub fn enc(&mut self, v: f32, scale: f64) -> i64 {
        let s = (v as f64 * scale).round();
        if !(s.abs() < 1073741824.0) {
            self.nf = true;
            return 0;
        }
        s as i64
    }
    pub fn push(&mut self, v: &[f32], scale: f64) {
        let e: Vec<i64> = v.iter().map(|x| self.enc(*x, scale)).collect();
        self.o.push(e);
    }
    pub fn mat(&mut self, m: &Matrix, scale: f64) {
        self.push(&elems(m), scale);
    }
    pub fn vec(&mut self, v: &Vector<f32>, scale: f64) {
        self.push(&velems(v), scale);
    }
    /// Result of a predicate: T, F or the name of the error.
    pub fn bool<E: std::fmt::Debug>(&mut self, f: impl FnOnce() -> Result<bool, E>) {
        self.b.push(match guard(f) {
            Ok(true) => "T".into(),
            Ok(false) => "F".into(),
            Err(Out::Err(e)) => e,
            Err(o) => o.status().into(),
        });
    }
}

/// Every other container has had another size and other contents before.
fn used() -> bool {
    thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
    N.with(|n| {
        n.set(n.get().wrapping_mul(1664525).wrapping_add(1013904223));
        n.get() >> 31 == 1
    })
}

pub fn mat(r: usize, c: usize, v: &[f32]) -> Matrix {
    let mut m = Matrix::new();
    if used() {
        m.init(4, 4).unwrap();
        m.fill(13.25).unwrap();
        m.reinit(r as u8, c as u8).unwrap();
    } else {
        m.init(r as u8, c as u8).unwrap();
    }
    for i in 0..r {
        for j in 0..c {
            m.set_element(i as u8, j as u8, v[i * c + j]).unwrap();
        }
    }
    m
}

pub fn vect(v: &[f32]) -> Vector<f32> {
    let mut x: Vector<f32> = Vector::new();
    if used() {
        x.init(4).unwrap();
        x.fill(-7.5).unwrap();
        x.reinit(v.len() as u8).unwrap();
    } else {
        x.init(v.len() as u8).unwrap();
    }
    for (i, e) in v.iter().enumerate() {
        x.set_element(i as u8, *e).unwrap();
    }
    x
}

pub fn elems(m: &Matrix) -> Vec<f32> {
    let (r, c) = (m.get_rows().unwrap_or(0), m.get_cols().unwrap_or(0));
    let mut v = vec![];
    for i in 0..r {
        for j in 0..c {
            v.push(m.get_element(i, j).unwrap_or(f32::NAN));
        }
    }
    v
}

pub fn velems(v: &Vector<f32>) -> Vec<f32> {
    (0..v.get_rows().unwrap_or(0)).map(|i| v.get_element(i).unwrap_or(f32::NAN)).collect()
}

/// `x` and the bits of a float, or `q` and its value in 1/64.
pub fn float(x: &str) -> f32 {
    match x.as_bytes()[0] {
        b'q' => x[1..].parse::<i64>().unwrap() as f32 / 64.0,
        _ => f32::from_bits(u32::from_str_radix(&x[1..], 16).unwrap()),
    }
}

#[derive(Clone)]
pub struct Case {
    pub op: String,
    pub i: Vec<i64>,
    pub f: Vec<f32>,
}

impl Case {
    pub fn new(op: &str, i: Vec<i64>, f: Vec<f32>) -> Self {
        Case { op: op.into(), i, f }
    }
    pub fn line(&self) -> String {
        let i: Vec<String> = self.i.iter().map(|x| x.to_string()).collect();
        let f: Vec<String> = self.f.iter().map(|x| format!("x{:08x}", x.to_bits())).collect();
        format!("{} {} | {}", self.op, i.join(" "), f.join(" "))
    }
    pub fn parse(line: &str) -> Option<Case> {
        let (a, b) = line.split_once('|')?;
        let mut it = a.split_whitespace();
        let op = it.next()?.to_string();
        let i = it.map(|x| x.parse().unwrap()).collect();
        let f = b.split_whitespace().map(float).collect();
        Some(Case { op, i, f })
    }
    pub fn run(&self, tr: &mut Trace) {
        let line = self.line();
        begin(&line);
        let mut obs = Obs::default();
        let out = self.call(&mut obs);
        let b: Vec<String> = obs.b.iter().map(|x| format!("\"{}\"", x)).collect();
        let o: Vec<String> = obs.o.iter().map(|x| ints(x)).collect();
        tr.event(
            &format!("\"op\":\"{}\",\"i\":{},\"x\":{},{},\"o\":[{}],\"b\":[{}],\"nf\":{}", self.op, ints(&self.i), fxs(&self.f),
                out.json(), o.join(","), b.join(","), obs.nf as u8),
            &line,
        );
    }
    fn call(&self, obs: &mut Obs) -> Out {
        let r = crate::rotcase::call(self, obs).unwrap_or_else(|| self.linalg(obs));
        match r {
            Ok(()) => Out::Ok,
            Err(o) => o,
        }
    }

    /// Matrix cases: i = [n, s, entries...], the matrix is entries * 2^s.
    fn linalg(&self, obs: &mut Obs) -> Result<(), Out> {
        let n = self.i[0] as usize;
        let s = (2.0f64).powi(self.i[1] as i32);
        let sq = |k: usize| -> Vec<f32> { self.i[k..k + n * n].iter().map(|x| (*x as f64 * s) as f32).collect() };
        match self.op.as_str() {
            "det" | "detn" => {
                let m = mat(n, n, &sq(2));
                let d = guard(|| if self.op == "det" { m.det() } else { m.det_naive() })?;
                obs.push(&[(d as f64 / s.powi(n as i32)) as f32], 1024.0);
                Ok(())
            }
            "inv" => {
                let mut m = mat(n, n, &sq(2));
                let r = guard(|| m.invert());
                obs.mat(&m, if r.is_ok() { ONE * s } else { 1024.0 / s });
                r
            }
            "solve" => {
                let m = mat(n, n, &sq(2));
                let b = vect(&self.i[2 + n * n..].iter().map(|x| *x as f32).collect::<Vec<f32>>());
                let x = guard(|| la::lup(&m).and_then(|(lu, p)| la::solve(&lu, &b, &p)))?;
                obs.vec(&x, 1024.0 * s);
                Ok(())
            }
            "adj" => {
                let mut m = mat(n, n, &sq(2));
                guard(|| m.adjugate_in_place())?;
                obs.mat(&m, ONE / s.powi(n as i32 - 1));
                Ok(())
            }
            "lr" | "crout" => {
                let m = mat(n, n, &sq(2));
                let (l, u) = guard(|| if self.op == "lr" { m.lr() } else { m.lu_crout() })?;
                obs.mat(&l, 4096.0);
                obs.mat(&u, 4096.0 / s);
                Ok(())
            }
            "qr" | "qrn" => {
                // qrn: entries in 1/1024, the upper factor is reported unscaled
                let (m, s) = if self.op == "qr" { (mat(n, n, &sq(2)), s) } else {
                    (mat(n, n, &self.i[2..].iter().map(|x| *x as f32 / 1024.0).collect::<Vec<f32>>()), 1.0)
                };
                let (q, r) = guard(|| m.qr_decomp())?;
                obs.mat(&q, ONE);
                obs.mat(&r, ONE / s);
                Ok(())
            }
            "chol" => {
                let m = mat(n, n, &sq(2));
                let l = guard(|| m.chol())?;
                obs.mat(&l, ONE / s.sqrt());
                Ok(())
            }
            "lup" => {
                let m = mat(n, n, &sq(2));
                let (lu, p) = guard(|| la::lup(&m))?;
                let mut e = elems(&lu);
                let pv: Vec<i64> = (0..n).map(|k| p.get_element(k as u8).map(|x| x as i64).unwrap_or(-1)).collect();
                // on and above the diagonal the factors grow with the matrix
                for (k, row) in pv.iter().enumerate().filter(|(_, r)| **r >= 0 && **r < n as i64) {
                    for j in k..n {
                        e[*row as usize * n + j] /= s as f32;
                    }
                }
                obs.o.push(pv);
                obs.push(&e, ONE);
                Ok(())
            }
            "eigen" => {
                // i = [n, 0, entries, iterations, shifted, known eigenvalues...]
                let m = mat(n, n, &sq(2));
                let k = 2 + n * n;
                let (l, v) = guard(|| la::eigen(&m, self.i[k] as u16, self.i[k + 1] == 1))?;
                obs.vec(&l, ONE);
                obs.mat(&v, ONE);
                Ok(())
            }
            "nonsq" => {
                // i = [rows, cols, entries]; rows and cols differ
                let c = self.i[1] as usize;
                let mut m = mat(n, c, &self.i[2..].iter().map(|x| *x as f32).collect::<Vec<f32>>());
                obs.bool(|| m.det().map(|_| true));
                obs.bool(|| m.det_naive().map(|_| true));
                obs.bool(|| m.lr().map(|_| true));
                obs.bool(|| m.lu_crout().map(|_| true));
                obs.bool(|| m.chol().map(|_| true));
                obs.bool(|| la::eigen(&m, 10, false).map(|_| true));
                obs.bool(|| m.invert().map(|_| true));
                obs.mat(&m, 1024.0);
                Ok(())
            }
            "pred" => {
                // i = [rows, cols, entries * 2^16]
                let c = self.i[1] as usize;
                let m = mat(n, c, &self.i[2..].iter().map(|x| (*x as f64 / ONE) as f32).collect::<Vec<f32>>());
                obs.bool(|| m.is_square());
                obs.bool(|| m.is_symmetric());
                obs.bool(|| m.is_upper_triangular());
                obs.bool(|| m.is_lower_triangular());
                obs.bool(|| m.is_orthogonal());
                obs.bool(|| m.is_so_n());
                obs.bool(|| m.is_positive_definite());
                Ok(())
            }
            other => panic!("unknown case {}", other),
        }
    }
}

// ---- generation -----------------------------------------------------------------------------

/// Gaussian elimination without pivoting in f64: the factors, if all pivots are away from zero.
fn lu64(n: usize, a: &[i64]) -> Option<(Vec<f64>, Vec<f64>)> {
    let mut u: Vec<f64> = a.iter().map(|x| *x as f64).collect();
    let mut l = vec![0.0; n * n];
    for k in 0..n {
        l[k * n + k] = 1.0;
        if u[k * n + k].abs() < 1e-6 {
            return None;
        }
        for r in k + 1..n {
            let f = u[r * n + k] / u[k * n + k];
            l[r * n + k] = f;
            for c in 0..n {
                u[r * n + c] -= f * u[k * n + c];
            }
        }
    }
    Some((l, u))
}

/// Distance of every column from the span of the previous ones.
fn col_distances(n: usize, a: &[i64]) -> Vec<f64> {
    let mut q: Vec<Vec<f64>> = vec![];
    let mut d = vec![];
    for c in 0..n {
        let mut v: Vec<f64> = (0..n).map(|r| a[r * n + c] as f64).collect();
        for _ in 0..2 {
            for p in &q {
                let dot: f64 = (0..n).map(|k| p[k] * v[k]).sum();
                for k in 0..n {
                    v[k] -= dot * p[k];
                }
            }
        }
        let norm = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        d.push(norm);
        if norm > 1e-9 {
            q.push(v.iter().map(|x| x / norm).collect());
        }
    }
    d
}

fn rnd_int(r: &mut Rng, n: usize, max: i64) -> Vec<i64> {
    match r.below(6) {
        0 => {
            // signed permutation with a few extra entries
            let mut p: Vec<usize> = (0..n).collect();
            for k in (1..n).rev() {
                p.swap(k, r.below(k as u64 + 1) as usize);
            }
            let mut a = vec![0; n * n];
            for k in 0..n {
                a[k * n + p[k]] = *r.pick(&[1, -1, 2, -2, max]);
            }
            for _ in 0..r.below(3) {
                a[r.below((n * n) as u64) as usize] = r.range(-max, max);
            }
            a
        }
        1 => {
            // a row that depends on the others
            let mut a: Vec<i64> = (0..n * n).map(|_| r.range(-2, 2)).collect();
            let t = r.below(n as u64) as usize;
            let (x, y) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
            let (f, g) = (r.range(-1, 1), r.range(-1, 1));
            for c in 0..n {
                let v = if x == t || y == t { 0 } else { f * a[x * n + c] + g * a[y * n + c] };
                a[t * n + c] = v;
            }
            a
        }
        2 => (0..n * n).map(|_| if r.chance(0.5) { 0 } else { r.range(-max, max) }).collect(),
        _ => {
            let m = *r.pick(&[1, 2, 3, max]);
            (0..n * n).map(|_| r.range(-m, m)).collect()
        }
    }
}

fn size(r: &mut Rng) -> usize {
    *r.pick(&[1, 2, 2, 3, 3, 3, 4, 4, 4, 4])
}

/// All matrices of size n with entries -m..m, every `step`-th starting at `from`.
fn every(n: usize, m: i64, from: u64, step: u64, mut f: impl FnMut(Vec<i64>)) {
    let b = (2 * m + 1) as u64;
    let total = b.pow((n * n) as u32);
    let mut k = from;
    while k < total {
        let mut v = vec![];
        let mut x = k;
        for _ in 0..n * n {
            v.push((x % b) as i64 - m);
            x /= b;
        }
        f(v);
        k += step;
    }
}

fn with(n: usize, s: i64, a: &[i64]) -> Vec<i64> {
    let mut v = vec![n as i64, s];
    v.extend_from_slice(a);
    v
}

/// Exactly orthogonal integer matrices (times the returned scale), sizes 2, 3, 4.
fn ortho(r: &mut Rng, n: usize) -> (Vec<i64>, i64) {
    let base: (Vec<i64>, i64) = match n {
        1 => (vec![1], 1),
        2 => if r.chance(0.5) { (vec![3, 4, -4, 3], 5) } else { (vec![5, 12, -12, 5], 13) },
        3 => (vec![1, 2, 2, 2, 1, -2, 2, -2, 1], 3),
        _ => (vec![1, 1, 1, 1, 1, -1, 1, -1, 1, 1, -1, -1, 1, -1, -1, 1], 2),
    };
    // shuffle columns and signs
    let mut p: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        p.swap(k, r.below(k as u64 + 1) as usize);
    }
    let mut a = vec![0; n * n];
    for c in 0..n {
        let sg = if r.chance(0.5) { 1 } else { -1 };
        for k in 0..n {
            a[k * n + c] = sg * base.0[k * n + p[c]];
        }
    }
    (a, base.1)
}

pub fn generate(tr: &mut Trace, fam: &str, seed: u64, count: u64) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let go = |op: &str, i: Vec<i64>, tr: &mut Trace| Case::new(op, i, vec![]).run(tr);
    if crate::rotcase::generate(tr, fam, r, count) {
        return;
    }
    if fam == "nonsq" {
        for _ in 0..count {
        for rows in 1..=4i64 {
            for cols in (1..=4i64).filter(|c| *c != rows) {
                let mut v = vec![rows, cols];
                v.extend((0..rows * cols).map(|_| r.range(-3, 3)));
                go("nonsq", v, tr);
            }
        }
        }
        return;
    }
    match fam {
        // every 2x2 matrix with entries -m..m and a slice of the 3x3 ones
        "small-det" | "small-inv" | "small-fact" | "small-pred" => {
            let ops: &[&str] = match fam {
                "small-det" => &["det", "detn"],
                "small-inv" => &["inv"],
                "small-fact" => &["lr", "crout", "qr", "chol", "lup"],
                _ => &["pred"],
            };
            let step3 = (19683 / count.max(1)).max(1);
            for (n, m, from, step) in [(1usize, 3i64, 0u64, 1u64), (2, 2, 0, 1), (3, 1, r.below(step3), step3)] {
                every(n, m, from, step, |a| {
                    for op in ops {
                        if *op == "pred" {
                            let mut v = vec![n as i64, n as i64];
                            v.extend(a.iter().map(|x| x * 65536));
                            go(op, v, tr);
                        } else {
                            go(op, with(n, 0, &a), tr);
                        }
                    }
                });
            }
        }
        "det" => {
            for k in 0..count {
                let n = size(r);
                let a = rnd_int(r, n, 9);
                go(if k % 2 == 0 { "det" } else { "detn" }, with(n, if r.chance(0.2) { r.range(3, 12) } else { r.range(-6, 2) }, &a), tr);
            }
        }
        "inv" => {
            for k in 0..count {
                let n = size(r);
                let a = rnd_int(r, n, 5);
                let s = if k % 3 == 0 { if r.chance(0.3) { r.range(5, 12) } else { r.range(-8, 4) } } else { 0 };
                match k % 5 {
                    0 | 1 => go("inv", with(n, s, &a), tr),
                    2 | 3 => {
                        let mut v = with(n, s, &a);
                        v.extend((0..n).map(|_| r.range(-9, 9)));
                        go("solve", v, tr)
                    }
                    _ => {
                        // orthogonal with dyadic entries
                        let a = if n == 4 && r.chance(0.5) { ortho(r, 4).0 } else { perm(r, n) };
                        let s = if a.iter().filter(|x| **x != 0).count() == 16 { -1 } else { 0 };
                        go("adj", with(n, s, &a), tr)
                    }
                }
            }
        }
        "fact" => {
            let mut done = 0;
            while done < count {
                let n = size(r);
                let s = if r.chance(0.3) { r.range(-5, 6) } else { 0 };
                match done % 5 {
                    0 | 1 => {
                        let a = rnd_int(r, n, 5);
                        match lu64(n, &a) {
                            Some((l, u)) if l.iter().all(|x| x.abs() <= 16.0) && u.iter().all(|x| x.abs() <= 200.0) => {
                                go(if done % 5 == 0 { "lr" } else { "crout" }, with(n, s, &a), tr)
                            }
                            _ => continue,
                        }
                    }
                    2 => {
                        let a = rnd_int(r, n, 9);
                        let d = col_distances(n, &a);
                        if d.iter().any(|x| *x > 1e-6 && *x < 0.3) {
                            continue;
                        }
                        if r.chance(0.7) || n == 1 {
                            go("qr", with(n, s, &a), tr)
                        } else {
                            go("qrn", with(n, 0, &nearly_dependent(r, n)), tr)
                        }
                    }
                    3 => {
                        let a = if r.chance(0.6) { gram(r, n) } else { sym(r, n, 5) };
                        let s = 2 * r.range(-3, 3);
                        go("chol", with(n, if r.chance(0.3) { s } else { 0 }, &a), tr)
                    }
                    _ => {
                        let a = rnd_int(r, n, 5);
                        go("lup", with(n, s, &a), tr)
                    }
                }
                done += 1;
            }
        }
        "pred" => {
            for _ in 0..count {
                let (mut rows, mut cols) = (size(r), size(r));
                if r.chance(0.75) {
                    cols = rows;
                }
                let k = r.below(8);
                let mut a: Vec<i64> = (0..rows * cols).map(|_| r.range(-3, 3) * 65536).collect();
                match k {
                    0 => for i in 0..rows { for j in 0..cols { if i > j { a[i * cols + j] = 0 } } },
                    1 => for i in 0..rows { for j in 0..cols { if i < j { a[i * cols + j] = 0 } } },
                    2 => {
                        cols = rows;
                        a = sym(r, rows, 4).iter().map(|x| x * 65536).collect();
                    }
                    3 => {
                        cols = rows;
                        a = gram(r, rows).iter().map(|x| x * 65536).collect();
                    }
                    4 => {
                        rows = cols;
                        a = perm(r, rows).iter().map(|x| x * 65536).collect();
                    }
                    5 => {
                        rows = cols;
                        let (o, d) = ortho(r, rows);
                        a = o.iter().map(|x| (*x as f64 * 65536.0 / d as f64).round() as i64).collect();
                    }
                    6 => {
                        // diagonal, possibly the identity
                        for i in 0..rows { for j in 0..cols { if i != j { a[i * cols + j] = 0 } else if r.chance(0.7) { a[i * cols + j] = 65536 } } }
                    }
                    _ => {}
                }
                // a disturbance below, at or above the tolerance
                if r.chance(0.4) {
                    let t = r.below((rows * cols) as u64) as usize;
                    a[t] += *r.pick(&[3, -3, 6, -6, 7, -7, 16, -16, 655, -655, 65536, -65536]);
                }
                let mut v = vec![rows as i64, cols as i64];
                v.extend(a);
                go("pred", v, tr);
            }
        }
        "eig" => {
            for k in 0..count {
                let n = size(r);
                let shifted = r.chance(0.4);
                let mut v;
                if k % 3 < 2 {
                    // Q D Q^T with known, clearly distinct eigenvalues
                    let (q, d) = ortho(r, n);
                    let pool: &[i64] = &[1, 2, 4, 7, 11, 16];
                    let mut lam: Vec<i64> = vec![];
                    let mut from = r.below(3) as usize;
                    for _ in 0..n {
                        let p = pool[from.min(5)];
                        lam.push(if r.chance(0.5) { p } else { -p });
                        from += 1;
                    }
                    if r.chance(0.15) {
                        lam[0] = 0;
                    }
                    for k in (1..n).rev() {
                        lam.swap(k, r.below(k as u64 + 1) as usize);
                    }
                    let d2 = d * d;
                    // entries are multiples of 1/d2; use eigenvalues d2*lam when d2 is small, else a diagonal matrix
                    let scale = if d2 <= 9 { d2 } else { 1 };
                    let mut a = vec![0i64; n * n];
                    if scale == d2 {
                        for i in 0..n { for j in 0..n { for m in 0..n { a[i * n + j] += q[i * n + m] * q[j * n + m] * lam[m]; } } }
                        // a = d2 * Q D Q^T: its eigenvalues are d2 * lam
                        let l: Vec<i64> = lam.iter().map(|x| x * d2).collect();
                        v = with(n, 0, &a);
                        v.push(*r.pick(&[400, 600]));
                        v.push(shifted as i64);
                        v.extend(l);
                    } else {
                        for i in 0..n { a[i * n + i] = lam[i]; }
                        v = with(n, 0, &a);
                        v.push(*r.pick(&[400, 600]));
                        v.push(shifted as i64);
                        v.extend(lam);
                    }
                } else {
                    let a = sym(r, n, 9);
                    v = with(n, 0, &a);
                    v.push(*r.pick(&[0, 1, 2, 3, 5, 20, 100, 500]));
                    v.push(shifted as i64);
                }
                go("eigen", v, tr);
            }
        }
        other => panic!("unknown family {}", other),
    }
}

/// Entries in 1/1024: one column is a combination of others up to a small disturbance.
fn nearly_dependent(r: &mut Rng, n: usize) -> Vec<i64> {
    loop {
        let mut a: Vec<i64> = (0..n * n).map(|_| r.range(-2, 2) * 1024).collect();
        let t = r.below(n as u64) as usize;
        let (x, y) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
        let (f, g) = (r.range(-1, 1), r.range(-1, 1));
        let size = *r.pick(&[5, 7, 9, 30, 100]);
        for k in 0..n {
            let v = if x == t || y == t { 0 } else { f * a[k * n + x] + g * a[k * n + y] };
            a[k * n + t] = v + r.range(-size, size);
        }
        // at most one column is close to the previous ones, still well above the tolerance away from them
        let d = col_distances(n, &a);
        if d.iter().all(|d| *d > 6.0) && d.iter().filter(|d| **d < 700.0).count() <= 1 {
            return a;
        }
    }
}

fn perm(r: &mut Rng, n: usize) -> Vec<i64> {
    let mut p: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        p.swap(k, r.below(k as u64 + 1) as usize);
    }
    let mut a = vec![0; n * n];
    for k in 0..n {
        a[k * n + p[k]] = if r.chance(0.5) { 1 } else { -1 };
    }
    a
}

fn sym(r: &mut Rng, n: usize, m: i64) -> Vec<i64> {
    let mut a = vec![0; n * n];
    let m = *r.pick(&[1, 2, m]);
    for i in 0..n {
        for j in 0..=i {
            let v = r.range(-m, m);
            a[i * n + j] = v;
            a[j * n + i] = v;
        }
    }
    a
}

/// L L^T for an integer lower factor with positive diagonal.
fn gram(r: &mut Rng, n: usize) -> Vec<i64> {
    let mut l = vec![0i64; n * n];
    for i in 0..n {
        for j in 0..i {
            l[i * n + j] = r.range(-2, 2);
        }
        l[i * n + i] = r.range(1, 3);
    }
    let mut a = vec![0; n * n];
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                a[i * n + j] += l[i * n + k] * l[j * n + k];
            }
        }
    }
    a
}
