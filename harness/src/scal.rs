//! Scalar helpers and complex registers.
use crate::num::float;
use crate::out::{begin, guard, Out, Trace};
use crate::tok::*;
use dsp::complex::Complex;
use linalg::common::{is_valid_col, is_valid_cols_number, is_valid_row, is_valid_rows_number};
use utils::utils as ut;
use utils::utils::Sign;

pub struct Scal {
    z: Vec<Complex>,
}

type Res = Result<(), Out>;

impl Scal {
    pub fn new() -> Self {
        Scal { z: vec![Complex::new(0.0, 0.0).unwrap(); 4] }
    }

    fn call(&mut self, op: &str, i: &[i64], f: &[f32], v: &mut Vec<i64>) -> Res {
        let z = &mut self.z;
        let d = if op.starts_with("z_") { i[0] as usize } else { 0 };
        let pair = |z: &Vec<Complex>| (z[i[1] as usize], z[i[2] as usize]);
        let n = |k: usize| i[k] as i32;
        let g = |k: usize| i[k] as f64 / 64.0;
        let bits = |x: f32| x.to_bits() as i32 as i64;
        let q = |x: f64| (x * 64.0) as i64;
        // helpers that return a plain value; a panic is data
        macro_rules! plain {
            ($e:expr) => {{
                let r = guard(|| Ok::<i64, ()>($e))?;
                v.push(r);
                Ok(())
            }};
        }
        match op {
            "z_new" => guard(|| Complex::new(f[0], f[1])).map(|x| z[d] = x),
            "z_re" => guard(|| z[d].set_real_part(f[0])),
            "z_im" => guard(|| z[d].set_imaginary_part(f[0])),
            "z_polar" => guard(|| z[d].convert_from_polar(f[0], f[1])),
            "z_neg" => guard(|| z[d].neg()),
            "z_conj" => guard(|| z[d].conjugate()),
            "z_exp" => guard(|| z[d].expo()),
            "z_mod" => guard(|| z[d].calculate_module()).map(|x| v.push(bits(x))),
            "z_add" | "z_sub" | "z_mul" | "z_div" => {
                let (a, b) = pair(z);
                let t = &mut z[d];
                guard(|| match op {
                    "z_add" => t.add(&a, &b),
                    "z_sub" => t.sub(&a, &b),
                    "z_mul" => t.mul(&a, &b),
                    _ => t.div(&a, &b),
                })
            }
            "z_swap" => {
                let e = i[1] as usize;
                if d == e {
                    return Ok(());
                }
                let (lo, hi) = (d.min(e), d.max(e));
                let (p, r) = z.split_at_mut(hi);
                let (x, y) = if d < e { (&mut p[lo], &mut r[0]) } else { (&mut r[0], &mut p[lo]) };
                guard(|| x.swap(y))
            }
            "u_valid" => guard(|| ut::is_valid_value(f[0])),
            "u_close" => {
                // both orders, each with its own outcome; the first decides that of the call
                let r = guard(|| ut::allclose(f[0], f[1], f[2]));
                let t = guard(|| ut::allclose(f[1], f[0], f[2]));
                v.push(*r.as_ref().map_or(&2, |b| if *b { &1 } else { &0 }));
                v.push(*t.as_ref().map_or(&2, |b| if *b { &1 } else { &0 }));
                r.map(|_| ())
            }
            "u_frange" => plain!(ut::in_range(f[0], f[1], f[2]) as i64),
            "u_fmin" => plain!(bits(ut::minf(f[0], f[1]))),
            "u_fmax" => plain!(bits(ut::maxf(f[0], f[1]))),
            "u_fclip" => plain!(bits(ut::clip(f[0], f[1], f[2]))),
            "u_fsign" => plain!(bits(f[0].sign())),
            "u_irange" => plain!(ut::in_range(n(0), n(1), n(2)) as i64),
            "u_imin" => plain!(ut::min(n(0), n(1)) as i64),
            "u_imax" => plain!(ut::max(n(0), n(1)) as i64),
            "u_iclip" => plain!(ut::clip(n(0), n(1), n(2)) as i64),
            "u_isign" => plain!(n(0).sign() as i64),
            "u_brange" => plain!(ut::in_range(i[0] as u8, i[1] as u8, i[2] as u8) as i64),
            "u_bmin" => plain!(ut::min(i[0] as u8, i[1] as u8) as i64),
            "u_bmax" => plain!(ut::max(i[0] as u8, i[1] as u8) as i64),
            "u_bclip" => plain!(ut::clip(i[0] as u8, i[1] as u8, i[2] as u8) as i64),
            "u_drange" => plain!(ut::in_range(g(0), g(1), g(2)) as i64),
            "u_dmin" => plain!(q(ut::minf(g(0), g(1)))),
            "u_dmax" => plain!(q(ut::maxf(g(0), g(1)))),
            "u_dclip" => plain!(q(ut::clip(g(0), g(1), g(2)))),
            "u_dsign" => plain!(q(g(0).sign()) / 64),
            "u_fact" => {
                // decimal, four digits at a time, least significant first
                let mut r = guard(|| Ok::<u64, ()>(ut::factorial(i[0] as u8)))?;
                while r > 0 {
                    v.push((r % 10000) as i64);
                    r /= 10000;
                }
                Ok(())
            }
            "u_rows" => guard(|| is_valid_rows_number(i[0] as u8)),
            "u_cols" => guard(|| is_valid_cols_number(i[0] as u8)),
            "u_row" => guard(|| is_valid_row(i[0] as u8, i[1] as u8)),
            "u_col" => guard(|| is_valid_col(i[0] as u8, i[1] as u8)),
            other => panic!("unknown call {}", other),
        }
    }

    pub fn exec(&mut self, op: &str, i: &[i64], f: &[f32], tr: &mut Trace) {
        let fl: Vec<String> = f.iter().map(|x| format!("x{:08x}", x.to_bits())).collect();
        let il: Vec<String> = i.iter().map(|x| x.to_string()).collect();
        let line = format!("{} {} | {}", op, il.join(" "), fl.join(" "));
        begin(&line);
        let mut v = vec![];
        let out = match self.call(op, i, f, &mut v) {
            Ok(()) => Out::Ok,
            Err(o) => o,
        };
        let bits: Vec<i32> = f.iter().map(|x| x.to_bits() as i32).collect();
        // a returned modulus as a token, too
        let m: Vec<f32> = if op == "z_mod" { v.iter().map(|x| f32::from_bits(*x as i32 as u32)).collect() } else { vec![] };
        let z: Vec<String> = self
            .z
            .iter()
            .map(|c| {
                let part = |r: Result<f32, Out>| match r {
                    Ok(x) => tok(x),
                    Err(_) => "[11,0]".into(),
                };
                format!("[{},{}]", part(guard(|| c.get_real_part())), part(guard(|| c.get_imaginary_part())))
            })
            .collect();
        tr.event(
            &format!(
                "\"op\":\"{}\",\"i\":{},\"t\":{},\"w\":{},{},\"v\":{},\"m\":{},\"z\":[{}]",
                op, ints(i), toks(f), ints(&bits), out.json(), ints(&v), toks(&m), z.join(",")
            ),
            &line,
        );
    }

    pub fn script(text: &str, tr: &mut Trace) {
        let mut m = Scal::new();
        for line in text.lines() {
            let Some((a, b)) = line.split_once('|') else { continue };
            let mut it = a.split_whitespace();
            let Some(op) = it.next() else { continue };
            let i: Vec<i64> = it.map(|x| x.parse().unwrap()).collect();
            let f: Vec<f32> = b.split_whitespace().map(float).collect();
            m.exec(op, &i, &f, tr);
        }
    }
}

// ---- generation -----------------------------------------------------------------------------

fn special(r: &mut Rng) -> f32 {
    *r.pick(&[
        f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 3.0e38, -3.0e38, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1.0e-40, -1.0e-40,
        -0.0, 0.0, 1.0e-4, -1.0e-4, 0.99e-4, 1.01e-4, 1.0e20,
    ])
}

fn part(r: &mut Rng, wild: f64) -> f32 {
    if r.chance(wild) {
        return special(r);
    }
    match r.below(12) {
        0 => 0.0,
        8 => r.scaled(-12, 12),
        9 => r.scaled(5, 9),
        1 | 2 => r.range(-2, 2) as f32,
        3 | 4 | 5 => r.range(-256, 256) as f32 / 64.0,
        6 => r.range(-4096, 4096) as f32 / 64.0,
        7 => r.sym() as f32,
        _ => (r.sym() * 7.0) as f32,
    }
}

pub fn generate(tr: &mut Trace, fam: &str, seed: u64, count: u64) {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut m = Scal::new();
    match fam {
        "cplx" | "cplxw" => {
            let wild = if fam == "cplx" { 0.01 } else { 0.12 };
            while tr.events < count {
                let d = r.below(4) as i64;
                let (a, b) = (r.below(4) as i64, r.below(4) as i64);
                match r.below(22) {
                    0 | 1 | 2 => m.exec("z_new", &[d], &[part(r, wild), part(r, wild)], tr),
                    3 => m.exec("z_re", &[d], &[part(r, wild)], tr),
                    4 => m.exec("z_im", &[d], &[part(r, wild)], tr),
                    5 | 6 => {
                        let th = if r.chance(0.5) { (r.sym() * 3.2) as f32 } else { part(r, wild) };
                        m.exec("z_polar", &[d], &[part(r, wild), th], tr)
                    }
                    7 => m.exec("z_neg", &[d], &[], tr),
                    8 => m.exec("z_conj", &[d], &[], tr),
                    9 | 10 => {
                        if r.chance(0.7) {
                            m.exec("z_new", &[d], &[(r.sym() * 3.0) as f32, part(r, wild)], tr);
                        } else if r.chance(0.3) {
                            m.exec("z_new", &[d], &[(-r.unit() * 12.0) as f32, part(r, wild)], tr);
                        }
                        m.exec("z_exp", &[d], &[], tr)
                    }
                    11 | 12 => m.exec("z_mod", &[d], &[], tr),
                    13 | 14 => m.exec("z_add", &[d, a, b], &[], tr),
                    15 | 16 => m.exec("z_sub", &[d, a, b], &[], tr),
                    17 | 18 => m.exec("z_mul", &[d, a, b], &[], tr),
                    19 | 20 => m.exec("z_div", &[d, a, b], &[], tr),
                    _ => m.exec("z_swap", &[d, a], &[], tr),
                }
            }
        }
        // every triple of a small range for the integer helpers, every byte for the factorial
        "ints" => {
            let s: Vec<i64> = (-3..=3).collect();
            for n in 0..=20 {
                m.exec("u_fact", &[n], &[], tr);
            }
            let wide = [i32::MIN as i64 + 1, -70000, -1, 0, 1, 70000, i32::MAX as i64];
            for set in [&s[..], &wide[..]] {
                for &a in set {
                    m.exec("u_isign", &[a], &[], tr);
                    m.exec("u_dsign", &[a], &[], tr);
                    for &b in set {
                        for op in ["u_imin", "u_imax", "u_dmin", "u_dmax"] {
                            m.exec(op, &[a, b], &[], tr);
                        }
                        for &c in set {
                            for op in ["u_irange", "u_iclip", "u_drange", "u_dclip"] {
                                m.exec(op, &[a, b, c], &[], tr);
                            }
                        }
                    }
                }
            }
            let bytes = [0, 1, 2, 127, 128, 254, 255];
            for a in bytes {
                for b in bytes {
                    m.exec("u_bmin", &[a, b], &[], tr);
                    m.exec("u_bmax", &[a, b], &[], tr);
                    for c in bytes {
                        m.exec("u_brange", &[a, b, c], &[], tr);
                        m.exec("u_bclip", &[a, b, c], &[], tr);
                    }
                }
            }
        }
        // every byte as a size, as an index and as an argument of the factorial
        "bytes" => {
            for n in 0..256 {
                m.exec("u_rows", &[n], &[], tr);
                m.exec("u_cols", &[n], &[], tr);
                m.exec("u_fact", &[n], &[], tr);
                for k in [0, 1, 2, 3, 4, 5, 127, 128, 254, 255] {
                    m.exec("u_row", &[n, k], &[], tr);
                    m.exec("u_col", &[n, k], &[], tr);
                }
            }
        }
        // every triple of interesting floats
        "floats" => {
            let s = [
                f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, -0.0, 0.0, 1.0e-40, -1.0e-40, 1.0, -1.0, 0.5, 1.0 + f32::EPSILON,
            ];
            for a in s {
                m.exec("u_valid", &[], &[a], tr);
                m.exec("u_fsign", &[], &[a], tr);
                for b in s {
                    m.exec("u_fmin", &[], &[a, b], tr);
                    m.exec("u_fmax", &[], &[a, b], tr);
                    for c in s {
                        m.exec("u_frange", &[], &[a, b, c], tr);
                        m.exec("u_fclip", &[], &[a, b, c], tr);
                        m.exec("u_close", &[], &[a, b, c], tr);
                    }
                }
            }
        }
        "util" => {
            while tr.events < count {
                let mut x = || {
                    let v = if r.chance(0.1) { special(r) } else { part(r, 0.05) };
                    if r.chance(0.2) { f32::from_bits(r.next() as u32) } else { v }
                };
                let (a, mut b, mut c) = (x(), x(), x());
                match r.below(8) {
                    0 => m.exec("u_valid", &[], &[a], tr),
                    1 => m.exec("u_fsign", &[], &[a], tr),
                    2 => m.exec("u_fmin", &[], &[a, b], tr),
                    3 => m.exec("u_fmax", &[], &[a, b], tr),
                    4 => {
                        if r.chance(0.2) { b = a }
                        if r.chance(0.2) { c = a }
                        m.exec("u_frange", &[], &[a, b, c], tr)
                    }
                    5 => m.exec("u_fclip", &[], &[a, b, c], tr),
                    _ => {
                        // differences at, just below and just above the deviation
                        let k = r.range(-200, 200) as f32 / 64.0;
                        let e = r.range(0, 64) as f32 / 64.0;
                        match r.below(5) {
                            0 => m.exec("u_close", &[], &[k, k + e, e], tr),
                            1 => m.exec("u_close", &[], &[k, k - e, e - 1.0 / 64.0], tr),
                            2 => m.exec("u_close", &[], &[k, k + e, e + 1.0 / 64.0], tr),
                            3 => m.exec("u_close", &[], &[k, k, a], tr),
                            _ => m.exec("u_close", &[], &[a, b, c], tr),
                        }
                    }
                }
            }
        }
        other => panic!("unknown family {}", other),
    }
}
