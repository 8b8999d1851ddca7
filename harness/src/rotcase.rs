//! Rotation cases: quaternions, matrices, Euler angles, exponential, logarithm, interpolation.
use crate::num::{elems, mat, vect, velems, Case, Obs, ONE};
use crate::out::{guard, Out, Trace};
use crate::tok::Rng;
use linalg::common::LinalgError;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion;

/// Rotation matrix of a unit quaternion, in f64.
pub fn dcm64(q: &[f64]) -> [f64; 9] {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    [
        w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y),
        2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x),
        2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z,
    ]
}

pub fn f32s(v: &[f64]) -> Vec<f32> {
    v.iter().map(|x| *x as f32).collect()
}

pub fn axis_angle(a: &[f64; 3], t: f64) -> [f64; 4] {
    let (s, c) = (t / 2.0).sin_cos();
    [c, s * a[0], s * a[1], s * a[2]]
}

pub fn call(c: &Case, obs: &mut Obs) -> Option<Result<(), Out>> {
    let f = &c.f;
    Some(match c.op.as_str() {
        "dcm" => (|| {
            let (q, v) = (vect(&f[0..4]), vect(&f[4..7]));
            obs.mat(&guard(|| q.convert_to_dcm())?, ONE);
            obs.vec(&guard(|| q.rotate(&v))?, ONE);
            let mut w = vect(&f[4..7]);
            guard(|| q.rotate_in_place(&mut w))?;
            obs.vec(&w, ONE);
            obs.mat(&guard(|| q.conjugate_new()?.convert_to_dcm())?, ONE);
            let n = vect(&f[0..4].iter().map(|x| -x).collect::<Vec<f32>>());
            obs.mat(&guard(|| n.convert_to_dcm())?, ONE);
            Ok(())
        })(),
        "comp" => (|| {
            let (p, q) = (vect(&f[0..4]), vect(&f[4..8]));
            let pq = guard(|| Quaternion::mul_new(&p, &q))?;
            obs.mat(&guard(|| pq.convert_to_dcm())?, ONE);
            obs.mat(&guard(|| p.convert_to_dcm())?, ONE);
            obs.mat(&guard(|| q.convert_to_dcm())?, ONE);
            Ok(())
        })(),
        "extract" => (|| {
            // i = [method, threshold in 1/64 or -1000 for none]
            let q64: Vec<f64> = f[0..4].iter().map(|x| *x as f64).collect();
            let n = q64.iter().map(|x| x * x).sum::<f64>().sqrt();
            let u: Vec<f64> = q64.iter().map(|x| x / n).collect();
            let m = mat(3, 3, &f32s(&dcm64(&u)));
            // the quaternion written to holds something else before
            let mut q = vect(&[0.5, -0.5, 0.5, -0.5]);
            guard(|| match c.i[0] {
                0 => q.hughes(&m),
                1 => q.chiaverini(&m),
                _ => q.sarabandi(&m, if c.i[1] == -1000 { None } else { Some(c.i[1] as f32 / 64.0) }),
            })?;
            obs.vec(&q, ONE);
            obs.vec(&q, 256.0 * ONE);
            Ok(())
        })(),
        "euler" => (|| {
            let q = vect(&f[0..4]);
            let (a, b, g) = guard(|| q.convert_to_euler())?;
            obs.push(&[a, b, g], ONE);
            Ok(())
        })(),
        "exp" => (|| {
            let q = vect(&f[0..4]);
            let mut p = vect(&f[0..4]);
            guard(|| p.exp())?;
            obs.vec(&p, ONE);
            obs.vec(&guard(|| q.exp_new())?, ONE);
            obs.vec(&q, ONE);
            Ok(())
        })(),
        "log" => (|| {
            let m = mat(3, 3, &f[4..13]);
            obs.mat(&guard(|| m.log())?, ONE);
            let mut w = mat(3, 3, &f[4..13]);
            guard(|| w.log_in_place())?;
            obs.mat(&w, ONE);
            obs.push(&elems(&m), ONE);
            Ok(())
        })(),
        "logaa" => (|| {
            // f = [axis, angle]; the axis need not be a unit vector
            let n = (0..3).map(|k| f[k] as f64 * f[k] as f64).sum::<f64>().sqrt();
            let a = [f[0] as f64 / n, f[1] as f64 / n, f[2] as f64 / n];
            let e = f32s(&dcm64(&axis_angle(&a, f[3] as f64)));
            let m = mat(3, 3, &e);
            obs.mat(&guard(|| m.log())?, ONE);
            let mut w = mat(3, 3, &e);
            guard(|| w.log_in_place())?;
            obs.mat(&w, ONE);
            obs.push(&elems(&m), ONE);
            obs.push(&e, ONE);
            Ok(())
        })(),
        "slerp" | "lerp" => (|| {
            // i = [size], f = [fraction, u, v]
            let n = c.i[0] as usize;
            let (u, v) = (vect(&f[1..n + 1]), vect(&f[n + 1..2 * n + 1]));
            let mut r: Vector<f32> = Vector::new();
            guard(|| -> Result<(), LinalgError> {
                r.init(n as u8)?;
                r.fill(0.75)?;
                if c.op == "slerp" { r.slerp(&u, &v, f[0]) } else { r.lerp(&u, &v, f[0]) }
            })?;
            obs.push(&velems(&r), ONE);
            Ok(())
        })(),
        _ => return None,
    })
}

/// Unit quaternions: random, Hurwitz, about coordinate and diagonal axes, small and large angles.
pub fn quat(r: &mut Rng) -> [f64; 4] {
    match r.below(6) {
        0 => {
            let mut q = [0.0; 4];
            if r.chance(0.5) {
                q[r.below(4) as usize] = if r.chance(0.5) { 1.0 } else { -1.0 };
            } else {
                for k in 0..4 {
                    q[k] = if r.chance(0.5) { 0.5 } else { -0.5 };
                }
            }
            q
        }
        1 => {
            let a = axis(r);
            let t = *r.pick(&[0.0003, 0.001, 0.003, 0.01, 0.03, 0.1, 0.5, 1.0, 1.5707963, 2.0, 2.5, 3.0, 3.1]) * if r.chance(0.5) { 1.0 } else { -1.0 };
            axis_angle(&a, t)
        }
        2 => {
            // rational: square of a small integer quaternion over its norm
            let p: Vec<f64> = (0..4).map(|_| r.range(-3, 3) as f64).collect();
            let n: f64 = p.iter().map(|x| x * x).sum();
            if n == 0.0 {
                return [1.0, 0.0, 0.0, 0.0];
            }
            [(2.0 * p[0] * p[0] - n) / n, 2.0 * p[0] * p[1] / n, 2.0 * p[0] * p[2] / n, 2.0 * p[0] * p[3] / n]
        }
        _ => r.quat(),
    }
}

pub fn axis(r: &mut Rng) -> [f64; 3] {
    match r.below(3) {
        0 => {
            let mut a = [0.0; 3];
            a[r.below(3) as usize] = if r.chance(0.5) { 1.0 } else { -1.0 };
            a
        }
        1 => {
            let a = [r.range(-1, 1) as f64, r.range(-1, 1) as f64, r.range(-1, 1) as f64];
            let n = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
            if n == 0.0 { r.dir() } else { [a[0] / n, a[1] / n, a[2] / n] }
        }
        _ => r.dir(),
    }
}

pub fn generate(tr: &mut Trace, fam: &str, r: &mut Rng, count: u64) -> bool {
    match fam {
        "dcm" => {
            for k in 0..count {
                let q = quat(r);
                if k % 2 == 0 {
                    let s = *r.pick(&[0.1, 1.0, 7.0]);
                    let v = r.dir();
                    let mut f = f32s(&q);
                    f.extend(f32s(&[v[0] * s, v[1] * s, v[2] * s]));
                    Case::new("dcm", vec![], f).run(tr);
                } else {
                    let p = quat(r);
                    let mut f = f32s(&q);
                    f.extend(f32s(&p));
                    Case::new("comp", vec![], f).run(tr);
                }
            }
        }
        "extract" => {
            for k in 0..count {
                let a = axis(r);
                let t = match r.below(7) {
                    0 => 0.0,
                    1 => std::f64::consts::PI,
                    6 => *r.pick(&[0.0001, 0.0005, 0.002, 0.01, 0.03, 3.13, 3.137, 3.1401, 3.1406, 3.1413]),
                    2 => *r.pick(&[0.05, 0.1, 1.0, 1.5707963267948966, 2.0943951023931953, 3.0, 3.12]),
                    _ => 0.05 + r.unit() * 3.07,
                };
                let mut q = axis_angle(&a, t);
                if r.chance(0.3) {
                    q = [-q[0], -q[1], -q[2], -q[3]];
                }
                let eta = if r.chance(0.5) { -1000 } else { r.range(-32, 64) };
                Case::new("extract", vec![(k % 3) as i64, eta], f32s(&q)).run(tr);
            }
        }
        "euler" => {
            for k in 0..count {
                let q = match k % 4 {
                    0 => {
                        // vertical pitch, exactly or nearly
                        let h = std::f64::consts::FRAC_PI_4 * if r.chance(0.5) { 1.0 } else { -1.0 } + r.sym() * *r.pick(&[0.0, 0.0, 1e-7, 1e-6, 1e-4, 1e-2]);
                        let z = r.sym() * 3.15;
                        let (sz, cz) = (z / 2.0).sin_cos();
                        let (sy, cy) = h.sin_cos();
                        // yaw then pitch: (cz + sz k)(cy + sy j)
                        [cz * cy, -sz * sy, cz * sy, sz * cy]
                    }
                    _ => quat(r),
                };
                Case::new("euler", vec![], f32s(&q)).run(tr);
            }
        }
        "exp" => {
            for k in 0..count {
                if k % 2 == 0 {
                    let w = match r.below(6) { 0 => 0.0, 1 => r.sym() * 4.0, 2 => -4.0 + r.unit() * 0.5, _ => r.sym() * 2.0 };
                    let n = match r.below(4) {
                        0 => *r.pick(&[0.0, 0.0, 1.5707963, 3.1415927, 6.2831853]),
                        1 => r.unit() * 0.1,
                        _ => r.unit() * 6.28,
                    };
                    let v = axis(r);
                    Case::new("exp", vec![], f32s(&[w, n * v[0], n * v[1], n * v[2]])).run(tr);
                } else {
                    let a = axis(r);
                    let t = match r.below(4) { 0 => 0.0, 1 => r.unit() * 0.05, _ => r.unit() * 3.0 };
                    let m = dcm64(&axis_angle(&a, t));
                    let mut f = f32s(&a);
                    f.push(t as f32);
                    f.extend(f32s(&m));
                    Case::new("log", vec![], f).run(tr);
                }
            }
        }
        "interp" => {
            for k in 0..count {
                let n = *r.pick(&[2usize, 3, 4, 4]);
                let q = quat(r);
                let dir = |q: &[f64; 4]| -> Vec<f64> {
                    let s = q[..n].iter().map(|x| x * x).sum::<f64>().sqrt();
                    if s < 0.1 { let mut e = vec![0.0; n]; e[0] = 1.0; e } else { q[..n].iter().map(|x| x / s).collect() }
                };
                let u = dir(&q);
                let v = match r.below(10) {
                    0 => u.clone(),
                    // close to each other
                    1 | 2 => {
                        let e = *r.pick(&[0.0003, 0.001, 0.01, 0.05, 0.2]);
                        let w: Vec<f64> = u.iter().map(|x| x + e * r.sym()).collect();
                        let s = w.iter().map(|x| x * x).sum::<f64>().sqrt();
                        w.iter().map(|x| x / s).collect()
                    }
                    _ => dir(&quat(r)),
                };
                let d: f64 = u.iter().zip(&v).map(|(a, b)| a * b).sum();
                if d < -0.999 {
                    continue;
                }
                let t = match r.below(4) { 0 => *r.pick(&[0.0, 1.0, 0.5, 0.25]), _ => r.unit() };
                let mut f = vec![t as f32];
                f.extend(f32s(&u));
                f.extend(f32s(&v));
                Case::new(if k % 3 == 0 { "lerp" } else { "slerp" }, vec![n as i64], f).run(tr);
            }
        }
        _ => return false,
    }
    true
}
