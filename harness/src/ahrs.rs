//! Sensors and filters driven through their public API, one event per call; what is readable
//! afterwards (configuration, measurement, attitude) is part of the event.
use crate::num::float;
use crate::out::{begin, capture, guard, shown, Out, Trace};
use crate::rotcase::{axis, dcm64, f32s, quat};
use crate::tok::*;
use linalg::vector::Vector;
use open_ahrs::accelerometer::{Accelerometer, AccelerometerConfig};
use open_ahrs::aqua::{Aqua, Mode};
use open_ahrs::ar::AR;
use open_ahrs::common::{NumericalIntegrationMethod as NIM, OpenAHRSError};
use open_ahrs::davenport::Davenport;
use open_ahrs::gyrometer::{Gyrometer, GyrometerConfig};
use open_ahrs::magnetometer::{Magnetometer, MagnetometerConfig};

pub const IDENT: [f32; 12] = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];

fn gcfg(v: &[f32]) -> GyrometerConfig {
    let mut c = GyrometerConfig::default();
    if v.is_empty() {
        return c;
    }
    c.x_axis_scale_correction = v[0];
    c.y_axis_scale_correction = v[1];
    c.z_axis_scale_correction = v[2];
    c.xy_axes_misalignment_correction = v[3];
    c.xz_axes_misalignment_correction = v[4];
    c.yx_axes_misalignment_correction = v[5];
    c.yz_axes_misalignment_correction = v[6];
    c.zx_axes_misalignment_correction = v[7];
    c.zy_axes_misalignment_correction = v[8];
    c.x_axis_static_bias = v[9];
    c.y_axis_static_bias = v[10];
    c.z_axis_static_bias = v[11];
    c
}

fn acfg(v: &[f32]) -> AccelerometerConfig {
    let mut c = AccelerometerConfig::default();
    if v.is_empty() {
        return c;
    }
    c.x_axis_scale_correction = v[0];
    c.y_axis_scale_correction = v[1];
    c.z_axis_scale_correction = v[2];
    c.xy_axes_misalignment_correction = v[3];
    c.xz_axes_misalignment_correction = v[4];
    c.yx_axes_misalignment_correction = v[5];
    c.yz_axes_misalignment_correction = v[6];
    c.zx_axes_misalignment_correction = v[7];
    c.zy_axes_misalignment_correction = v[8];
    c.x_axis_static_bias = v[9];
    c.y_axis_static_bias = v[10];
    c.z_axis_static_bias = v[11];
    c
}

fn mcfg(v: &[f32]) -> MagnetometerConfig {
    let mut c = MagnetometerConfig::default();
    if v.is_empty() {
        return c;
    }
    c.x_axis_scale_correction = v[0];
    c.y_axis_scale_correction = v[1];
    c.z_axis_scale_correction = v[2];
    c.xy_soft_iron_correction = v[3];
    c.xz_soft_iron_correction = v[4];
    c.yx_soft_iron_correction = v[5];
    c.yz_soft_iron_correction = v[6];
    c.zx_soft_iron_correction = v[7];
    c.zy_soft_iron_correction = v[8];
    c.x_axis_hard_iron_bias = v[9];
    c.y_axis_hard_iron_bias = v[10];
    c.z_axis_hard_iron_bias = v[11];
    c
}

fn gvals(c: GyrometerConfig) -> Vec<f32> {
    vec![
        c.x_axis_scale_correction, c.y_axis_scale_correction, c.z_axis_scale_correction,
        c.xy_axes_misalignment_correction, c.xz_axes_misalignment_correction, c.yx_axes_misalignment_correction,
        c.yz_axes_misalignment_correction, c.zx_axes_misalignment_correction, c.zy_axes_misalignment_correction,
        c.x_axis_static_bias, c.y_axis_static_bias, c.z_axis_static_bias,
    ]
}

fn avals(c: AccelerometerConfig) -> Vec<f32> {
    vec![
        c.x_axis_scale_correction, c.y_axis_scale_correction, c.z_axis_scale_correction,
        c.xy_axes_misalignment_correction, c.xz_axes_misalignment_correction, c.yx_axes_misalignment_correction,
        c.yz_axes_misalignment_correction, c.zx_axes_misalignment_correction, c.zy_axes_misalignment_correction,
        c.x_axis_static_bias, c.y_axis_static_bias, c.z_axis_static_bias,
    ]
}

fn mvals(c: MagnetometerConfig) -> Vec<f32> {
    vec![
        c.x_axis_scale_correction, c.y_axis_scale_correction, c.z_axis_scale_correction,
        c.xy_soft_iron_correction, c.xz_soft_iron_correction, c.yx_soft_iron_correction,
        c.yz_soft_iron_correction, c.zx_soft_iron_correction, c.zy_soft_iron_correction,
        c.x_axis_hard_iron_bias, c.y_axis_hard_iron_bias, c.z_axis_hard_iron_bias,
    ]
}

fn vals(v: Vector<f32>) -> Vec<f32> {
    crate::num::velems(&v)
}

/// Tokens of a readable value, or nothing; and the error, if any.
fn seen(r: Result<Vec<f32>, Out>) -> (String, String) {
    match r {
        Ok(v) => (toks(&v), String::new()),
        Err(Out::Err(e)) => ("[]".into(), e),
        Err(o) => ("[]".into(), o.status().into()),
    }
}

pub struct Ahrs {
    gyr: Gyrometer,
    acc: Accelerometer,
    mag: Magnetometer,
    ar: AR,
    aq: Aqua,
    dv: Davenport,
}

impl Ahrs {
    pub fn new() -> Self {
        Ahrs {
            gyr: Gyrometer::new().unwrap(),
            acc: Accelerometer::new().unwrap(),
            mag: Magnetometer::new().unwrap(),
            ar: AR::new().unwrap(),
            aq: Aqua::new().unwrap(),
            dv: Davenport::new().unwrap(),
        }
    }

    fn opt(on: bool, v: f32) -> Option<f32> {
        if on { Some(v) } else { None }
    }

    fn aq_init(aq: &mut Aqua, i: &[i64], f: &[f32]) -> Result<(), OpenAHRSError> {
        // i = [mode, quaternion mask, gyrometer config, adaptive, g given, h given]
        // f = [q, ts, alpha, beta, t1, t2, t_acc, t_mag, g, h, three configurations]
        let q = |k: usize| Self::opt((i[1] >> k) & 1 == 1, f[k]);
        let g = gcfg(&f[13..25]);
        aq.init(
            if i[0] == 0 { Mode::MARG } else { Mode::AM },
            q(0), q(1), q(2), q(3),
            if i[2] == 1 { Some(&g) } else { None },
            &acfg(&f[25..37]), &mcfg(&f[37..49]),
            f[4], i[3] == 1, f[5], f[6], f[7], f[8], f[9], f[10],
            Self::opt(i[4] == 1, f[11]), Self::opt(i[5] == 1, f[12]),
        )
    }

    fn call(&mut self, op: &str, i: &[i64], f: &[f32], extra: &mut String) -> Result<(), Out> {
        match op {
            "s_new" => guard(|| match i[0] {
                0 => Gyrometer::new().map(|x| self.gyr = x),
                1 => Accelerometer::new().map(|x| self.acc = x),
                _ => Magnetometer::new().map(|x| self.mag = x),
            }),
            "s_init" => guard(|| match i[0] {
                0 => self.gyr.init(&gcfg(f)),
                1 => self.acc.init(&acfg(f)),
                _ => self.mag.init(&mcfg(f)),
            }),
            "s_set" => guard(|| match i[0] {
                0 => self.gyr.set_config(&gcfg(f)),
                1 => self.acc.set_config(&acfg(f)),
                _ => self.mag.set_config(&mcfg(f)),
            }),
            "s_upd" => guard(|| match i[0] {
                0 => self.gyr.update(f[0], f[1], f[2]),
                1 => self.acc.update(f[0], f[1], f[2]),
                _ => self.mag.update(f[0], f[1], f[2]),
            }),
            "ar_new" => guard(|| AR::new().map(|x| self.ar = x)),
            "ar_init" => guard(|| {
                let m = match i[0] {
                    0 => NIM::ClosedForm,
                    1 => NIM::TaylorSeries,
                    2 => NIM::Euler,
                    3 => NIM::AdamsBashforth,
                    _ => NIM::RungeKutta,
                };
                self.ar.init(f[0], f[1], f[2], f[3], &gcfg(&f[5..17]), f[4], m, i[1] as u8)
            }),
            "ar_upd" => guard(|| self.ar.update(f[0], f[1], f[2])),
            #[cfg(feature = "std")]
            "ar_show" => {
                let (r, text) = capture(|| guard(|| self.ar.print_attitude()));
                extra.push_str(&format!(",\"o\":{}", shown(&text)));
                r
            }
            #[cfg(not(feature = "std"))]
            "ar_show" => guard(|| self.ar.get_attitude()).map(|_| ()),
            "ar_hold" => {
                // i = [count, direction, length of the direction, scale, sampling period in 1/64, method, order];
                // rate = direction * scale / 64
                let mut ar = AR::new().unwrap();
                let w = |k: usize| (i[k] * i[5]) as f32 / 64.0;
                let (x, y, z) = (w(1), w(2), w(3));
                guard(|| {
                    let m = match i[7] { 0 => NIM::ClosedForm, 1 => NIM::TaylorSeries, _ => NIM::Euler };
                    ar.init(f[0], f[1], f[2], f[3], &gcfg(&IDENT), i[6] as f32 / 64.0, m, i[8] as u8)?;
                    for _ in 0..i[0] {
                        ar.update(x, y, z)?;
                    }
                    Ok::<(), OpenAHRSError>(())
                })?;
                *extra = format!(",\"f\":{}", toks(&guard(|| ar.get_attitude()).map(vals)?));
                Ok(())
            }
            "aq_new" => guard(|| Aqua::new().map(|x| self.aq = x)),
            "aq_init" => guard(|| Self::aq_init(&mut self.aq, i, f)),
            "aq_set" => guard(|| match i[0] {
                0 => self.aq.set_gyrometer_config(&gcfg(f)),
                1 => self.aq.set_accelerometer_config(&acfg(f)),
                _ => self.aq.set_magnetometer_config(&mcfg(f)),
            }),
            "aq_upd" => {
                let g = |k: usize| Self::opt((i[0] >> k) & 1 == 1, f[k]);
                guard(|| self.aq.update(g(0), g(1), g(2), f[3], f[4], f[5], f[6], f[7], f[8]))
            }
            "aq_conv" => {
                // i = [count, adaptive, disturbed samples], f = [q, ts, alpha, beta, t1, t2, t_acc, t_mag, g, h,
                // acceleration, field, disturbance rate, disturbance acceleration]
                let mut fv: Vec<f32> = f[0..13].to_vec();
                for _ in 0..3 {
                    fv.extend(IDENT);
                }
                let mut aq = Aqua::new().unwrap();
                let mut am = Aqua::new().unwrap();
                let mut dev: f64 = 0.0;
                guard(|| {
                    Self::aq_init(&mut am, &[1, 0, 0, 0, 0, 0], &fv)?;
                    am.update(None, None, None, f[13], f[14], f[15], f[16], f[17], f[18])?;
                    Self::aq_init(&mut aq, &[0, 15, 1, i[1], 1, 1], &fv)?;
                    let d = &f[19..25];
                    for n in 0..i[0] + i[2] {
                        if n < i[2] {
                            aq.update(Some(d[0]), Some(d[1]), Some(d[2]), d[3], d[4], d[5], f[16], f[17], f[18])?;
                        } else {
                            aq.update(Some(0.0), Some(0.0), Some(0.0), f[13], f[14], f[15], f[16], f[17], f[18])?;
                        }
                        let a = vals(aq.get_attitude()?);
                        let s: f64 = a.iter().map(|x| *x as f64 * *x as f64).sum();
                        let e = (s - 1.0).abs();
                        dev = if e.is_nan() { f64::INFINITY } else { dev.max(e) };
                    }
                    Ok::<(), OpenAHRSError>(())
                })?;
                *extra = format!(
                    ",\"f\":{},\"am\":{},\"dev\":{}",
                    toks(&guard(|| aq.get_attitude()).map(vals)?), toks(&guard(|| am.get_attitude()).map(vals)?), fx64(dev)
                );
                Ok(())
            }
            "dv_new" => guard(|| Davenport::new().map(|x| self.dv = x)),
            "dv_init" => guard(|| self.dv.init(f[0], f[1], Self::opt(i[0] == 1, f[2]), Self::opt(i[1] == 1, f[3]))),
            "dv_upd" => guard(|| self.dv.update(f[0], f[1], f[2], f[3], f[4], f[5])),
            "rnd" => self.random(i[0] as u8, extra),
            other => panic!("unknown call {}", other),
        }
    }

    #[cfg(feature = "std")]
    fn random(&mut self, n: u8, extra: &mut String) -> Result<(), Out> {
        let m = guard(|| open_ahrs::common::generate_random_attitudes(n))?;
        let (r, c) = (m.get_rows().unwrap_or(0), m.get_cols().unwrap_or(0));
        let cols: Vec<String> = (0..c)
            .map(|k| toks(&(0..r).map(|j| m.get_element(j, k).unwrap_or(f32::NAN)).collect::<Vec<f32>>()))
            .collect();
        *extra = format!(",\"f\":[{}]", cols.join(","));
        Ok(())
    }

    #[cfg(not(feature = "std"))]
    fn random(&mut self, _n: u8, extra: &mut String) -> Result<(), Out> {
        *extra = ",\"f\":[]".into();
        Err(Out::Err("unavailable".into()))
    }

    /// Everything readable of the object a call was made on.
    fn post(&mut self, op: &str, i: &[i64]) -> String {
        match &op[..2] {
            "s_" => {
                let c = seen(match i[0] {
                    0 => guard(|| self.gyr.get_config()).map(gvals),
                    1 => guard(|| self.acc.get_config()).map(avals),
                    _ => guard(|| self.mag.get_config()).map(mvals),
                });
                let m: Vec<(String, String)> = (0..3)
                    .map(|k| {
                        seen(match (i[0], k) {
                            (0, 0) => guard(|| self.gyr.get_x_angular_rate()),
                            (0, 1) => guard(|| self.gyr.get_y_angular_rate()),
                            (0, _) => guard(|| self.gyr.get_z_angular_rate()),
                            (1, 0) => guard(|| self.acc.get_x_acceleration()),
                            (1, 1) => guard(|| self.acc.get_y_acceleration()),
                            (1, _) => guard(|| self.acc.get_z_acceleration()),
                            (_, 0) => guard(|| self.mag.get_x_magnetic_field()),
                            (_, 1) => guard(|| self.mag.get_y_magnetic_field()),
                            (_, _) => guard(|| self.mag.get_z_magnetic_field()),
                        }
                        .map(|x| vec![x]))
                    })
                    .collect();
                let v: Vec<&str> = m.iter().map(|x| x.0.as_str()).collect();
                let e: Vec<String> = m.iter().map(|x| format!("\"{}\"", x.1)).collect();
                format!("\"c\":{},\"ce\":\"{}\",\"m\":[{}],\"me\":[{}]", c.0, c.1, v.join(","), e.join(","))
            }
            "ar" => {
                let a = seen(guard(|| self.ar.get_attitude()).map(vals));
                format!("\"a\":{},\"ae\":\"{}\"", a.0, a.1)
            }
            "aq" => {
                let a = seen(guard(|| self.aq.get_attitude()).map(vals));
                let c = [
                    seen(guard(|| self.aq.get_gyrometer_config()).map(gvals)),
                    seen(guard(|| self.aq.get_accelerometer_config()).map(avals)),
                    seen(guard(|| self.aq.get_magnetometer_config()).map(mvals)),
                ];
                format!(
                    "\"a\":{},\"ae\":\"{}\",\"c\":[{},{},{}],\"ce\":[\"{}\",\"{}\",\"{}\"]",
                    a.0, a.1, c[0].0, c[1].0, c[2].0, c[0].1, c[1].1, c[2].1
                )
            }
            _ => "\"x\":0".into(),
        }
    }

    pub fn exec(&mut self, op: &str, i: &[i64], f: &[f32], tr: &mut Trace) {
        let fl: Vec<String> = f.iter().map(|x| format!("x{:08x}", x.to_bits())).collect();
        let il: Vec<String> = i.iter().map(|x| x.to_string()).collect();
        let line = format!("{} {} | {}", op, il.join(" "), fl.join(" "));
        begin(&line);
        let mut extra = String::new();
        let out = match self.call(op, i, f, &mut extra) {
            Ok(()) => Out::Ok,
            Err(o) => o,
        };
        let post = self.post(op, i);
        tr.event(
            &format!("\"op\":\"{}\",\"i\":{},\"t\":{},{},\"p\":{{{}{}}}", op, ints(i), toks(f), out.json(), post, extra),
            &line,
        );
    }

    pub fn script(text: &str, tr: &mut Trace) {
        let mut m = Ahrs::new();
        for line in text.lines() {
            let Some((a, b)) = line.split_once('|') else { continue };
            let mut it = a.split_whitespace();
            let Some(op) = it.next() else { continue };
            let i: Vec<i64> = it.map(|x| x.parse().unwrap()).collect();
            let f: Vec<f32> = b.split_whitespace().map(float).collect();
            m.exec(op, &i, &f, tr);
        }
    }
}

// ---- generation -----------------------------------------------------------------------------

fn dyadic(r: &mut Rng, max: i64, den: i64) -> f32 {
    r.range(-max * den, max * den) as f32 / den as f32
}

fn odd(r: &mut Rng) -> f32 {
    *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 3.0e38, -3.0e38, 1.0e20, 1.0e-40, 0.1, -0.3, 1.0e5])
}

fn bad(r: &mut Rng) -> f32 {
    *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY])
}

/// Calibration: scales, the six cross factors, biases.
fn config(r: &mut Rng) -> Vec<f32> {
    match r.below(6) {
        0 => IDENT.to_vec(),
        // any size
        5 => (0..12).map(|k| if k < 9 { r.scaled(-12, 6) } else { r.scaled(-12, 12) }).collect(),
        1 => {
            // one entry differs from the identity
            let mut c = IDENT.to_vec();
            c[r.below(12) as usize] = dyadic(r, 3, 8);
            c
        }
        _ => (0..12).map(|_| dyadic(r, 3, 8)).collect(),
    }
}

/// Close to the identity, so that directions stay well determined.
fn mild(r: &mut Rng) -> Vec<f32> {
    let mut c = IDENT.to_vec();
    if r.chance(0.6) {
        for k in 0..3 {
            c[k] = 1.0 + r.range(-16, 16) as f32 / 64.0;
        }
        for k in 3..9 {
            c[k] = r.range(-6, 6) as f32 / 64.0;
        }
        for k in 9..12 {
            c[k] = r.range(-16, 16) as f32 / 64.0;
        }
    }
    c
}

fn sample(r: &mut Rng, wild: f64) -> Vec<f32> {
    if r.chance(0.15) {
        return (0..3).map(|_| r.scaled(-12, 14)).collect();
    }
    (0..3).map(|_| if r.chance(wild) { odd(r) } else { dyadic(r, 16, 8) }).collect()
}

fn q64(r: &mut Rng) -> Vec<f32> {
    f32s(&quat(r))
}

/// What a calibration makes of a raw sample.
fn corrected(c: &[f32], v: &[f32]) -> [f64; 3] {
    let d: Vec<f64> = (0..3).map(|k| v[k] as f64 - c[9 + k] as f64).collect();
    let c: Vec<f64> = c.iter().map(|x| *x as f64).collect();
    [
        c[0] * d[0] + c[5] * d[1] + c[7] * d[2],
        c[3] * d[0] + c[1] * d[1] + c[8] * d[2],
        c[4] * d[0] + c[6] * d[1] + c[2] * d[2],
    ]
}

fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

/// The directions are at least a few degrees from parallel.
fn apart(a: &[f64; 3], m: &[f64; 3]) -> bool {
    let x = [a[1] * m[2] - a[2] * m[1], a[2] * m[0] - a[0] * m[2], a[0] * m[1] - a[1] * m[0]];
    norm(&x) > 0.1 * norm(a) * norm(m)
}

fn snap(v: f64) -> f32 {
    ((v * 64.0).round() / 64.0) as f32
}

/// Acceleration sample: any direction, magnitudes around and away from g, in 1/64.
fn accel(r: &mut Rng) -> Vec<f32> {
    if r.chance(0.2) {
        // coordinate and diagonal directions
        let a = axis(r);
        let s = *r.pick(&[9.8125, 4.0, 1.0, 12.0]);
        return a.iter().map(|x| snap(x * s)).collect();
    }
    let d = r.dir();
    let s = match r.below(4) { 0 => 9.81, 1 => 9.81 * (1.0 + 0.3 * r.sym()), 2 => 1.0 + 18.0 * r.unit(), _ => 9.81 * (1.0 + 0.12 * r.sym()) };
    d.iter().map(|x| snap(x * s)).collect()
}

fn field(r: &mut Rng) -> Vec<f32> {
    let d = if r.chance(0.2) { axis(r) } else { r.dir() };
    let s = *r.pick(&[48.0, 48.0, 1.0, 6.0, 20.0]);
    d.iter().map(|x| snap(x * s)).collect()
}

/// Acceleration and field with magnitudes of 0.01..1000, in 1/64.
fn sized(r: &mut Rng) -> (Vec<f32>, Vec<f32>) {
    let mut one = || -> Vec<f32> {
        if r.chance(0.5) {
            (0..3).map(|_| r.range(-6, 6) as f32 / 64.0).collect()
        } else {
            let d = if r.chance(0.3) { axis(r) } else { r.dir() };
            let s = *r.pick(&[0.25, 40.0, 100.0, 300.0, 900.0]);
            d.iter().map(|x| snap(x * s)).collect()
        }
    };
    (one(), one())
}

/// What the sensors see in a given attitude, in 1/64.
fn views(r: &mut Rng, q: &[f64], noise: f64) -> (Vec<f32>, Vec<f32>) {
    let m = dcm64(q);
    let mut view = |v: [f64; 3]| -> Vec<f32> {
        (0..3).map(|k| snap(m[3 * k] * v[0] + m[3 * k + 1] * v[1] + m[3 * k + 2] * v[2] + noise * r.sym())).collect()
    };
    (view([0.0, 0.0, -9.8125]), view([20.0, 0.0, 40.0]))
}

fn rate(r: &mut Rng) -> Vec<f32> {
    match r.below(6) {
        0 => vec![0.0, 0.0, 0.0],
        1 => {
            let mut v = vec![0.0; 3];
            v[r.below(3) as usize] = dyadic(r, 3, 8);
            v
        }
        2 => {
            let s = *r.pick(&[1.0e-5, 4.0e-5, 3.0e-4, 2.0e-3, 5.0e-3, 0.01]);
            f32s(&axis(r)).iter().map(|x| x * s as f32).collect()
        }
        _ => {
            let s = *r.pick(&[0.1, 1.0, 4.0]);
            r.dir().iter().map(|x| (x * s) as f32).collect()
        }
    }
}

/// Sampling periods; the dyadic ones are exact in the specification.
fn period(r: &mut Rng) -> f32 {
    *r.pick(&[0.01, 0.015625, 0.0625, 0.125, 0.25, 0.5, 0.001, 0.1])
}

fn aqua(r: &mut Rng, mode: i64, f: &mut Vec<f32>) -> Vec<i64> {
    f.extend(q64(r));
    f.push(if r.chance(0.12) { *r.pick(&[0.75, 1.0, 0.625]) } else { period(r) });
    f.push(*r.pick(&[0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0]));
    f.push(*r.pick(&[0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0]));
    let (a, b) = *r.pick(&[(0.1, 0.2), (0.0625, 0.25), (0.125, 0.5), (0.0, 0.125), (0.25, 1.0)]);
    f.push(a);
    f.push(b);
    f.push(*r.pick(&[0.9, 0.5, 0.0, 1.0, 0.75]));
    f.push(*r.pick(&[0.9, 0.5, 0.0, 1.0, 0.75]));
    f.push(*r.pick(&[9.8125, 9.8125, 4.0, 1.0]));
    f.push(48.0);
    let cal: Vec<Vec<f32>> = (0..3).map(|_| if r.chance(0.6) { IDENT.to_vec() } else { mild(r) }).collect();
    for c in cal {
        f.extend(c);
    }
    let mask = if r.chance(0.8) { 15 } else { 0 };
    vec![mode, mask, 1, r.below(2) as i64, r.chance(0.8) as i64, 1]
}

pub fn generate(tr: &mut Trace, fam: &str, seed: u64, count: u64) {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let mut m = Ahrs::new();
    match fam {
        "sens" | "sensw" => {
            let wild = if fam == "sens" { 0.0 } else { 0.15 };
            while tr.events < count {
                let k = r.below(3) as i64;
                match r.below(20) {
                    0 => m.exec("s_new", &[k], &[], tr),
                    1 | 2 | 3 | 4 => {
                        let mut c = config(r);
                        if r.chance(0.3) {
                            c[r.below(12) as usize] = if r.chance(0.6) { bad(r) } else { odd(r) };
                        }
                        if r.chance(0.1) {
                            c.clear();
                        }
                        m.exec(if r.chance(0.4) { "s_init" } else { "s_set" }, &[k], &c, tr)
                    }
                    _ => {
                        let mut v = sample(r, wild);
                        if r.chance(0.1) {
                            v[r.below(3) as usize] = bad(r);
                        }
                        m.exec("s_upd", &[k], &v, tr);
                        // the same sample again, mostly under another calibration
                        if r.chance(0.2) {
                            if r.chance(0.7) {
                                let c = if r.chance(0.5) { config(r) } else { IDENT.to_vec() };
                                m.exec("s_set", &[k], &c, tr);
                            }
                            m.exec("s_upd", &[k], &v, tr);
                        }
                    }
                }
            }
        }
        // every configuration field and every bad position of every sensor, one at a time
        "sensall" => {
            for k in 0..3i64 {
                for e in 0..12usize {
                    m.exec("s_new", &[k], &[], tr);
                    m.exec("s_set", &[k], &[], tr);
                    m.exec("s_init", &[k], &[], tr);
                    m.exec("s_upd", &[k], &[1.0, 2.0, 3.0], tr);
                    let skew: Vec<f32> = (0..12).map(|j| (j as f32 + 1.0) / 8.0).collect();
                    m.exec("s_set", &[k], &skew, tr);
                    m.exec("s_upd", &[k], &[-5.0, 7.0, 9.0], tr);
                    m.exec("s_set", &[k], &[], tr);
                    m.exec("s_upd", &[k], &[4.0, -6.0, 8.0], tr);
                    m.exec("s_new", &[k], &[], tr);
                    m.exec("s_upd", &[k], &[1.0, 2.0, 3.0], tr);
                    let mut c = IDENT.to_vec();
                    c[e] = f32::NAN;
                    m.exec("s_init", &[k], &c, tr);
                    m.exec("s_set", &[k], &IDENT, tr);
                    c[e] = 0.625;
                    m.exec("s_init", &[k], &c, tr);
                    m.exec("s_init", &[k], &IDENT, tr);
                    for s in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-3.0, 5.5, 7.25]] {
                        m.exec("s_upd", &[k], &s, tr);
                    }
                    for p in 0..3usize {
                        for b in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
                            let mut s = [1.5, -2.5, 4.0];
                            s[p] = b;
                            m.exec("s_upd", &[k], &s, tr);
                        }
                    }
                    let mut full: Vec<f32> = (0..12).map(|_| dyadic(r, 2, 8)).collect();
                    m.exec("s_set", &[k], &full, tr);
                    m.exec("s_upd", &[k], &[1.0, -2.0, 3.0], tr);
                    for b in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
                        full[e] = b;
                        m.exec("s_set", &[k], &full, tr);
                        m.exec("s_upd", &[k], &[2.0, -1.0, 0.5], tr);
                    }
                }
            }
        }
        "ar" => {
            while tr.events < count {
                m.exec("ar_new", &[], &[], tr);
                let mut f = q64(r);
                if r.chance(0.1) {
                    // not a unit quaternion
                    let s = *r.pick(&[0.5, 2.0]);
                    f.iter_mut().for_each(|x| *x *= s);
                }
                f.push(if r.chance(0.2) { *r.pick(&[1.0, 2.0, 0.75]) } else { period(r) });
                f.extend(if r.chance(0.5) { IDENT.to_vec() } else { mild(r) });
                let method = *r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 4]);
                let order = if r.chance(0.3) { r.range(0, 25) } else { *r.pick(&[0, 1, 1, 2, 2, 3, 4, 6, 9, 30, 255]) };
                m.exec("ar_init", &[method, order], &f, tr);
                let n = if r.chance(0.04) { r.range(80, 300) } else { r.range(3, 25) };
                // some runs turn fast
                let fast = r.chance(0.2);
                for _ in 0..n {
                    let mut w = rate(r);
                    if fast {
                        w = f32s(&r.dir()).iter().map(|x| x * *r.pick(&[8.0, 15.0, 35.0])).collect();
                    }
                    if r.chance(0.04) {
                        // nothing but the bias
                        w = f[14..17].to_vec();
                    }
                    if r.chance(0.05) {
                        w[r.below(3) as usize] = bad(r);
                    }
                    m.exec("ar_upd", &[], &w, tr);
                }
            }
        }
        // attitudes as they are displayed
        "show" => {
            while tr.events < count {
                m.exec("ar_new", &[], &[], tr);
                m.exec("ar_show", &[], &[], tr);
                let mut f = q64(r);
                if r.chance(0.3) {
                    f = (0..4).map(|_| odd(r)).map(|x| if x.is_finite() { x } else { 0.5 }).collect();
                }
                f.push(period(r));
                f.extend(IDENT);
                m.exec("ar_init", &[r.below(3) as i64, r.range(1, 5)], &f, tr);
                m.exec("ar_show", &[], &[], tr);
                for _ in 0..r.range(0, 4) {
                    let w = rate(r);
                    m.exec("ar_upd", &[], &w, tr);
                    m.exec("ar_show", &[], &[], tr);
                }
            }
        }
        "hold" => {
            while tr.events < count {
                let (d, l) = *r.pick(&[
                    ([1i64, 0, 0], 1i64), ([0, 1, 0], 1), ([0, 0, 1], 1), ([3, 4, 0], 5), ([0, -4, 3], 5), ([1, 2, 2], 3), ([-2, 1, 2], 3),
                    ([2, 3, 6], 7), ([-6, 2, -3], 7), ([1, -4, 8], 9),
                ]);
                let method = r.below(3) as i64;
                // the truncated methods only follow the exact solution for small steps
                let (s, ts, order, n) = match method {
                    0 => (r.range(1, 64), *r.pick(&[1, 2, 4, 8]), 1, r.range(1, 1500)),
                    1 => (r.range(1, 12), *r.pick(&[1, 2]), r.range(3, 8), r.range(1, 800)),
                    _ => (1, 1, 1, r.range(1, 100)),
                };
                let q = q64(r);
                m.exec("ar_hold", &[n, d[0], d[1], d[2], l, s, ts, method, order], &q, tr);
            }
        }
        "am" | "marg" => {
            let mode = (fam == "am") as i64;
            while tr.events < count {
                m.exec("aq_new", &[], &[], tr);
                let mut f = vec![];
                let mut i = aqua(r, mode, &mut f);
                if mode == 1 {
                    i[2] = r.below(2) as i64;
                }
                if mode == 0 && r.chance(0.08) {
                    // thresholds that do not make sense
                    match r.below(4) {
                        0 => f[8] = f[7],
                        1 => f[8] = f[7] - 0.0625,
                        2 => f[9] = *r.pick(&[1.5, -0.5]),
                        _ => f[10] = *r.pick(&[1.5, -0.5]),
                    }
                }
                if mode == 0 && r.chance(0.04) {
                    let k = *r.pick(&[5usize, 6]);
                    f[k] = *r.pick(&[1.25, -0.25]);
                }
                m.exec("aq_init", &i, &f, tr);
                let (mut ca, mut cm) = (f[25..37].to_vec(), f[37..49].to_vec());
                let n = if r.chance(0.03) { r.range(80, 300) } else { r.range(4, 20) };
                // some runs follow an attitude, most samples of others have nothing to do with each other
                let track = r.chance(0.25);
                let truth = r.quat();
                for _ in 0..n {
                    if !track && r.chance(0.06) {
                        let k = r.below(3) as i64;
                        let c = if r.chance(0.3) { let mut c = mild(r); c[r.below(12) as usize] = bad(r); c } else { mild(r) };
                        let fine = c.iter().all(|x| x.is_finite());
                        m.exec("aq_set", &[k], &c, tr);
                        if fine && k == 1 { ca = c } else if fine && k == 2 { cm = c }
                        continue;
                    }
                    let (mut a, mut b) = if r.chance(0.1) { sized(r) } else { (accel(r), field(r)) };
                    if track {
                        let noise = *r.pick(&[0.0, 0.03, 0.3]);
                        (a, b) = views(r, &truth, noise);
                    }
                    let special = r.below(30);
                    match special {
                        0 => b = a.iter().map(|x| x * *r.pick(&[2.0, 2.0])).collect(),
                        1 => b = vec![0.0; 3],
                        2 => a = vec![0.0; 3],
                        3 => a[r.below(3) as usize] = bad(r),
                        4 => b[r.below(3) as usize] = bad(r),
                        _ => {
                            let (x, y) = (corrected(&ca, &a), corrected(&cm, &b));
                            if norm(&x) < 0.02 || norm(&y) < 0.02 || !apart(&x, &y) {
                                continue;
                            }
                        }
                    }
                    let mut g = rate(r);
                    if track && r.chance(0.8) {
                        g = r.dir().iter().map(|x| (x * *r.pick(&[0.0, 0.01, 0.05])) as f32).collect();
                    }
                    let mut mask = if mode == 0 { 7 } else { *r.pick(&[0, 0, 7, 3]) };
                    if r.chance(0.03) {
                        mask = r.below(8) as i64;
                    }
                    if r.chance(0.02) {
                        g[r.below(3) as usize] = bad(r);
                    }
                    g.extend(a);
                    g.extend(b);
                    m.exec("aq_upd", &[mask], &g, tr);
                }
            }
        }
        "conv" => {
            while tr.events < count {
                let (a, b) = (accel(r), field(r));
                let (x, y) = ([a[0] as f64, a[1] as f64, a[2] as f64], [b[0] as f64, b[1] as f64, b[2] as f64]);
                if norm(&x) < 0.4 || norm(&y) < 0.4 || !apart(&x, &y) {
                    continue;
                }
                let adaptive = r.below(2) as i64;
                let mut f = q64(r);
                if r.chance(0.2) {
                    // far away: the opposite or a half turn from anything simple
                    f = r.pick(&[vec![0.0, 1.0, 0.0, 0.0], vec![0.0, 0.0, 1.0, 0.0], vec![0.0, 0.0, 0.0, 1.0], vec![1.0, 0.0, 0.0, 0.0], vec![-1.0, 0.0, 0.0, 0.0]]).clone();
                }
                f.push(period(r));
                f.push(*r.pick(&[0.05, 0.1, 0.3, 0.7, 1.0]));
                f.push(*r.pick(&[0.05, 0.1, 0.3, 0.7, 1.0]));
                f.extend([0.1, 0.2]);
                f.push(*r.pick(&[0.9, 0.5, 0.0, 1.0]));
                f.push(*r.pick(&[0.9, 0.5, 0.0, 1.0]));
                // the magnitude of the held acceleration is the reference magnitude
                f.push(norm(&x) as f32);
                f.push(48.0);
                f.extend(a);
                f.extend(b);
                f.extend(r.dir().iter().map(|x| (x * 4.0) as f32));
                f.extend(r.dir().iter().map(|x| (x * 10.0) as f32));
                let d = if r.chance(0.5) { 0 } else { r.range(1, 20) };
                m.exec("aq_conv", &[500, adaptive, d], &f, tr);
            }
        }
        // random mixtures of initialisations (most of them refused for one reason), samples and queries
        "life" => {
            while tr.events < count {
                match r.below(3) {
                    0 => {
                        if r.chance(0.2) {
                            m.exec("ar_new", &[], &[], tr);
                        }
                        match r.below(3) {
                            0 => {
                                let w = rate(r);
                                m.exec("ar_upd", &[], &w, tr)
                            }
                            _ => {
                                let mut f = q64(r);
                                f.push(period(r));
                                f.extend(mild(r));
                                if r.chance(0.7) {
                                    let k = *r.pick(&[0usize, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]);
                                    f[k] = bad(r);
                                }
                                m.exec("ar_init", &[r.below(3) as i64, r.range(0, 5)], &f, tr)
                            }
                        }
                    }
                    1 => {
                        if r.chance(0.2) {
                            m.exec("aq_new", &[], &[], tr);
                        }
                        match r.below(4) {
                            0 => {
                                let mut g = rate(r);
                                g.extend(accel(r));
                                g.extend(field(r));
                                let mask = *r.pick(&[7, 7, 7, 0, 1, 5]);
                                m.exec("aq_upd", &[mask], &g, tr)
                            }
                            1 => {
                                let c = mild(r);
                                m.exec("aq_set", &[r.below(3) as i64], &c, tr)
                            }
                            _ => {
                                let mut f = vec![];
                                let mut i = aqua(r, r.clone().below(2) as i64, &mut f);
                                if r.chance(0.7) {
                                    match r.below(4) {
                                        0 => i[1] = r.below(16) as i64,
                                        1 => i[2] = 0,
                                        2 => f[r.below(4) as usize] = bad(r),
                                        _ => f[13 + r.below(36) as usize] = bad(r),
                                    }
                                }
                                m.exec("aq_init", &i, &f, tr)
                            }
                        }
                    }
                    _ => {
                        if r.chance(0.2) {
                            m.exec("dv_new", &[], &[], tr);
                        }
                        match r.below(3) {
                            0 => {
                                let mut g = accel(r);
                                g.extend(field(r));
                                m.exec("dv_upd", &[], &g, tr)
                            }
                            _ => {
                                let w: Vec<f32> = (0..2).map(|_| *r.pick(&[0.5, 1.0, 0.25, 0.0, -0.5, 1.5, 1.0e-5, 1.0e-3, 5.0e-3, f32::NAN, f32::INFINITY, 0.75])).collect();
                                m.exec("dv_init", &[r.below(2) as i64, r.below(2) as i64], &[w[0], w[1], 9.81, 0.5], tr)
                            }
                        }
                    }
                }
            }
        }
        // any call with any values: nothing may panic
        "any" => {
            while tr.events < count {
                let (op, i, n): (&str, Vec<i64>, usize) = match r.below(14) {
                    0 => ("s_init", vec![r.range(0, 2)], 12),
                    1 => ("s_set", vec![r.range(0, 2)], 12),
                    2 => ("s_upd", vec![r.range(0, 2)], 3),
                    3 => ("ar_init", vec![r.range(0, 4), r.range(0, 255)], 17),
                    4 | 5 => ("ar_upd", vec![], 3),
                    6 | 7 => ("aq_init", vec![r.range(0, 1), *r.pick(&[15, 15, 0, 7]), r.range(0, 1), r.range(0, 1), r.range(0, 1), r.range(0, 1)], 49),
                    8 | 9 | 10 => ("aq_upd", vec![*r.pick(&[7, 7, 7, 0, 3])], 9),
                    11 => ("dv_init", vec![r.range(0, 1), r.range(0, 1)], 4),
                    12 => ("dv_upd", vec![], 6),
                    _ => (*r.pick(&["s_new", "ar_new", "ar_show", "aq_new", "dv_new"]), vec![r.range(0, 2)], 0),
                };
                let w = *r.pick(&[0.0, 0.02, 0.2]);
                let f: Vec<f32> = (0..n)
                    .map(|_| if r.chance(w) { odd(r) } else { match r.below(4) { 0 => 0.0, 1 => *r.pick(&[1.0, -1.0, 0.5]), _ => (r.sym() * *r.pick(&[1.0, 1.0, 10.0])) as f32 } })
                    .collect();
                m.exec(op, &i, &f, tr);
            }
        }
        "rnd" => {
            for n in (0..=255i64).chain((0..=255).rev()) {
                m.exec("rnd", &[n], &[], tr);
            }
        }
        other => panic!("unknown family {}", other),
    }
}
