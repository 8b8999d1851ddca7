//! Register machine over the public matrix / vector / quaternion API.
//! Registers 0..4 are matrices, 5..10 f32 vectors, 11..12 byte vectors.
use crate::out::{begin, capture, guard, shown, Out, Trace};
use crate::tok::*;
use linalg::linalg as la;
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion as Q;
use std::mem::replace;

pub const NM: usize = 5;
pub const NV: usize = 6;
pub const NU: usize = 2;
pub const V0: i64 = NM as i64;
pub const U0: i64 = (NM + NV) as i64;

/// Argument kinds. D/E/B: register modified in place (matrix, vector, bytes). M/V/U: read operand.
/// R/W/P: register that receives a returned object. r,c: index; n: size; k: diagonal; b: byte;
/// i: iteration count; z: flag; f: value; s: exponent; e: tolerance; t: interpolation parameter.
pub struct Def {
    pub name: &'static str,
    pub sig: &'static str,
    pub grp: &'static str,
    pub fun: &'static str,
    pub form: &'static str,
}

macro_rules! defs { ($($n:literal $s:literal $g:literal $f:literal $m:literal;)*) => {
    pub const DEFS: &[Def] = &[$(Def{name:$n,sig:$s,grp:$g,fun:$f,form:$m}),*];
} }

defs! {
    "m_new" "R" "life" "new" "new";
    "v_new" "W" "life" "new" "new";
    "u_new" "P" "life" "new" "new";
    "m_init" "Dnn" "life" "init" "dst";
    "v_init" "En" "life" "init" "dst";
    "u_init" "Bn" "life" "init" "dst";
    "m_reinit" "Dnn" "life" "reinit" "dst";
    "v_reinit" "En" "life" "reinit" "dst";
    "u_reinit" "Bn" "life" "reinit" "dst";
    "m_isinit" "M" "life" "isinit" "get";
    "v_isinit" "V" "life" "isinit" "get";
    "u_isinit" "U" "life" "isinit" "get";
    "m_rows" "M" "life" "rows" "get";
    "v_rows" "V" "life" "rows" "get";
    "u_rows" "U" "life" "rows" "get";
    "m_cols" "M" "life" "cols" "get";
    "m_set" "Drcf" "el" "set" "dst";
    "v_set" "Erf" "el" "set" "dst";
    "u_set" "Brb" "el" "setb" "dst";
    "m_get" "Mrc" "el" "get" "get";
    "v_get" "Vr" "el" "get" "get";
    "u_get" "Ur" "el" "get" "get";
    "m_fill" "Df" "fill" "fill" "dst";
    "v_fill" "Ef" "fill" "fill" "dst";
    "m_ident" "D" "fill" "ident" "dst";
    "m_copy" "DM" "fill" "copy" "dst";
    "v_copy" "EV" "fill" "copy" "dst";
    "m_dup" "RM" "fill" "dup" "new";
    "v_dup" "WV" "fill" "dup" "new";
    "m_setrow" "DVr" "rowcol" "setrow" "dst";
    "m_setcol" "DVc" "rowcol" "setcol" "dst";
    "m_getrow" "EMr" "rowcol" "getrow" "dst";
    "m_getcol" "EMc" "rowcol" "getcol" "dst";
    "m_rowvec" "WMr" "rowcol" "rowvec" "new";
    "m_colvec" "WMc" "rowcol" "colvec" "new";
    "m_addrow" "DVr" "edit" "addrow" "dst";
    "m_addcol" "DVc" "edit" "addcol" "dst";
    "m_delrow" "DWr" "edit" "delrow" "dst";
    "m_tr" "D" "edit" "tr" "ip";
    "m_trnew" "RM" "edit" "tr" "new";
    "m_diag" "WMk" "edit" "diag" "new";
    "v_tomat" "RV" "edit" "tomat" "new";
    "m_same" "MM" "eq" "same" "get";
    "v_same" "VV" "eq" "same" "get";
    "m_square" "M" "eq" "square" "get";
    "m_eq" "MMe" "eq" "eq" "get";
    "v_eq" "VVe" "eq" "eq" "get";
    "m_add" "DMM" "ew" "add" "dst";
    "m_add_ip" "DM" "ew" "add" "ip";
    "m_add_new" "RMM" "ew" "add" "new";
    "m_sub" "DMM" "ew" "sub" "dst";
    "m_sub_ip" "DM" "ew" "sub" "ip";
    "m_sub_new" "RMM" "ew" "sub" "new";
    "m_adds" "DMf" "ew" "adds" "dst";
    "m_adds_ip" "Df" "ew" "adds" "ip";
    "m_adds_new" "RMf" "ew" "adds" "new";
    "m_subs" "DMf" "ew" "subs" "dst";
    "m_subs_ip" "Df" "ew" "subs" "ip";
    "m_subs_new" "RMf" "ew" "subs" "new";
    "m_muls_ip" "Df" "ew" "muls" "ip";
    "m_pow" "Ds" "ew" "pow" "ip";
    "v_add" "EVV" "ew" "add" "dst";
    "v_add_ip" "EV" "ew" "add" "ip";
    "v_add_new" "WVV" "ew" "add" "new";
    "v_sub" "EVV" "ew" "sub" "dst";
    "v_sub_ip" "EV" "ew" "sub" "ip";
    "v_sub_new" "WVV" "ew" "sub" "new";
    "v_adds" "EVf" "ew" "adds" "dst";
    "v_adds_ip" "Ef" "ew" "adds" "ip";
    "v_adds_new" "WVf" "ew" "adds" "new";
    "v_subs" "EVf" "ew" "subs" "dst";
    "v_subs_ip" "Ef" "ew" "subs" "ip";
    "v_subs_new" "WVf" "ew" "subs" "new";
    "v_muls" "EVf" "ew" "muls" "dst";
    "v_muls_ip" "Ef" "ew" "muls" "ip";
    "v_muls_new" "WVf" "ew" "muls" "new";
    "v_pow" "Es" "ew" "pow" "ip";
    "m_mul" "DMM" "prod" "mul" "dst";
    "m_mul_new" "RMM" "prod" "mul" "new";
    "v_outer" "RVV" "prod" "outer" "new";
    "v_dot" "VV" "prod" "dot" "get";
    "m_trace" "M" "prod" "trace" "get";
    "m_frob" "M" "prod" "frob" "get";
    "v_norm" "V" "prod" "norm" "get";
    "v_normalize" "E" "interp" "normalize" "ip";
    "v_lerp" "EVVt" "interp" "lerp" "dst";
    "v_slerp" "EVVt" "interp" "slerp" "dst";
    "q_isq" "V" "quat" "isq" "get";
    "q_isreal" "V" "quat" "isreal" "get";
    "q_ispure" "V" "quat" "ispure" "get";
    "q_isversor" "V" "quat" "isversor" "get";
    "q_isident" "V" "quat" "isident" "get";
    "q_setw" "Ef" "quat" "setq0" "dst";
    "q_setx" "Ef" "quat" "setq1" "dst";
    "q_sety" "Ef" "quat" "setq2" "dst";
    "q_setz" "Ef" "quat" "setq3" "dst";
    "q_getw" "V" "quat" "getq0" "get";
    "q_getx" "V" "quat" "getq1" "get";
    "q_gety" "V" "quat" "getq2" "get";
    "q_getz" "V" "quat" "getq3" "get";
    "q_vec" "WV" "quat" "vecpart" "new";
    "q_fill" "Effff" "quat" "fillq" "dst";
    "q_ident" "E" "quat" "fillid" "dst";
    "q_conj" "E" "quat" "conj" "ip";
    "q_conj_new" "WV" "quat" "conj" "new";
    "q_mul" "EVV" "quat" "qmul" "dst";
    "q_mul_new" "WVV" "quat" "qmul" "new";
    "q_inv" "E" "quat" "qinv" "ip";
    "q_dcm" "RV" "rot" "dcm" "new";
    "q_rot" "WVV" "rot" "rot" "new";
    "q_rot_ip" "VE" "rot" "rot" "ip";
    "q_exp" "E" "opq" "qexp" "ip";
    "q_exp_new" "WV" "opq" "qexp" "new";
    "q_hughes" "EM" "opq" "todcm" "dst";
    "q_chiav" "EM" "opq" "todcm" "dst";
    "q_sarab" "EM" "opq" "todcm" "dst";
    "q_euler" "V" "opq" "euler" "get";
    "m_lr" "MRR" "opq" "factor" "new";
    "m_crout" "MRR" "opq" "factor" "new";
    "m_qr" "MRR" "opq" "factor" "new";
    "m_chol" "MR" "opq" "factor" "new";
    "m_inv" "D" "opq" "inv" "ip";
    "m_adj" "D" "opq" "adj" "ip";
    "m_log" "MR" "opq" "log" "new";
    "m_log_ip" "D" "opq" "log" "ip";
    "m_det" "M" "opq" "det" "get";
    "m_detn" "M" "opq" "det" "get";
    "m_sym" "M" "opq" "pred" "get";
    "m_pd" "M" "opq" "pdpred" "get";
    "m_up" "M" "opq" "tri" "get";
    "m_lo" "M" "opq" "tri" "get";
    "m_orth" "M" "opq" "pred" "get";
    "m_son" "M" "opq" "pred" "get";
    "lup" "MRP" "opq" "lup" "new";
    "solve" "MVUW" "opq" "solve" "new";
    "eigen" "MizWR" "opq" "eigen" "new";
    "m_dlyap" "MMR" "opq" "dlyap" "new";
    "m_print" "M" "show" "print" "get";
    "v_print" "V" "show" "print" "get";
}

#[derive(Clone, Debug)]
pub struct Op {
    pub def: usize,
    pub a: Vec<i64>,
    pub f: Vec<f32>,
}

pub fn find(name: &str) -> Option<usize> {
    DEFS.iter().position(|d| d.name == name)
}

impl Op {
    pub fn script(&self) -> String {
        let mut s = String::from(DEFS[self.def].name);
        for x in &self.a {
            s.push_str(&format!(" {}", x));
        }
        s.push_str(" |");
        for x in &self.f {
            s.push_str(&format!(" x{:08x}", x.to_bits()));
        }
        s
    }
    /// `name ints | floats`; floats are `x<hex bits>`, `q<64ths>` or decimal.
    pub fn parse(line: &str) -> Option<Op> {
        let mut parts = line.split('|');
        let mut head = parts.next()?.split_whitespace();
        let def = find(head.next()?)?;
        let a = head.map(|x| x.parse().unwrap()).collect();
        let f = parts
            .next()
            .unwrap_or("")
            .split_whitespace()
            .map(|t| match t.as_bytes()[0] {
                b'x' => f32::from_bits(u32::from_str_radix(&t[1..], 16).unwrap()),
                b'q' => t[1..].parse::<i64>().unwrap() as f32 / 64.0,
                _ => t.parse().unwrap(),
            })
            .collect();
        Some(Op { def, a, f })
    }
}

pub struct Machine {
    pub m: Vec<Matrix>,
    pub v: Vec<Vector<f32>>,
    pub u: Vec<Vector<u8>>,
}

/// Shape and contents of one register.
pub struct Snap {
    pub init: bool,
    pub r: u8,
    pub c: u8,
    pub e: Vec<f32>,
}

fn unit<E: std::fmt::Debug>(r: Result<(), E>) -> Result<Vec<f32>, E> {
    r.map(|_| vec![])
}
fn one<E: std::fmt::Debug>(r: Result<f32, E>) -> Result<Vec<f32>, E> {
    r.map(|x| vec![x])
}
fn flag<E: std::fmt::Debug>(r: Result<bool, E>) -> Result<Vec<f32>, E> {
    r.map(|x| vec![if x { 1.0 } else { 0.0 }])
}
fn byte<E: std::fmt::Debug>(r: Result<u8, E>) -> Result<Vec<f32>, E> {
    r.map(|x| vec![x as f32])
}

impl Machine {
    pub fn new() -> Self {
        Machine {
            m: (0..NM).map(|_| Matrix::new()).collect(),
            v: (0..NV).map(|_| Vector::new()).collect(),
            u: (0..NU).map(|_| Vector::new()).collect(),
        }
    }

    pub fn snap(&self, reg: i64) -> Snap {
        let mut s = Snap { init: false, r: 0, c: 0, e: vec![] };
        if reg < V0 {
            let x = &self.m[reg as usize];
            if let Ok(true) = guard(|| Ok::<bool, ()>(x.is_initialized())) {
                s.init = true;
                s.r = x.get_rows().unwrap_or(255);
                s.c = x.get_cols().unwrap_or(255);
                if s.r <= 8 && s.c <= 8 {
                    for i in 0..s.r {
                        for j in 0..s.c {
                            s.e.push(guard(|| x.get_element(i, j)).unwrap_or(f32::NAN));
                        }
                    }
                }
            }
        } else if reg < U0 {
            let x = &self.v[(reg - V0) as usize];
            if let Ok(true) = guard(|| Ok::<bool, ()>(x.is_initialized())) {
                s.init = true;
                s.r = x.get_rows().unwrap_or(255);
                s.c = 1;
                if s.r <= 8 {
                    for i in 0..s.r {
                        s.e.push(guard(|| x.get_element(i)).unwrap_or(f32::NAN));
                    }
                }
            }
        } else {
            let x = &self.u[(reg - U0) as usize];
            if let Ok(true) = guard(|| Ok::<bool, ()>(x.is_initialized())) {
                s.init = true;
                s.r = x.get_rows().unwrap_or(255);
                s.c = 1;
                if s.r <= 8 {
                    for i in 0..s.r {
                        s.e.push(guard(|| x.get_element(i)).map(|b| b as f32).unwrap_or(f32::NAN));
                    }
                }
            }
        }
        s
    }

    fn snap_json(&self, reg: i64) -> String {
        let s = self.snap(reg);
        format!("[{},{},{},{},{}]", reg, s.init as u8, s.r, s.c, toks(&s.e))
    }

    /// Registers of an op: (destinations, operands).
    pub fn regs_of(op: &Op) -> (Vec<i64>, Vec<i64>) {
        let (mut d, mut x) = (vec![], vec![]);
        let mut k = 0;
        for ch in DEFS[op.def].sig.chars() {
            match ch {
                'D' | 'R' | 'E' | 'W' | 'B' | 'P' => {
                    d.push(op.a[k]);
                    k += 1;
                }
                'M' | 'V' | 'U' => {
                    x.push(op.a[k]);
                    k += 1;
                }
                'r' | 'c' | 'n' | 'k' | 'b' | 'i' | 'z' => k += 1,
                _ => {}
            }
        }
        (d, x)
    }

    /// Does a destination modified in place also appear elsewhere? Such calls cannot be written in safe Rust.
    pub fn aliased(op: &Op) -> bool {
        let (d, x) = Self::regs_of(op);
        let dup = d.len() == 2 && d[0] == d[1];
        dup || d.iter().any(|r| x.contains(r))
    }

    /// Execute one op and log it.
    pub fn exec(&mut self, op: &Op, tr: &mut Trace) -> Out {
        let def = &DEFS[op.def];
        let script = op.script();
        begin(&script);
        let (d, x) = Self::regs_of(op);
        let (res, text) = if def.fun == "print" { capture(|| self.call(op)) } else { (self.call(op), String::new()) };
        let (out, ret) = match res {
            Ok(r) => (Out::Ok, r),
            Err(o) => (o, vec![]),
        };
        let mut ii: Vec<i64> = vec![];
        let mut k = 0;
        for ch in def.sig.chars() {
            match ch {
                'D' | 'R' | 'E' | 'W' | 'B' | 'P' | 'M' | 'V' | 'U' => k += 1,
                'r' | 'c' | 'n' | 'k' | 'b' | 'i' | 'z' => {
                    ii.push(op.a[k]);
                    k += 1;
                }
                _ => {}
            }
        }
        let mut touched: Vec<i64> = vec![];
        for r in d.iter().chain(x.iter()) {
            if !touched.contains(r) {
                touched.push(*r);
            }
        }
        let post: Vec<String> = touched.iter().map(|r| self.snap_json(*r)).collect();
        let body = format!(
            "\"op\":\"{}\",\"g\":\"{}\",\"fn\":\"{}\",\"fm\":\"{}\",\"d\":{},\"x\":{},\"i\":{},\"f\":{},{},\"r\":{},\"post\":[{}]",
            def.name,
            def.grp,
            def.fun,
            def.form,
            ints(&d),
            ints(&x),
            ints(&ii),
            toks(&op.f),
            out.json(),
            toks(&ret),
            post.join(",")
        );
        let body = if def.fun == "print" { format!("{},\"o\":{}", body, shown(&text)) } else { body };
        tr.event(&body, &script);
        out
    }

    fn md<E: std::fmt::Debug>(&mut self, d: i64, f: impl FnOnce(&mut Matrix, &Machine) -> Result<Vec<f32>, E>) -> Result<Vec<f32>, Out> {
        let mut t = replace(&mut self.m[d as usize], Matrix::new());
        let me: &Machine = self;
        let r = guard(|| f(&mut t, me));
        self.m[d as usize] = t;
        r
    }
    fn vd<E: std::fmt::Debug>(&mut self, d: i64, f: impl FnOnce(&mut Vector<f32>, &Machine) -> Result<Vec<f32>, E>) -> Result<Vec<f32>, Out> {
        let k = (d - V0) as usize;
        let mut t = replace(&mut self.v[k], Vector::new());
        let me: &Machine = self;
        let r = guard(|| f(&mut t, me));
        self.v[k] = t;
        r
    }
    fn ud<E: std::fmt::Debug>(&mut self, d: i64, f: impl FnOnce(&mut Vector<u8>) -> Result<Vec<f32>, E>) -> Result<Vec<f32>, Out> {
        guard(|| f(&mut self.u[(d - U0) as usize]))
    }
    fn mn<E: std::fmt::Debug>(&mut self, d: i64, f: impl FnOnce(&Machine) -> Result<Matrix, E>) -> Result<Vec<f32>, Out> {
        let r = guard(|| f(self))?;
        self.m[d as usize] = r;
        Ok(vec![])
    }
    fn vn<E: std::fmt::Debug>(&mut self, d: i64, f: impl FnOnce(&Machine) -> Result<Vector<f32>, E>) -> Result<Vec<f32>, Out> {
        let r = guard(|| f(self))?;
        self.v[(d - V0) as usize] = r;
        Ok(vec![])
    }
    fn mm<E: std::fmt::Debug>(&mut self, d: i64, e: i64, f: impl FnOnce(&Machine) -> Result<(Matrix, Matrix), E>) -> Result<Vec<f32>, Out> {
        let r = guard(|| f(self))?;
        self.m[d as usize] = r.0;
        self.m[e as usize] = r.1;
        Ok(vec![])
    }

    fn call(&mut self, op: &Op) -> Result<Vec<f32>, Out> {
        let a = &op.a;
        let f = &op.f;
        let g = |k: usize| a[k] as u8;
        let mi = |k: usize| a[k] as usize;
        let vi = |k: usize| (a[k] - V0) as usize;
        let ui = |k: usize| (a[k] - U0) as usize;
        let me: &Machine = self;
        match DEFS[op.def].name {
            "m_new" => self.mn(a[0], |_| Ok::<_, ()>(Matrix::new())),
            "v_new" => self.vn(a[0], |_| Ok::<_, ()>(Vector::new())),
            "u_new" => {
                self.u[ui(0)] = Vector::new();
                Ok(vec![])
            }
            "m_init" => self.md(a[0], |t, _| unit(t.init(g(1), g(2)))),
            "v_init" => self.vd(a[0], |t, _| unit(t.init(g(1)))),
            "u_init" => self.ud(a[0], |t| unit(t.init(g(1)))),
            "m_reinit" => self.md(a[0], |t, _| unit(t.reinit(g(1), g(2)))),
            "v_reinit" => self.vd(a[0], |t, _| unit(t.reinit(g(1)))),
            "u_reinit" => self.ud(a[0], |t| unit(t.reinit(g(1)))),
            "m_isinit" => guard(|| flag(Ok::<_, ()>(me.m[mi(0)].is_initialized()))),
            "v_isinit" => guard(|| flag(Ok::<_, ()>(me.v[vi(0)].is_initialized()))),
            "u_isinit" => guard(|| flag(Ok::<_, ()>(me.u[ui(0)].is_initialized()))),
            "m_rows" => guard(|| byte(me.m[mi(0)].get_rows())),
            "v_rows" => guard(|| byte(me.v[vi(0)].get_rows())),
            "u_rows" => guard(|| byte(me.u[ui(0)].get_rows())),
            "m_cols" => guard(|| byte(me.m[mi(0)].get_cols())),
            "m_set" => self.md(a[0], |t, _| unit(t.set_element(g(1), g(2), f[0]))),
            "v_set" => self.vd(a[0], |t, _| unit(t.set_element(g(1), f[0]))),
            "u_set" => self.ud(a[0], |t| unit(t.set_element(g(1), g(2)))),
            "m_get" => guard(|| one(me.m[mi(0)].get_element(g(1), g(2)))),
            "v_get" => guard(|| one(me.v[vi(0)].get_element(g(1)))),
            "u_get" => guard(|| byte(me.u[ui(0)].get_element(g(1)))),
            "m_fill" => self.md(a[0], |t, _| unit(t.fill(f[0]))),
            "v_fill" => self.vd(a[0], |t, _| unit(t.fill(f[0]))),
            "m_ident" => self.md(a[0], |t, _| unit(t.fill_identity())),
            "m_copy" => self.md(a[0], |t, s| unit(t.copy_from(&s.m[mi(1)]))),
            "v_copy" => self.vd(a[0], |t, s| unit(t.copy_from(&s.v[vi(1)]))),
            "m_dup" => self.mn(a[0], |s| s.m[mi(1)].duplicate()),
            "v_dup" => self.vn(a[0], |s| s.v[vi(1)].duplicate()),
            "m_setrow" => self.md(a[0], |t, s| unit(t.set_row(&s.v[vi(1)], g(2)))),
            "m_setcol" => self.md(a[0], |t, s| unit(t.set_col(&s.v[vi(1)], g(2)))),
            "m_getrow" => self.vd(a[0], |t, s| unit(s.m[mi(1)].get_row(t, g(2)))),
            "m_getcol" => self.vd(a[0], |t, s| unit(s.m[mi(1)].get_col(t, g(2)))),
            "m_rowvec" => self.vn(a[0], |s| s.m[mi(1)].row_to_vector(g(2))),
            "m_colvec" => self.vn(a[0], |s| s.m[mi(1)].col_to_vector(g(2))),
            "m_addrow" => self.md(a[0], |t, s| unit(t.add_row(&s.v[vi(1)], g(2)))),
            "m_addcol" => self.md(a[0], |t, s| unit(t.add_col(&s.v[vi(1)], g(2)))),
            "m_delrow" => {
                let mut got = None;
                let r = self.md(a[0], |t, _| {
                    t.del_row(g(2)).map(|v| {
                        got = Some(v);
                        vec![]
                    })
                })?;
                if let Some(v) = got {
                    self.v[vi(1)] = v;
                }
                Ok(r)
            }
            "m_tr" => self.md(a[0], |t, _| unit(t.transpose())),
            "m_trnew" => self.mn(a[0], |s| s.m[mi(1)].transpose_new()),
            "m_diag" => self.vn(a[0], |s| s.m[mi(1)].diag(if a[2] == 99 { None } else { Some(a[2] as i8) })),
            "v_tomat" => self.mn(a[0], |s| s.v[vi(1)].convert_to_matrix()),
            "m_same" => guard(|| flag(me.m[mi(0)].is_same_size_as(&me.m[mi(1)]))),
            "v_same" => guard(|| flag(me.v[vi(0)].is_same_size_as(&me.v[vi(1)]))),
            "m_square" => guard(|| flag(me.m[mi(0)].is_square())),
            "m_eq" => guard(|| flag(me.m[mi(0)].is_equal_to(&me.m[mi(1)], f[0]))),
            "v_eq" => guard(|| flag(me.v[vi(0)].is_equal_to(&me.v[vi(1)], f[0]))),
            "m_add" => self.md(a[0], |t, s| unit(t.add(&s.m[mi(1)], &s.m[mi(2)]))),
            "m_add_ip" => self.md(a[0], |t, s| unit(t.add_in_place(&s.m[mi(1)]))),
            "m_add_new" => self.mn(a[0], |s| s.m[mi(1)].add_new(&s.m[mi(2)])),
            "m_sub" => self.md(a[0], |t, s| unit(t.sub(&s.m[mi(1)], &s.m[mi(2)]))),
            "m_sub_ip" => self.md(a[0], |t, s| unit(t.sub_in_place(&s.m[mi(1)]))),
            "m_sub_new" => self.mn(a[0], |s| s.m[mi(1)].sub_new(&s.m[mi(2)])),
            "m_adds" => self.md(a[0], |t, s| unit(t.add_scalar(&s.m[mi(1)], f[0]))),
            "m_adds_ip" => self.md(a[0], |t, _| unit(t.add_scalar_in_place(f[0]))),
            "m_adds_new" => self.mn(a[0], |s| s.m[mi(1)].add_scalar_new(f[0])),
            "m_subs" => self.md(a[0], |t, s| unit(t.sub_scalar(&s.m[mi(1)], f[0]))),
            "m_subs_ip" => self.md(a[0], |t, _| unit(t.sub_scalar_in_place(f[0]))),
            "m_subs_new" => self.mn(a[0], |s| s.m[mi(1)].sub_scalar_new(f[0])),
            "m_muls_ip" => self.md(a[0], |t, _| unit(t.mul_by_scalar_in_place(f[0]))),
            "m_pow" => self.md(a[0], |t, _| unit(t.power_elements(f[0]))),
            "v_add" => self.vd(a[0], |t, s| unit(t.add(&s.v[vi(1)], &s.v[vi(2)]))),
            "v_add_ip" => self.vd(a[0], |t, s| unit(t.add_in_place(&s.v[vi(1)]))),
            "v_add_new" => self.vn(a[0], |s| s.v[vi(1)].add_new(&s.v[vi(2)])),
            "v_sub" => self.vd(a[0], |t, s| unit(t.sub(&s.v[vi(1)], &s.v[vi(2)]))),
            "v_sub_ip" => self.vd(a[0], |t, s| unit(t.sub_in_place(&s.v[vi(1)]))),
            "v_sub_new" => self.vn(a[0], |s| s.v[vi(1)].sub_new(&s.v[vi(2)])),
            "v_adds" => self.vd(a[0], |t, s| unit(t.add_scalar(&s.v[vi(1)], f[0]))),
            "v_adds_ip" => self.vd(a[0], |t, _| unit(t.add_scalar_in_place(f[0]))),
            "v_adds_new" => self.vn(a[0], |s| s.v[vi(1)].add_scalar_new(f[0])),
            "v_subs" => self.vd(a[0], |t, s| unit(t.sub_scalar(&s.v[vi(1)], f[0]))),
            "v_subs_ip" => self.vd(a[0], |t, _| unit(t.sub_scalar_in_place(f[0]))),
            "v_subs_new" => self.vn(a[0], |s| s.v[vi(1)].sub_scalar_new(f[0])),
            "v_muls" => self.vd(a[0], |t, s| unit(t.mul_by_scalar(&s.v[vi(1)], f[0]))),
            "v_muls_ip" => self.vd(a[0], |t, _| unit(t.mul_by_scalar_in_place(f[0]))),
            "v_muls_new" => self.vn(a[0], |s| s.v[vi(1)].mul_by_scalar_new(f[0])),
            "v_pow" => self.vd(a[0], |t, _| unit(t.power_elements(f[0]))),
            "m_mul" => self.md(a[0], |t, s| unit(t.mul(&s.m[mi(1)], &s.m[mi(2)]))),
            "m_mul_new" => self.mn(a[0], |s| s.m[mi(1)].mul_new(&s.m[mi(2)])),
            "v_outer" => self.mn(a[0], |s| s.v[vi(1)].outer_product(&s.v[vi(2)])),
            "v_dot" => guard(|| one(me.v[vi(0)].dot_product(&me.v[vi(1)]))),
            "m_trace" => guard(|| one(me.m[mi(0)].trace())),
            "m_frob" => guard(|| one(me.m[mi(0)].calculate_frobenius_norm())),
            "v_norm" => guard(|| one(me.v[vi(0)].calculate_norm())),
            "v_normalize" => self.vd(a[0], |t, _| unit(t.normalize())),
            "v_lerp" => self.vd(a[0], |t, s| unit(t.lerp(&s.v[vi(1)], &s.v[vi(2)], f[0]))),
            "v_slerp" => self.vd(a[0], |t, s| unit(t.slerp(&s.v[vi(1)], &s.v[vi(2)], f[0]))),
            "q_isq" => guard(|| flag(me.v[vi(0)].is_quaternion())),
            "q_isreal" => guard(|| flag(me.v[vi(0)].is_real())),
            "q_ispure" => guard(|| flag(me.v[vi(0)].is_pure())),
            "q_isversor" => guard(|| flag(me.v[vi(0)].is_versor())),
            "q_isident" => guard(|| flag(me.v[vi(0)].is_identity())),
            "q_setw" => self.vd(a[0], |t, _| unit(t.set_qw(f[0]))),
            "q_setx" => self.vd(a[0], |t, _| unit(t.set_qx(f[0]))),
            "q_sety" => self.vd(a[0], |t, _| unit(t.set_qy(f[0]))),
            "q_setz" => self.vd(a[0], |t, _| unit(t.set_qz(f[0]))),
            "q_getw" => guard(|| one(me.v[vi(0)].get_qw())),
            "q_getx" => guard(|| one(me.v[vi(0)].get_qx())),
            "q_gety" => guard(|| one(me.v[vi(0)].get_qy())),
            "q_getz" => guard(|| one(me.v[vi(0)].get_qz())),
            "q_vec" => self.vn(a[0], |s| s.v[vi(1)].get_vector_part()),
            "q_fill" => self.vd(a[0], |t, _| unit(t.fillq(f[0], f[1], f[2], f[3]))),
            "q_ident" => self.vd(a[0], |t, _| unit(t.fill_identity())),
            "q_conj" => self.vd(a[0], |t, _| unit(t.conjugate())),
            "q_conj_new" => self.vn(a[0], |s| s.v[vi(1)].conjugate_new()),
            "q_mul" => self.vd(a[0], |t, s| unit(t.mul(&s.v[vi(1)], &s.v[vi(2)]))),
            "q_mul_new" => self.vn(a[0], |s| s.v[vi(1)].mul_new(&s.v[vi(2)])),
            "q_inv" => self.vd(a[0], |t, _| unit(t.invert())),
            "q_dcm" => self.mn(a[0], |s| s.v[vi(1)].convert_to_dcm()),
            "q_rot" => self.vn(a[0], |s| s.v[vi(1)].rotate(&s.v[vi(2)])),
            "q_rot_ip" => self.vd(a[1], |t, s| unit(s.v[vi(0)].rotate_in_place(t))),
            "q_exp" => self.vd(a[0], |t, _| unit(t.exp())),
            "q_exp_new" => self.vn(a[0], |s| s.v[vi(1)].exp_new()),
            "q_hughes" => self.vd(a[0], |t, s| unit(t.hughes(&s.m[mi(1)]))),
            "q_chiav" => self.vd(a[0], |t, s| unit(t.chiaverini(&s.m[mi(1)]))),
            "q_sarab" => self.vd(a[0], |t, s| unit(t.sarabandi(&s.m[mi(1)], None))),
            "q_euler" => guard(|| me.v[vi(0)].convert_to_euler().map(|(x, y, z)| vec![x, y, z])),
            "m_lr" => self.mm(a[1], a[2], |s| s.m[mi(0)].lr()),
            "m_crout" => self.mm(a[1], a[2], |s| s.m[mi(0)].lu_crout()),
            "m_qr" => self.mm(a[1], a[2], |s| s.m[mi(0)].qr_decomp()),
            "m_chol" => self.mn(a[1], |s| s.m[mi(0)].chol()),
            "m_inv" => self.md(a[0], |t, _| unit(t.invert())),
            "m_adj" => self.md(a[0], |t, _| unit(t.adjugate_in_place())),
            "m_log" => self.mn(a[1], |s| s.m[mi(0)].log()),
            "m_log_ip" => self.md(a[0], |t, _| unit(t.log_in_place())),
            "m_det" => guard(|| one(me.m[mi(0)].det())),
            "m_detn" => guard(|| one(me.m[mi(0)].det_naive())),
            "m_sym" => guard(|| flag(me.m[mi(0)].is_symmetric())),
            "m_pd" => guard(|| flag(me.m[mi(0)].is_positive_definite())),
            "m_up" => guard(|| flag(me.m[mi(0)].is_upper_triangular())),
            "m_lo" => guard(|| flag(me.m[mi(0)].is_lower_triangular())),
            "m_orth" => guard(|| flag(me.m[mi(0)].is_orthogonal())),
            "m_son" => guard(|| flag(me.m[mi(0)].is_so_n())),
            "lup" => {
                let r = guard(|| la::lup(&me.m[mi(0)]))?;
                self.m[mi(1)] = r.0;
                self.u[ui(2)] = r.1;
                Ok(vec![])
            }
            "solve" => self.vn(a[3], |s| la::solve(&s.m[mi(0)], &s.v[vi(1)], &s.u[ui(2)])),
            "eigen" => {
                let r = guard(|| la::eigen(&me.m[mi(0)], a[1] as u16, a[2] != 0))?;
                self.v[vi(3)] = r.0;
                self.m[mi(4)] = r.1;
                Ok(vec![])
            }
            "m_dlyap" => self.mn(a[2], |s| s.m[mi(0)].dlyap(&s.m[mi(1)])),
            #[cfg(feature = "std")]
            "m_print" => guard(|| unit(me.m[mi(0)].print())),
            #[cfg(feature = "std")]
            "v_print" => guard(|| unit(me.v[vi(0)].print())),
            #[cfg(not(feature = "std"))]
            "m_print" | "v_print" => Err(Out::Err("NotBuilt".into())),
            other => panic!("unknown op {}", other),
        }
    }
}
