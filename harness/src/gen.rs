//! Generators of operation sequences for the register machine.
use crate::machine::*;
use crate::out::Trace;
use crate::tok::Rng;

#[derive(Clone, Copy, PartialEq)]
pub enum Pool {
    Exact,
    Small,
    Unit,
    Large,
    Scale,
    Wild,
}

pub struct Gen {
    pub rng: Rng,
    pub m: Machine,
    pub tr: Trace,
    pub pool: Pool,
    pub bad: f64,
    pub ops: Vec<usize>,
}

const IDX: [i64; 8] = [0, 1, 2, 3, 4, 5, 254, 255];
const DIM: [i64; 8] = [1, 2, 3, 4, 0, 5, 6, 255];

fn is_reg(ch: char) -> bool {
    "DRMEWVBPU".contains(ch)
}

/// Shapes the register arguments must have for a well-formed call; (0,0) where any state will do.
fn need(d: &Def, r: u8, c: u8, k: u8) -> Vec<(u8, u8)> {
    let any = (0, 0);
    match d.fun {
        "new" | "init" => vec![any],
        "setrow" => vec![(r, c), (c, 1)],
        "setcol" => vec![(r, c), (r, 1)],
        "getrow" => vec![(c, 1), (r, c)],
        "getcol" => vec![(r, 1), (r, c)],
        "addrow" => vec![(r.min(3), c), (c, 1)],
        "addcol" => vec![(r, c.min(3)), (r, 1)],
        "delrow" => vec![(r.max(2), c), any],
        "mul" if d.form == "dst" => vec![(r, c), (r, k), (k, c)],
        "mul" => vec![any, (r, k), (k, c)],
        "outer" => vec![any, (r, 1), (c, 1)],
        "ident" | "trace" | "inv" | "adj" | "det" | "pdpred" => vec![(r, r)],
        "pred" => vec![(r, r)],
        "factor" if d.sig.len() == 3 => vec![(r, r), any, any],
        "factor" => vec![(r, r), any],
        "log" if d.form == "ip" => vec![(3, 3)],
        "log" => vec![(3, 3), any],
        "lup" => vec![(r, r), any, any],
        "solve" => vec![(r, r), (r, 1), (r, 1), any],
        "eigen" => vec![(r, r), any, any],
        "dlyap" => vec![(r, r), (r, r), any],
        "todcm" => vec![(4, 1), (3, 3)],
        "rot" if d.form == "new" => vec![any, (4, 1), (3, 1)],
        "rot" => vec![(4, 1), (3, 1)],
        _ => {
            let q = d.grp == "quat" || d.fun == "dcm" || d.fun == "qexp" || d.fun == "euler";
            d.sig
                .chars()
                .filter(|ch| is_reg(*ch))
                .map(|ch| match ch {
                    'D' | 'M' => (r, c),
                    'E' | 'V' | 'B' | 'U' => (if q { 4 } else { r }, 1),
                    _ => any,
                })
                .collect()
        }
    }
}

impl Gen {
    pub fn new(seed: u64, path: &str, groups: &[&str], pool: Pool, bad: f64) -> Self {
        let mut ops = vec![];
        for (i, d) in DEFS.iter().enumerate() {
            let mut w = 0;
            for g in groups {
                let mut it = g.split('*');
                let name = it.next().unwrap();
                let k: usize = it.next().map(|x| x.parse().unwrap()).unwrap_or(1);
                if name == d.grp || name == "all" || name == d.name || name == d.fun {
                    w = w.max(k);
                }
            }
            for _ in 0..w {
                ops.push(i);
            }
        }
        Gen { rng: Rng::new(seed), m: Machine::new(), tr: Trace::new(path), pool, bad, ops }
    }

    pub fn value(&mut self) -> f32 {
        let r = &mut self.rng;
        match self.pool {
            Pool::Small => r.range(-3, 3) as f32,
            Pool::Exact => match r.below(8) {
                0..=3 => r.range(-9, 9) as f32,
                4..=5 => r.range(-256, 256) as f32 / 64.0,
                6 => r.range(-16, 16) as f32 / 8.0,
                _ => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 64.0, -64.0, 3.0e-5, 5.0e-4, -2.0e-4, 1.0e-3]),
            },
            Pool::Unit => r.sym() as f32,
            Pool::Large => match r.below(6) {
                0 => r.range(-200000, 200000) as f32,
                1 => r.range(-128000, 128000) as f32 / 64.0,
                2 => r.range(-3000, 3000) as f32,
                3 => *r.pick(&[100.0, -1000.0, 10000.0, -99999.0, 65536.0, 2048.0, 129.0]),
                _ => r.range(-9, 9) as f32,
            },
            Pool::Scale => match r.below(8) {
                0 => 0.0,
                1 | 2 => r.scaled(-30, 40),
                3 => r.scaled(-14, -8),
                4 => r.scaled(3, 12),
                _ => r.scaled(-6, 6),
            },
            Pool::Wild => match r.below(10) {
                0 => f32::NAN,
                1 => f32::INFINITY,
                2 => f32::NEG_INFINITY,
                3 => *r.pick(&[f32::MAX, f32::MIN, 1.0e20, -1.0e20, 3.0e38, 1.8e19]),
                4 => *r.pick(&[f32::MIN_POSITIVE, 1.0e-45, -1.0e-45, 1.0e-20, 1.0e-38, -0.0, 9.9e-5, 1.0e-4]),
                5 => f32::from_bits(r.next() as u32),
                _ => r.range(-9, 9) as f32,
            },
        }
    }

    fn float_arg(&mut self, ch: char) -> f32 {
        let wild = self.pool == Pool::Wild && self.rng.chance(0.3);
        if wild {
            return self.value();
        }
        match ch {
            's' => *self.rng.pick(&[0.0, 1.0, 2.0, 2.0, 3.0, 0.5, -1.0]),
            'e' => *self.rng.pick(&[0.0, 1.0 / 64.0, 0.125, 0.5, 1.0, 4.0, -0.5, 1.0e-4, 2.5]),
            't' => *self.rng.pick(&[0.0, 1.0, 0.5, 0.25, 0.75, 0.125, 0.9, -0.25, 1.5, f32::NAN]),
            _ => self.value(),
        }
    }

    pub fn emit(&mut self, name: &str, a: &[i64], f: &[f32]) {
        let def = find(name).unwrap();
        let op = Op { def, a: a.to_vec(), f: f.to_vec() };
        self.run(&op);
    }

    pub fn run(&mut self, op: &Op) {
        if Machine::aliased(op) {
            return;
        }
        self.m.exec(op, &mut self.tr);
    }

    fn class(ch: char) -> (i64, i64) {
        match ch {
            'D' | 'R' | 'M' => (0, V0),
            'E' | 'W' | 'V' => (V0, U0),
            _ => (U0, U0 + NU as i64),
        }
    }

    pub fn shape(&mut self, reg: i64, r: u8, c: u8) {
        let init = self.m.snap(reg).init;
        let (p, dims): (&str, Vec<i64>) = if reg < V0 {
            ("m", vec![reg, r as i64, c as i64])
        } else if reg < U0 {
            ("v", vec![reg, r as i64])
        } else {
            ("u", vec![reg, r as i64])
        };
        let name = format!("{}_{}", p, if init { "reinit" } else { "init" });
        self.emit(&name, &dims, &[]);
    }

    /// Give every element of a register a fresh value.
    pub fn refill(&mut self, reg: i64) {
        let s = self.m.snap(reg);
        // all elements of about the same size
        let level = (self.pool == Pool::Scale && self.rng.chance(0.4)).then(|| self.rng.range(-14, 12));
        for i in 0..s.r as i64 {
            for j in 0..s.c as i64 {
                let v = match level { Some(k) => self.rng.scaled(k - 1, k + 1), None => self.value() };
                if reg < V0 {
                    self.emit("m_set", &[reg, i, j], &[v]);
                } else if reg < U0 {
                    self.emit("v_set", &[reg, i], &[v]);
                } else {
                    let b = self.rng.below(s.r as u64) as i64;
                    self.emit("u_set", &[reg, i, b], &[]);
                }
            }
        }
    }

    fn tame(&self, reg: i64) -> bool {
        let limit = if self.pool == Pool::Large { 262144.0 } else { 64.0 };
        matches!(self.pool, Pool::Wild | Pool::Scale) || self.m.snap(reg).e.iter().all(|x| x.abs() <= limit)
    }

    /// One call whose arguments mostly satisfy the preconditions.
    pub fn step(&mut self) {
        let ops = self.ops.len() as u64;
        let di = self.ops[self.rng.below(ops) as usize];
        let d = &DEFS[di];
        let wellformed = !self.rng.chance(self.bad);
        let (mut r, mut c) = (self.rng.range(1, 4) as u8, self.rng.range(1, 4) as u8);
        let k = self.rng.range(1, 4) as u8;
        if self.rng.chance(0.3) {
            c = r;
        }
        let shapes = need(d, r, c, k);
        let mut regs: Vec<i64> = vec![];
        let mut dests: Vec<i64> = vec![];
        let regch: Vec<char> = d.sig.chars().filter(|ch| is_reg(*ch)).collect();
        for (n, ch) in regch.iter().enumerate() {
            let (lo, hi) = Self::class(*ch);
            let written = "DREWBP".contains(*ch);
            let want = shapes[n];
            let free: Vec<i64> = (lo..hi)
                .filter(|x| !dests.contains(x) && (!written || !regs.contains(x)))
                .collect();
            let fresh: Vec<i64> = free.iter().cloned().filter(|x| !regs.contains(x)).collect();
            let mut reg = if !fresh.is_empty() && !self.rng.chance(0.15) { *self.rng.pick(&fresh) } else { *self.rng.pick(&free) };
            if wellformed && want != (0, 0) {
                let fit: Vec<i64> = free
                    .iter()
                    .cloned()
                    .filter(|x| {
                        let s = self.m.snap(*x);
                        s.init && (s.r, s.c) == want && self.tame(*x)
                    })
                    .collect();
                if !fit.is_empty() && !self.rng.chance(0.1) {
                    reg = *self.rng.pick(&fit);
                } else {
                    if regs.contains(&reg) {
                        if fresh.is_empty() {
                            return;
                        }
                        reg = *self.rng.pick(&fresh);
                    }
                    self.shape(reg, want.0, want.1);
                    self.refill(reg);
                }
            }
            regs.push(reg);
            if written {
                dests.push(reg);
            }
        }
        // Index arguments refer to the container they index.
        if let Some(n) = regch.iter().position(|x| "DMEVBU".contains(*x)) {
            let first = if d.fun == "getrow" || d.fun == "getcol" { 1 } else { n };
            let s = self.m.snap(regs[first]);
            if s.init {
                r = s.r;
                c = s.c;
            }
        }
        let extra = if d.fun == "addrow" || d.fun == "addcol" { 1 } else { 0 };
        let mut a = vec![];
        let mut f = vec![];
        let mut ri = 0;
        for ch in d.sig.chars() {
            if is_reg(ch) {
                a.push(regs[ri]);
                ri += 1;
                continue;
            }
            let rnd = !wellformed && self.rng.chance(0.5);
            match ch {
                'r' => a.push(if rnd { *self.rng.pick(&IDX) } else { self.rng.range(0, r as i64 - 1 + extra) }),
                'c' => a.push(if rnd { *self.rng.pick(&IDX) } else { self.rng.range(0, c as i64 - 1 + extra) }),
                'n' => a.push(if rnd { *self.rng.pick(&DIM) } else { self.rng.range(1, 4) }),
                'k' => {
                    let v = match self.rng.below(6) {
                        0 => 99,
                        1 if !wellformed => *self.rng.pick(&[5, -5, 127, -128, 4, -4]),
                        _ => self.rng.range(1 - r as i64, c as i64 - 1),
                    };
                    a.push(v)
                }
                'b' => a.push(if rnd { *self.rng.pick(&IDX) } else { self.rng.range(0, 3) }),
                'i' => a.push(*self.rng.pick(&[0, 1, 2, 5, 20, 100])),
                'z' => a.push(self.rng.below(2) as i64),
                _ => {
                    let v = self.float_arg(ch);
                    f.push(v)
                }
            }
        }
        // Predicates of quaternions close to their bounds.
        if wellformed && matches!(d.fun, "isreal" | "ispure" | "isversor" | "isident") && self.rng.chance(0.6) && self.m.snap(a[0]).r == 4 {
            let rng = &mut self.rng;
            let near = |rng: &mut Rng| *rng.pick(&[0.3e-4, 0.6e-4, 0.9e-4, 0.99e-4, 1.01e-4, 1.1e-4, 1.4e-4, 2.0e-4, 3.0e-4]) * if rng.chance(0.5) { 1.0 } else { -1.0 };
            let mut q = match rng.below(4) { 0 => [1.0, 0.0, 0.0, 0.0], 1 => [0.0, 0.6, 0.0, 0.8], _ => rng.quat() };
            match d.fun {
                "isversor" => {
                    let s = 1.0 + near(rng);
                    q.iter_mut().for_each(|x| *x *= s);
                }
                "ispure" => q[0] = near(rng),
                _ => {
                    q = [if rng.chance(0.5) { 1.0 } else { 1.0 + near(rng) }, 0.0, 0.0, 0.0];
                    if rng.chance(0.7) {
                        q[rng.range(1, 3) as usize] = near(rng);
                    }
                }
            }
            for (k, x) in q.iter().enumerate() {
                self.emit("v_set", &[a[0], k as i64], &[*x as f32]);
            }
        }
        // Exponentials over all sizes of both parts.
        let arg = a.last().copied().unwrap_or(0);
        if wellformed && d.fun == "qexp" && self.rng.chance(0.7) && self.m.snap(arg).r == 4 {
            let rng = &mut self.rng;
            let q = rng.quat();
            let w = match rng.below(6) { 0 => 0.0, 1 => rng.sym() * 1.0e-3, 2 => rng.sym() * 60.0, 3 => -3.0 - rng.unit() * 9.0, _ => rng.sym() * 4.0 };
            let n = match rng.below(6) { 0 => 0.0, 1 => rng.unit() * 1.0e-3, 2 => rng.unit() * 16.0, 3 => rng.unit() * 0.1, _ => rng.unit() * 7.0 };
            for (k, x) in [w, n * q[1], n * q[2], n * q[3]].iter().enumerate() {
                self.emit("v_set", &[arg, k as i64], &[*x as f32]);
            }
        }
        self.run(&Op { def: di, a, f });
    }

    /// Bring a register into one of the 16 shapes (or uninitialised for (0,0)) with distinct small values.
    pub fn prepare(&mut self, reg: i64, r: u8, c: u8, base: i64) {
        let s = self.m.snap(reg);
        if r == 0 {
            if s.init {
                self.emit(if reg < V0 { "m_new" } else if reg < U0 { "v_new" } else { "u_new" }, &[reg], &[]);
            }
            return;
        }
        if s.init && s.r == r && (reg >= V0 || s.c == c) && s.e.iter().enumerate().all(|(n, x)| *x == (base + n as i64) as f32) {
            return;
        }
        if !(s.init && s.r == r && (reg >= V0 || s.c == c)) {
            self.shape(reg, r, c);
        }
        let mut v = base;
        for i in 0..r as i64 {
            for j in 0..(if reg < V0 { c as i64 } else { 1 }) {
                if reg < V0 {
                    self.emit("m_set", &[reg, i, j], &[v as f32]);
                } else if reg < U0 {
                    self.emit("v_set", &[reg, i], &[v as f32]);
                } else {
                    self.emit("u_set", &[reg, i, (v % 4).abs()], &[]);
                }
                v += 1;
            }
        }
    }

    /// Every operation with every subset of its operands uninitialised, at a few shapes.
    pub fn enum_uninit(&mut self) {
        for (di, d) in DEFS.iter().enumerate() {
            let regch: Vec<char> = d.sig.chars().filter(|x| is_reg(*x)).collect();
            for (r, c, k) in [(2u8, 2u8, 2u8), (3, 3, 3), (1, 1, 1), (2, 3, 4), (4, 4, 4)] {
                let shapes = need(d, r, c, k);
                for mask in 0..(1u32 << regch.len()) {
                    let mut a = vec![];
                    let mut used: Vec<i64> = vec![];
                    let mut regs = vec![];
                    for (n, ch) in regch.iter().enumerate() {
                        let (lo, hi) = Self::class(*ch);
                        let reg = (lo..hi).find(|x| !used.contains(x)).unwrap();
                        used.push(reg);
                        regs.push(reg);
                        let (wr, wc) = if shapes[n] == (0, 0) { (r, c) } else { shapes[n] };
                        if mask >> n & 1 == 1 {
                            self.prepare(reg, 0, 0, 0);
                        } else {
                            self.prepare(reg, wr, wc, 1);
                        }
                    }
                    let mut ri = 0;
                    let mut f = vec![];
                    for ch in d.sig.chars() {
                        if is_reg(ch) {
                            a.push(regs[ri]);
                            ri += 1;
                        } else {
                            match ch {
                                'r' | 'c' | 'k' | 'z' => a.push(0),
                                'n' => a.push(2),
                                'b' => a.push(1),
                                'i' => a.push(5),
                                _ => f.push(if ch == 't' { 0.5 } else { 1.0 }),
                            }
                        }
                    }
                    self.run(&Op { def: di, a, f });
                }
            }
        }
    }

    /// Displays of every shape, with values around the roundings and at the ends of the range.
    pub fn enum_show(&mut self) {
        let odd = [
            0.0, -0.0, 0.0005, -0.0005, 0.0004999, 0.00051, 0.0625, -0.0625, 0.9994, 0.9995, 0.9996, 1.0005, -1.0015, 9.9996, 99.9995, -999.9995, 1234.5678,
            16383.999, 16384.002, 65535.996, 1.0e6, -1234567.8, 3.0e9, 1.0e20, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1.0e-45, 1.0e-4, 31.4159, -2.71828, 0.1,
        ];
        for reg in [0, 3] {
            self.prepare(reg, 0, 0, 0);
            self.emit("m_print", &[reg], &[]);
            for r in 1..=4u8 {
                for c in 1..=4u8 {
                    for base in [1, -7, 640] {
                        self.prepare(reg, r, c, base);
                        self.emit("m_print", &[reg], &[]);
                    }
                    for k in 0..odd.len() / 4 {
                        for n in 0..(r * c) as usize {
                            let x = odd[(4 * k + n) % odd.len()];
                            self.emit("m_set", &[reg, n as i64 / c as i64, n as i64 % c as i64], &[x]);
                        }
                        self.emit("m_print", &[reg], &[]);
                    }
                }
            }
        }
        for reg in [V0, V0 + 2] {
            self.prepare(reg, 0, 0, 0);
            self.emit("v_print", &[reg], &[]);
            for r in 1..=4u8 {
                for base in [1, -7, 640] {
                    self.prepare(reg, r, 1, base);
                    self.emit("v_print", &[reg], &[]);
                }
                for k in 0..odd.len() {
                    for n in 0..r as usize {
                        self.emit("v_set", &[reg, n as i64], &[odd[(k + n) % odd.len()]]);
                    }
                    self.emit("v_print", &[reg], &[]);
                }
            }
        }
    }

    /// Dimensioning calls with every size, from both lifecycle states.
    pub fn enum_life(&mut self) {
        for kind in ["m", "v", "u"] {
            let reg = match kind {
                "m" => 0,
                "v" => V0,
                _ => U0,
            };
            for r in 0..8i64 {
                for c in 0..(if kind == "m" { 8i64 } else { 1 }) {
                    let fixd = |x: i64| if x == 7 { 255 } else { x };
                    let dims: Vec<i64> = if kind == "m" { vec![reg, fixd(r), fixd(c)] } else { vec![reg, fixd(r)] };
                    for first in ["init", "reinit"] {
                        for second in ["init", "reinit"] {
                            self.emit(&format!("{}_new", kind), &[reg], &[]);
                            self.emit(&format!("{}_{}", kind, first), &dims, &[]);
                            self.observe(kind, reg);
                            self.emit(&format!("{}_{}", kind, second), &dims, &[]);
                            self.observe(kind, reg);
                            let two: Vec<i64> = if kind == "m" { vec![reg, 3, 2] } else { vec![reg, 3] };
                            self.emit(&format!("{}_init", kind), &two, &[]);
                            self.emit(&format!("{}_reinit", kind), &dims, &[]);
                            self.observe(kind, reg);
                        }
                    }
                }
            }
        }
    }

    fn observe(&mut self, kind: &str, reg: i64) {
        self.emit(&format!("{}_isinit", kind), &[reg], &[]);
        self.emit(&format!("{}_rows", kind), &[reg], &[]);
        if kind == "m" {
            self.emit("m_cols", &[reg], &[]);
        }
    }

    /// Element, row and column access for every shape and index.
    pub fn enum_access(&mut self) {
        for r in 1..=4u8 {
            for c in 1..=4u8 {
                self.prepare(0, r, c, 1);
                for i in IDX {
                    for j in IDX {
                        self.emit("m_get", &[0, i, j], &[]);
                        let v = self.value();
                        self.emit("m_set", &[0, i, j], &[v]);
                    }
                    for n in 1..=4u8 {
                        self.prepare(V0, n, 1, 40);
                        self.emit("m_getrow", &[V0, 0, i], &[]);
                        self.prepare(V0, n, 1, 40);
                        self.emit("m_getcol", &[V0, 0, i], &[]);
                        self.prepare(V0, n, 1, 40);
                        self.emit("m_setrow", &[0, V0, i], &[]);
                        self.emit("m_setcol", &[0, V0, i], &[]);
                    }
                    self.emit("m_rowvec", &[V0 + 1, 0, i], &[]);
                    self.emit("m_colvec", &[V0 + 1, 0, i], &[]);
                }
                for i in 0..r as i64 {
                    for j in 0..c as i64 {
                        self.emit("m_get", &[0, i, j], &[]);
                    }
                }
                let v = self.value();
                self.emit("m_fill", &[0], &[v]);
                self.emit("m_ident", &[0], &[]);
                self.prepare(0, r, c, 1);
                self.emit("m_dup", &[1, 0], &[]);
                for (r2, c2) in [(r, c), (c, r), (r % 4 + 1, c), (r, c % 4 + 1)] {
                    self.prepare(2, r2, c2, 20);
                    self.emit("m_copy", &[2, 0], &[]);
                }
            }
            for reg in [V0, U0] {
                let p = if reg == V0 { "v" } else { "u" };
                self.prepare(reg, r, 1, 1);
                for i in IDX {
                    self.emit(&format!("{}_get", p), &[reg, i], &[]);
                    if reg == V0 {
                        let v = self.value();
                        self.emit("v_set", &[reg, i], &[v]);
                    } else {
                        self.emit("u_set", &[reg, i, (i * 7 + 3) % 256], &[]);
                    }
                }
                for i in 0..r as i64 {
                    self.emit(&format!("{}_get", p), &[reg, i], &[]);
                }
            }
            self.emit("v_dup", &[V0 + 1, V0], &[]);
            for n in 1..=4u8 {
                self.prepare(V0 + 2, n, 1, 9);
                self.emit("v_copy", &[V0 + 2, V0], &[]);
            }
            let v = self.value();
            self.emit("v_fill", &[V0], &[v]);
        }
    }

    /// Structural edits for every shape, position and vector length.
    pub fn enum_edit(&mut self) {
        for r in 1..=4u8 {
            for c in 1..=4u8 {
                for i in IDX {
                    for n in 0..=4u8 {
                        self.prepare(0, r, c, 1);
                        self.prepare(V0, n, 1, 40);
                        self.emit("m_addrow", &[0, V0, i], &[]);
                        self.prepare(0, r, c, 1);
                        self.emit("m_addcol", &[0, V0, i], &[]);
                    }
                    self.prepare(0, r, c, 1);
                    self.emit("m_delrow", &[0, V0 + 1, i], &[]);
                    self.prepare(0, r, c, 1);
                    self.emit("m_rowvec", &[V0 + 1, 0, i], &[]);
                    self.emit("m_colvec", &[V0 + 1, 0, i], &[]);
                }
                self.prepare(0, r, c, 1);
                for k in -6..=6i64 {
                    self.emit("m_diag", &[V0 + 2, 0, k], &[]);
                }
                for k in [99, 127, -128, 100, -100] {
                    self.emit("m_diag", &[V0 + 2, 0, k], &[]);
                }
                self.emit("m_trnew", &[1, 0], &[]);
                self.emit("m_tr", &[0], &[]);
                self.emit("m_tr", &[0], &[]);
            }
            self.prepare(V0, r, 1, 5);
            self.emit("v_tomat", &[2, V0], &[]);
        }
    }

    /// Element-wise operations in all forms over all pairs of shapes.
    pub fn enum_ew(&mut self) {
        let shapes: Vec<(u8, u8)> = (0..16).map(|n| (n / 4 + 1, n % 4 + 1)).collect();
        for (r, c) in shapes.iter().cloned() {
            self.prepare(0, r, c, -7);
            for (r2, c2) in shapes.iter().cloned() {
                self.prepare(1, r2, c2, 3);
                for op in ["add", "sub"] {
                    self.emit(&format!("m_{}_new", op), &[3, 0, 1], &[]);
                    self.prepare(2, r, c, 0);
                    self.emit(&format!("m_{}", op), &[2, 0, 1], &[]);
                    self.prepare(2, r2, c2, 0);
                    self.emit(&format!("m_{}", op), &[2, 0, 0], &[]);
                    self.prepare(2, r2, c2, 0);
                    self.emit(&format!("m_{}", op), &[2, 1, 0], &[]);
                    self.prepare(2, r2, c2, 11);
                    self.emit(&format!("m_{}_ip", op), &[2, 0], &[]);
                }
                for op in ["adds", "subs"] {
                    self.prepare(2, r2, c2, 11);
                    self.emit(&format!("m_{}", op), &[2, 0], &[2.5]);
                }
                self.emit("m_same", &[0, 1], &[]);
                for e in [0.0, 9.5, 10.0, 10.5] {
                    self.emit("m_eq", &[0, 1], &[e]);
                }
            }
            // One differing element at every position, within and beyond the tolerance.
            for i in 0..r as i64 {
                for j in 0..c as i64 {
                    self.prepare(1, r, c, -7);
                    for (dv, e) in [(0.5, 0.5), (0.5, 0.25), (-0.5, 0.5), (-0.5, 0.25)] {
                        let base = (-7 + i * c as i64 + j) as f32;
                        self.emit("m_set", &[1, i, j], &[base + dv]);
                        self.emit("m_eq", &[0, 1], &[e]);
                        self.emit("m_eq", &[1, 0], &[e]);
                    }
                }
            }
            for s in [0.0f32, 1.0, -2.0, 0.5, 3.25] {
                for op in ["adds", "subs"] {
                    self.emit(&format!("m_{}_new", op), &[3, 0], &[s]);
                    self.prepare(2, r, c, 1);
                    self.emit(&format!("m_{}_ip", op), &[2], &[s]);
                }
                self.prepare(2, r, c, -3);
                self.emit("m_muls_ip", &[2], &[s]);
            }
            for s in [0.0f32, 1.0, 2.0, 3.0, 0.5, -1.0] {
                self.prepare(2, r, c, 1);
                self.emit("m_pow", &[2], &[s]);
                self.prepare(2, r, c, -2);
                self.emit("m_pow", &[2], &[s]);
            }
            self.emit("m_square", &[0], &[]);
        }
        let (v0, v1, v2, v3) = (V0, V0 + 1, V0 + 2, V0 + 3);
        for n in 1..=4u8 {
            self.prepare(v0, n, 1, -2);
            for n2 in 1..=4u8 {
                self.prepare(v1, n2, 1, 3);
                for op in ["add", "sub"] {
                    self.emit(&format!("v_{}_new", op), &[v3, v0, v1], &[]);
                    for n3 in 1..=4u8 {
                        self.prepare(v2, n3, 1, 0);
                        self.emit(&format!("v_{}", op), &[v2, v0, v1], &[]);
                    }
                    self.prepare(v2, n2, 1, 11);
                    self.emit(&format!("v_{}_ip", op), &[v2, v0], &[]);
                }
                for op in ["adds", "subs", "muls"] {
                    self.prepare(v2, n2, 1, 11);
                    self.emit(&format!("v_{}", op), &[v2, v0], &[2.5]);
                }
                self.emit("v_same", &[v0, v1], &[]);
                for e in [0.0, 4.5, 5.0, 5.5] {
                    self.emit("v_eq", &[v0, v1], &[e]);
                }
            }
            for i in 0..n as i64 {
                self.prepare(v1, n, 1, -2);
                for (dv, e) in [(0.5, 0.5), (0.5, 0.25), (-0.5, 0.5), (-0.5, 0.25)] {
                    self.emit("v_set", &[v1, i], &[(-2 + i) as f32 + dv]);
                    self.emit("v_eq", &[v0, v1], &[e]);
                    self.emit("v_eq", &[v1, v0], &[e]);
                }
            }
            for s in [0.0f32, 1.0, -2.0, 0.5, 3.25] {
                for op in ["adds", "subs", "muls"] {
                    self.emit(&format!("v_{}_new", op), &[v3, v0], &[s]);
                    self.prepare(v2, n, 1, 1);
                    self.emit(&format!("v_{}_ip", op), &[v2], &[s]);
                }
            }
            for s in [0.0f32, 1.0, 2.0, 3.0, 0.5, -1.0] {
                for b in [1, -2] {
                    self.prepare(v2, n, 1, b);
                    self.emit("v_pow", &[v2], &[s]);
                }
            }
        }
    }

    /// Products over all shape combinations, compatible or not.
    pub fn enum_prod(&mut self) {
        for r in 1..=4u8 {
            for k in 1..=4u8 {
                self.prepare(0, r, k, -5);
                for k2 in 1..=4u8 {
                    for c in 1..=4u8 {
                        self.prepare(1, k2, c, 2);
                        self.emit("m_mul_new", &[3, 0, 1], &[]);
                        for (dr, dc) in [(r, c), (c, r), (r, k), (k, c)] {
                            self.prepare(2, dr, dc, 90);
                            self.emit("m_mul", &[2, 0, 1], &[]);
                        }
                    }
                }
                self.emit("m_trace", &[0], &[]);
                self.emit("m_frob", &[0], &[]);
            }
        }
        let (v0, v1) = (V0, V0 + 1);
        for n in 1..=4u8 {
            for n2 in 1..=4u8 {
                self.prepare(v0, n, 1, -2);
                self.prepare(v1, n2, 1, 3);
                self.emit("v_outer", &[2, v0, v1], &[]);
                self.emit("v_dot", &[v0, v1], &[]);
            }
            for base in [-2, 0, 1, 5] {
                self.prepare(v0, n, 1, base);
                self.emit("v_norm", &[v0], &[]);
            }
            for x in [0.0f32, 2.0e-5, 4.0e-5, 5.0e-4, 1.0e-3, 0.25, -0.25, 100.0] {
                self.emit("v_fill", &[v0], &[0.0]);
                for i in 0..n as i64 {
                    self.emit("v_set", &[v0, i], &[x]);
                    self.emit("v_norm", &[v0], &[]);
                }
                self.emit("v_normalize", &[v0], &[]);
            }
        }
    }

    /// Interpolation and normalisation over sizes and fractions.
    pub fn enum_interp(&mut self) {
        let ts = [
            0.0f32, 1.0, 0.5, 0.25, 0.75, 0.125, -0.125, 1.125, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0 + f32::EPSILON, 1.00005, -0.00005, -1.0e-30,
        ];
        let (v0, v1, v2) = (V0, V0 + 1, V0 + 2);
        for n in 1..=4u8 {
            for n2 in 1..=4u8 {
                for n3 in 1..=4u8 {
                    for t in ts {
                        self.prepare(v0, n, 1, 0);
                        self.prepare(v1, n2, 1, -3);
                        self.prepare(v2, n3, 1, 4);
                        self.emit("v_lerp", &[v0, v1, v2], &[t]);
                        if n != n2 || n != n3 {
                            self.emit("v_slerp", &[v0, v1, v2], &[t]);
                        }
                    }
                }
            }
            // Unit vectors with exactly representable entries.
            let mut units: Vec<Vec<f32>> = vec![];
            for i in 0..n as usize {
                for s in [1.0f32, -1.0] {
                    let mut u = vec![0.0; n as usize];
                    u[i] = s;
                    units.push(u);
                }
            }
            if n == 4 {
                for b in 0..16 {
                    units.push((0..4).map(|i| if b >> i & 1 == 1 { 0.5 } else { -0.5 }).collect());
                }
            }
            for u in units.iter() {
                for w in units.iter() {
                    self.prepare(v0, n, 1, 0);
                    for (reg, e) in [(v1, u), (v2, w)] {
                        self.prepare(reg, n, 1, 0);
                        for (i, x) in e.iter().enumerate() {
                            self.emit("v_set", &[reg, i as i64], &[*x]);
                        }
                    }
                    for t in ts {
                        self.emit("v_slerp", &[v0, v1, v2], &[t]);
                    }
                }
            }
        }
    }

    /// Quaternion operations over a grid of component values and vector lengths.
    pub fn enum_quat(&mut self) {
        let (v0, v1, v2) = (V0, V0 + 1, V0 + 2);
        let uni = ["q_isq", "q_isreal", "q_ispure", "q_isversor", "q_isident", "q_getw", "q_getx", "q_gety", "q_getz"];
        for n in 0..=4u8 {
            self.prepare(v0, n, 1, 1);
            for op in uni {
                self.emit(op, &[v0], &[]);
            }
            self.emit("q_vec", &[v1, v0], &[]);
            self.emit("q_conj_new", &[v1, v0], &[]);
            for op in ["q_setw", "q_setx", "q_sety", "q_setz"] {
                self.emit(op, &[v0], &[7.5]);
            }
            for op in ["q_conj", "q_inv", "q_ident"] {
                self.prepare(v0, n, 1, 1);
                self.emit(op, &[v0], &[]);
            }
            self.prepare(v0, n, 1, 1);
            self.emit("q_fill", &[v0], &[2.0, 3.0, 4.0, 5.0]);
            for n2 in 0..=4u8 {
                for n3 in 0..=4u8 {
                    self.prepare(v0, n, 1, 1);
                    self.prepare(v1, n2, 1, 2);
                    self.prepare(v2, n3, 1, -2);
                    self.emit("q_mul", &[v0, v1, v2], &[]);
                    self.emit("q_mul_new", &[V0 + 3, v1, v2], &[]);
                    self.emit("q_rot", &[V0 + 3, v1, v2], &[]);
                    self.emit("q_rot_ip", &[v1, v2], &[]);
                }
            }
            self.emit("q_dcm", &[0, v0], &[]);
        }
        // Basis products and sign patterns.
        self.prepare(v0, 4, 1, 0);
        self.prepare(v1, 4, 1, 0);
        self.prepare(v2, 4, 1, 0);
        let mut qs: Vec<[f32; 4]> = vec![];
        for i in 0..4 {
            for s in [1.0f32, -1.0, 2.0] {
                let mut q = [0.0; 4];
                q[i] = s;
                qs.push(q);
            }
        }
        qs.push([0.5, 0.5, -0.5, 0.5]);
        qs.push([1.0, 2.0, -3.0, 4.0]);
        qs.push([0.0, 0.0, 0.0, 0.0]);
        qs.push([-1.5, 0.25, 2.0, -0.125]);
        qs.push([1.0, 3.0e-5, 0.0, -3.0e-5]);
        qs.push([1.0, 3.0e-4, 0.0, 0.0]);
        qs.push([1.0, 0.0, 3.0e-4, 0.0]);
        qs.push([1.0, 0.0, 0.0, 3.0e-4]);
        qs.push([3.0e-5, 1.0, 0.0, 0.0]);
        qs.push([3.0e-4, 1.0, 0.0, 0.0]);
        qs.push([1.0003, 0.0, 0.0, 0.0]);
        qs.push([1.00003, 0.0, 0.0, 0.0]);
        for p in qs.iter() {
            self.emit("q_fill", &[v1], p);
            for op in uni {
                self.emit(op, &[v1], &[]);
            }
            self.emit("q_conj_new", &[V0 + 3, v1], &[]);
            self.emit("q_vec", &[V0 + 4, v1], &[]);
            for q in qs.iter() {
                self.emit("q_fill", &[v2], q);
                self.emit("q_mul", &[v0, v1, v2], &[]);
                self.emit("q_mul_new", &[V0 + 3, v1, v2], &[]);
            }
            self.emit("q_fill", &[v0], p);
            self.emit("q_inv", &[v0], &[]);
            self.emit("q_fill", &[v0], p);
            self.emit("q_conj", &[v0], &[]);
            self.emit("q_dcm", &[0, v1], &[]);
        }
    }
}
