//! Reference semantics of expressions (second-order jets with error majorants), exhaustive
//! enumeration of expression programs, and their execution on the real operators.

use numopt::model::*;
use numopt::model::function::{add::FunctionAdd, cos::FunctionCos, div::FunctionDiv, mul::FunctionMul, sin::FunctionSin};
use std::collections::HashMap;

pub const NV: usize = 3; // most variables a reference expression may have
pub const NH: usize = 6;

pub fn hix(i: usize, j: usize) -> usize {
    let (i, j) = if i >= j { (i, j) } else { (j, i) };
    i * (i + 1) / 2 + j
}

/// Value, gradient and Hessian together with majorants: sums of the absolute values of all the
/// terms that make up each number, to which rounding errors are proportional.
#[derive(Clone, Copy, Debug)]
pub struct Jet {
    pub ok: bool,
    pub v: f64, pub g: [f64; NV], pub h: [f64; NH],
    pub mv: f64, pub mg: [f64; NV], pub mh: [f64; NH],
}

impl Jet {
    pub fn cst(c: f64) -> Jet {
        Jet { ok: c.is_finite(), v: c, g: [0.; NV], h: [0.; NH], mv: c.abs(), mg: [0.; NV], mh: [0.; NH] }
    }
    pub fn var(i: usize, x: f64) -> Jet {
        let mut j = Jet::cst(x);
        j.g[i] = 1.;
        j.mg[i] = 1.;
        j
    }
    fn fin(mut self) -> Jet {
        if self.ok {
            let mut ok = self.v.is_finite() && self.mv < 1e150;
            for i in 0..NV { ok &= self.g[i].is_finite() && self.mg[i] < 1e150; }
            for i in 0..NH { ok &= self.h[i].is_finite() && self.mh[i] < 1e150; }
            self.ok = ok;
        }
        self
    }
    pub fn add(&self, b: &Jet) -> Jet {
        let mut r = *self;
        r.ok &= b.ok;
        r.v += b.v; r.mv += b.mv;
        for i in 0..NV { r.g[i] += b.g[i]; r.mg[i] += b.mg[i]; }
        for i in 0..NH { r.h[i] += b.h[i]; r.mh[i] += b.mh[i]; }
        r.fin()
    }
    pub fn neg(&self) -> Jet {
        let mut r = *self;
        r.v = -r.v;
        for i in 0..NV { r.g[i] = -r.g[i]; }
        for i in 0..NH { r.h[i] = -r.h[i]; }
        r
    }
    pub fn sub(&self, b: &Jet) -> Jet { self.add(&b.neg()) }
    pub fn mul(&self, b: &Jet) -> Jet {
        let a = self;
        let mut r = Jet::cst(0.);
        r.ok = a.ok && b.ok;
        r.v = a.v * b.v;
        r.mv = a.mv * b.mv;
        for i in 0..NV {
            r.g[i] = a.g[i] * b.v + a.v * b.g[i];
            r.mg[i] = a.mg[i] * b.mv + a.mv * b.mg[i];
        }
        for i in 0..NV { for j in 0..=i {
            let k = hix(i, j);
            r.h[k] = a.h[k] * b.v + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.v * b.h[k];
            r.mh[k] = a.mh[k] * b.mv + a.mg[i] * b.mg[j] + a.mg[j] * b.mg[i] + a.mv * b.mh[k];
        } }
        r.fin()
    }
    /// phi(self) given phi, phi', phi'' and their majorants.
    fn chain(&self, p: f64, p1: f64, p2: f64, mp: f64, mp1: f64, mp2: f64) -> Jet {
        let a = self;
        let mut r = Jet::cst(0.);
        r.ok = a.ok;
        r.v = p;
        r.mv = mp;
        for i in 0..NV { r.g[i] = p1 * a.g[i]; r.mg[i] = mp1 * a.mg[i]; }
        for i in 0..NV { for j in 0..=i {
            let k = hix(i, j);
            r.h[k] = p2 * a.g[i] * a.g[j] + p1 * a.h[k];
            r.mh[k] = mp2 * a.mg[i] * a.mg[j] + mp1 * a.mh[k];
        } }
        r.fin()
    }
    pub fn recip(&self) -> Jet {
        let v = self.v;
        let mut ok = self.ok;
        if v == 0. || v.abs() < 1e-6 * self.mv { ok = false; }
        if !ok { let mut r = Jet::cst(1.); r.ok = false; return r; }
        let k = self.mv / v.abs();
        let i = 1. / v;
        let mut r = self.chain(i, -i * i, 2. * i * i * i, k * i.abs(), k * k * i * i, 2. * k * k * k * i.abs() * i * i);
        r.ok &= ok;
        r
    }
    pub fn div(&self, b: &Jet) -> Jet { self.mul(&b.recip()) }
    pub fn sin(&self) -> Jet {
        let m = 1. + self.mv;
        self.chain(self.v.sin(), self.v.cos(), -self.v.sin(), m, m, m)
    }
    pub fn cos(&self) -> Jet {
        let m = 1. + self.mv;
        self.chain(self.v.cos(), -self.v.sin(), -self.v.cos(), m, m, m)
    }
}

pub fn close(got: f64, want: f64, maj: f64) -> bool {
    (got - want).abs() <= 1e-9 * maj + 1e-280
}

// ------------------------------------------------------------------ programs

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Add, Sub, Mul, Div, Neg, Sin, Cos }

impl Op {
    pub fn unary(self) -> bool { matches!(self, Op::Neg | Op::Sin | Op::Cos) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Opd { Slot(u8), Scalar(f64) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ins { pub op: Op, pub a: Opd, pub b: Opd }

/// Slots: variables, then constant nodes, then the results of the instructions.  Bit k of `raw`: the node
/// of instruction k is made by its type's constructor, without the simplifications of the operators.
#[derive(Clone, Debug)]
pub struct Prog { pub nv: usize, pub consts: Vec<f64>, pub ins: Vec<Ins>, pub raw: u32 }

pub const VN: [&str; 3] = ["x", "y", "z"];

impl Prog {
    fn is_raw(&self, k: usize) -> bool { k < 32 && self.raw >> k & 1 == 1 }

    pub fn base(&self) -> usize { self.nv + self.consts.len() }

    fn opd(&self, o: Opd) -> String {
        match o {
            Opd::Scalar(c) => format!("{:?}", c),
            Opd::Slot(s) => {
                let s = s as usize;
                if s < self.nv { VN[s].to_string() }
                else if s < self.base() { format!("const({:?})", self.consts[s - self.nv]) }
                else { format!("r{}", s - self.base()) }
            }
        }
    }

    pub fn show(&self) -> String {
        self.ins.iter().enumerate().map(|(k, i)| match i.op {
            Op::Add => format!("r{} = {} + {}", k, self.opd(i.a), self.opd(i.b)),
            Op::Sub => format!("r{} = {} - {}", k, self.opd(i.a), self.opd(i.b)),
            Op::Mul => format!("r{} = {} * {}", k, self.opd(i.a), self.opd(i.b)),
            Op::Div => format!("r{} = {} / {}", k, self.opd(i.a), self.opd(i.b)),
            Op::Neg => format!("r{} = -{}", k, self.opd(i.a)),
            Op::Sin => format!("r{} = sin {}", k, self.opd(i.a)),
            Op::Cos => format!("r{} = cos {}", k, self.opd(i.a)),
        }).enumerate().map(|(k, s)| if self.is_raw(k) { s + " [new]" } else { s }).collect::<Vec<_>>().join("; ")
    }

    pub fn hash(&self) -> u64 {
        let mut v: Vec<u64> = vec![self.nv as u64 | (self.raw as u64) << 8];
        for c in &self.consts { v.push(c.to_bits()); }
        for i in &self.ins {
            v.push(i.op as u64);
            for o in [i.a, i.b] { v.push(match o { Opd::Slot(s) => s as u64, Opd::Scalar(c) => c.to_bits() ^ 0x5555 }); }
        }
        crate::fw::hash_u64s(&v)
    }

    /// Reference jets of all slots at a point.
    pub fn jets(&self, pt: &[f64]) -> Vec<Jet> {
        let mut s: Vec<Jet> = Vec::with_capacity(self.base() + self.ins.len());
        for i in 0..self.nv { s.push(Jet::var(i, pt[i])); }
        for c in &self.consts { s.push(Jet::cst(*c)); }
        for i in &self.ins {
            let a = match i.a { Opd::Slot(k) => s[k as usize], Opd::Scalar(c) => Jet::cst(c) };
            let b = match i.b { Opd::Slot(k) => s[k as usize], Opd::Scalar(c) => Jet::cst(c) };
            s.push(match i.op {
                Op::Add => a.add(&b), Op::Sub => a.sub(&b), Op::Mul => a.mul(&b), Op::Div => a.div(&b),
                Op::Neg => a.neg(), Op::Sin => a.sin(), Op::Cos => a.cos(),
            });
        }
        s
    }

    pub fn jet(&self, pt: &[f64]) -> Jet { *self.jets(pt).last().unwrap() }

    /// Variables and constness by construction: (bit set of variables used, linear by
    /// construction) of every slot.
    pub fn syntax(&self) -> Vec<(u32, bool)> {
        let mut s: Vec<(u32, bool)> = Vec::new();
        for i in 0..self.nv { s.push((1 << i, true)); }
        for _ in &self.consts { s.push((0, true)); }
        for i in &self.ins {
            let a = match i.a { Opd::Slot(k) => s[k as usize], Opd::Scalar(_) => (0, true) };
            let b = if i.op.unary() { (0, true) } else { match i.b { Opd::Slot(k) => s[k as usize], Opd::Scalar(_) => (0, true) } };
            let vars = a.0 | b.0;
            let lin = a.1 && b.1 && match i.op {
                Op::Add | Op::Sub | Op::Neg => true,
                Op::Mul => a.0 == 0 || b.0 == 0,
                Op::Div => b.0 == 0,
                Op::Sin | Op::Cos => a.0 == 0,
            };
            s.push((vars, lin));
        }
        s
    }

    /// Performs the instructions with the real operators; `own(k)` chooses which operands of
    /// instruction k are passed by value (bit 0: first, bit 1: second).
    /// Err(k, message) if instruction k panics.
    pub fn build(&self, vars: &[Node], own: &dyn Fn(usize) -> u8) -> Result<Vec<Node>, (usize, String)> {
        let mut s: Vec<Node> = vars[..self.nv].to_vec();
        for c in &self.consts { s.push(ConstantScalar::new(*c)); }
        for (k, i) in self.ins.iter().enumerate() {
            let o = own(k) & 3 | if self.is_raw(k) { RAW } else { 0 };
            match crate::fw::catch(|| apply(i, &s, o)) {
                Ok(n) => s.push(n),
                Err(m) => return Err((k, m)),
            }
        }
        Ok(s)
    }

    /// The real expression; panics if building does.
    pub fn node(&self, vars: &[Node]) -> Node {
        let mut s: Vec<Node> = vars[..self.nv].to_vec();
        for c in &self.consts { s.push(ConstantScalar::new(*c)); }
        for (k, i) in self.ins.iter().enumerate() { let n = apply(i, &s, if self.is_raw(k) { RAW } else { 0 }); s.push(n); }
        s.pop().unwrap()
    }
}

/// Number with three infinitesimals whose squares vanish: the coefficient of e1*e2*e3 of
/// f(x + e1*di + e2*dj + e3*dk) is the third derivative of f.  With majorants like those of Jet.
#[derive(Clone, Copy, Debug)]
pub struct Hyper { pub ok: bool, pub c: [f64; 8], pub m: [f64; 8] }

impl Hyper {
    pub fn cst(v: f64) -> Hyper { let mut h = Hyper { ok: v.is_finite(), c: [0.; 8], m: [0.; 8] }; h.c[0] = v; h.m[0] = v.abs(); h }
    /// Variable i when the infinitesimals belong to the variables of `dirs`.
    pub fn var(i: usize, x: f64, dirs: &[usize]) -> Hyper {
        let mut h = Hyper::cst(x);
        for (b, d) in dirs.iter().enumerate() { if *d == i { h.c[1 << b] = 1.; h.m[1 << b] = 1.; } }
        h
    }
    fn fin(mut self) -> Hyper { self.ok &= (0..8).all(|i| self.c[i].is_finite() && self.m[i] < 1e150); self }
    pub fn add(&self, b: &Hyper) -> Hyper { let mut r = *self; r.ok &= b.ok; for i in 0..8 { r.c[i] += b.c[i]; r.m[i] += b.m[i]; } r.fin() }
    pub fn neg(&self) -> Hyper { let mut r = *self; for i in 0..8 { r.c[i] = -r.c[i]; } r }
    pub fn mul(&self, b: &Hyper) -> Hyper {
        let mut r = Hyper::cst(0.);
        r.ok = self.ok && b.ok;
        for s in 0..8usize { for t in 0..8usize { if t & s == t { r.c[s] += self.c[t] * b.c[s ^ t]; r.m[s] += self.m[t] * b.m[s ^ t]; } } }
        r.fin()
    }
    /// phi given its first derivatives p[0..4] at the value, and their majorants.
    fn chain(&self, p: [f64; 4], mp: [f64; 4]) -> Hyper {
        let mut r = Hyper::cst(p[0]);
        r.m[0] = mp[0];
        let mut n = *self;
        n.c[0] = 0.; n.m[0] = 0.;
        let mut pow = n;
        let mut fact = 1.;
        for k in 1..4 {
            fact *= k as f64;
            for i in 1..8 { r.c[i] += p[k] / fact * pow.c[i]; r.m[i] += mp[k] / fact * pow.m[i]; }
            pow = pow.mul(&n);
        }
        r.ok = self.ok;
        r.fin()
    }
    pub fn recip(&self) -> Hyper {
        let v = self.c[0];
        if !self.ok || v == 0. || v.abs() < 1e-6 * self.m[0] { let mut r = Hyper::cst(1.); r.ok = false; return r; }
        let (k, i) = (self.m[0] / v.abs(), 1. / v);
        let a = i.abs();
        self.chain([i, -i * i, 2. * i * i * i, -6. * i * i * i * i], [k * a, k * k * a * a, 2. * k * k * k * a * a * a, 6. * k * k * k * k * a * a * a * a])
    }
    pub fn sin(&self) -> Hyper { let (s, c, m) = (self.c[0].sin(), self.c[0].cos(), 1. + self.m[0]); self.chain([s, c, -s, -c], [m; 4]) }
    pub fn cos(&self) -> Hyper { let (s, c, m) = (self.c[0].sin(), self.c[0].cos(), 1. + self.m[0]); self.chain([c, -s, -c, s], [m; 4]) }
}

impl Prog {
    /// The reference value with the infinitesimals in the directions `dirs`.
    pub fn hyper(&self, pt: &[f64], dirs: &[usize]) -> Hyper {
        let mut s: Vec<Hyper> = (0..self.nv).map(|i| Hyper::var(i, pt[i], dirs)).collect();
        s.extend(self.consts.iter().map(|c| Hyper::cst(*c)));
        for i in &self.ins {
            let a = match i.a { Opd::Slot(k) => s[k as usize], Opd::Scalar(c) => Hyper::cst(c) };
            let b = match i.b { Opd::Slot(k) => s[k as usize], Opd::Scalar(c) => Hyper::cst(c) };
            s.push(match i.op {
                Op::Add => a.add(&b), Op::Sub => a.add(&b.neg()), Op::Mul => a.mul(&b), Op::Div => a.mul(&b.recip()),
                Op::Neg => a.neg(), Op::Sin => a.sin(), Op::Cos => a.cos(),
            });
        }
        *s.last().unwrap()
    }
}

pub const RAW: u8 = 4;

fn apply_new(i: &Ins, s: &[Node]) -> Node {
    let opd = |o: Opd| match o { Opd::Slot(k) => s[k as usize].clone(), Opd::Scalar(c) => ConstantScalar::new(c) };
    let minus = |n: Node| FunctionMul::new(ConstantScalar::new(-1.), n);
    match i.op {
        Op::Add => FunctionAdd::new(vec![opd(i.a), opd(i.b)]),
        Op::Sub => FunctionAdd::new(vec![opd(i.a), minus(opd(i.b))]),
        Op::Mul => FunctionMul::new(opd(i.a), opd(i.b)),
        Op::Div => FunctionDiv::new(opd(i.a), opd(i.b)),
        Op::Neg => minus(opd(i.a)),
        Op::Sin => FunctionSin::new(opd(i.a)),
        Op::Cos => FunctionCos::new(opd(i.a)),
    }
}

/// Every program of `programs` with every nonempty set of its nodes made by constructors.
pub fn raw_programs(sp: &Space, f: &mut dyn FnMut(&Prog) -> bool) {
    programs(sp, &mut |p| {
        let mut q = p.clone();
        for raw in 1..1u32 << p.ins.len() { q.raw = raw; if !f(&q) { return false; } }
        true
    });
}

/// The spaces of such programs, by number of operations.
pub fn raw_space(len: usize, thorough: bool) -> Space {
    match len {
        1 => Space { nv: 2, consts: vec![0., 1., 3., 1e9], scalars: vec![0., 1., -1., 2., -0.5, 1e-12], bin: BIN.to_vec(), un: UN.to_vec(), len },
        2 => Space { nv: 2, consts: vec![3.], scalars: if thorough { vec![0., 1., -1., 2.] } else { vec![0., 1., -1.] }, bin: BIN.to_vec(), un: UN.to_vec(), len },
        _ => Space { nv: if thorough { 2 } else { 1 }, consts: vec![], scalars: vec![2.], bin: BIN.to_vec(), un: if thorough { UN.to_vec() } else { vec![Op::Sin] }, len },
    }
}

pub fn apply(i: &Ins, s: &[Node], own: u8) -> Node {
    if own & RAW != 0 { return apply_new(i, s); }
    macro_rules! nn { ($op:tt, $a:expr, $b:expr) => { match own & 3 {
        0 => $a $op $b, 1 => $a.clone() $op $b, 2 => $a $op $b.clone(), _ => $a.clone() $op $b.clone() } } }
    macro_rules! ns { ($op:tt, $a:expr, $c:expr) => { if own & 1 == 0 { $a $op $c } else { $a.clone() $op $c } } }
    macro_rules! sn { ($op:tt, $c:expr, $b:expr) => { if own & 2 == 0 { $c $op $b } else { $c $op $b.clone() } } }
    macro_rules! bin { ($op:tt) => { match (i.a, i.b) {
        (Opd::Slot(a), Opd::Slot(b)) => { let a = &s[a as usize]; let b = &s[b as usize]; nn!($op, a, b) }
        (Opd::Slot(a), Opd::Scalar(c)) => { let a = &s[a as usize]; ns!($op, a, c) }
        (Opd::Scalar(c), Opd::Slot(b)) => { let b = &s[b as usize]; sn!($op, c, b) }
        _ => unreachable!(),
    } } }
    let ua = || match i.a { Opd::Slot(a) => &s[a as usize], _ => unreachable!() };
    match i.op {
        Op::Add => bin!(+),
        Op::Sub => bin!(-),
        Op::Mul => bin!(*),
        Op::Div => bin!(/),
        Op::Neg => if own & 1 == 0 { -ua() } else { -ua().clone() },
        Op::Sin => ua().sin(),
        Op::Cos => ua().cos(),
    }
}

pub struct Space {
    pub nv: usize,
    pub consts: Vec<f64>,
    pub scalars: Vec<f64>,
    pub bin: Vec<Op>,
    pub un: Vec<Op>,
    pub len: usize,
}

/// Calls `f` for every program of exactly `len` instructions over the space in which every
/// intermediate result is used later.
pub fn programs(sp: &Space, f: &mut dyn FnMut(&Prog) -> bool) {
    let mut p = Prog { nv: sp.nv, consts: sp.consts.clone(), ins: Vec::with_capacity(sp.len), raw: 0 };
    rec(sp, &mut p, 0, f);
}

fn rec(sp: &Space, p: &mut Prog, used: u32, f: &mut dyn FnMut(&Prog) -> bool) -> bool {
    let k = p.ins.len();
    if k == sp.len { return f(p); }
    let left = sp.len - k - 1; // instructions after this one
    let base = sp.nv + sp.consts.len();
    let nslots = base + k;
    let nopd = nslots + sp.scalars.len();
    let opd = |i: usize| if i < nslots { Opd::Slot(i as u8) } else { Opd::Scalar(sp.scalars[i - nslots]) };
    let bit = |i: usize| if i >= base && i < nslots { 1u32 << (i - base) } else { 0 };
    let fits = |u: u32| {
        let unused = (0..k).filter(|j| u & (1 << j) == 0).count(); // not counting the new one
        unused <= left
    };
    for op in &sp.bin {
        for a in 0..nopd {
            for b in 0..nopd {
                if a >= nslots && b >= nslots { continue; }
                let u = used | bit(a) | bit(b);
                if !fits(u) { continue; }
                p.ins.push(Ins { op: *op, a: opd(a), b: opd(b) });
                let go = rec(sp, p, u, f);
                p.ins.pop();
                if !go { return false; }
            }
        }
    }
    for op in &sp.un {
        for a in 0..nslots {
            let u = used | bit(a);
            if !fits(u) { continue; }
            p.ins.push(Ins { op: *op, a: opd(a), b: Opd::Scalar(0.) });
            let go = rec(sp, p, u, f);
            p.ins.pop();
            if !go { return false; }
        }
    }
    true
}

pub const BIN: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];
pub const UN: [Op; 3] = [Op::Neg, Op::Sin, Op::Cos];

pub fn vars(n: usize) -> Vec<Node> { (0..n).map(|i| VariableScalar::new_continuous(VN[i])).collect() }

/// Variables that cannot be told apart by name, and variables of both kinds.
pub fn vars_same() -> Vec<Node> { (0..3).map(|_| VariableScalar::new_continuous("x")).collect() }
pub fn vars_mixed() -> Vec<Node> { vec![VariableScalar::new_integer("x"), VariableScalar::new_continuous("y"), VariableScalar::new_integer("z")] }

pub fn assign<'a>(vars: &'a [Node], pt: &[f64]) -> HashMap<&'a Node, f64> {
    vars.iter().zip(pt.iter()).map(|(v, x)| (v, *x)).collect()
}

/// Evaluation points.
pub const PTS: [[f64; 3]; 7] = [
    [1.25, -0.75, 0.5],
    [-2.125, 0.375, -1.5],
    [0., 0.625, 2.],
    [0.875, 0., -0.25],
    [0., 0., 0.],
    [1024.5, -2e-3, 37.25],
    [1e-9, 3e4, -1e-5],
];

/// Parametric families of expressions of growing size: (name, n) -> program.
pub fn families() -> Vec<(&'static str, usize)> {
    let mut v = Vec::new();
    for n in 2..=24 {
        for f in FAMILIES { v.push((*f, n)); }
    }
    v
}

pub const FAMILIES: &[&str] = &["sum", "sum-left", "sum-const", "alt", "prod", "poly", "nest-sin", "frac", "neg-chain", "scale-sum", "same", "sumprod", "div-chain", "mix"];

pub fn family(name: &str, n: usize) -> Prog {
    let mut p = Prog { nv: 3, consts: vec![2.], ins: Vec::new(), raw: 0 };
    let base = 4u8;
    let v = |k: usize| Opd::Slot((k % 3) as u8);
    let r = |k: usize| Opd::Slot(base + k as u8);
    let push = |p: &mut Prog, op: Op, a: Opd, b: Opd| -> usize { p.ins.push(Ins { op, a, b }); p.ins.len() - 1 };
    let s = Opd::Scalar;
    match name {
        "sum" => { let mut l = push(&mut p, Op::Add, v(0), v(1)); for k in 2..n { l = push(&mut p, Op::Add, r(l), v(k)); } let _ = l; }
        "sum-left" => { let mut l = push(&mut p, Op::Add, v(0), v(1)); for k in 2..n { l = push(&mut p, Op::Add, v(k), r(l)); } let _ = l; }
        "sum-const" => { let mut l = push(&mut p, Op::Add, v(0), s(1.)); for k in 1..n { l = push(&mut p, if k % 3 == 2 { Op::Sub } else { Op::Add }, r(l), s(k as f64)); } let _ = l; }
        "alt" => { let mut l = push(&mut p, Op::Sub, v(0), v(1)); for k in 2..n { l = push(&mut p, if k % 2 == 0 { Op::Sub } else { Op::Add }, v(k), r(l)); } let _ = l; }
        "prod" => { let mut l = push(&mut p, Op::Mul, v(0), v(1)); for k in 2..n.min(10) { l = push(&mut p, Op::Mul, r(l), v(k)); } let _ = l; }
        "poly" => { // Horner
            let mut l = push(&mut p, Op::Mul, v(0), s(0.5));
            for k in 1..n.min(8) { let q = push(&mut p, Op::Add, r(l), s(k as f64 - 2.)); l = push(&mut p, Op::Mul, r(q), v(k % 2)); }
            let _ = l;
        }
        "nest-sin" => { let mut l = push(&mut p, Op::Sin, v(0), s(0.)); for k in 1..n.min(8) { let q = push(&mut p, Op::Mul, r(l), v(k)); l = push(&mut p, if k % 2 == 0 { Op::Sin } else { Op::Cos }, r(q), s(0.)); } let _ = l; }
        "frac" => { let mut l = push(&mut p, Op::Div, v(0), s(4.)); for _ in 1..n.min(8) { let q = push(&mut p, Op::Add, r(l), s(3.)); l = push(&mut p, Op::Div, v(1), r(q)); } let _ = l; }
        "neg-chain" => { let mut l = push(&mut p, Op::Add, v(0), v(1)); for _ in 1..n { l = push(&mut p, Op::Neg, r(l), s(0.)); } let _ = l; }
        "scale-sum" => { let mut l = push(&mut p, Op::Add, v(0), s(1.)); for k in 1..n { let q = push(&mut p, Op::Mul, if k % 2 == 0 { s(-0.5) } else { s(2.) }, r(l)); l = push(&mut p, Op::Add, r(q), v(k)); } let _ = l; }
        "same" => { let q = push(&mut p, Op::Mul, v(0), v(1)); let mut l = push(&mut p, Op::Add, r(q), r(q)); for _ in 2..n { l = push(&mut p, Op::Add, r(l), r(q)); } let _ = l; }
        "sumprod" => { let mut l = push(&mut p, Op::Mul, v(0), v(1)); for k in 1..n { let q = push(&mut p, Op::Mul, v(k), v(k + (k % 2))); l = push(&mut p, Op::Add, r(l), r(q)); } let _ = l; }
        "div-chain" => { let mut l = push(&mut p, Op::Add, v(0), v(1)); for k in 1..n { l = push(&mut p, if k % 2 == 0 { Op::Div } else { Op::Mul }, r(l), s(2. + (k % 3) as f64)); } let _ = l; }
        _ => { // mix: constants on both sides, constant nodes
            let mut l = push(&mut p, Op::Sub, s(1.), v(0));
            for k in 1..n.min(12) {
                l = match k % 4 {
                    0 => push(&mut p, Op::Sub, Opd::Slot(3), r(l)),
                    1 => push(&mut p, Op::Mul, r(l), Opd::Slot(3)),
                    2 => push(&mut p, Op::Add, s(-1.), r(l)),
                    _ => push(&mut p, Op::Sub, r(l), v(k)),
                };
            }
            let _ = l;
        }
    }
    p
}

/// Calls `f` for every program that continues a family program by `len` more operations, each of which
/// uses the last result so far (and any variable, constant, number, or the family's result).
pub fn tails(top: usize, len: usize, scalars: &[f64], f: &mut dyn FnMut(&Prog, &str) -> bool) {
    for (name, n) in families() {
        if n > top { continue; }
        let p = family(name, n);
        let r = (p.base() + p.ins.len() - 1) as u8;
        let label = format!("family {} of size {} continued: ", name, n);
        let mut p = p;
        if !tail(&mut p, r, len, scalars, &label, f) { return; }
    }
}

fn tail(p: &mut Prog, r: u8, left: usize, scalars: &[f64], label: &str, f: &mut dyn FnMut(&Prog, &str) -> bool) -> bool {
    if left == 0 { return f(p, label); }
    let last = (p.base() + p.ins.len() - 1) as u8;
    let mut others: Vec<Opd> = vec![Opd::Slot(0), Opd::Slot(1), Opd::Slot(3)];
    if r != last { others.push(Opd::Slot(r)); }
    others.extend(scalars.iter().map(|c| Opd::Scalar(*c)));
    let l = Opd::Slot(last);
    let mut all: Vec<Ins> = Vec::new();
    for op in BIN {
        all.push(Ins { op, a: l, b: l });
        for o in &others { all.push(Ins { op, a: l, b: *o }); all.push(Ins { op, a: *o, b: l }); }
    }
    for op in UN { all.push(Ins { op, a: l, b: Opd::Scalar(0.) }); }
    for i in all {
        p.ins.push(i);
        let go = tail(p, r, left - 1, scalars, label, f);
        p.ins.pop();
        if !go { return false; }
    }
    true
}
