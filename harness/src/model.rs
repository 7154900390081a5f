//! Reference models: a small expression language, model specifications, their construction
//! through the public API, and a uniform view of standard-form problems.

use crate::expr::{Jet, NH, NV};
use crate::fw::Fail;
use numopt::matrix::coo::CooMat;
use numopt::model::model_std::{ModelStd, ModelStdProb};
use numopt::model::*;
use numopt::model::variable::VariableKind;
use numopt::problem::base::Problem;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    V(usize),
    C(f64),  // plain number
    K(f64),  // constant node
    Add(Box<T>, Box<T>), Sub(Box<T>, Box<T>), Mul(Box<T>, Box<T>), Div(Box<T>, Box<T>),
    Neg(Box<T>), Sin(Box<T>), Cos(Box<T>),
}

enum SN { S(f64), N(Node) }

impl T {
    pub fn jet(&self, pt: &[f64]) -> Jet {
        match self {
            T::V(i) => Jet::var(*i, pt[*i]),
            T::C(c) | T::K(c) => Jet::cst(*c),
            T::Add(a, b) => a.jet(pt).add(&b.jet(pt)),
            T::Sub(a, b) => a.jet(pt).sub(&b.jet(pt)),
            T::Mul(a, b) => a.jet(pt).mul(&b.jet(pt)),
            T::Div(a, b) => a.jet(pt).div(&b.jet(pt)),
            T::Neg(a) => a.jet(pt).neg(),
            T::Sin(a) => a.jet(pt).sin(),
            T::Cos(a) => a.jet(pt).cos(),
        }
    }
    /// Plain arithmetic.
    pub fn eval(&self, pt: &[f64]) -> f64 {
        match self {
            T::V(i) => pt[*i],
            T::C(c) | T::K(c) => *c,
            T::Add(a, b) => a.eval(pt) + b.eval(pt),
            T::Sub(a, b) => a.eval(pt) - b.eval(pt),
            T::Mul(a, b) => a.eval(pt) * b.eval(pt),
            T::Div(a, b) => a.eval(pt) / b.eval(pt),
            T::Neg(a) => -a.eval(pt),
            T::Sin(a) => a.eval(pt).sin(),
            T::Cos(a) => a.eval(pt).cos(),
        }
    }
    /// (variables used, linear by construction)
    pub fn syntax(&self) -> (u32, bool) {
        match self {
            T::V(i) => (1 << i, true),
            T::C(_) | T::K(_) => (0, true),
            T::Add(a, b) | T::Sub(a, b) => { let (p, q) = (a.syntax(), b.syntax()); (p.0 | q.0, p.1 && q.1) }
            T::Mul(a, b) => { let (p, q) = (a.syntax(), b.syntax()); (p.0 | q.0, p.1 && q.1 && (p.0 == 0 || q.0 == 0)) }
            T::Div(a, b) => { let (p, q) = (a.syntax(), b.syntax()); (p.0 | q.0, p.1 && q.1 && q.0 == 0) }
            T::Neg(a) => a.syntax(),
            T::Sin(a) | T::Cos(a) => { let p = a.syntax(); (p.0, p.0 == 0) }
        }
    }
    fn sn(&self, v: &[Node]) -> SN {
        macro_rules! bin { ($a:expr, $b:expr, $op:tt) => { match ($a.sn(v), $b.sn(v)) {
            (SN::S(a), SN::S(b)) => SN::S(a $op b),
            (SN::S(a), SN::N(b)) => SN::N(a $op b),
            (SN::N(a), SN::S(b)) => SN::N(a $op b),
            (SN::N(a), SN::N(b)) => SN::N(a $op b),
        } } }
        let n = |s: SN| match s { SN::S(c) => ConstantScalar::new(c), SN::N(n) => n };
        match self {
            T::V(i) => SN::N(v[*i].clone()),
            T::C(c) => SN::S(*c),
            T::K(c) => SN::N(ConstantScalar::new(*c)),
            T::Add(a, b) => bin!(a, b, +),
            T::Sub(a, b) => bin!(a, b, -),
            T::Mul(a, b) => bin!(a, b, *),
            T::Div(a, b) => bin!(a, b, /),
            T::Neg(a) => match a.sn(v) { SN::S(c) => SN::S(-c), SN::N(x) => SN::N(-x) },
            T::Sin(a) => SN::N(n(a.sn(v)).sin()),
            T::Cos(a) => SN::N(n(a.sn(v)).cos()),
        }
    }
    pub fn node(&self, v: &[Node]) -> Node {
        match self.sn(v) { SN::S(c) => ConstantScalar::new(c), SN::N(n) => n }
    }
    /// A plain number at the top?
    pub fn plain(&self) -> Option<f64> { if let T::C(c) = self { Some(*c) } else { None } }
}

pub fn parse(s: &str, names: &[&str]) -> Result<T, String> {
    let b: Vec<char> = s.chars().collect();
    let mut p = 0;
    let t = p_expr(&b, &mut p, names)?;
    ws(&b, &mut p);
    if p != b.len() { return Err(format!("cannot read {:?} from position {}", s, p)); }
    Ok(t)
}
fn ws(b: &[char], p: &mut usize) { while *p < b.len() && b[*p].is_whitespace() { *p += 1; } }
fn peek(b: &[char], p: &mut usize) -> char { ws(b, p); if *p < b.len() { b[*p] } else { '\0' } }
fn p_expr(b: &[char], p: &mut usize, n: &[&str]) -> Result<T, String> {
    let mut l = p_term(b, p, n)?;
    loop {
        match peek(b, p) {
            '+' => { *p += 1; let r = p_term(b, p, n)?; l = T::Add(Box::new(l), Box::new(r)); }
            '-' => { *p += 1; let r = p_term(b, p, n)?; l = T::Sub(Box::new(l), Box::new(r)); }
            _ => return Ok(l),
        }
    }
}
fn p_term(b: &[char], p: &mut usize, n: &[&str]) -> Result<T, String> {
    let mut l = p_fac(b, p, n)?;
    loop {
        match peek(b, p) {
            '*' => { *p += 1; let r = p_fac(b, p, n)?; l = T::Mul(Box::new(l), Box::new(r)); }
            '/' => { *p += 1; let r = p_fac(b, p, n)?; l = T::Div(Box::new(l), Box::new(r)); }
            _ => return Ok(l),
        }
    }
}
fn p_num(b: &[char], p: &mut usize) -> Result<f64, String> {
    ws(b, p);
    let s = *p;
    if *p < b.len() && b[*p] == '-' { *p += 1; }
    while *p < b.len() && (b[*p].is_ascii_digit() || b[*p] == '.' || b[*p] == 'e'
        || (b[*p] == '-' || b[*p] == '+') && *p > s && b[*p - 1] == 'e') { *p += 1; }
    let q: String = b[s..*p].iter().collect();
    q.parse().map_err(|_| format!("bad number {:?}", q))
}
fn p_fac(b: &[char], p: &mut usize, n: &[&str]) -> Result<T, String> {
    let c = peek(b, p);
    match c {
        '-' => { *p += 1; let a = p_fac(b, p, n)?; Ok(match a { T::C(c) => T::C(-c), a => T::Neg(Box::new(a)) }) }
        '(' => { *p += 1; let a = p_expr(b, p, n)?; if peek(b, p) != ')' { return Err("missing )".into()); } *p += 1; Ok(a) }
        '{' => { *p += 1; let a = p_num(b, p)?; if peek(b, p) != '}' { return Err("missing }".into()); } *p += 1; Ok(T::K(a)) }
        c if c.is_ascii_digit() => Ok(T::C(p_num(b, p)?)),
        c if c.is_alphabetic() || c == '_' => {
            let s = *p;
            while *p < b.len() && (b[*p].is_alphanumeric() || b[*p] == '_') { *p += 1; }
            let w: String = b[s..*p].iter().collect();
            if let Some(i) = n.iter().position(|x| *x == w) { return Ok(T::V(i)); }
            if (w == "sin" || w == "cos") && peek(b, p) == '(' {
                *p += 1;
                let a = p_expr(b, p, n)?;
                if peek(b, p) != ')' { return Err("missing )".into()); }
                *p += 1;
                return Ok(if w == "sin" { T::Sin(Box::new(a)) } else { T::Cos(Box::new(a)) });
            }
            Err(format!("unknown name {:?}", w))
        }
        c => Err(format!("unexpected {:?}", c)),
    }
}

// ------------------------------------------------------------------ models

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rel { Eq, Le, Ge }
pub const RELS: [Rel; 3] = [Rel::Eq, Rel::Le, Rel::Ge];
impl Rel { pub fn s(self) -> &'static str { match self { Rel::Eq => "==", Rel::Le => "<=", Rel::Ge => ">=" } } }

#[derive(Clone, Debug)]
pub struct Con { pub l: T, pub rel: Rel, pub r: T, pub text: String }

impl Con {
    /// lhs - rhs
    pub fn diff(&self, pt: &[f64]) -> Jet { self.l.jet(pt).sub(&self.r.jet(pt)) }
    /// Violation; None where undefined.  Also the magnitude for tolerances.
    pub fn viol(&self, pt: &[f64]) -> Option<(f64, f64)> {
        let j = self.diff(pt);
        if !j.ok { return None; }
        Some((match self.rel { Rel::Eq => j.v.abs(), Rel::Le => j.v.max(0.), Rel::Ge => (-j.v).max(0.) }, j.mv))
    }
    pub fn syntax(&self) -> (u32, bool) { let (a, b) = (self.l.syntax(), self.r.syntax()); (a.0 | b.0, a.1 && b.1) }
    pub fn build(&self, v: &[Node], tag: &str) -> Constraint {
        let plain = (self.l.plain(), self.r.plain());
        macro_rules! go { ($a:expr, $b:expr) => { match self.rel {
            Rel::Eq => $a.equal_and_tag($b, tag), Rel::Le => $a.leq_and_tag($b, tag), Rel::Ge => $a.geq_and_tag($b, tag) } } }
        match plain {
            (Some(a), None) => { let b = self.r.node(v); go!(a, &b) }
            (None, Some(b)) => { let a = self.l.node(v); go!(a, b) }
            _ => { let (a, b) = (self.l.node(v), self.r.node(v)); go!(a, &b) }
        }
    }
}

/// "lhs | rhs" with every relation.
pub fn cons(texts: &[&str], names: &[&str]) -> Vec<Con> {
    let mut o = Vec::new();
    for t in texts {
        for rel in RELS { o.push(con(t, rel, names)); }
    }
    o
}
pub fn con(t: &str, rel: Rel, names: &[&str]) -> Con {
    let (l, r) = t.split_once('|').expect("bar");
    Con { l: parse(l, names).expect("lhs"), rel, r: parse(r, names).expect("rhs"), text: format!("{} {} {}", l.trim(), rel.s(), r.trim()) }
}

#[derive(Clone, Debug)]
pub struct Obj { pub max: bool, pub f: T, pub text: String }

/// "" | "min f" | "max f"
pub fn obj(t: &str, names: &[&str]) -> Option<Obj> {
    if t.is_empty() { return None; }
    let (s, f) = t.split_once(' ').expect("sense");
    Some(Obj { max: s == "max", f: parse(f, names).expect("objective"), text: t.to_string() })
}

#[derive(Clone, Debug)]
pub struct Spec { pub names: Vec<&'static str>, pub int: Vec<bool>, pub obj: Option<Obj>, pub cons: Vec<Con> }

pub struct Built { pub vars: Vec<Node>, pub cons: Vec<Constraint>, pub model: Model }

impl Spec {
    pub fn show(&self) -> String {
        format!("{} s.t. {}{}", self.obj.as_ref().map(|o| o.text.clone()).unwrap_or("find".into()),
            self.cons.iter().map(|c| c.text.clone()).collect::<Vec<_>>().join(", "),
            if self.int.iter().any(|b| *b) { format!(" ({} integer)", self.names.iter().zip(self.int.iter()).filter(|x| *x.1).map(|x| *x.0).collect::<Vec<_>>().join(",")) } else { String::new() })
    }
    pub fn mkvars(&self) -> Vec<Node> {
        self.names.iter().zip(self.int.iter()).map(|(n, i)|
            VariableScalar::new(n, if *i { VariableKind::VarInteger } else { VariableKind::VarContinuous })).collect()
    }
    pub fn build(&self) -> Built {
        let vars = self.mkvars();
        let mut m = Model::new();
        if let Some(o) = &self.obj {
            let f = o.f.node(&vars);
            m.set_objective(if o.max { Objective::maximize(&f) } else { Objective::minimize(&f) });
        }
        let cons: Vec<Constraint> = self.cons.iter().map(|c| c.build(&vars, "")).collect();
        for c in &cons { m.add_constraint(c); }
        Built { vars, cons, model: m }
    }
    /// Variables used by construction.
    pub fn used(&self) -> u32 {
        self.cons.iter().map(|c| c.syntax().0).fold(self.obj.as_ref().map(|o| o.f.syntax().0).unwrap_or(0), |a, b| a | b)
    }
    pub fn linear(&self) -> bool {
        self.cons.iter().all(|c| c.syntax().1) && self.obj.as_ref().map(|o| o.f.syntax().1).unwrap_or(true)
    }
    /// The minimized function's jet.
    pub fn fmin(&self, pt: &[f64]) -> Jet {
        match &self.obj { None => Jet::cst(0.), Some(o) => { let j = o.f.jet(pt); if o.max { j.neg() } else { j } } }
    }
}

// ------------------------------------------------------------------ standard form

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class { Lp, Milp, Nlp, Minlp }

pub fn class_of(p: &Problem) -> Class {
    match p { Problem::Lp(_) => Class::Lp, Problem::Milp(_) => Class::Milp, Problem::Nlp(_) => Class::Nlp, Problem::Minlp(_) => Class::Minlp }
}

/// Everything evaluated at one point.
#[derive(Clone, Debug)]
pub struct Vals { pub phi: f64, pub gphi: Vec<f64>, pub hphi: CooMat<f64>, pub f: Vec<f64>, pub j: CooMat<f64>, pub h: Vec<CooMat<f64>>, pub hcomb: CooMat<f64> }

pub fn dense(m: &CooMat<f64>) -> Result<Vec<Vec<f64>>, Fail> {
    let mut d = vec![vec![0.; m.cols()]; m.rows()];
    for (i, j, v) in m.iter() {
        if *i >= m.rows() || *j >= m.cols() { return Err(format!("entry ({}, {}) outside of {} x {}", i, j, m.rows(), m.cols()).into()); }
        d[*i][*j] += *v;
    }
    Ok(d)
}

macro_rules! view {
    ($p:expr, $x:ident, $e:expr) => { match $p {
        Problem::Lp(q) => { let $x = q.as_mut_nlp().as_mut_minlp(); $e }
        Problem::Milp(q) => { let $x = q.as_mut_minlp(); $e }
        Problem::Nlp(q) => { let $x = q.as_mut_minlp(); $e }
        Problem::Minlp($x) => $e,
    } }
}

pub struct Std { pub class: Class, pub n: usize, pub a: Vec<Vec<f64>>, pub b: Vec<f64>, pub nf: usize, pub l: Vec<f64>, pub u: Vec<f64>, pub p: Vec<bool>, pub x0: Option<Vec<f64>>,
    pub c: Option<Vec<f64>> }

pub fn std_of(p: &mut Problem) -> Result<Std, Fail> {
    let class = class_of(p);
    let c = match p { Problem::Lp(q) => Some(q.c().to_vec()), Problem::Milp(q) => Some(q.c().to_vec()), _ => None };
    // the view of a linear problem as nonlinear must carry the same data; integrality is
    // read from the problem's own class
    let s = view!(p, x, Std { class, n: x.nx(), a: dense(x.a())?, b: x.b().to_vec(), nf: x.nf(), l: x.l().to_vec(), u: x.u().to_vec(),
        p: x.p().to_vec(), x0: x.x0().map(|z| z.to_vec()), c: None });
    let mut s = s;
    s.c = c;
    if s.a.len() != s.b.len() || s.l.len() != s.n || s.u.len() != s.n || s.p.len() != s.n { return Err("inconsistent dimensions".into()); }
    Ok(s)
}

pub fn evaluate(p: &mut Problem, x: &[f64]) -> Vals { view!(p, q, { q.evaluate(x); vals(q) }) }
pub fn combine(p: &mut Problem, nu: &[f64]) -> Vals { view!(p, q, { q.combine_h(nu); vals(q) }) }
pub fn vals(q: &numopt::problem::minlp::ProblemMinlp) -> Vals {
    Vals { phi: q.phi(), gphi: q.gphi().to_vec(), hphi: q.hphi().clone(), f: q.f().to_vec(), j: q.j().clone(), h: q.h().clone(), hcomb: q.hcomb().clone() }
}

pub fn std_problem(m: &Model) -> ModelStdProb { m.std_problem() }

/// Where each user variable is, and which indices are slacks.
#[derive(Clone)]
pub struct Layout { pub pos: Vec<Option<usize>>, pub user: Vec<Option<usize>> }

pub fn layout(sp: &ModelStdProb, vars: &[Node], n: usize) -> Result<Layout, Fail> {
    let mut pos = vec![None; vars.len()];
    let mut user = vec![None; n];
    let mut seen = vec![false; n];
    for (v, i) in sp.var2index.iter() {
        if *i >= n || seen[*i] { return Err(format!("variable {} has index {} of {} (repeated or out of range)", v, i, n).into()); }
        seen[*i] = true;
        if let Some(k) = vars.iter().position(|x| x == v) { pos[k] = Some(*i); user[*i] = Some(k); }
    }
    if sp.var2index.len() != n { return Err(format!("{} variables mapped, problem has {}", sp.var2index.len(), n).into()); }
    Ok(Layout { pos, user })
}

pub fn index_of(cons: &[Constraint], c: &Constraint) -> Option<usize> { cons.iter().position(|x| x == c) }

pub fn zero_jet() -> ([f64; NV], [f64; NH]) { ([0.; NV], [0.; NH]) }

pub type Map<K, V> = HashMap<K, V>;

// ------------------------------------------------------------------ feasibility of standard form

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri { Yes, No, Unclear }
pub fn tri(excess: f64, scale: f64) -> Tri {
    if excess.is_nan() { Tri::No }
    else if excess <= 1e-9 * scale { Tri::Yes }
    else if excess >= 1e-7 * scale { Tri::No }
    else { Tri::Unclear }
}
pub fn both(a: Tri, b: Tri) -> Tri {
    if a == Tri::No || b == Tri::No { Tri::No } else if a == Tri::Unclear || b == Tri::Unclear { Tri::Unclear } else { Tri::Yes }
}

/// One row with the user variables fixed: r0 + sum co_s s = 0.
pub struct Row { pub r0: f64, pub scale: f64, pub slacks: Vec<(usize, f64)> }

pub struct AtPoint { pub arows: Vec<Row>, pub frows: Vec<Row>, pub vals: Vals }

/// The full vector for a user point, slacks at `s`.
pub fn full(lay: &Layout, n: usize, u: &[f64], s: f64) -> Vec<f64> {
    (0..n).map(|i| match lay.user[i] { Some(k) => u[k], None => s }).collect()
}

pub fn at_point(p: &mut Problem, st: &Std, lay: &Layout, u: &[f64]) -> Result<AtPoint, Fail> {
    let x = full(lay, st.n, u, 0.);
    let v = evaluate(p, &x);
    let mut arows = Vec::new();
    for (i, r) in st.a.iter().enumerate() {
        let mut q = Row { r0: -st.b[i], scale: 1. + st.b[i].abs(), slacks: Vec::new() };
        for j in 0..st.n {
            if r[j] == 0. { continue; }
            if lay.user[j].is_some() { q.r0 += r[j] * x[j]; q.scale += (r[j] * x[j]).abs(); } else { q.slacks.push((j, r[j])); }
        }
        arows.push(q);
    }
    let mut frows = Vec::new();
    if v.f.len() != st.nf || v.j.rows() != st.nf { return Err("inconsistent nonlinear dimensions".into()); }
    let jd = if st.nf > 0 { dense(&v.j)? } else { Vec::new() };
    for i in 0..st.nf {
        let mut q = Row { r0: v.f[i], scale: 1. + v.f[i].abs(), slacks: Vec::new() };
        for j in 0..st.n {
            if lay.user[j].is_none() && jd[i][j] != 0. { q.slacks.push((j, jd[i][j])); }
            else if lay.user[j].is_some() { let t = (jd[i][j] * x[j]).abs(); if t.is_finite() { q.scale += t; } }
        }
        frows.push(q);
    }
    Ok(AtPoint { arows, frows, vals: v })
}

/// Can the row be satisfied by slacks within their limits?
pub fn row_ok(r: &Row, st: &Std) -> Tri {
    if r.r0.is_nan() { return Tri::No; }
    let (mut lo, mut hi) = (r.r0, r.r0);
    for (s, a) in &r.slacks {
        let (p, q) = (a * st.l[*s], a * st.u[*s]);
        if st.l[*s] > st.u[*s] { return Tri::No; }
        lo += p.min(q);
        hi += p.max(q);
    }
    tri((lo.max(-hi)).max(0.), r.scale)
}

/// Is there a slack vector that makes the user point feasible?
pub fn feasible(ap: &AtPoint, st: &Std, lay: &Layout, u: &[f64]) -> Tri {
    let mut t = Tri::Yes;
    for j in 0..st.n {
        if let Some(k) = lay.user[j] {
            t = both(t, tri((st.l[j] - u[k]).max(u[k] - st.u[j]).max(0.), 1. + u[k].abs()));
        } else if st.l[j] > st.u[j] { t = Tri::No; }
    }
    let mut val: Vec<Option<f64>> = vec![None; st.n];
    let rows: Vec<&Row> = ap.arows.iter().chain(ap.frows.iter()).collect();
    let mut open: Vec<usize> = (0..rows.len()).collect();
    loop {
        let mut progress = false;
        let mut rest = Vec::new();
        for i in open {
            let r = rows[i];
            if r.r0.is_nan() { return Tri::No; }
            let mut e = r.r0;
            let mut unk = Vec::new();
            for (s, a) in &r.slacks { match val[*s] { Some(v) => e += a * v, None => unk.push((*s, *a)) } }
            match unk.len() {
                0 => { t = both(t, tri(e.abs(), r.scale)); progress = true; }
                1 => {
                    let (s, a) = unk[0];
                    let v = -e / a;
                    let (l, h) = (st.l[s], st.u[s]);
                    t = both(t, tri((l - v).max(v - h).max(0.), r.scale / a.abs()));
                    val[s] = Some(v.clamp(l.min(h), h.max(l)));
                    progress = true;
                }
                _ => rest.push(i),
            }
        }
        open = rest;
        if open.is_empty() { break; }
        if !progress { for i in &open { t = both(t, row_ok(rows[*i], st)); } break; }
    }
    t
}

pub trait Checked { fn std_problem_checked(&self) -> Result<ModelStdProb, Fail>; }
impl Checked for Model {
    fn std_problem_checked(&self) -> Result<ModelStdProb, Fail> {
        crate::fw::catch(|| self.std_problem()).map_err(|m| Fail::from(format!("std_problem panicked: {}", m)))
    }
}
