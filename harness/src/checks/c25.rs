//! C25: expressions, constraints and models are values: nothing that is done with them or with
//! others changes what they are.

use crate::checks::c06::sequences;
use crate::checks::c20::Echo;
use crate::expr::*;
use crate::fw::*;
use crate::model::*;
use crate::ck;
use numopt::matrix::coo::CooMat;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::model_std::ModelStd;
use numopt::model::*;
use numopt::problem::base::Problem;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C25", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one starting table of expressions and one sequence of operations on it (combining by reference and by value, cloning, dropping, evaluating, differentiating, analysing, printing, constraining, adding to a model, solving); after every operation every expression and constraint that still exists is observed again: value and gradient at every point against the reference, printed form, linearity data, violation, tag against what they were; non-trivial: some object lives through an operation on a part of it",
        assumptions: &["rounding may differ by 1e-9 relative between two derivative expressions"],
    }
}

const K: usize = 4;
const P: [[f64; 3]; 3] = [[0.7, -1.3, 2.1], [2., 3., -0.25], [0., -0.5, 1.]];

#[derive(Clone)]
struct Ex { n: Node, j: Vec<Jet>, order: u8, text: String, lin: (bool, Vec<f64>, f64, usize) }
#[derive(Clone)]
struct Cn { c: Constraint, d: Vec<Jet>, rel: Rel, text: String, tag: String }

fn lin(n: &Node, v: &[Node]) -> (bool, Vec<f64>, f64, usize) {
    let p = n.std_properties();
    (p.affine, if p.affine { v.iter().map(|x| p.a.get(x).cloned().unwrap_or(f64::NAN)).collect() } else { vec![] }, if p.affine { p.b } else { 0. }, p.a.len())
}
fn same(a: &(bool, Vec<f64>, f64, usize), b: &(bool, Vec<f64>, f64, usize)) -> bool {
    let q = |x: f64, y: f64| x.to_bits() == y.to_bits() || x.is_finite() && y.is_finite() && (x - y).abs() <= 1e-12 * (x.abs() + y.abs());
    a.0 == b.0 && a.3 == b.3 && q(a.2, b.2) && a.1.len() == b.1.len() && a.1.iter().zip(b.1.iter()).all(|(x, y)| q(*x, *y))
}
fn ex(n: Node, j: Vec<Jet>, order: u8, v: &[Node]) -> Ex { Ex { text: n.to_string(), lin: lin(&n, v), n, j, order } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do { Bin(Op, u8, u8, u8), Sc(Op, u8, f64, bool), Un(Op, u8), Clone(u8), Drop(u8), Eval(u8, u8), Deriv(u8, u8), Derivs(u8), Std(u8), Con(u8, u8, Rel), ConSc(u8, Rel), Model, Solve }

fn show(d: &Do) -> String { format!("{:?}", d) }

struct St { v: Vec<Node>, t: Vec<Option<Ex>>, cs: Vec<Cn>, model: Option<(Model, usize, String)>, touched: bool }

fn binop(op: Op, a: Node, b: Node, mode: u8) -> Node {
    macro_rules! m { ($o:tt) => { match mode { 0 => &a $o &b, 1 => a $o &b, 2 => &a $o b, _ => a $o b } } }
    match op { Op::Add => m!(+), Op::Sub => m!(-), Op::Mul => m!(*), _ => m!(/) }
}
fn jop(op: Op, a: &Jet, b: &Jet) -> Jet { match op { Op::Add => a.add(b), Op::Sub => a.sub(b), Op::Mul => a.mul(b), _ => a.div(b) } }

impl St {
    fn start(k: usize) -> St {
        let v = vars(2);
        let x = ex(v[0].clone(), P.iter().map(|p| Jet::var(0, p[0])).collect(), 2, &v);
        let y = ex(v[1].clone(), P.iter().map(|p| Jet::var(1, p[1])).collect(), 2, &v);
        let con = |c: f64| ex(ConstantScalar::new(c), P.iter().map(|_| Jet::cst(c)).collect(), 2, &v);
        let b = |op: Op, a: &Ex, b: &Ex| ex(binop(op, a.n.clone(), b.n.clone(), 0), a.j.iter().zip(b.j.iter()).map(|(p, q)| jop(op, p, q)).collect(), 2, &v);
        let sin = |a: &Ex| ex(a.n.sin(), a.j.iter().map(|p| p.sin()).collect(), 2, &v);
        let s = b(Op::Add, &x, &y);
        let t: Vec<Ex> = match k {
            0 => vec![x, con(2.), y],
            1 => vec![s.clone(), b(Op::Add, &s, &con(3.)), x],
            2 => vec![b(Op::Mul, &s, &sin(&s)), s.clone(), sin(&s)],
            3 => vec![b(Op::Div, &x, &b(Op::Add, &y, &con(5.))), b(Op::Mul, &con(2.), &s), con(1.)],
            4 => vec![b(Op::Add, &b(Op::Mul, &x, &y), &x), b(Op::Mul, &x, &y), b(Op::Add, &s, &s)],
            _ => vec![b(Op::Sub, &s, &s), b(Op::Sub, &y, &con(1.)), con(0.)],
        };
        let mut t: Vec<Option<Ex>> = t.into_iter().map(Some).collect();
        t.push(None);
        St { v, t, cs: vec![], model: None, touched: false }
    }

    fn put(&mut self, e: Ex) { if let Some(f) = self.t.iter().position(|s| s.is_none()) { self.t[f] = Some(e); } }

    fn act(&mut self, d: &Do) -> Res {
        let v = self.v.clone();
        let gone = |i: u8| self.t[i as usize].is_none();
        // after a refused division
        if match *d { Do::Bin(_, i, j, _) | Do::Con(i, j, _) => gone(i) || gone(j), Do::Sc(_, i, _, _) | Do::Un(_, i) | Do::Clone(i) | Do::Eval(i, _) | Do::Deriv(i, _) | Do::Derivs(i) | Do::Std(i) | Do::ConSc(i, _) => gone(i), _ => false } { return Ok(()); }
        match *d {
            Do::Bin(op, i, j, m) => {
                let (i, j) = (i as usize, j as usize);
                let (a, b) = (self.t[i].clone().unwrap(), self.t[j].clone().unwrap());
                let js = a.j.iter().zip(b.j.iter()).map(|(p, q)| jop(op, p, q)).collect();
                let o = a.order.min(b.order);
                let (an, bn, bj) = (a.n.clone(), b.n.clone(), b.j.clone());
                drop(a); drop(b);
                if m & 1 != 0 { self.t[i] = None; }
                if m & 2 != 0 { self.t[j] = None; }
                // a constant zero as divisor is refused, which must leave the rest as it was
                let js: Vec<Jet> = js;
                let zero = op == Op::Div && bj.iter().all(|q| q.v == 0.);
                match catch(|| binop(op, an, bn, m)) {
                    Ok(r) => self.put(ex(r, js, o, &v)),
                    Err(e) => ck!(zero, "panic: {}", e),
                }
                self.touched = true;
            }
            Do::Sc(op, i, s, m) => {
                let i = i as usize;
                let a = self.t[i].clone().unwrap();
                let (js, o, n) = (a.j.iter().map(|p| jop(op, p, &Jet::cst(s))).collect(), a.order, a.n.clone());
                drop(a);
                if m { self.t[i] = None; }
                macro_rules! q { ($o:tt) => { if m { n $o s } else { &n $o s } } }
                let r = match op { Op::Add => q!(+), Op::Sub => q!(-), Op::Mul => q!(*), _ => q!(/) };
                self.put(ex(r, js, o, &v));
                self.touched = true;
            }
            Do::Un(op, i) => {
                let a = self.t[i as usize].clone().unwrap();
                let (r, f): (Node, fn(&Jet) -> Jet) = match op { Op::Neg => (-&a.n, Jet::neg), Op::Sin => (a.n.sin(), Jet::sin), _ => (a.n.cos(), Jet::cos) };
                self.put(ex(r, a.j.iter().map(f).collect(), a.order, &v));
                self.touched = true;
            }
            Do::Clone(i) => { let a = self.t[i as usize].clone().unwrap(); self.put(a); }
            Do::Drop(i) => self.t[i as usize] = None,
            Do::Eval(i, k) => { let a = self.t[i as usize].as_ref().unwrap(); let _ = a.n.evaluate(&assign(&v, &P[k as usize])); }
            Do::Deriv(i, k) => {
                let a = self.t[i as usize].clone().unwrap();
                let r = a.n.derivative(&v[k as usize]);
                let js = a.j.iter().map(|p| {
                    let mut q = Jet::cst(p.g[k as usize]);
                    q.mv = p.mg[k as usize];
                    for l in 0..2 { q.g[l] = p.h[hix(k as usize, l)]; q.mg[l] = p.mh[hix(k as usize, l)]; }
                    q.ok = p.ok;
                    q
                }).collect();
                self.put(ex(r, js, a.order - 1, &v));
                self.touched = true;
            }
            Do::Derivs(i) => { let _ = self.t[i as usize].as_ref().unwrap().n.derivatives(&[&v[1], &v[0], &v[1]]); self.touched = true; }
            Do::Std(i) => { let _ = self.t[i as usize].as_ref().unwrap().n.std_components(); self.touched = true; }
            Do::Con(i, j, rel) => {
                let (a, b) = (self.t[i as usize].clone().unwrap(), self.t[j as usize].clone().unwrap());
                let tag = format!("t{}", self.cs.len());
                let c = match rel { Rel::Eq => a.n.equal_and_tag(&b.n, &tag), Rel::Le => a.n.leq_and_tag(&b.n, &tag), Rel::Ge => a.n.geq_and_tag(&b.n, &tag) };
                self.cs.push(Cn { text: c.to_string(), c, d: a.j.iter().zip(b.j.iter()).map(|(p, q)| p.sub(q)).collect(), rel, tag });
                self.touched = true;
            }
            Do::ConSc(i, rel) => {
                let a = self.t[i as usize].clone().unwrap();
                let c = match rel { Rel::Eq => a.n.equal(1.5), Rel::Le => a.n.leq(1.5), Rel::Ge => a.n.geq(1.5) };
                self.cs.push(Cn { text: c.to_string(), c, d: a.j.iter().map(|p| p.sub(&Jet::cst(1.5))).collect(), rel, tag: String::new() });
                self.touched = true;
            }
            Do::Model => {
                let mut m = Model::new();
                if let Some(Some(e)) = self.t.iter().find(|s| s.is_some()) { m.set_objective(Objective::maximize(&e.n)); }
                for c in &self.cs { m.add_constraint(&c.c); }
                let _ = m.to_string();
                let t = m.to_string();
                self.model = Some((m, self.cs.len(), t));
            }
            Do::Solve => {
                let (m, n, t) = self.model.as_mut().unwrap();
                let r = catch(|| { let r = m.solve(&Echo(Default::default())).map_err(|e| e.to_string()); let _ = ModelStd::std_problem(&*m); r });
                let _ = r; // succeeds or fails; C05 judges panics
                ck!(m.constraints().len() == *n, "the model has {} constraints instead of {}", m.constraints().len(), n);
                ck!(m.to_string() == *t, "the model prints {:?} instead of {:?}", m.to_string(), t);
                self.touched = true;
            }
        }
        Ok(())
    }

    fn observe(&self, c: &mut Ctx, when: usize) -> Res {
        let v = &self.v;
        for (k, e) in self.t.iter().enumerate() {
            let e = match e { Some(e) => e, None => continue };
            ck!(e.n.to_string() == e.text, "operation {}: expression {} prints {} instead of {}", when, k, e.n, e.text);
            let l = lin(&e.n, v);
            ck!(same(&l, &e.lin), "operation {}: expression {} ({}): linearity {:?} instead of {:?}", when, k, e.text, l, e.lin);
            for round in 0..2 {
                for (p, j) in P.iter().zip(e.j.iter()) {
                    if !j.ok { continue; }
                    let g = e.n.evaluate(&assign(v, p));
                    ck!(close(g, j.v, j.mv), "operation {}: expression {} ({}) at {:?} is {:e} instead of {:e} (time {})", when, k, e.text, p, g, j.v, round);
                }
                c.step(1);
            }
            if e.order > 0 {
                let d = e.n.derivatives(&[&v[0], &v[1]]);
                for i in 0..2 {
                    let j = &e.j[0];
                    if !j.ok { continue; }
                    let g = d[&v[i]].evaluate(&assign(v, &P[0]));
                    ck!((g - j.g[i]).abs() <= 1e-9 * (j.mg[i] + 1e-12), "operation {}: d/d{} of expression {} ({}) is {:e} instead of {:e}", when, VN[i], k, e.text, g, j.g[i]);
                }
            }
        }
        for (k, q) in self.cs.iter().enumerate() {
            ck!(q.c.to_string() == q.text, "operation {}: constraint {} prints {} instead of {}", when, k, q.c, q.text);
            ck!(q.c.label() == q.tag, "operation {}: constraint {} has tag {:?} instead of {:?}", when, k, q.c.label(), q.tag);
            for (p, d) in P.iter().zip(q.d.iter()) {
                if !d.ok { continue; }
                let want = match q.rel { Rel::Eq => d.v.abs(), Rel::Le => d.v.max(0.), Rel::Ge => (-d.v).max(0.) };
                let g = q.c.violation(&assign(v, p));
                ck!((g - want).abs() <= 1e-9 * (1. + d.mv), "operation {}: violation of constraint {} ({}) at {:?} is {:e} instead of {:e}", when, k, q.text, p, g, want);
            }
        }
        if let Some((m, n, t)) = &self.model {
            ck!(m.constraints().len() == *n && m.constraints().iter().zip(self.cs.iter()).all(|(a, b)| *a == b.c), "operation {}: the constraints of the model changed", when);
            ck!(m.to_string() == *t, "operation {}: the model prints {:?} instead of {:?}", when, m.to_string(), t);
        }
        Ok(())
    }
}

fn history(c: &mut Ctx, k: usize, ops: &[Do]) -> Res {
    let mut s = St::start(k);
    s.observe(c, 0)?;
    for (i, d) in ops.iter().enumerate() {
        s.act(d).map_err(|e| Fail::from(format!("operation {}: {}", i + 1, e.msg)))?;
        s.observe(c, i + 1)?;
        let mut h: Vec<u64> = s.t.iter().map(|e| e.as_ref().map(|e| hash_str(&e.text) ^ e.order as u64).unwrap_or(0)).collect();
        h.extend(s.cs.iter().map(|q| hash_str(&q.text)));
        h.push(s.model.as_ref().map(|m| hash_str(&m.2)).unwrap_or(1));
        c.state(hash_u64s(&h));
    }
    if s.touched { c.nontrivial(); }
    c.trace();
    Ok(())
}

/// Only sequences all of whose operations act.
fn acts(ops: &[Do]) -> bool {
    let mut full: Vec<bool> = vec![true, true, true, false];
    let mut order = vec![2u8; K];
    let (mut con, mut model) = (false, false);
    for d in ops {
        let f = |i: u8| full[i as usize];
        let free = full.iter().position(|s| !s);
        match *d {
            Do::Bin(_, i, j, m) => {
                if !f(i) || !f(j) { return false; }
                let o = order[i as usize].min(order[j as usize]);
                if m & 1 != 0 { full[i as usize] = false; }
                if m & 2 != 0 { full[j as usize] = false; }
                match full.iter().position(|s| !s) { Some(q) => { full[q] = true; order[q] = o; } None => return false }
            }
            Do::Sc(_, i, _, m) => { if !f(i) { return false; } let o = order[i as usize]; if m { full[i as usize] = false; } match full.iter().position(|s| !s) { Some(q) => { full[q] = true; order[q] = o; } None => return false } }
            Do::Un(_, i) | Do::Clone(i) => { if !f(i) { return false; } match free { Some(q) => { full[q] = true; order[q] = order[i as usize]; } None => return false } }
            Do::Deriv(i, _) => { if !f(i) || order[i as usize] == 0 { return false; } match free { Some(q) => { full[q] = true; order[q] = order[i as usize] - 1; } None => return false } }
            Do::Drop(i) => { if !f(i) { return false; } full[i as usize] = false; }
            Do::Eval(i, _) | Do::Derivs(i) | Do::Std(i) => if !f(i) { return false; },
            Do::ConSc(i, _) => { if !f(i) { return false; } con = true; }
            Do::Con(i, j, _) => { if !f(i) || !f(j) { return false; } con = true; }
            Do::Model => { if !con { return false; } model = true; }
            Do::Solve => if !model { return false; },
        }
    }
    true
}

fn alphabet(rich: bool) -> Vec<Do> {
    let mut a = Vec::new();
    for op in if rich { &BIN[..] } else { &BIN[..3] } { for i in 0..3u8 { for j in 0..3u8 { for m in if rich { &[0u8, 1, 2, 3][..] } else { &[0u8, 3][..] } {
        if !rich && (j < i || (*m == 3 && *op == Op::Sub)) { continue; }
        a.push(Do::Bin(*op, i, j, *m));
    } } } }
    for i in 0..K as u8 {
        if rich { for op in BIN { for s in [2., 0., 1.] { if op == Op::Div && s == 0. { continue; } for m in [false, true] { a.push(Do::Sc(op, i, s, m)); } } } } else { a.push(Do::Sc(Op::Add, i, 2., true)); }
        for op in if rich { &UN[..] } else { &UN[..1] } { a.push(Do::Un(*op, i)); }
        a.push(Do::Clone(i));
        a.push(Do::Drop(i));
        for k in 0..2 { a.push(Do::Deriv(i, k)); if rich { a.push(Do::Eval(i, k)); } }
        if rich { a.push(Do::Derivs(i)); }
        a.push(Do::Std(i));
        for r in if rich { &RELS[..] } else { &RELS[1..2] } { a.push(Do::ConSc(i, *r)); }
        if rich { for r in RELS { a.push(Do::Con(i, (i + 1) % 3, r)); } }
    }
    if !rich { a.push(Do::Con(0, 1, Rel::Ge)); }
    a.push(Do::Model);
    a.push(Do::Solve);
    a
}

/// What can be asked about an expression, and about a constraint and a model made of it.
#[derive(Clone, PartialEq, Debug)]
struct Answers { text: String, values: Vec<f64>, derivs: Vec<f64>, lin: (bool, Vec<f64>, f64, usize), second: Vec<f64>, con: (String, Vec<f64>), prob: Vec<f64>, model: String }

/// A matrix as (row, column, sum of its entries there), in that order: the order in which a matrix lists its entries is nobody's business.
fn by_place(m: &CooMat<f64>) -> Vec<f64> {
    let mut at: std::collections::BTreeMap<(usize, usize), f64> = Default::default();
    for (i, j, d) in m.iter() { *at.entry((*i, *j)).or_insert(0.) += *d; }
    at.into_iter().flat_map(|((i, j), d)| [i as f64, j as f64, d]).collect()
}

fn ask(n: &Node, v: &[Node]) -> Answers {
    let at = |e: &Node| -> Vec<f64> { P.iter().map(|p| e.evaluate(&assign(v, p))).collect() };
    let d = n.derivatives(&[&v[1], &v[0]]);
    let derivs = (0..2).flat_map(|i| at(&d[&v[i]])).chain(at(&n.derivative(&v[0]))).collect();
    let comp = n.std_components();
    let mut second: Vec<(usize, usize, Vec<f64>)> = comp.hphi.iter().map(|(a, b, e)| { let q = |w: &Node| v.iter().position(|u| u == w).unwrap_or(9); (q(a).min(q(b)), q(a).max(q(b)), at(e)) }).collect();
    second.extend(comp.gphi.iter().map(|(a, e)| (v.iter().position(|u| u == a).unwrap_or(9), 7, at(e))));
    second.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let con = n.leq_and_tag(1.5, "t");
    let viol = P.iter().map(|p| con.violation(&assign(v, p))).collect();
    let mut m = Model::new();
    m.set_objective(Objective::maximize(n));
    m.add_constraint(&con);
    let sd = ModelStd::std_problem(&m);
    let mut prob: Vec<f64> = v.iter().map(|x| sd.var2index.get(x).map(|i| *i as f64).unwrap_or(-1.)).collect();
    prob.extend([sd.aindex2constr.len() as f64, sd.jindex2constr.len() as f64, sd.uindex2constr.len() as f64]);
    let mut q = sd.prob;
    match &q { Problem::Lp(p) => { prob.extend(p.c()); prob.extend(by_place(p.a())); prob.extend(p.b()); prob.extend(p.u()); prob.extend(p.l()); } _ => () }
    if matches!(q, Problem::Nlp(_) | Problem::Minlp(_)) {
        for x0 in [0.7, -1.3] {
            let nx = match &q { Problem::Nlp(p) => p.nx(), Problem::Minlp(p) => p.nx(), _ => 0 };
            let e = evaluate(&mut q, &(0..nx).map(|i| x0 + i as f64).collect::<Vec<f64>>());
            prob.push(e.phi); prob.extend(&e.gphi); prob.extend(&e.f); prob.extend(by_place(&e.j)); prob.extend(by_place(&e.hphi));
        }
    }
    Answers { text: n.to_string(), values: at(n), derivs, lin: lin(n, v), second: second.into_iter().flat_map(|s| s.2.into_iter().chain([s.0 as f64, s.1 as f64])).collect(), con: (con.to_string(), viol), prob, model: m.to_string() }
}
fn alike(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p == q || p.is_nan() && q.is_nan() || p.is_finite() && q.is_finite() && (p - q).abs() <= 1e-9 * (p.abs() + q.abs() + 1e-3)) }

/// Expressions of one or two operations on two variables.
fn small(k: usize, v: &[Node]) -> Node {
    let leaf = |i: usize| -> Node { match i { 0 => v[0].clone(), 1 => v[1].clone(), 2 => ConstantScalar::new(2.), 3 => ConstantScalar::new(-3.), 4 => &v[0] + &v[1], 5 => 2. * &v[0], 6 => &v[0] * &v[1], _ => v[1].sin() } };
    if k < 24 { let a = leaf(k / 3); return match k % 3 { 0 => -&a, 1 => a.sin(), _ => a.cos() }; }
    let k = k - 24;
    binop(BIN[k % 4], leaf(k / 4 % 8), leaf(k / 32), 0)
}
const SMALL: usize = 24 + 4 * 64;

/// Expressions that are made, asked and dropped one after another, and so lie where dropped ones lay.
fn replaced(c: &mut Ctx, first: usize, fresh: bool, keep: usize) -> Res {
    let v = vars(2);
    // all of them at a time, so that none lies where another one lay
    let all: Vec<Node> = (0..SMALL).map(|k| small(k, &v)).collect();
    let want: Vec<Answers> = all.iter().map(|n| ask(n, &v)).collect();
    drop(all);
    for second in 0..SMALL {
        let mut kept: Vec<Node> = Vec::new();
        for k in [first, second, first, second, second] {
            let w = if fresh { vars(2) } else { v.clone() };
            let n = small(k, &w);
            let g = ask(&n, &w);
            let r = &want[k];
            let same = g.text == r.text && same(&g.lin, &r.lin) && g.con.0 == r.con.0 && g.model == r.model && alike(&g.values, &r.values) && alike(&g.derivs, &r.derivs) && alike(&g.second, &r.second) && alike(&g.con.1, &r.con.1) && alike(&g.prob, &r.prob);
            ck!(same, "{} made after {} was dropped: {:?} instead of {:?}", r.text, want[first].text, g, r);
            if kept.len() < keep { kept.push(n); }
            c.step(1);
        }
    }
    c.nontrivial();
    c.trace();
    c.state(hash_u64s(&[first as u64, fresh as u64, keep as u64]));
    Ok(())
}

fn run(c: &mut Ctx) {
    c.section("expressions made in the place of dropped ones");
    for first in 0..SMALL { for (fresh, keep) in if c.thorough() { &[(false, 0), (true, 0), (false, 1), (true, 2)][..] } else { &[(false, 0), (true, 1)][..] } {
        c.case(|| format!("{}, fresh variables {}, {} kept", small(first, &vars(2)), fresh, keep), |c| replaced(c, first, *fresh, *keep));
    } }
    for (what, rich, top) in [("all operations", true, c.pick(2, 3)), ("fewer operations, longer sequences", false, 4)] {
        c.section(&format!("{}, sequences of up to {}", what, top));
        let al = alphabet(rich);
        for len in 1..=top { for k in 0..6 {
            if rich && len == 3 && k != 2 && k != 4 { continue; }
            if !rich && len == 4 && !c.thorough() && k != 2 { continue; }
            sequences(al.len(), len, &mut |s| {
                let ops: Vec<Do> = s.iter().map(|i| al[*i]).collect();
                if acts(&ops) { c.case(|| format!("table {}: {}", k, ops.iter().map(show).collect::<Vec<_>>().join("; ")), |c| history(c, k, &ops)); }
                !c.done()
            });
        } }
    }
}
