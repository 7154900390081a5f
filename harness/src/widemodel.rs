//! Models of many variables and constraints, and everything about their standard form.

use crate::checks::c07::{slot, status_of, Mock};
use crate::fw::*;
use crate::model::*;
use crate::wide::*;
use crate::{bad, ck};
use numopt::model::constraint_std::ConstraintStd;
use numopt::model::model_std::ModelStd;
use numopt::model::*;
use std::collections::HashMap;

pub struct Wm { pub n: usize, pub names: Vec<String>, pub int: Vec<bool>, pub max: bool, pub obj: T, pub cons: Vec<(T, Rel, f64)>, pub base: Vec<f64>, pub linear: bool }
pub struct Bm { pub model: Model, pub vars: Vec<Node>, pub cons: Vec<Constraint> }

pub fn shift(t: &T, s: usize) -> T {
    let g = |a: &T| Box::new(shift(a, s));
    match t {
        T::V(i) => T::V(i + s),
        T::C(v) => T::C(*v), T::K(v) => T::K(*v),
        T::Add(a, b) => T::Add(g(a), g(b)), T::Sub(a, b) => T::Sub(g(a), g(b)), T::Mul(a, b) => T::Mul(g(a), g(b)), T::Div(a, b) => T::Div(g(a), g(b)),
        T::Neg(a) => T::Neg(g(a)), T::Sin(a) => T::Sin(g(a)), T::Cos(a) => T::Cos(g(a)),
    }
}

/// `m` rows besides the limits; the base point is feasible.
pub fn wide_model(kind: usize, n: usize, m: usize, linear: bool, ints: usize) -> Wm {
    let lin: Vec<&str> = KINDS.iter().cloned().filter(|k| k.starts_with("affine")).collect();
    let non: Vec<&str> = KINDS.iter().cloned().filter(|k| !k.starts_with("affine")).collect();
    let base: Vec<f64> = wpoints(n)[0].iter().enumerate().map(|(i, x)| if ints > 0 && i % ints == 0 { x.round() } else { *x }).collect();
    let mut rows = Vec::new();
    for q in 0..m {
        let w = if q % 4 == 3 { n } else { n.min(2 + (q * 5) % 13) };
        let w = if linear || q % 2 == 0 { w } else { n.min(2 + q % 5) };
        let k = if linear || q % 2 == 0 { lin[(kind + q) % lin.len()] } else { non[(kind + q) % non.len()] };
        let t = shift(&wide_expr(k, w).0, (q * 3) % (n - w + 1));
        let v = t.eval(&base);
        let rel = RELS[(q + kind) % 3];
        let s = 0.25 * (q % 3) as f64;
        rows.push((t, rel, match rel { Rel::Eq => v, Rel::Le => v + s, Rel::Ge => v - s }));
    }
    let mut lims = Vec::new();
    for i in 0..n {
        if (i + kind) % 3 != 0 { lims.push((T::V(i), Rel::Le, 3. + 0.0078125 * i as f64)); }
        if (i + kind) % 2 == 0 { lims.push((T::V(i), Rel::Ge, -3. - 0.0078125 * i as f64)); }
        if (i + kind) % 5 == 0 { lims.push((T::V(i), Rel::Le, 9. + 0.0078125 * i as f64)); } // redundant or the only one
    }
    // rows and limits in turn
    let mut cons = Vec::new();
    let (mut a, mut b) = (rows.into_iter(), lims.into_iter());
    loop {
        let (x, y) = (if kind % 2 == 0 { a.next() } else { b.next() }, if kind % 2 == 0 { b.next() } else { a.next() });
        if x.is_none() && y.is_none() { break; }
        cons.extend(x);
        cons.extend(y);
    }
    let obj = wide_expr(if linear { lin[kind % lin.len()] } else { non[kind % non.len()] }, n).0;
    Wm { n, names: (0..n).map(|i| format!("w{}", i)).collect(), int: (0..n).map(|i| ints > 0 && i % ints == 0).collect(), max: kind % 3 == 1, obj, cons, base, linear }
}

impl Wm {
    pub fn show(&self) -> String { format!("{} variables ({} integer), {} constraints, linear {}, max {}", self.n, self.int.iter().filter(|i| **i).count(), self.cons.len(), self.linear, self.max) }
    pub fn build(&self) -> Bm {
        let vars: Vec<Node> = self.names.iter().zip(self.int.iter()).map(|(s, i)| if *i { VariableScalar::new_integer(s) } else { VariableScalar::new_continuous(s) }).collect();
        let mut model = Model::new();
        let f = self.obj.node(&vars);
        model.set_objective(if self.max { Objective::maximize(&f) } else { Objective::minimize(&f) });
        let cons: Vec<Constraint> = self.cons.iter().map(|(t, r, b)| { let e = t.node(&vars); match r { Rel::Eq => e.equal(*b), Rel::Le => e.leq(*b), Rel::Ge => e.geq(*b) } }).collect();
        for k in &cons { model.add_constraint(k); }
        Bm { model, vars, cons }
    }
    /// The base point, and it with one variable moved in each direction.
    pub fn points(&self) -> Vec<Vec<f64>> {
        let mut o = vec![self.base.clone()];
        for i in 0..self.n { for d in [if i % 2 == 0 { 0.75 } else { -0.75 }, 20., -20.] { if self.n > 70 && d == 20. && i % 3 != 0 { continue; } let mut x = self.base.clone(); x[i] += d; o.push(x); } }
        o.extend(wpoints(self.n));
        o
    }
    fn viol(&self, k: usize, x: &[f64]) -> (f64, f64) {
        let (t, r, b) = &self.cons[k];
        let v = t.eval(x);
        (match r { Rel::Eq => (v - b).abs(), Rel::Le => (v - b).max(0.), Rel::Ge => (b - v).max(0.) }, v.abs() + b.abs())
    }
    pub fn objective(&self, x: &[f64]) -> f64 { let v = self.obj.eval(x); if self.max { -v } else { v } }
    /// Is the point feasible?
    pub fn holds(&self, x: &[f64]) -> Tri { (0..self.cons.len()).fold(Tri::Yes, |t, k| { let (v, m) = self.viol(k, x); both(t, tri(v, 1. + m + self.n as f64)) }) }
}

/// The standard form is equivalent; (feasible points, infeasible points).
pub fn equivalent(w: &Wm) -> Result<(u64, u64), Fail> {
    let b = w.build();
    let mut sd = b.model.std_problem_checked()?;
    let st = std_of(&mut sd.prob)?;
    let lay = layout(&sd, &b.vars, st.n)?;
    for i in 0..w.n { ck!(lay.pos[i].is_some(), "variable {} is missing", i); }
    for j in 0..st.n { let want = lay.user[j].map_or(false, |k| w.int[k]); ck!(st.p[j] == want, "integrality of column {} is {}", j, st.p[j]); }
    let any = w.int.iter().any(|i| *i);
    let want = match (w.linear, any) { (true, false) => Class::Lp, (true, true) => Class::Milp, (false, false) => Class::Nlp, _ => Class::Minlp };
    ck!(st.class == want, "class {:?} instead of {:?}", st.class, want);
    let pos: HashMap<&Constraint, usize> = b.cons.iter().enumerate().map(|(i, k)| (k, i)).collect();
    let map = |m: &HashMap<usize, Constraint>, n: usize| -> Result<Vec<usize>, Fail> {
        ck!(m.len() == n, "{} rows, {} mapped", n, m.len());
        (0..n).map(|i| m.get(&i).and_then(|k| pos.get(k).cloned()).ok_or_else(|| Fail::from(format!("row {} is not mapped", i)))).collect() };
    let (ar, fr) = (map(&sd.aindex2constr, st.a.len())?, map(&sd.jindex2constr, st.nf)?);
    let (mut yes, mut no) = (0, 0);
    let mut shift = None;
    for u in w.points() {
        let ap = at_point(&mut sd.prob, &st, &lay, &u)?;
        for (r, k) in ap.arows.iter().zip(ar.iter()).chain(ap.frows.iter().zip(fr.iter())) {
            let (t, (v, m)) = (row_ok(r, &st), w.viol(*k, &u));
            let e = tri(v, 1. + m + w.n as f64);
            ck!(t == Tri::Unclear || e == Tri::Unclear || t == e, "the row of constraint {} is {:?}, the constraint {:?}", k, t, e);
        }
        let (g, e) = (feasible(&ap, &st, &lay, &u), w.holds(&u));
        if g != Tri::Unclear && e != Tri::Unclear { ck!(g == e, "feasible: {:?} in the standard form, {:?} in the model", g, e); if e == Tri::Yes { yes += 1 } else { no += 1 } }
        let d = ap.vals.phi - w.objective(&u);
        let s = *shift.get_or_insert(d);
        ck!((d - s).abs() <= 1e-8 * (1. + s.abs() + w.objective(&u).abs() + w.n as f64), "the objective differs by {:e} here, by {:e} elsewhere", d, s);
    }
    Ok((yes, no))
}

/// A solver's answer reaches the variables and constraints.
pub fn answered(w: &Wm, variant: usize, status: usize) -> Result<u64, Fail> {
    let mut b = w.build();
    let sd = b.model.std_problem_checked()?;
    let mut sd = sd;
    let st = std_of(&mut sd.prob)?;
    let lay = layout(&sd, &b.vars, st.n)?;
    // the slack of each row, by its coefficients
    let ap = at_point(&mut sd.prob, &st, &lay, &w.base)?;
    let pos: HashMap<&Constraint, usize> = b.cons.iter().enumerate().map(|(i, k)| (k, i)).collect();
    let mut want: Vec<Option<f64>> = vec![None; w.cons.len()];
    for (vec, rows, map) in [(1, &ap.arows, &sd.aindex2constr), (2, &ap.frows, &sd.jindex2constr)] { for (i, r) in rows.iter().enumerate() {
        let k = match map.get(&i).and_then(|k| pos.get(k)) { Some(k) => *k, None => bad!("row {} is not mapped", i) };
        ck!(want[k].is_none(), "constraint {} has two rows", k);
        ck!(r.slacks.is_empty() == (w.cons[k].1 == Rel::Eq), "row {} of constraint {} has {} slacks", i, k, r.slacks.len());
        want[k] = Some(match r.slacks.first() { None => slot(variant, vec, i), Some((s, _)) => if st.u[*s].abs() < 1e7 { slot(variant, 3, *s) } else { slot(variant, 4, *s) } });
    } }
    if let Err(e) = b.model.solve(&Mock::new(status, variant)) { bad!("solve: {}", e); }
    ck!(b.model.solver_status() == Some(&status_of(status)), "status {:?} reported", b.model.solver_status());
    let (pr, du) = (b.model.final_primals(), b.model.final_duals());
    ck!(pr.len() == st.n, "{} values for {} variables", pr.len(), st.n);
    for (i, v) in b.vars.iter().enumerate() { let s = slot(variant, 0, lay.pos[i].unwrap_or(0)); ck!(pr.get(v) == Some(&s), "value of variable {} is {:?}, the solver gave {:e}", i, pr.get(v), s); }
    for q in du.keys() { ck!(pos.contains_key(q), "a multiplier for an unknown constraint"); }
    for (k, (t, rel, lim)) in w.cons.iter().enumerate() {
        let got = du.get(&b.cons[k]).cloned();
        let s = match (want[k], t) {
            (Some(s), _) => s,
            (None, T::V(i)) => {
                let j = lay.pos[*i].unwrap();
                let act = if *rel == Rel::Le { st.u[j] } else { st.l[j] };
                if act == *lim { slot(variant, if *rel == Rel::Le { 3 } else { 4 }, j) } else { ck!(got.unwrap_or(0.) == 0., "the redundant limit {} has the multiplier {:?}", k, got); continue; }
            }
            _ => bad!("no row and no limit for constraint {}", k),
        };
        ck!(got == Some(s) || s == 0. && got.is_none(), "multiplier of constraint {} is {:?}, the solver gave {:e}", k, got, s);
    }
    Ok((w.n + w.cons.len()) as u64)
}

/// All that is observable of the standard form and a solve, by positions and names.
pub fn print(w: &Wm) -> Result<(Vec<String>, Vec<f64>, u64), Fail> {
    let mut b = w.build();
    let comp = b.model.std_components();
    let ord: Vec<u64> = comp.obj.prop.a.keys().map(|v| b.vars.iter().position(|x| x == v).unwrap_or(9999) as u64).collect();
    drop(comp);
    let mut sd = b.model.std_problem_checked()?;
    let st = std_of(&mut sd.prob)?;
    let mut text = vec![format!("{:?} {} {} {} {:?}", st.class, st.n, st.b.len(), st.nf, st.p)];
    let mut at: Vec<(usize, usize)> = b.vars.iter().enumerate().filter_map(|(k, v)| sd.var2index.get(v).map(|i| (*i, k))).collect();
    at.sort();
    text.push(format!("{:?}", at));
    for m in [&sd.aindex2constr, &sd.jindex2constr, &sd.uindex2constr, &sd.lindex2constr] {
        let mut q: Vec<(usize, Option<usize>)> = m.iter().map(|(i, k)| (*i, index_of(&b.cons, k))).collect();
        q.sort();
        text.push(format!("{:?}", q));
    }
    let mut nums: Vec<f64> = st.a.concat();
    for x in [&st.b, &st.l, &st.u] { nums.extend(x); }
    if let Some(c) = &st.c { nums.extend(c); }
    let x: Vec<f64> = (0..st.n).map(|i| 0.375 + 0.25 * (i % 9) as f64).collect();
    let _ = evaluate(&mut sd.prob, &x);
    let nu: Vec<f64> = (0..st.nf).map(|i| 1. + i as f64).collect();
    let v = combine(&mut sd.prob, &nu);
    nums.push(v.phi);
    nums.extend(&v.gphi);
    nums.extend(&v.f);
    for m in [&v.hphi, &v.j, &v.hcomb] { nums.extend(dense(m)?.concat()); }
    if let Err(e) = b.model.solve(&Mock::new(0, 2)) { bad!("solve: {}", e); }
    let (pr, du) = (b.model.final_primals(), b.model.final_duals());
    text.push(format!("{} {} {:?}", pr.len(), du.len(), b.cons.iter().map(|k| du.contains_key(k)).collect::<Vec<_>>()));
    nums.extend(b.vars.iter().filter_map(|v| pr.get(v)));
    nums.extend(b.cons.iter().filter_map(|k| du.get(k)));
    Ok((text, nums, hash_u64s(&ord)))
}

/// The components of one constraint over many variables: linear rows or functions with derivatives.
pub fn components(t: &T, n: usize, rel: Rel, rhs: f64, start: (usize, usize)) -> Result<u64, Fail> {
    let vs = wvars(n, false);
    let pos: HashMap<&Node, usize> = vs.iter().enumerate().map(|(i, x)| (x, i)).collect();
    let e = t.node(&vs);
    let con = match rel { Rel::Eq => e.equal(rhs), Rel::Le => e.leq(rhs), Rel::Ge => e.geq(rhs) };
    let (mut a, mut j) = start;
    let s = con.std_components(&mut a, &mut j);
    ck!(a - start.0 == s.b.len() && s.ca.len() == s.b.len() && j - start.1 == s.f.len() && s.cj.len() == s.f.len() && s.h.len() == s.f.len(), "{} linear rows, {} functions, counters {} and {}", s.b.len(), s.f.len(), a, j);
    ck!(s.b.len() + s.f.len() == 1 || n == 1, "{} rows and {} functions", s.b.len(), s.f.len());
    if s.b.len() + s.f.len() != 1 { return Ok(0); }
    ck!(s.prop.len() == 1, "{} properties", s.prop.len());
    let slack: Vec<&Node> = s.prop[0].a.keys().filter(|x| !pos.contains_key(x)).collect();
    ck!(slack.len() == if rel == Rel::Eq { 0 } else { 1 }, "{} slack variables", slack.len());
    for x in &vs { ck!(s.prop[0].a.contains_key(x), "variable {} is not in the properties", x.name()); }
    let mut steps = 0;
    for x in wpoints(n) {
        let mut m: HashMap<&Node, f64> = vs.iter().zip(x.iter().cloned()).collect();
        for k in &slack { m.insert(k, 0.); }
        let d = dj(t, &x);
        let mut g = vec![0.; n];
        let mut sc = 0.;
        if s.b.len() == 1 {
            let mut v = -s.b[0];
            for (r, y, q) in &s.a { ck!(*r == start.0, "an entry in row {}", r); match pos.get(y) { Some(i) => { g[*i] += q; v += q * x[*i]; } None => { ck!(y == slack[0], "an entry for an unknown variable"); sc += q; } } }
            ck!(near(v, d.v - rhs, n), "the row is {:e} instead of {:e}", v, d.v - rhs);
        } else {
            let v = s.f[0].evaluate(&m);
            ck!(near(v, d.v - rhs, n), "the function is {:e} instead of {:e}", v, d.v - rhs);
            for (r, y, q) in &s.j { ck!(*r == start.1, "an entry in row {}", r); let q = q.evaluate(&m); match pos.get(y) { Some(i) => g[*i] += q, None => { ck!(y == slack[0], "an entry for an unknown variable"); sc += q; } } }
            let mut h: HashMap<(usize, usize), f64> = HashMap::new();
            for (y, z, q) in &s.h[0] { match (pos.get(y), pos.get(z)) { (Some(i), Some(k)) => { ck!(h.insert((*i.max(k), *i.min(k)), q.evaluate(&m)).is_none(), "two Hessian entries for {} and {}", i, k); } _ => bad!("a Hessian entry for an unknown variable") } }
            for i in 0..n { for k in 0..=i { let w = h.get(&(i, k)).cloned().unwrap_or(0.); ck!(near(w, d.h[i][k], n), "Hessian entry {}, {} is {:e} instead of {:e}", i, k, w, d.h[i][k]); steps += 1; } }
        }
        for i in 0..n { ck!(near(g[i], d.g[i], n), "the entry of variable {} is {:e} instead of {:e}", i, g[i], d.g[i]); steps += 1; }
        if rel != Rel::Eq {
            let (l, u) = (s.l.iter().find(|e| e.0 == *slack[0]).map(|e| e.1), s.u.iter().find(|e| e.0 == *slack[0]).map(|e| e.1));
            ck!(sc != 0., "the slack has no coefficient");
            ck!([l, u].iter().flatten().all(|v| *v == 0.) && (l.is_some() != u.is_some()), "the slack's limits are {:?} and {:?}", l, u);
            let ok = match rel { Rel::Le => l.is_some() == (sc > 0.), _ => l.is_some() == (sc < 0.) };
            ck!(ok, "the slack's limits do not fit its coefficient {}", sc);
        }
    }
    Ok(steps)
}
