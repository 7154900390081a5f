//! C26: the standard components that constraints and models report describe them exactly.

use crate::checks::c05::{grid, LIN, NAMES, NLIN, OBJ, ODD};
use crate::expr::*;
use crate::fw::*;
use crate::wide::{wide_expr, KINDS, SIZES};
use crate::widemodel as wm;
use crate::model::*;
use crate::ck;
use numopt::model::constraint_std::{ConstraintStd, ConstraintStdComp};
use numopt::model::model_std::ModelStd;
use numopt::model::variable::VariableKind;
use numopt::model::*;
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C26", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one constraint with starting row numbers, or one model; from the components alone (rows, functions, derivatives, limits, slack variables) it is decided at every grid point whether slack values exist, and compared with the constraint; all derivative entries are compared with reference derivatives; non-trivial: some points are feasible and some are not",
        assumptions: &["points within 1e-7 of a constraint boundary, but not on it, are not compared", "functions are affine in slack variables"],
    }
}

fn user(v: &[Node], n: &Node) -> Option<usize> { v.iter().position(|x| x == n) }

/// The components of one constraint against it. Returns (feasible points, infeasible points, slacks).
fn one(k: &Con, c: &Constraint, s: &ConstraintStdComp, v: &[Node], ar: (usize, usize), jr: (usize, usize), pts: &[[f64; 3]]) -> Result<(u64, u64, Vec<Node>), Fail> {
    ck!(s.ca.len() == s.b.len() && ar.1 - ar.0 == s.b.len(), "{} linear rows, {} constraints for them, counter from {} to {}", s.b.len(), s.ca.len(), ar.0, ar.1);
    ck!(s.cj.len() == s.f.len() && s.h.len() == s.f.len() && jr.1 - jr.0 == s.f.len(), "{} functions, {} constraints for them, {} Hessians, counter from {} to {}", s.f.len(), s.cj.len(), s.h.len(), jr.0, jr.1);
    ck!(s.ca.iter().chain(s.cj.iter()).chain(s.u.iter().map(|e| &e.2)).chain(s.l.iter().map(|e| &e.2)).all(|x| x == c), "components belong to another constraint");
    ck!(s.a.iter().all(|e| e.0 >= ar.0 && e.0 < ar.1), "linear entries outside rows {} to {}", ar.0, ar.1);
    ck!(s.j.iter().all(|e| e.0 >= jr.0 && e.0 < jr.1), "Jacobian entries outside rows {} to {}", jr.0, jr.1);
    ck!(s.prop.len() == 1, "{} properties", s.prop.len());
    ck!(s.b.len() + s.f.len() + s.u.len() + s.l.len() > 0, "no components at all");
    // the slack variables
    let mut sl: Vec<Node> = Vec::new();
    let all = s.a.iter().map(|e| &e.1).chain(s.j.iter().map(|e| &e.1)).chain(s.u.iter().map(|e| &e.0)).chain(s.l.iter().map(|e| &e.0)).chain(s.prop[0].a.keys());
    for n in all {
        match n { Node::VariableScalar(x) => if user(v, n).is_none() && !sl.contains(n) { ck!(x.is_continuous(), "an integer slack variable"); sl.push(n.clone()); }, _ => return Err("an entry is not for a variable".into()) }
    }
    for h in &s.h { for (a, b, _) in h { ck!(user(v, a).is_some() && user(v, b).is_some(), "a Hessian entry for a variable that is not in the constraint"); } }
    let (uses, lin) = k.syntax();
    for (i, x) in v.iter().enumerate() {
        let there = s.prop[0].a.contains_key(x);
        ck!(uses & (1 << i) != 0 || !there, "variable {} is said to be in {}", i, k.text);
    }
    ck!(!lin || s.prop[0].affine, "a linear constraint is said not to be affine");
    let lim = |n: &Node| -> (f64, f64) { (s.l.iter().filter(|e| e.0 == *n).map(|e| e.1).fold(f64::NEG_INFINITY, f64::max), s.u.iter().filter(|e| e.0 == *n).map(|e| e.1).fold(f64::INFINITY, f64::min)) };
    let (mut yes, mut no) = (0, 0);
    for p in pts {
        let d = k.diff(p);
        let (viol, m) = match k.viol(p) { Some(x) => x, None => continue };
        let mut vals: HashMap<&Node, f64> = v.iter().zip(p.iter().cloned()).collect();
        for q in &sl { vals.insert(q, 0.); }
        let mut t = Tri::Yes;
        for (i, x) in v.iter().enumerate() { let (l, u) = lim(x); t = both(t, tri((l - p[i]).max(p[i] - u).max(0.), 1. + p[i].abs() + m)); }
        let row = |r0: f64, sc: f64, co: Vec<(f64, &Node)>| -> Tri {
            let (mut lo, mut hi) = (r0, r0);
            for (a, n) in co { if a == 0. { continue; } let (l, u) = lim(n); let (x, y) = (a * l, a * u); lo += x.min(y); hi += x.max(y); }
            tri(lo.max(-hi).max(0.), 1. + sc + m)
        };
        for (r, b) in s.b.iter().enumerate() {
            let (mut r0, mut sc) = (-b, b.abs());
            let mut co: HashMap<&Node, f64> = HashMap::new();
            for e in s.a.iter().filter(|e| e.0 == ar.0 + r) { match user(v, &e.1) { Some(i) => { r0 += e.2 * p[i]; sc += (e.2 * p[i]).abs(); } None => *co.entry(&e.1).or_insert(0.) += e.2 } }
            t = both(t, row(r0, sc, co.into_iter().map(|(n, a)| (a, n)).collect()));
        }
        for (r, f) in s.f.iter().enumerate() {
            let r0 = f.evaluate(&vals);
            let mut co = Vec::new();
            for q in &sl {
                vals.insert(q, 1.);
                let a = f.evaluate(&vals) - r0;
                vals.insert(q, 0.);
                let e: f64 = s.j.iter().filter(|e| e.0 == jr.0 + r && e.1 == *q).map(|e| e.2.evaluate(&vals)).sum();
                ck!((a - e).abs() <= 1e-6 * (1. + r0.abs() + m), "the Jacobian entry of a slack variable is {} but the function changes by {}", e, a);
                co.push((e, q));
            }
            t = both(t, row(r0, 0., co));
            // derivatives
            for (i, x) in v.iter().enumerate() {
                let g: f64 = s.j.iter().filter(|e| e.0 == jr.0 + r && e.1 == *x).map(|e| e.2.evaluate(&vals)).sum();
                ck!((g - d.g[i]).abs() <= 1e-8 * (1e-6 + d.mg[i]) || d.mg[i] > 1e12, "the Jacobian entry of {} at {:?} is {:e} instead of {:e}", NAMES[i], p, g, d.g[i]);
                for (l, y) in v.iter().enumerate().take(i + 1) {
                    let es: Vec<&(Node, Node, Node)> = s.h[r].iter().filter(|e| (e.0 == *x && e.1 == *y) || (e.0 == *y && e.1 == *x)).collect();
                    ck!(es.len() <= 1, "{} Hessian entries for {} and {}", es.len(), NAMES[i], NAMES[l]);
                    let h: f64 = es.iter().map(|e| e.2.evaluate(&vals)).sum();
                    let (w, mw) = (d.h[hix(i, l)], d.mh[hix(i, l)]);
                    ck!((h - w).abs() <= 1e-8 * (1e-6 + mw) || mw > 1e12, "the Hessian entry of {} and {} at {:?} is {:e} instead of {:e}", NAMES[i], NAMES[l], p, h, w);
                }
            }
        }
        // the affine form of the properties is that of the function
        if s.prop[0].affine {
            let q = &s.prop[0];
            let (mut a, mut sc) = (q.b, q.b.abs());
            for (i, x) in v.iter().enumerate() { if let Some(y) = q.a.get(x) { a += y * p[i]; sc += (y * p[i]).abs(); } }
            ck!((a - d.v).abs() <= 1e-9 * (1. + sc + d.mv), "the affine form is {:e} at {:?} instead of {:e}", a, p, d.v);
            for n in &sl {
                let e: f64 = s.a.iter().filter(|e| e.1 == *n).map(|e| e.2).sum();
                let y = q.a.get(n).cloned().unwrap_or(f64::NAN);
                ck!(y == e, "the slack variable has the coefficient {} in the row but {} in the properties", e, y);
            }
        } else {
            for (i, x) in v.iter().enumerate() { ck!(d.g[i] == 0. || d.g[i].abs() < 1e-9 * d.mg[i] || s.prop[0].a.contains_key(x), "variable {} is not in the properties", NAMES[i]); }
        }
        for n in &sl { ck!(s.prop[0].a.contains_key(n), "a slack variable is not in the properties"); }
        let want = tri(viol, 1. + m);
        if want != Tri::Unclear && t != Tri::Unclear {
            ck!(t == want, "{:?} is {} by the components, {} by the constraint", p, if t == Tri::Yes { "feasible" } else { "infeasible" }, if want == Tri::Yes { "feasible" } else { "infeasible" });
            if want == Tri::Yes { yes += 1 } else { no += 1 }
        }
    }
    Ok((yes, no, sl))
}

fn single(c: &mut Ctx, k: &Con, start: (usize, usize), tag: &str, int: u32, pts: &[[f64; 3]]) {
    c.case(|| format!("{} from rows {:?}, tag {:?}, integer {}", k.text, start, tag, int), |c| {
        let v: Vec<Node> = (0..3).map(|i| VariableScalar::new(NAMES[i], if int >> i & 1 == 1 { VariableKind::VarInteger } else { VariableKind::VarContinuous })).collect();
        let con = k.build(&v, tag);
        let mut sls: Vec<Node> = Vec::new();
        for _ in 0..2 {
            let (mut a, mut j) = start;
            let s = con.std_components(&mut a, &mut j);
            let (yes, no, sl) = one(k, &con, &s, &v, (start.0, a), (start.1, j), pts)?;
            ck!(!sl.iter().any(|x| sls.contains(x)), "two requests share a slack variable");
            sls.extend(sl);
            c.step(yes + no);
            c.state(hash_u64s(&[hash_str(&k.text), yes, no]));
            if yes > 0 && no > 0 { c.nontrivial(); }
        }
        c.trace();
        Ok(())
    });
}

fn model(c: &mut Ctx, sp: &Spec, pts: &[[f64; 3]]) {
    c.case(|| sp.show(), |c| {
        let b = sp.build();
        let s = b.model.std_components();
        // objective
        for p in pts {
            let j = sp.fmin(p);
            if !j.ok { continue; }
            let m: HashMap<&Node, f64> = b.vars.iter().zip(p.iter().cloned()).collect();
            let f = s.obj.phi.evaluate(&m);
            ck!(close(f, j.v, j.mv), "objective at {:?} is {:e} instead of {:e}", p, f, j.v);
            for i in 0..3 {
                let g: f64 = s.obj.gphi.iter().filter(|e| e.0 == b.vars[i]).map(|e| e.1.evaluate(&m)).sum();
                ck!((g - j.g[i]).abs() <= 1e-8 * (1e-6 + j.mg[i]), "gradient entry of {} at {:?} is {:e} instead of {:e}", sp.names[i], p, g, j.g[i]);
            }
            c.step(1);
        }
        // constraints, in order
        let t = s.constr;
        let (mut ia, mut ij, mut iu, mut il, mut ea, mut ej) = (0, 0, 0, 0, 0, 0);
        ck!(t.prop.len() == sp.cons.len(), "{} properties for {} constraints", t.prop.len(), sp.cons.len());
        let mut props = t.prop.into_iter();
        let mut sls: Vec<Node> = Vec::new();
        let (mut some, mut none) = (false, false);
        for (k, con) in sp.cons.iter().zip(b.cons.iter()) {
            let mut q = ConstraintStdComp::new();
            let (a0, j0) = (ia, ij);
            while ia < t.ca.len() && t.ca[ia] == *con && ia == a0 { q.ca.push(t.ca[ia].clone()); q.b.push(*t.b.get(ia).ok_or("too few right-hand sides")?); ia += 1; }
            while ij < t.cj.len() && t.cj[ij] == *con && ij == j0 { q.cj.push(t.cj[ij].clone()); q.f.push(t.f.get(ij).ok_or("too few functions")?.clone()); q.h.push(t.h.get(ij).ok_or("too few Hessians")?.clone()); ij += 1; }
            while ea < t.a.len() && t.a[ea].0 < ia { q.a.push(t.a[ea].clone()); ea += 1; }
            while ej < t.j.len() && t.j[ej].0 < ij { q.j.push(t.j[ej].clone()); ej += 1; }
            // a constraint gives at most one limit of each kind
            if iu < t.u.len() && t.u[iu].2 == *con { q.u.push(t.u[iu].clone()); iu += 1; }
            if il < t.l.len() && t.l[il].2 == *con { q.l.push(t.l[il].clone()); il += 1; }
            q.prop.push(props.next().unwrap());
            let (yes, no, sl) = one(k, con, &q, &b.vars, (a0, ia), (j0, ij), &pts[..pts.len().min(40)])?;
            ck!(!sl.iter().any(|x| sls.contains(x)), "two constraints share a slack variable");
            sls.extend(sl);
            some |= yes > 0;
            none |= no > 0;
            c.step(yes + no);
        }
        ck!(ia == t.ca.len() && ia == t.b.len() && ij == t.cj.len() && ij == t.f.len() && ij == t.h.len() && ea == t.a.len() && ej == t.j.len() && iu == t.u.len() && il == t.l.len(), "components that belong to no constraint");
        c.state(hash_str(&sp.show()));
        if some && none { c.nontrivial(); }
        c.trace();
        Ok(())
    });
}

const SIDES: &[&str] = &["x", "y", "k", "2*x", "x + 1", "x + y", "x - y", "x*y", "x*x", "sin(x)", "x/y", "1/x", "x + x", "x - x", "0*x", "-x", "x*x - x*x", "cos(k)*y", "(x + y)/2", "x*(y + 1)", "3", "{3}", "{0}", "0", "-1.5", "{-1.5}", "x*{1}", "k/3", "sin({2})*x", "y*y*y", "x*y*k", "x/(1 + k*k)"];

fn run(c: &mut Ctx) {
    let g = grid(c.thorough());
    let n = &NAMES;
    let mut all = cons(LIN, n);
    all.extend(cons(NLIN, n));
    c.section("constraints of the pools, starting rows, tags, integer variables");
    for k in &all { for (si, start) in [(0, 0), (3, 5), (1, 0), (17, 100), (999, 1001), (65534, 70000), (70000, 65535), (1 << 20, 3 << 33), (1 << 40, 1 << 20)].iter().cloned().enumerate() { for (tag, int) in [("", 0), ("t", 7), ("", 2)] {
        if si > 3 && int == 7 { continue; }
        if c.done() { return; }
        single(c, k, start, tag, int, &g);
    } } }
    c.section("all pairs of sides");
    for l in SIDES { for r in SIDES { for rel in RELS {
        let k = con(&format!("{} | {}", l, r), rel, n);
        if k.l.plain().is_some() && k.r.plain().is_some() { continue; }
        if c.done() { return; }
        single(c, &k, (2, 7), "t", 0, &g);
    } } }
    c.section("sums of sides");
    let step = c.pick(3, 1);
    for (i, l) in SIDES.iter().enumerate() { for (j, m) in SIDES.iter().enumerate() { for (h, r) in SIDES.iter().enumerate() {
        let rel = RELS[(i + j + h) % 3];
        if (i + 2 * j + h) % step != 0 { continue; }
        let k = con(&format!("({}) - ({}) | {}", l, m, r), rel, n);
        if k.l.plain().is_some() && k.r.plain().is_some() { continue; }
        if c.done() { return; }
        single(c, &k, (0, 1), "", 0, &g[..g.len().min(90)]);
    } } }
    c.section("coefficients near one, near zero and large");
    for a in ODD { for t in [format!("{}*x | 2", a), format!("3 | x*{}", a), format!("x/{} | -1", a), format!("{}*x + y | 1", a), format!("x | {}", a), format!("{}*x + y*y | 1", a), format!("x | x*{}", a)] { for rel in RELS {
        let v: f64 = a.trim_start_matches('{').trim_end_matches('}').parse().unwrap();
        let mut pts = g.clone();
        for m in [2., -1., 3., v] { for d in [-0.3, -1e-5, 0., 1e-5, 0.3] { let x: f64 = m / v * (1. + d); if x.abs() < 5e7 { pts.push([x, 1. - m, (x + m).round()]); pts.push([v * (1. + d), x, x]); } } }
        single(c, &con(&t, rel, n), (0, 0), "", 0, &pts);
    } } }
    c.section("right-hand sides of every size");
    for e in (-307..=307).step_by(c.pick(7usize, 1)) { for m in [1., -1., 2.75, -9.99] { for rel in RELS {
        let a: f64 = format!("{}e{}", m, e).parse().unwrap();
        if !a.is_finite() { continue; }
        c.case(|| format!("right-hand side {:e}, {:?}", a, rel), |c| {
            let v: Vec<Node> = n.iter().map(|s| VariableScalar::new_continuous(s)).collect();
            let (x, y) = (&v[0], &v[1]);
            let near = |p: f64, q: f64| (p - q).abs() <= 1e-15 * 2. * q.abs();
            for (k, l) in [x.clone(), 2. * x, x + y, x * x, y - 3. * x, y * x.sin()].iter().enumerate() { for turned in [false, true] { for rows in [0usize, 4] {
                let q = match (rel, turned) {
                    (Rel::Eq, false) => l.equal(a), (Rel::Le, false) => l.leq(a), (Rel::Ge, false) => l.geq(a),
                    (Rel::Eq, true) => a.equal(l), (Rel::Le, true) => a.geq(l), (Rel::Ge, true) => a.leq(l) };
                let (mut ar, mut jr) = (rows, rows + 1);
                let s = ConstraintStd::std_components(&q, &mut ar, &mut jr);
                // what the row or limit compares with; a turned one may have its sides exchanged
                let lim = k == 0 && rel != Rel::Eq && !turned;
                if lim {
                    let w = if rel == Rel::Le { &s.u } else { &s.l };
                    ck!(w.len() == 1 && w[0].0 == *x && w[0].1 == a && s.b.is_empty() && s.f.is_empty(), "the limit of {} is {:?}", q, w.iter().map(|w| w.1).collect::<Vec<_>>());
                } else if k == 3 || k == 5 {
                    ck!(s.f.len() == 1 && jr == rows + 2 && ar == rows, "{} functions for {}", s.f.len(), q);
                    // a point where the left side is zero, slacks zero
                    let mut at: HashMap<&Node, f64> = HashMap::new();
                    for z in v.iter() { at.insert(z, 0.); }
                    for (z, _, _) in s.u.iter().chain(s.l.iter()) { at.insert(z, 0.); }
                    let g = s.f[0].evaluate(&at);
                    ck!(near(g.abs(), a.abs()), "the function of {} is {:e} at zero", q, g);
                } else {
                    ck!(s.b.len() == 1 && ar == rows + 1 && jr == rows + 1, "{} rows for {}", s.b.len(), q);
                    let c0 = s.a.iter().find(|t| t.1 == *x).map(|t| t.2);
                    let want = [1., 2., 1., 0., -3.][k];
                    let c0 = match c0 { Some(z) => z, None => return Err(format!("no coefficient in {}", q).into()) };
                    ck!(near(c0.abs(), f64::abs(want)) && near(s.b[0], a * c0 / want), "the row of {} has the coefficient {:e} and right side {:e}", q, c0, s.b[0]);
                    ck!(s.a.iter().all(|t| t.0 == rows), "another row of {}", q);
                }
                c.step(1);
            } } }
            c.nontrivial();
            c.trace();
            c.state(hash_f64s(&[a]) ^ rel as u64);
            Ok(())
        });
    } } }
    c.section("models");
    let objs: Vec<Option<Obj>> = OBJ.iter().map(|o| obj(o, n)).collect();
    let step = c.pick(7, 1);
    let mut t = 0usize;
    for a in &all { for b in &all { for o in &objs {
        t += 1;
        if t % step != 0 { continue; }
        if c.done() { return; }
        let mut cs = vec![a.clone(), b.clone()];
        if t % 5 == 0 { cs.push(a.clone()); }
        model(c, &Spec { names: n.to_vec(), int: vec![false, false, t % 2 == 0], obj: o.clone(), cons: cs }, &g[..30]);
    } } }
    c.section("models with many constraints");
    for len in 3..=c.pick(20, 60) { for s in 0..12 { for st in [1usize, 5, 7, 11, 13] {
        if c.done() { return; }
        let cs: Vec<Con> = (0..len).map(|i| all[(s * 17 + i * st * 3 + i % 3) % all.len()].clone()).collect();
        model(c, &Spec { names: n.to_vec(), int: vec![false; 3], obj: objs[s % objs.len()].clone(), cons: cs }, &g[..12]);
    } } }
    c.section("constraints over many variables");
    for n in SIZES.iter().cloned().filter(|n| *n > 1).chain([50, 65, 100]).chain(if c.thorough() { vec![130, 200, 300] } else { vec![] }) { for k in KINDS { for rel in RELS { for start in [(0, 0), (7, 300)] {
        let lin = k.starts_with("affine");
        if !lin && n > c.pick(40, 100) { continue; }
        c.case(|| format!("{} over {} variables, relation {:?}, from rows {:?}", k, n, rel, start), |c| {
            let s = wm::components(&wide_expr(k, n).0, n, rel, 0.625, start)?;
            c.step(s);
            c.nontrivial();
            c.trace();
            c.state(hash_u64s(&[n as u64, hash_str(k), s]));
            Ok(())
        });
    } } } }
}
