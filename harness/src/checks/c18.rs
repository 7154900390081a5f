//! C18: linear and mixed-integer models are solved correctly end to end.

use crate::expr::NV;
use crate::fw::*;
use crate::model::*;
use crate::{bad, ck};
use numopt::model::*;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd};
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C18", kind: Kind::ModelChecking, run, hang_s: 120, shards: 0,
        rule: "a case is one model solved by the installed cbc or clp; status, feasibility, integrality and objective are compared with an exhaustive search over all vertices (and all integer values), and for linear models the multipliers must satisfy the optimality conditions; non-trivial: the model has an optimum",
        assumptions: &["cbc and clp 1.17 as installed; tolerance 1e-5; multipliers are not compared for models with coefficients below 1e-6", "models of at most three variables by search; families whose optimum is found by trying all combinations; sums of models side by side; larger linear models by their optimality conditions",
            "models in which nothing but limits remains are left out for an empty objective (the solvers themselves crash on them)", "unbounded models other than the listed ones are C05's subject"],
    }
}

#[derive(Clone, Debug)]
pub struct Lin { pub a: Vec<f64>, pub rel: Rel, pub b: f64 } // a x rel b

pub fn affine(f: &dyn Fn(&[f64]) -> f64, n: usize) -> (Vec<f64>, f64) {
    let z = vec![0.; n];
    let b = f(&z);
    ((0..n).map(|i| { let mut e = z.clone(); e[i] = 1.; f(&e) - b }).collect(), b)
}

pub fn det3(m: &[[f64; 3]; 3]) -> f64 { m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]) }

fn holds(r: &Lin, x: &[f64]) -> bool {
    let v: f64 = r.a.iter().zip(x.iter()).map(|(a, b)| a * b).sum::<f64>() - r.b;
    let s = 1e-7 * (1. + r.b.abs() + r.a.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum::<f64>());
    match r.rel { Rel::Eq => v.abs() <= s, Rel::Le => v <= s, Rel::Ge => v >= -s }
}

/// Least value over all vertices of the rows within |x| <= m, with some variables fixed.
fn vertices(rows: &[Lin], c: &[f64], fixed: &[Option<f64>], m: f64) -> Option<f64> {
    let free: Vec<usize> = (0..3).filter(|i| fixed[*i].is_none()).collect();
    let mut all: Vec<([f64; 3], f64)> = Vec::new(); // planes
    for r in rows { if free.iter().any(|i| r.a[*i] != 0.) { let s = r.a.iter().fold(0f64, |q, v| q.max(v.abs())); all.push(([r.a[0] / s, r.a[1] / s, r.a[2] / s], r.b / s)); } }
    for i in &free { for s in [m, -m] { let mut e = [0.; 3]; e[*i] = 1.; all.push((e, s)); } }
    let fix: Vec<([f64; 3], f64)> = (0..3).filter(|i| fixed[*i].is_some()).map(|i| { let mut e = [0.; 3]; e[i] = 1.; (e, fixed[i].unwrap()) }).collect();
    let k = free.len();
    let mut best: Option<f64> = None;
    let mut ix: Vec<usize> = (0..k).collect();
    if k > all.len() { return None; }
    loop {
        let mut p: Vec<([f64; 3], f64)> = fix.clone();
        p.extend(ix.iter().map(|i| all[*i]));
        let a = [p[0].0, p[1].0, p[2].0];
        let d = det3(&a);
        if d.abs() > 1e-9 {
            let mut x = [0.; 3];
            for j in 0..3 { let mut q = a; for i in 0..3 { q[i][j] = p[i].1; } x[j] = det3(&q) / d; }
            if x.iter().all(|v| v.abs() <= m * 1.000001) && rows.iter().all(|r| holds(r, &x)) {
                let v = c[0] * x[0] + c[1] * x[1] + c[2] * x[2];
                if best.map(|b| v < b).unwrap_or(true) { best = Some(v); }
            }
        }
        let mut i = k;
        loop {
            if i == 0 { return best; }
            i -= 1;
            if ix[i] < all.len() - k + i { ix[i] += 1; for j in i + 1..k { ix[j] = ix[j - 1] + 1; } break; }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ref { Infeasible, Unbounded, Optimum(f64) }

const B: i32 = 9;

/// The optimum by exhaustive search; integer variables are tried from -B to B, which the rows must imply.
pub fn reference(rows: &[Lin], c: &[f64], int: &[bool], used: u32) -> Ref {
    let mut best = [None, None];
    // beyond what any row reaches
    let far = rows.iter().filter(|r| r.a.iter().any(|v| *v != 0.)).map(|r| r.b.abs() / r.a.iter().fold(0f64, |q, v| q.max(v.abs()))).fold(1e3, f64::max) * 10.;
    for (q, m) in [(0, far), (1, 2. * far)] {
        let dom = |i: usize| -> Vec<Option<f64>> { if used & (1 << i) == 0 { vec![Some(0.)] } else if int[i] { (-B..=B).map(|v| Some(v as f64)).collect() } else { vec![None] } };
        for x in dom(0) { for y in dom(1) { for z in dom(2) {
            let v = if x.is_some() && y.is_some() && z.is_some() {
                let p = [x.unwrap(), y.unwrap(), z.unwrap()];
                if rows.iter().all(|r| holds(r, &p)) { Some(c[0] * p[0] + c[1] * p[1] + c[2] * p[2]) } else { None }
            } else { vertices(rows, c, &[x, y, z], m) };
            if let Some(v) = v { if best[q].map(|b: f64| v < b).unwrap_or(true) { best[q] = Some(v); } }
        } } }
    }
    match (best[0], best[1]) {
        (Some(a), Some(b)) => if (a - b).abs() <= 1e-6 * (1. + a.abs()) { Ref::Optimum(a) } else { Ref::Unbounded },
        (None, None) => Ref::Infeasible,
        _ => Ref::Unbounded,
    }
}

fn run_solver(m: &mut Model, clp: bool) -> Result<(), String> {
    let r = if clp {
        let mut s = SolverClpCmd::new();
        let _ = s.set_param("logLevel", SolverParam::IntParam(0));
        m.solve(&s)
    } else {
        let mut s = SolverCbcCmd::new();
        let _ = s.set_param("logLevel", SolverParam::IntParam(0));
        m.solve(&s)
    };
    r.map_err(|e| e.to_string())
}

const TOL: f64 = 1e-5;

/// First-order conditions with the reported multipliers, by the library's sign convention:
/// grad f - sum(eq, >=) d grad(lhs-rhs) + sum(<=) d grad(lhs-rhs) = 0, d >= 0 for inequalities, and d (lhs-rhs) = 0.
pub fn kkt(sp: &Spec, b: &Built, x: &[f64; NV], tol: f64) -> Res { kkt_of(sp, &b.cons, &b.model.final_duals(), x, tol) }

pub fn kkt_of(sp: &Spec, cons: &[Constraint], duals: &HashMap<&Constraint, f64>, x: &[f64; NV], tol: f64) -> Res {
    let f = sp.fmin(x);
    let mut g: Vec<f64> = f.g[..3].to_vec();
    // what a multiplier's own inexactness of 1e-6 does is part of the tolerance
    let mut mag: Vec<f64> = g.iter().map(|v| v.abs()).collect();
    for (i, c) in sp.cons.iter().enumerate() {
        let d = duals.get(&cons[i]).cloned().unwrap_or(0.);
        let j = c.diff(x);
        ck!(d.is_finite(), "multiplier of {} is {}", c.text, d);
        let s = match c.rel { Rel::Le => 1., _ => -1. };
        if c.rel != Rel::Eq {
            ck!(d >= -tol, "multiplier of {} is {}", c.text, d);
            let m = c.viol(x).map(|v| v.1).unwrap_or(0.);
            ck!((d * j.v).abs() <= 20. * tol * (1. + d.abs()) * (1. + m), "multiplier of {} is {} although the sides differ by {} at {:?}", c.text, d, j.v, x);
        }
        for k in 0..3 { g[k] += s * d * j.g[k]; mag[k] += (d * j.g[k]).abs() + if c.rel != Rel::Eq { 1e-6 / tol * j.g[k].abs() } else { 0. }; }
    }
    // solvers scale their own tolerance with the multipliers
    let total: f64 = cons.iter().map(|c| duals.get(c).cloned().unwrap_or(0.).abs()).sum();
    for k in 0..3 { mag[k] += 1e-8 / tol * total; }
    for k in 0..3 { ck!(g[k].abs() <= tol * (1. + mag[k]), "the gradient condition of {} is off by {} at {:?} with multipliers {:?}", sp.names[k], g[k], x, cons.iter().map(|c| duals.get(c).cloned()).collect::<Vec<_>>()); }
    Ok(())
}

/// Does the solver itself go wrong?  The standard problem must have the model's optimum (rows with
/// their slacks read as inequalities), and the solver must give the same wrong status for a file of
/// it that is written here.
fn solvers_fault(c: &Ctx, sp: &Spec, b: &Built, want: Ref, clp: bool, st: &str) -> bool {
    let mut sd = match b.model.std_problem_checked() { Ok(s) => s, Err(_) => return false };
    let p = match std_of(&mut sd.prob) { Ok(p) => p, Err(_) => return false };
    let lay = match layout(&sd, &b.vars, p.n) { Ok(l) => l, Err(_) => return false };
    let cost = match &p.c { Some(c) => c.clone(), None => vec![0.; p.n] };
    let mut rows = Vec::new();
    let mut lost = vec![false; p.n];
    for (i, r) in p.a.iter().enumerate() {
        let a: Vec<f64> = (0..3).map(|k| lay.pos[k].map(|j| r[j]).unwrap_or(0.)).collect();
        let sl: Vec<usize> = (0..p.n).filter(|j| lay.user[*j].is_none() && r[*j] != 0.).collect();
        match sl.len() {
            0 => rows.push(Lin { a, rel: Rel::Eq, b: p.b[i] }),
            1 => { // a x + q s = b, l <= s <= u
                let (j, q) = (sl[0], r[sl[0]]);
                if lost[j] || cost[j] != 0. || p.p[j] { return false; }
                lost[j] = true;
                let (e, f) = (p.b[i] - q * p.l[j], p.b[i] - q * p.u[j]);
                rows.push(Lin { a: a.clone(), rel: Rel::Le, b: e.max(f) });
                rows.push(Lin { a, rel: Rel::Ge, b: e.min(f) });
            }
            _ => return false,
        }
    }
    let mut cu = vec![0.; 3];
    let mut int = vec![false; 3];
    for k in 0..3 { if let Some(j) = lay.pos[k] {
        let mut a = vec![0.; 3]; a[k] = 1.;
        if p.u[j] < 1e8 { rows.push(Lin { a: a.clone(), rel: Rel::Le, b: p.u[j] }); }
        if p.l[j] > -1e8 { rows.push(Lin { a, rel: Rel::Ge, b: p.l[j] }); }
        cu[k] = cost[j];
        int[k] = p.p[j];
    } }
    let used = (0..3).filter(|k| lay.pos[*k].is_some()).fold(0, |a, k| a | 1 << k);
    let got = reference(&rows, &cu, &int, used);
    let same = match (got, want) { (Ref::Optimum(a), Ref::Optimum(b)) => (a - b).abs() < 1e-6 * (1. + b.abs()), (a, b) => a == b };
    if !same || int != sp.int.iter().enumerate().map(|(k, b)| *b && lay.pos[k].is_some()).collect::<Vec<_>>() { return false; }
    // the same file by another hand
    let mut o = String::from("Minimize\n obj:");
    for j in 0..p.n { if cost[j] != 0. { o.push_str(&format!(" {} {:e} v{}", if cost[j] < 0. { "-" } else { "+" }, cost[j].abs(), j)); } }
    o.push_str("\nSubject To\n");
    for (i, r) in p.a.iter().enumerate() {
        o.push_str(&format!(" r{}:", i));
        for j in 0..p.n { if r[j] != 0. { o.push_str(&format!(" {} {:e} v{}", if r[j] < 0. { "-" } else { "+" }, r[j].abs(), j)); } }
        o.push_str(&format!(" = {:e}\n", p.b[i]));
    }
    o.push_str("Bounds\n");
    for j in 0..p.n { o.push_str(&format!(" {:e} <= v{} <= {:e}\n", p.l[j], j, p.u[j])); }
    if p.p.iter().any(|b| *b) { o.push_str("General\n"); for j in 0..p.n { if p.p[j] { o.push_str(&format!(" v{}\n", j)); } } }
    o.push_str("End\n");
    let dir = c.scratch.join("own");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join("p.lp"), o);
    let _ = std::fs::remove_file(dir.join("p.sol"));
    let ran = std::process::Command::new(if clp { "clp" } else { "cbc" }).current_dir(&dir).args(["p.lp", "solve", "solution", "p.sol"])
        .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    if ran.is_err() { return false; }
    let t = std::fs::read_to_string(dir.join("p.sol")).unwrap_or_default().to_lowercase();
    let says = if t.starts_with("optimal") { "Solved" } else if t.contains("infeasible - obj") || t.starts_with("infeasible") { "Infeasible" } else { "Error" };
    says == st
}

/// `tol`: of the objective, relative to the sum of the magnitudes of its terms.
fn one(c: &mut Ctx, sp: &Spec, clp: bool, key: Option<String>, tol: f64) -> Res {
    let mut b = sp.build();
    let rows: Vec<Lin> = sp.cons.iter().map(|k| { let (a, b) = affine(&|x| k.l.eval(x) - k.r.eval(x), 3); Lin { a, rel: k.rel, b: -b } }).collect();
    let (cost, c0) = affine(&|x| match &sp.obj { None => 0., Some(o) => if o.max { -o.f.eval(x) } else { o.f.eval(x) } }, 3);
    let used = sp.used();
    let want = reference(&rows, &cost, &sp.int, used);
    if want == Ref::Unbounded && key.is_none() { c.note("unbounded models left out", 1); return Ok(()); }
    let fail = |m: String| Fail { key: key.clone(), msg: m };
    if let Err(e) = run_solver(&mut b.model, clp) { return Err(fail(format!("solving fails: {}", e))); }
    c.step(1);
    let st = match b.model.solver_status() { Some(s) => format!("{:?}", s), None => bad!("no status") };
    c.state(hash_str(&format!("{} {:?}", st, want)));
    c.note(&format!("{} {}", if clp { "clp" } else { "cbc" }, st), 1);
    let agrees = match want { Ref::Infeasible => st == "Infeasible", Ref::Unbounded => true, Ref::Optimum(_) => st == "Solved" };
    if !agrees && key.is_none() && solvers_fault(c, sp, &b, want, clp, &st) { c.note("the solver itself gives a wrong status", 1); return Ok(()); }
    match want {
        Ref::Infeasible => if st != "Infeasible" { return Err(fail(format!("reported {} although no point is feasible", st))); },
        Ref::Unbounded => if st == "Solved" || st == "Infeasible" { return Err(fail(format!("reported {} although the model is unbounded", st))); },
        Ref::Optimum(v) => {
            c.nontrivial();
            if st != "Solved" { return Err(fail(format!("reported {} although the optimum is {}", st, v + c0))); }
            let fp = b.model.final_primals();
            let mut x = [0.; 3];
            for i in 0..3 { if used & (1 << i) != 0 { match fp.get(&b.vars[i]) { Some(v) => x[i] = *v, None => if cost[i] != 0. || rows.iter().any(|r| r.a[i] != 0.) { bad!("no value for {}", sp.names[i]) } } } }
            for k in &sp.cons { if let Some((v, m)) = k.viol(&x) { ck!(v <= TOL * (1. + m), "{} is violated by {} at {:?}", k.text, v, x); } }
            for i in 0..3 { if sp.int[i] { ck!((x[i] - x[i].round()).abs() <= TOL, "{} is {}", sp.names[i], x[i]); } }
            let got: f64 = cost.iter().zip(x.iter()).map(|(a, b)| a * b).sum();
            // the solution files have eight digits
            let mag: f64 = cost.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum();
            ck!((got - v).abs() <= TOL + tol * (v.abs() + mag), "objective (minimized) {} at {:?}, the optimum is {}", got + c0, x, v + c0);
            // clp ignores coefficients below 1e-6 when it computes multipliers
            let tiny = rows.iter().any(|r| r.a.iter().any(|v| *v != 0. && v.abs() < 1e-6));
            if !sp.int.iter().any(|b| *b) && !tiny { kkt(sp, &b, &x, TOL)?; }
        }
    }
    c.trace();
    Ok(())
}

pub const OBJS: &[&str] = &["min x + 2*y", "max x + 2*y", "min y - x - k", "max 3*x - 2*y + k + 7", "", "max y - 2*k - 4 + x - y", "min -0.5*k - 1", "min 0*x", "max (x + y)*2 - k/4", "min x - x"];
pub const POOL: &[(&str, Rel)] = &[("x + y | 4", Rel::Le), ("x + y | 1", Rel::Ge), ("x + y | 2.5", Rel::Eq), ("2*x - y | 1", Rel::Le), ("2*x - y + k | -1", Rel::Ge), ("3*x + 2*y - k | 6", Rel::Eq), ("x - 2*y + 3*k | 7.5", Rel::Le), ("x | y", Rel::Ge), ("x | 1.5", Rel::Eq),
    ("-x | 2", Rel::Le), ("2*k | 5", Rel::Le), ("k | 2.5", Rel::Le), ("4*k | 2*x + 9", Rel::Ge), ("x | 3", Rel::Le), ("1 | y", Rel::Le), ("y + 1 | y + y", Rel::Ge), ("x + x | 3", Rel::Ge), ("x + y + k | 11", Rel::Ge), ("k - y | 0.5", Rel::Eq), ("x | -1", Rel::Ge), ("x | 3", Rel::Le), ("0.5*x + 0.25*y | 1", Rel::Le)];
pub const BOX: &[(&str, Rel)] = &[("x | -3", Rel::Ge), ("x | 4", Rel::Le), ("y | -2", Rel::Ge), ("y | 5", Rel::Le), ("k | -4", Rel::Ge), ("k | 6", Rel::Le)];
pub const NM: [&str; 3] = ["x", "y", "k"];

pub fn subsets(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if k == 0 { return; }
        for i in from..n { cur.push(i); go(n, k - 1, i + 1, cur, f); cur.pop(); }
    }
    go(n, k, 0, &mut Vec::new(), f);
}

fn run(c: &mut Ctx) {
    let cwd = c.scratch.join("cwd");
    std::fs::create_dir_all(&cwd).expect("dir");
    std::env::set_current_dir(&cwd).expect("cwd");
    let mk = |o: &str, cs: &[(&str, Rel)], int: u8| Spec { names: NM.to_vec(), int: (0..3).map(|i| int & (1 << i) != 0).collect(), obj: obj(o, &NM), cons: cs.iter().map(|k| con(k.0, k.1, &NM)).collect() };
    let gt = |c: &mut Ctx, o: &str, cs: &[(&str, Rel)], int: u8, tol: f64| {
        for clp in [false, true] {
            if clp && int != 0 { continue; }
            if c.mine() {
                let sp = mk(o, cs, int);
                // integrality must be possible to decide: integer variables that matter have limits
                let cost0 = affine(&|x| sp.obj.as_ref().map(|o| o.f.eval(x)).unwrap_or(0.), 3).0.iter().all(|v| *v == 0.);
                let norow = sp.cons.iter().all(|k| { let a = affine(&|x| k.l.eval(x) - k.r.eval(x), 3).0; let nz = a.iter().filter(|v| **v != 0.).count(); k.rel != Rel::Eq && nz == 1 && a.iter().any(|v| *v == 1.) });
                if cost0 && norow { c.case(|| String::new(), |c| { c.note("models without rows and objective left out", 1); Ok(()) }); continue; }
                c.case(|| format!("{} by {}", sp.show(), if clp { "clp" } else { "cbc" }), |c| one(c, &sp, clp, None, tol));
            } else { c.case(|| String::new(), |_| Ok(())); }
        }
    };
    let go = |c: &mut Ctx, o: &str, cs: &[(&str, Rel)], int: u8| gt(c, o, cs, int, TOL);
    c.section("models within limits on all variables");
    let depth = c.pick(2, 3);
    let nobj = OBJS.len();
    subsets(POOL.len(), depth, &mut |s| {
        if c.done() { return; }
        let mut cs: Vec<(&str, Rel)> = BOX.to_vec();
        cs.extend(s.iter().map(|i| POOL[*i]));
        let h = s.iter().sum::<usize>();
        for (k, o) in OBJS.iter().enumerate() {
            for int in [0u8, 4, 5, 7] {
                // deeper combinations: some objectives for each, all of them in turn
                if s.len() == 3 && (k + h) % nobj > 2 { continue; }
                if s.len() == 2 && !c.thorough() && (k + h + int as usize) % 3 != 0 { continue; }
                go(c, o, &cs, int);
            }
        }
    });
    c.section("limits after the rows, and partly");
    subsets(POOL.len(), 1, &mut |s| {
        for miss in 0..6usize {
            let mut cs: Vec<(&str, Rel)> = s.iter().map(|i| POOL[*i]).collect();
            cs.extend(BOX.iter().enumerate().filter(|x| x.0 != miss).map(|x| *x.1));
            for o in OBJS { go(c, o, &cs, if miss < 4 { 4 } else { 3 }); go(c, o, &cs, 0); }
        }
    });
    c.section("linear models without limits");
    subsets(POOL.len(), c.pick(2, 3), &mut |s| {
        if c.done() { return; }
        let cs: Vec<(&str, Rel)> = s.iter().map(|i| POOL[*i]).collect();
        for (k, o) in OBJS.iter().enumerate() {
            if s.len() == 3 && (k + s[0] + s[2]) % 3 != 0 { continue; }
            go(c, o, &cs, 0);
        }
    });
    c.section("every pair of limits on one variable");
    let ks: &[f64] = &[-2., 0., 1., 1.5, 3.];
    for (o, fl) in [("min x", 0), ("max x", 0), ("min x + y", 1), ("max x - y", 1)] { for int in [0u8, 1] { for a in ks { for b in ks { for r1 in RELS { for r2 in RELS {
        let (t1, t2) = (format!("x | {}", a), format!("x | {}", b));
        let mut cs: Vec<(&str, Rel)> = vec![(&t1, r1), (&t2, r2), ("y | 5", Rel::Le), ("y | -5", Rel::Ge), ("x | 8", Rel::Le), ("x | -8", Rel::Ge)];
        if fl == 0 { cs.retain(|c| !c.0.starts_with('y')); }
        go(c, o, &cs, int);
    } } } } } }
    c.section("coefficients near one, near zero and large");
    for (a, top) in [("1.025", 5e3), ("0.98", 1e3), ("0.999", 2e3), ("1.0001", 1e4), ("-1.01", 1e3), ("0.05", 1e3), ("1e-3", 1e5), ("-1e-4", 1e6), ("2e-6", 1e7), ("5e-7", 2e7), ("40", 1e2), ("1e3", 1e2), ("-1e4", 10.)] {
        let (lo, hi, neg) = (format!("x | -{}", top), format!("x | {}", top), a.starts_with('-'));
        let v: f64 = a.parse().unwrap();
        let rhs = v.abs() * top / 4.;
        for t in [format!("{{{}}}*x | {}", a, rhs), format!("{} | x*{{{}}}", rhs, a), format!("{{{}}}*x + y | {}", a, rhs), format!("y + {{{}}}*x + k | {}", a, -rhs), format!("y - {{{}}}*x | {} + k", a, rhs / 2.)] {
            for r in RELS { for (oi, o) in ["min x + 2*y", "max x - y + k", "max y - k", "min y - 2*k"].iter().enumerate() { for int in [0u8, 4, 6] {
                if int == 6 && oi % 2 == 1 { continue; }
                let mut cs: Vec<(&str, Rel)> = vec![(&lo, Rel::Ge), (&hi, Rel::Le), ("y | -2", Rel::Ge), ("y | 5", Rel::Le), ("k | -4", Rel::Ge), ("k | 6", Rel::Le)];
                if neg { cs.push((&t, r)) } else { cs.insert(0, (&t, r)) }
                go(c, o, &cs, int);
            } } }
        }
        // the coefficient in the objective
        for s in ["min", "max"] { for t in ["x + y | 1", "x - 2*y + k | 3"] { for r in RELS { for int in [0u8, 2] {
            let o = format!("{} {{{}}}*x + y - k", s, a);
            let mut cs: Vec<(&str, Rel)> = BOX.to_vec();
            cs.push((t, r));
            go(c, &o, &cs, int);
        } } } }
    }
    c.section("objective coefficients of very different size");
    for (a, b) in [("1e6", "0.01"), ("1e7", "0.05"), ("1e8", "0.5"), ("-1e6", "0.002"), ("1e5", "-0.001"), ("1e9", "1"), ("1e10", "-2")] { for k in ["0", "1", "-30"] { for s in ["min", "max"] { for (cs, int) in [(vec![], 0u8), (vec![("x + y | 1", Rel::Ge)], 0), (vec![("k + y | 2", Rel::Le)], 4), (vec![("x + k | 3", Rel::Eq)], 7), (vec![("x - 2*y | 0.5", Rel::Le), ("y + k | 1", Rel::Ge)], 0)] { for sw in [false, true] {
        let o = if sw { format!("{} {{{}}}*y + {}*k + {{{}}}*x", s, a, k, b) } else { format!("{} {{{}}}*x + {{{}}}*y + {}*k", s, a, b, k) };
        let mut q: Vec<(&str, Rel)> = BOX.to_vec();
        q.extend(cs.iter());
        // the optimal values have few digits: the files state them exactly
        gt(c, &o, &q, int, 1e-13);
    } } } } }
    c.section("optima far from zero without limits");
    for (vi, v) in [1e3, 2e4, 123456., 1e6, 5e6, 9999999., 1e7, 12345678., 3e7, 6e7, 9e7].into_iter().enumerate() { for sg in [1., -1.] { for kind in 0..c.pick(12usize, 16) { for int in [0u8, 1, 4] {
        let w = sg * v;
        let (lo, hi) = if kind % 2 == 0 { (Rel::Ge, "min") } else { (Rel::Le, "max") };
        let eq = |t: String, r: Rel| -> Vec<(String, Rel)> { vec![(t, r)] };
        let (o, mut cs): (String, Vec<(String, Rel)>) = match kind / 2 {
            0 => (format!("{} x", hi), eq(format!("2*x | {}", 2. * w), lo)),
            1 => (format!("{} x + y", hi), vec![(format!("x + y | {}", w), lo), (format!("x - y | {}", 0), Rel::Eq)]),
            2 => (format!("{} 3*x + k", hi), vec![(format!("4*x | {}", w), lo), ("k - x | 3".into(), Rel::Eq)]),
            3 => (format!("{} x - y", hi), vec![(format!("x | {} + y", w), lo), ("y + k | 2".into(), Rel::Eq), ("k - 3*y | 10".into(), Rel::Eq)]),
            4 => (format!("{} y", hi), vec![(format!("y | {}", w), lo)]),
            5 => (format!("{} k - 7", hi), vec![(format!("k - x | {}", w), lo), ("2*x | 3".into(), lo)]),
            6 => (format!("{} x + y + k", hi), vec![(format!("x + y | {}", w / 2.), lo), (format!("y + k | {}", w / 4.), lo), (format!("x + k | {}", -w / 4.), lo)]),
            _ => (format!("{} 2*k", hi), vec![(format!("4*k - x | {}", w), lo), ("x | 5".into(), lo)]),
        };
        if int != 0 { if (vi + kind) % 2 == 0 { cs.reverse(); } }
        // integer variables are tried out within a small range only: continuous ones here
        let q: Vec<(&str, Rel)> = cs.iter().map(|k| (k.0.as_str(), k.1)).collect();
        if int == 0 { go(c, &o, &q, 0); }
        else if c.mine() { let sp = mk(&o, &q, int); c.case(|| format!("{} by cbc", sp.show()), |c| far(c, &sp)); }
        else { c.case(|| String::new(), |_| Ok(())); }
    } } } }
    c.section("unbounded models");
    for (o, cs) in [("min x", vec![("x | 3", Rel::Le)]), ("max x + y", vec![("x - y | 1", Rel::Eq)]), ("max x + 2*y", vec![("x + y | 1", Rel::Ge), ("x | 0", Rel::Ge)])] { for clp in [false, true] {
        let sp = mk(o, &cs, 0);
        let who = if clp { "clp" } else { "cbc" };
        c.case(|| format!("{} by {}", sp.show(), who), |c| one(c, &sp, clp, Some(format!("unbounded:{}@{}", sp.show().replace(' ', "_"), who)), TOL));
    } }
    families(c);
    c.section("many models side by side in one");
    let pool: Vec<(Vec<usize>, usize)> = { let mut o = Vec::new(); subsets(POOL.len(), 2, &mut |s| if s.len() == 2 { o.push((s.to_vec(), s[0] * 3 + s[1])) }); o };
    for nb in [2usize, 3, 5, 8, 12, 20, 34] { for start in 0..c.pick(12usize, 60) { for order in 0..2usize { for clp in [false, true] {
        if c.done() { return; }
        if !c.mine() { c.case(|| String::new(), |_| Ok(())); continue; }
        let mut sps: Vec<(Spec, Ref)> = Vec::new();
        let (mut k, mut bad_one) = (start * 19, false);
        while sps.len() < nb {
            let (s, h) = &pool[k % pool.len()];
            k += 7;
            let mut cs: Vec<(&str, Rel)> = if k % 2 == 0 { BOX.to_vec() } else { vec![] };
            cs.extend(s.iter().map(|i| POOL[*i]));
            if k % 2 == 1 { cs.extend(BOX.iter()); }
            let sp = mk(OBJS[(h + k) % OBJS.len()], &cs, if clp { 0 } else { [0u8, 4, 5, 7, 0][(k + start) % 5] });
            let rows: Vec<Lin> = sp.cons.iter().map(|k| { let (a, b) = affine(&|x| k.l.eval(x) - k.r.eval(x), 3); Lin { a, rel: k.rel, b: -b } }).collect();
            let cost = affine(&|x| match &sp.obj { None => 0., Some(o) => if o.max { -o.f.eval(x) } else { o.f.eval(x) } }, 3).0;
            let r = reference(&rows, &cost, &sp.int, sp.used());
            // one infeasible part makes all infeasible: in some models
            match r { Ref::Optimum(_) => sps.push((sp, r)), Ref::Infeasible if start % 6 == 5 && !bad_one && sps.len() >= nb / 2 => { bad_one = true; sps.push((sp, r)) } _ => () }
        }
        c.case(|| format!("by {}, order {}: {}", if clp { "clp" } else { "cbc" }, order, sps.iter().map(|s| s.0.show()).collect::<Vec<_>>().join(" || ")), |c| side_by_side(c, &sps, order, clp));
    } } } }
    c.section("models of many variables and constraints");
    for (n, m) in [(5usize, 3usize), (9, 8), (16, 10), (24, 30), (33, 20), (50, 60), (80, 40)] { for kind in 0..c.pick(6usize, 30) { for clp in [false, true] {
        if c.done() { return; }
        let mut w = crate::widemodel::wide_model(kind, n, m, true, 0);
        for i in 0..n { w.cons.push((T::V(i), Rel::Le, 50. + i as f64)); w.cons.insert(0, (T::V(i), Rel::Ge, -50. - i as f64)); }
        c.case(|| format!("{} kind {} by {}", w.show(), kind, if clp { "clp" } else { "cbc" }), |c| wide(c, &w, clp));
    } } }
}

/// An optimum far from zero with integer variables: integer and feasible, and less than one step from the optimum without integrality.
fn far(c: &mut Ctx, sp: &Spec) -> Res {
    let mut b = sp.build();
    let rows: Vec<Lin> = sp.cons.iter().map(|k| { let (a, b) = affine(&|x| k.l.eval(x) - k.r.eval(x), 3); Lin { a, rel: k.rel, b: -b } }).collect();
    let cost = affine(&|x| match &sp.obj { None => 0., Some(o) => if o.max { -o.f.eval(x) } else { o.f.eval(x) } }, 3).0;
    let want = match reference(&rows, &cost, &[false; 3], sp.used()) { Ref::Optimum(v) => v, r => { c.note(&format!("left out: {:?}", r).split('(').next().unwrap().to_string(), 1); return Ok(()) } };
    if let Err(e) = run_solver(&mut b.model, false) { bad!("solving fails: {}", e); }
    c.step(1); c.trace();
    let st = b.model.solver_status().map(|s| format!("{:?}", s));
    // equalities may exclude all integer points
    if sp.cons.iter().any(|k| k.rel == Rel::Eq) && st.as_deref() == Some("Infeasible") { c.note("no integer point", 1); return Ok(()); }
    ck!(st.as_deref() == Some("Solved"), "reported {:?} although the optimum without integrality is {}", st, want);
    let fp = b.model.final_primals();
    let mut x = [0.; 3];
    for i in 0..3 { if sp.used() & (1 << i) != 0 { match fp.get(&b.vars[i]) { Some(v) => x[i] = *v, None => bad!("no value for {}", sp.names[i]) } } }
    for k in &sp.cons { if let Some((v, m)) = k.viol(&x) { ck!(v <= 1e-7 * (1. + m), "{} is violated by {} at {:?}", k.text, v, x); } }
    for i in 0..3 { if sp.int[i] { ck!((x[i] - x[i].round()).abs() <= TOL, "{} is {}", sp.names[i], x[i]); } }
    let got: f64 = cost.iter().zip(x.iter()).map(|(a, b)| a * b).sum();
    let step: f64 = cost.iter().map(|v| 8. * v.abs()).sum();
    ck!(got >= want - 1e-6 * (1. + want.abs()) && got <= want + step + 1e-6 * (1. + want.abs()), "objective (minimized) {} at {:?}, the optimum without integrality is {}", got, x, want);
    c.nontrivial();
    c.state(hash_f64s(&[got]));
    Ok(())
}

/// Several models over own variables as one model, with a row over all variables that is never active.
pub struct Side { pub model: Model, pub vars: Vec<Vec<Node>>, pub cons: Vec<Vec<Constraint>>, pub link: Constraint }
pub fn side(sps: &[&Spec], order: usize) -> Side {
    let vars: Vec<Vec<Node>> = sps.iter().enumerate().map(|(b, sp)| sp.names.iter().zip(sp.int.iter()).map(|(n, i)| { let n = format!("{}{}", n, b); if *i { VariableScalar::new_integer(&n) } else { VariableScalar::new_continuous(&n) } }).collect()).collect();
    let cons: Vec<Vec<Constraint>> = sps.iter().zip(&vars).map(|(sp, v)| sp.cons.iter().map(|k| k.build(v, "")).collect()).collect();
    let mut f = ConstantScalar::new(0.);
    for (sp, v) in sps.iter().zip(&vars) { if let Some(o) = &sp.obj { let e = o.f.node(v); f = if o.max { f - e } else { f + e }; } }
    let mut model = Model::new();
    model.set_objective(Objective::minimize(&f));
    let all = vars.iter().flatten().fold(ConstantScalar::new(0.), |a, v| a + v);
    let link = all.leq(1e4);
    if order == 0 { for k in &cons { for q in k { model.add_constraint(q); } } model.add_constraint(&link); }
    else {
        model.add_constraint(&link);
        for i in 0..cons.iter().map(|k| k.len()).max().unwrap_or(0) { for k in cons.iter().rev() { if let Some(q) = k.get(i) { model.add_constraint(q); } } }
    }
    Side { model, vars, cons, link }
}

fn side_by_side(c: &mut Ctx, sps: &[(Spec, Ref)], order: usize, clp: bool) -> Res {
    let list: Vec<&Spec> = sps.iter().map(|s| &s.0).collect();
    let mut d = side(&list, order);
    if let Err(e) = run_solver(&mut d.model, clp) { bad!("solving fails: {}", e); }
    c.step(1);
    c.trace();
    let st = d.model.solver_status().map(|s| format!("{:?}", s));
    c.state(hash_str(&format!("{:?} {}", st, list.len())));
    let infeasible = sps.iter().any(|s| s.1 == Ref::Infeasible);
    let want = if infeasible { "Infeasible" } else { "Solved" };
    ck!(st.as_deref() == Some(want), "reported {:?} instead of {}", st, want);
    if infeasible { return Ok(()); }
    c.nontrivial();
    let (fp, du) = (d.model.final_primals(), d.model.final_duals());
    let ints = list.iter().any(|s| s.int.iter().any(|b| *b));
    if !ints { let l = du.get(&d.link).cloned().unwrap_or(0.); ck!(l.abs() <= TOL, "the inactive row has the multiplier {}", l); }
    for (b, (sp, want)) in sps.iter().enumerate() {
        let mut x = [0.; NV];
        for i in 0..3 { match fp.get(&d.vars[b][i]) { Some(v) => x[i] = *v, None => bad!("no value for {}{}", sp.names[i], b) } }
        for k in &sp.cons { if let Some((v, m)) = k.viol(&x) { ck!(v <= TOL * (1. + m), "part {}: {} is violated by {} at {:?}", b, k.text, v, x); } }
        for i in 0..3 { if sp.int[i] { ck!((x[i] - x[i].round()).abs() <= TOL, "part {}: {} is {}", b, sp.names[i], x[i]); } }
        let cost = affine(&|x| match &sp.obj { None => 0., Some(o) => if o.max { -o.f.eval(x) } else { o.f.eval(x) } }, 3).0;
        let got: f64 = cost.iter().zip(x.iter()).map(|(a, b)| a * b).sum();
        if let Ref::Optimum(v) = want { ck!((got - v).abs() <= TOL * (1. + v.abs() + 10. * list.len() as f64), "part {}: objective (minimized) {} at {:?}, the optimum is {}", b, got, x, v); }
        if !ints { kkt_of(sp, &d.cons[b], &du, &x, TOL)?; }
    }
    Ok(())
}

/// A linear model within limits, with a feasible point: solved, and optimal by its multipliers.
fn wide(c: &mut Ctx, w: &crate::widemodel::Wm, clp: bool) -> Res {
    let mut b = w.build();
    if let Err(e) = run_solver(&mut b.model, clp) { bad!("solving fails: {}", e); }
    c.step(1);
    ck!(b.model.solver_status() == Some(&SolverStatus::Solved), "status {:?}", b.model.solver_status());
    optimal(w, &b, TOL)?;
    c.nontrivial();
    c.trace();
    c.state(hash_str(&w.show()));
    Ok(())
}

/// Feasible, multipliers of the right sign, complementary, and the gradient of the Lagrangian vanishes.
pub fn optimal(w: &crate::widemodel::Wm, b: &crate::widemodel::Bm, tol: f64) -> Res {
    let (fp, du) = (b.model.final_primals(), b.model.final_duals());
    let mut x = Vec::new();
    for v in &b.vars { match fp.get(v) { Some(q) if q.is_finite() => x.push(*q), q => bad!("the value of {} is {:?}", v.name(), q) } }
    let d = crate::wide::dj(&w.obj, &x);
    let s = if w.max { -1. } else { 1. };
    let mut g: Vec<f64> = d.g.iter().map(|v| s * v).collect();
    let mut mag: Vec<f64> = g.iter().map(|v| v.abs()).collect();
    for (k, (t, rel, r)) in w.cons.iter().enumerate() {
        let y = du.get(&b.cons[k]).cloned().unwrap_or(0.);
        ck!(y.is_finite(), "multiplier {} of constraint {}", y, k);
        let j = crate::wide::dj(t, &x);
        let m = 1. + r.abs() + j.v.abs() + j.g.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum::<f64>();
        let v = match rel { Rel::Eq => (j.v - r).abs(), Rel::Le => j.v - r, Rel::Ge => r - j.v };
        ck!(v <= tol * m, "constraint {} is violated by {}", k, v);
        if *rel != Rel::Eq {
            ck!(y >= -tol, "multiplier of inequality {} is {}", k, y);
            ck!((y * v).abs() <= 20. * tol * (1. + y.abs()) * m, "multiplier of constraint {} is {} although the sides differ by {}", k, y, v);
        }
        let z = if *rel == Rel::Le { 1. } else { -1. };
        for i in 0..w.n { g[i] += z * y * j.g[i]; mag[i] += (y * j.g[i]).abs() + if *rel != Rel::Eq { 1e-6 / tol * j.g[i].abs() } else { 0. }; }
    }
    for i in 0..w.n { ck!(g[i].abs() <= tol * (1. + mag[i]), "the gradient condition of {} is off by {}", w.names[i], g[i]); }
    Ok(())
}

/// Families with more variables, the optimum found by trying all combinations.
fn families(c: &mut Ctx) {
    c.section("knapsack, assignment, transport");
    let top = c.pick(11usize, 13);
    for n in 1..=top { for var in 0..c.pick(4u32, 12) {
        let w: Vec<f64> = (0..n).map(|i| ((i as u32 * 7 + var * 3) % 5 + 1) as f64 + 0.5 * ((i % 2) as f64)).collect();
        let v: Vec<f64> = (0..n).map(|i| ((i as u32 * 5 + var * 4 + 2) % 7) as f64 - if var % 3 == 2 { 2. } else { 0. }).collect();
        if v.iter().all(|q| *q == 0.) { continue; }
        let cap = (w.iter().sum::<f64>() * (0.25 + 0.15 * (var % 4) as f64) * 4.).round() / 4.;
        for max in [true, false] {
            c.case(|| format!("knapsack values {:?}, weights {:?}, capacity {}, {}", v, w, cap, if max { "max" } else { "min of the negative" }), |c| {
                let x: Vec<Node> = (0..n).map(|i| VariableScalar::new_integer(&format!("item{}", i))).collect();
                let mut m = Model::new();
                let f = x.iter().zip(v.iter()).fold(ConstantScalar::new(0.), |a, (x, v)| a + *v * x);
                m.set_objective(if max { Objective::maximize(&f) } else { Objective::minimize(&-&f) });
                let load = x.iter().zip(w.iter()).fold(ConstantScalar::new(0.), |a, (x, w)| a + x * *w);
                m.add_constraint(&load.leq(cap));
                for y in &x { m.add_constraint(&y.geq(0.)); m.add_constraint(&y.leq(1.)); }
                let mut best: f64 = 0.;
                for b in 0..1u32 << n { let s: f64 = (0..n).filter(|i| b >> i & 1 == 1).map(|i| w[i]).sum(); if s <= cap + 1e-9 { best = best.max((0..n).filter(|i| b >> i & 1 == 1).map(|i| v[i]).sum()); } }
                if let Err(e) = run_solver(&mut m, false) { bad!("solving fails: {}", e); }
                c.step(1); c.nontrivial(); c.trace();
                ck!(m.solver_status() == Some(&SolverStatus::Solved), "status {:?}", m.solver_status());
                let fp = m.final_primals();
                let mut got = 0.; let mut load = 0.;
                for i in 0..n { let q = match fp.get(&x[i]) { Some(q) => *q, None => bad!("no value for item{}", i) }; ck!((q - q.round()).abs() < TOL && q > -TOL && q < 1. + TOL, "item{} is {}", i, q); got += q * v[i]; load += q * w[i]; }
                ck!(load <= cap + TOL, "load {}", load);
                ck!((got - best).abs() < TOL, "value {} instead of {}", got, best);
                Ok(())
            });
        }
    } }
    for n in 2..=4usize { for var in 0..c.pick(3usize, 10) { for cbc in [true, false] { for int in [true, false] {
        if int && !cbc { continue; }
        let cost: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| ((i * 7 + j * j * 3 + var * (i + 2 * j)) % 11) as f64 - 2.).collect()).collect();
        c.case(|| format!("assignment {:?}, {}, {}", cost, if cbc { "cbc" } else { "clp" }, if int { "integer" } else { "continuous" }), |c| {
            let x: Vec<Vec<Node>> = (0..n).map(|i| (0..n).map(|j| if int { VariableScalar::new_integer(&format!("a{}_{}", i, j)) } else { VariableScalar::new_continuous(&format!("a{}_{}", i, j)) }).collect()).collect();
            let mut m = Model::new();
            let mut f = ConstantScalar::new(0.);
            for i in 0..n { for j in 0..n { f = f + cost[i][j] * &x[i][j]; m.add_constraint(&x[i][j].geq(0.)); } }
            m.set_objective(Objective::minimize(&f));
            for i in 0..n {
                m.add_constraint(&x[i].iter().fold(ConstantScalar::new(0.), |a, v| a + v).equal(1.));
                m.add_constraint(&(0..n).fold(ConstantScalar::new(0.), |a, k| a + &x[k][i]).equal(1.));
            }
            let mut best = f64::INFINITY;
            let mut perm: Vec<usize> = (0..n).collect();
            fn all(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) { if k == p.len() { f(p); return; } for i in k..p.len() { p.swap(k, i); all(p, k + 1, f); p.swap(k, i); } }
            all(&mut perm, 0, &mut |p| best = best.min((0..n).map(|i| cost[i][p[i]]).sum()));
            if let Err(e) = run_solver(&mut m, !cbc) { bad!("solving fails: {}", e); }
            c.step(1); c.nontrivial(); c.trace();
            ck!(m.solver_status() == Some(&SolverStatus::Solved), "status {:?}", m.solver_status());
            let fp = m.final_primals();
            let mut got = 0.;
            let mut rs = vec![0.; n]; let mut cs = vec![0.; n];
            for i in 0..n { for j in 0..n { let q = match fp.get(&x[i][j]) { Some(q) => *q, None => bad!("no value for a{}_{}", i, j) }; ck!(q > -TOL, "negative"); if int { ck!((q - q.round()).abs() < TOL, "a{}_{} is {}", i, j, q); } got += q * cost[i][j]; rs[i] += q; cs[j] += q; } }
            ck!(rs.iter().chain(cs.iter()).all(|s| (s - 1.).abs() < TOL), "rows {:?}, columns {:?}", rs, cs);
            ck!((got - best).abs() < TOL * 10., "cost {} instead of {}", got, best);
            Ok(())
        });
    } } } }
}
