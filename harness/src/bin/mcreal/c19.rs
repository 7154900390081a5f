//! C19: nonlinear models are solved to optimality conditions end to end, by the real Ipopt.

use mcfw::checks::c18::{affine, kkt, kkt_of, optimal, reference, side, subsets, Lin, Ref, BOX, NM, OBJS, POOL};
use mcfw::wide::wide_expr;
use mcfw::widemodel::wide_model;
use mcfw::expr::NV;
use mcfw::fw::*;
use mcfw::model::*;
use mcfw::{bad, ck};
use numopt::model::*;
use numopt::solver::base::{Solver, SolverParam};
use numopt::solver::SolverIpopt;
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C19", kind: Kind::ModelChecking, run, hang_s: 120, shards: 0,
        rule: "a case is one model solved by the installed Ipopt from one starting point; where it reports solved, the point must be feasible and satisfy the first-order conditions with the reported multipliers, by reference derivatives; where the model is convex with an interior it must report solved, with the optimum found by trying every set of active constraints or known in closed form; non-trivial: reported solved",
        assumptions: &["Ipopt 3.11.9 as installed; tolerance 1e-4 relative to the terms' size", "models of at most three variables built from the listed objectives and constraints, several of them side by side, and larger families; the listed starting points"],
    }
}

const TOL: f64 = 1e-4;
const STARTS: &[Option<[f64; 3]>] = &[None, Some([1., 1., 1.]), Some([-2., 0.5, 3.]), Some([0.3, -0.7, 2.])];

fn solve(sp: &Spec, start: Option<[f64; 3]>) -> Result<(Built, String), Fail> {
    let mut b = sp.build();
    if let Some(s) = start {
        let m: HashMap<&Node, f64> = b.vars.iter().zip(s.iter()).map(|(v, s)| (v, *s)).collect();
        b.model.set_init_primals(&m);
    }
    let mut s = SolverIpopt::new();
    s.set_param("print_level", SolverParam::IntParam(0)).map_err(|e| Fail::from(e.to_string()))?;
    s.set_param("sb", SolverParam::StrParam("yes".into())).map_err(|e| Fail::from(e.to_string()))?;
    if let Err(e) = b.model.solve(&s) { bad!("solving fails: {}", e); }
    let st = match b.model.solver_status() { Some(s) => format!("{:?}", s), None => bad!("no status") };
    Ok((b, st))
}

enum Want { Any, Solved(f64), Infeasible }

/// Least value of a strictly convex quadratic (f = x'Qx/2 + c'x + f0, by its jet at zero) over the
/// rows: the optimum is the minimizer on the plane of some set of rows.
fn qp(q: &[Vec<f64>], c: &[f64], rows: &[Lin], vars: &[usize]) -> Option<f64> {
    let n = vars.len();
    let eqs: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].rel == Rel::Eq).collect();
    let ins: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].rel != Rel::Eq).collect();
    let mut best: Option<f64> = None;
    subsets(ins.len(), n, &mut |s| {
        let act: Vec<usize> = eqs.iter().cloned().chain(s.iter().map(|i| ins[*i])).collect();
        if act.len() > n { return; }
        let k = n + act.len();
        let mut m = vec![vec![0.; k + 1]; k];
        for i in 0..n {
            for j in 0..n { m[i][j] = q[vars[i]][vars[j]]; }
            m[i][k] = -c[vars[i]];
            for (r, a) in act.iter().enumerate() { m[i][n + r] = rows[*a].a[vars[i]]; m[n + r][i] = rows[*a].a[vars[i]]; }
        }
        for (r, a) in act.iter().enumerate() { m[n + r][k] = rows[*a].b; }
        if let Some(z) = gauss(m) {
            let mut x = [0.; 3];
            for i in 0..n { x[vars[i]] = z[i]; }
            let ok = rows.iter().all(|r| { let v = r.a.iter().zip(x.iter()).map(|(a, b)| a * b).sum::<f64>() - r.b; match r.rel { Rel::Eq => v.abs() < 1e-8, Rel::Le => v < 1e-8, Rel::Ge => v > -1e-8 } });
            if ok {
                let mut v = 0.;
                for i in 0..3 { v += c[i] * x[i]; for j in 0..3 { v += 0.5 * q[i][j] * x[i] * x[j]; } }
                if best.map(|b| v < b).unwrap_or(true) { best = Some(v); }
            }
        }
    });
    best
}

fn gauss(mut m: Vec<Vec<f64>>) -> Option<Vec<f64>> {
    let n = m.len();
    for i in 0..n {
        let p = (i..n).max_by(|a, b| m[*a][i].abs().partial_cmp(&m[*b][i].abs()).unwrap())?;
        if m[p][i].abs() < 1e-9 { return None; }
        m.swap(i, p);
        for r in 0..n { if r != i {
            let f = m[r][i] / m[i][i];
            for c in i..=n { m[r][c] -= f * m[i][c]; }
        } }
    }
    Some((0..n).map(|i| m[i][n] / m[i][i]).collect())
}

fn one(c: &mut Ctx, sp: &Spec, start: Option<[f64; 3]>, want: Want) -> Res { one_key(c, sp, start, want, None) }

/// With a key the model is unbounded, so that reporting it solved is wrong wherever the point is.
fn one_key(c: &mut Ctx, sp: &Spec, start: Option<[f64; 3]>, want: Want, key: Option<String>) -> Res {
    if sp.used() == 0 || sp.obj.as_ref().map(|o| o.text == "min 0*x").unwrap_or(true) && sp.cons.is_empty() { c.note("models without variables left out (Ipopt refuses them)", 1); return Ok(()); }
    let (b, st) = solve(sp, start)?;
    c.step(1);
    c.state(hash_str(&format!("{} {}", st, sp.show())));
    c.note(&st, 1);
    match want {
        Want::Solved(v) => ck!(st == "Solved", "reported {} although the model is convex with an interior and has the optimum {}", st, v),
        Want::Infeasible => { ck!(st != "Solved", "reported Solved although no point is feasible"); c.trace(); return Ok(()); }
        Want::Any => (),
    }
    if st != "Solved" { return Ok(()); }
    c.nontrivial();
    let used = sp.used();
    let fp = b.model.final_primals();
    let mut x = [0.; NV];
    for i in 0..3 { if used & (1 << i) != 0 { match fp.get(&b.vars[i]) { Some(v) => x[i] = *v, None => {
        let p = [0.3, -0.7, 1.1];
        if sp.fmin(&p).g[i] != 0. || sp.cons.iter().any(|k| k.diff(&p).g[i] != 0.) { bad!("no value for {}", sp.names[i]) }
    } } } }
    ck!(x.iter().all(|v| v.is_finite()), "solved at {:?}", x);
    if key.is_some() { return Err(Fail { key, msg: format!("reported Solved at {:?} although the model is unbounded", x) }); }
    if matches!(want, Want::Any) && (x.iter().any(|v| v.abs() > 0.9e8) || sp.cons.iter().any(|k| k.diff(&x).v.abs() > 0.9e8)) { c.note("solved at a default limit: unbounded, left out", 1); return Ok(()); }
    for k in &sp.cons { match k.viol(&x) { Some((v, m)) => ck!(v <= TOL * (1. + m), "{} is violated by {} at {:?}", k.text, v, x), None => bad!("{} is undefined at {:?}", k.text, x) } }
    kkt(sp, &b, &x, TOL)?;
    if let Want::Solved(v) = want {
        let f = sp.fmin(&x);
        ck!((f.v - v).abs() <= TOL * (1. + f.mv), "objective (minimized) {} at {:?}, the optimum is {}", f.v, x, v);
    }
    c.trace();
    Ok(())
}

fn run_ipopt(m: &mut Model) -> Res {
    let mut s = SolverIpopt::new();
    s.set_param("print_level", SolverParam::IntParam(0)).map_err(|e| Fail::from(e.to_string()))?;
    s.set_param("sb", SolverParam::StrParam("yes".into())).map_err(|e| Fail::from(e.to_string()))?;
    if let Err(e) = m.solve(&s) { bad!("solving fails: {}", e); }
    Ok(())
}

/// Convex models over own variables as one model: the optimum of each.
fn side_by_side(c: &mut Ctx, sps: &[(Spec, f64)], order: usize, from: bool) -> Res {
    let list: Vec<&Spec> = sps.iter().map(|s| &s.0).collect();
    let mut d = side(&list, order);
    if from {
        let m: HashMap<&Node, f64> = d.vars.iter().flatten().enumerate().map(|(i, v)| (v, [0.3, -0.7, 2., 1.][i % 4])).collect();
        d.model.set_init_primals(&m);
    }
    run_ipopt(&mut d.model)?;
    c.step(1);
    c.trace();
    let st = d.model.solver_status().map(|s| format!("{:?}", s));
    c.state(hash_str(&format!("{:?} {}", st, list.len())));
    ck!(st.as_deref() == Some("Solved"), "reported {:?} although the model is convex with an interior", st);
    c.nontrivial();
    let (fp, du) = (d.model.final_primals(), d.model.final_duals());
    let l = du.get(&d.link).cloned().unwrap_or(0.);
    ck!(l.abs() <= TOL, "the inactive row has the multiplier {}", l);
    for (b, (sp, v)) in sps.iter().enumerate() {
        let mut x = [0.; NV];
        for i in 0..3 { match fp.get(&d.vars[b][i]) { Some(v) => x[i] = *v, None => bad!("no value for {}{}", sp.names[i], b) } }
        for k in &sp.cons { if let Some((v, m)) = k.viol(&x) { ck!(v <= TOL * (1. + m), "part {}: {} is violated by {} at {:?}", b, k.text, v, x); } }
        kkt_of(sp, &d.cons[b], &du, &x, TOL).map_err(|e| Fail::from(format!("part {}: {}", b, e.msg)))?;
        let f = sp.fmin(&x);
        ck!((f.v - v).abs() <= TOL * (1. + f.mv), "part {}: objective (minimized) {} at {:?}, the optimum is {}", b, f.v, x, v);
    }
    Ok(())
}

fn rows_of(sp: &Spec) -> Vec<Lin> { sp.cons.iter().map(|k| { let (a, b) = affine(&|x| k.l.eval(x) - k.r.eval(x), 3); Lin { a, rel: k.rel, b: -b } }).collect() }

/// Rows moved inwards, if the equality rows are independent; what is feasible for them is in the interior.
fn inner(rows: &[Lin]) -> Option<Vec<Lin>> {
    let eq: Vec<Vec<f64>> = rows.iter().filter(|r| r.rel == Rel::Eq).map(|r| r.a.clone()).collect();
    let mut m = eq.clone();
    let mut rank = 0;
    for c in 0..3 {
        if let Some(p) = (rank..m.len()).find(|i| m[*i][c].abs() > 1e-9) {
            m.swap(rank, p);
            for i in rank + 1..m.len() { let f = m[i][c] / m[rank][c]; for k in 0..3 { m[i][k] -= f * m[rank][k]; } }
            rank += 1;
        }
    }
    if rank < eq.len() { return None; }
    Some(rows.iter().map(|r| { let s = r.a.iter().map(|v| v.abs()).sum::<f64>().max(0.1) * 0.05; Lin { a: r.a.clone(), rel: r.rel, b: match r.rel { Rel::Eq => r.b, Rel::Le => r.b - s, Rel::Ge => r.b + s } } }).collect())
}

const QUAD: &[&str] = &["min (x-1)*(x-1) + (y-2)*(y-2) + (k-3)*(k-3)", "min x*x + y*y + k*k", "max 3 - 2*x*x - y*y - 0.5*k*k + x*y + 4*x", "max -(x - 5)*(x - 5) - (y + 4)*(y + 4) - (k - 7)*(k - 7)",
    "min x*x/2 + (x - y)*(x - y) + (y - 2*k)*(y - 2*k) - k + 4", "min 5*(x + y + k)*(x + y + k) + (x - 1)*(x - 1) + y*y/4 + (k + 1)*k", "max 2*(x + y - x*x - y*y - k*k) - x*k", "min (x + 3)*(x + 3) + (x + 3)*(y - 1) + (y - 1)*(y - 1) + 0.1*(k - 20)*(k - 20)"];
const NOBJ: &[&str] = &["min sin(x) + y*y", "min x*y", "max x*y + k", "min x*x*x*x - x*x + y*y + k*k", "min cos(x*y) + 0.1*x*x + 0.1*y*y", "max sin(x)*cos(y) - k*k", "min x/(2 + y*y)", "min (1 - x)*(1 - x) + 100*(y - x*x)*(y - x*x)", "", "min x + 2*y + k", "max x - y", "min x*x*y - k*x + k*k", "max -x*x + x*y*k - y*y - k*k", "min 1/(2 + x*x + y*y)", "max x/(1 + y*y) - k/(1 + x*x)"];
const NCON: &[(&str, Rel)] = &[("x*x + y*y | 4", Rel::Le), ("x*x + y*y | 1", Rel::Ge), ("x*y | 1", Rel::Eq), ("k | x*x", Rel::Ge), ("sin(x) + y | 0.5", Rel::Le), ("x + y | 2.5", Rel::Eq), ("2*x - y | 1", Rel::Le), ("x + y + k | 1", Rel::Ge), ("x*k - y | 0.25", Rel::Eq), ("3 | x*x + k*k", Rel::Ge), ("y/(1 + x*x) | 0.5", Rel::Ge), ("cos(y) | k", Rel::Eq), ("x | -1.5", Rel::Ge), ("2 | k*k*k", Rel::Ge), ("x*x*x - y | 0", Rel::Eq), ("x*y*k | 0.5", Rel::Le), ("k - x*x | y", Rel::Eq), ("x*x + y | k*k + 1", Rel::Le)];

fn run(c: &mut Ctx) {
    let cwd = c.scratch.join("cwd");
    std::fs::create_dir_all(&cwd).expect("dir");
    std::env::set_current_dir(&cwd).expect("cwd");
    let mk = |o: &str, cs: &[(&str, Rel)]| Spec { names: NM.to_vec(), int: vec![false; 3], obj: obj(o, &NM), cons: cs.iter().map(|k| con(k.0, k.1, &NM)).collect() };
    let nstart = STARTS.len();

    c.section("convex quadratic objectives, linear constraints");
    subsets(POOL.len(), c.pick(2, 3), &mut |s| {
        if c.done() { return; }
        for (oi, o) in QUAD.iter().enumerate() { for boxed in [false, true] {
            if s.len() == 3 && (oi + s.iter().sum::<usize>() + boxed as usize) % 4 != 0 { continue; }
            for si in 0..nstart {
                if s.len() >= 2 && (si + oi + s[0] + s[1]) % nstart != 0 { continue; }
                if !c.mine() { c.case(|| String::new(), |_| Ok(())); continue; }
                let mut cs: Vec<(&str, Rel)> = s.iter().map(|i| POOL[*i]).collect();
                if boxed { cs.extend(BOX.iter()); }
                let sp = mk(o, &cs);
                c.case(|| format!("{} from {:?}", sp.show(), STARTS[si]), |c| {
                    let rows = rows_of(&sp);
                    let f = sp.fmin(&[0.; 3]);
                    let q: Vec<Vec<f64>> = (0..3).map(|i| (0..3).map(|j| f.h[mcfw::expr::hix(i, j)]).collect()).collect();
                    let g = f.g.to_vec();
                    let used: Vec<usize> = (0..3).filter(|i| sp.used() >> i & 1 == 1).collect();
                    let want = match qp(&q, &g, &rows, &used) {
                        Some(v) => match inner(&rows).and_then(|r| qp(&q, &g, &r, &used)) { Some(_) => { c.note("convex with an interior", 1); Want::Solved(v + f.v) }, None => Want::Any },
                        None => match inner(&rows) { Some(_) => Want::Infeasible, None => Want::Any },
                    };
                    one(c, &sp, STARTS[si], want)
                });
            }
        } }
    });

    c.section("linear models");
    subsets(POOL.len(), c.pick(2, 3), &mut |s| {
        if c.done() { return; }
        for (oi, o) in OBJS.iter().enumerate() { for boxed in [true, false] {
            if s.len() >= 2 && (oi + s.iter().sum::<usize>()) % s.len() != 0 { continue; }
            let si = (oi + s.len() + s.first().cloned().unwrap_or(0)) % nstart;
            if !c.mine() { c.case(|| String::new(), |_| Ok(())); continue; }
            let mut cs: Vec<(&str, Rel)> = s.iter().map(|i| POOL[*i]).collect();
            if boxed { cs.extend(BOX.iter()); }
            let sp = mk(o, &cs);
            c.case(|| format!("{} from {:?}", sp.show(), STARTS[si]), |c| {
                let rows = rows_of(&sp);
                let (cost, c0) = affine(&|x| sp.fmin(x).v, 3);
                let none = [false; 3];
                let want = match reference(&rows, &cost, &none, sp.used()) {
                    Ref::Optimum(v) => match inner(&rows).map(|r| reference(&r, &cost, &none, sp.used())) { Some(Ref::Optimum(_)) if boxed => { c.note("convex with an interior", 1); Want::Solved(v + c0) }, _ => Want::Any },
                    Ref::Infeasible => Want::Infeasible,
                    Ref::Unbounded => { c.note("unbounded models left out", 1); return Ok(()); }
                };
                one(c, &sp, STARTS[si], want)
            });
        } }
    });

    c.section("nonlinear models");
    subsets(NCON.len(), c.pick(2, 3), &mut |s| {
        if c.done() { return; }
        for (oi, o) in NOBJ.iter().enumerate() { for boxed in [true, false] {
            if s.len() == 3 && (oi + s.iter().sum::<usize>() + boxed as usize) % 3 != 0 { continue; }
            if !c.thorough() && !boxed && s.len() == 2 && (oi + s[0]) % 5 != 0 { continue; } // mostly unbounded and slow
            for si in 0..nstart {
                if s.len() >= 2 && (si + oi + s[0] + s[1]) % nstart != 0 { continue; }
                if !c.mine() { c.case(|| String::new(), |_| Ok(())); continue; }
                let mut cs: Vec<(&str, Rel)> = s.iter().map(|i| NCON[*i]).collect();
                if boxed { cs.extend(BOX.iter()); }
                let sp = mk(o, &cs);
                c.case(|| format!("{} from {:?}", sp.show(), STARTS[si]), |c| one(c, &sp, STARTS[si], Want::Any));
            }
        } }
    });

    c.section("one linear and several nonlinear constraints");
    let lin: Vec<usize> = (0..NCON.len()).filter(|i| con(NCON[*i].0, NCON[*i].1, &NM).syntax().1).collect();
    let non: Vec<usize> = (0..NCON.len()).filter(|i| !lin.contains(i)).collect();
    let top = c.pick(2, 3);
    subsets(non.len(), top + 1, &mut |s| {
        if c.done() || s.len() < 2 { return; }
        for (li, l) in lin.iter().enumerate() {
            if s.len() > 2 && (s.iter().sum::<usize>() + li) % c.pick(3, 1) != 0 { continue; }
            let oi = (li + s.iter().sum::<usize>()) % NOBJ.len();
            let si = (oi + s[0]) % nstart;
            if !c.mine() { c.case(|| String::new(), |_| Ok(())); continue; }
            let mut cs: Vec<(&str, Rel)> = s.iter().map(|i| NCON[non[*i]]).collect();
            cs.insert(li % cs.len(), NCON[*l]);
            cs.extend(BOX.iter());
            let sp = mk(NOBJ[oi], &cs);
            c.case(|| format!("{} from {:?}", sp.show(), STARTS[si]), |c| one(c, &sp, STARTS[si], Want::Any));
        }
    });

    c.section("linear objective over a disc");
    let cf: &[f64] = c.pick(&[-2., 0., 1., 3.][..], &[-2., -0.5, 0., 1., 3.][..]);
    let form: &[(&str, Rel)] = &[("(x - P)*(x - P) + (y - Q)*(y - Q) | R", Rel::Le), ("R | (x - P)*(x - P) + (y - Q)*(y - Q)", Rel::Ge), ("-(x - P)*(x - P) - (y - Q)*(y - Q) | -R", Rel::Ge), ("(x - P)*(x - P) | R - (y - Q)*(y - Q)", Rel::Le), ("x*x + y*y - 2*(P)*x - 2*(Q)*y + (P)*(P) + (Q)*(Q) - R | 0", Rel::Le)];
    for a in cf { for b in cf { if *a == 0. && *b == 0. { continue; } for max in [false, true] { for (p, q) in [("0", "0"), ("1.5", "-2")] { for r in ["1", "6.25"] { for f in form { for st in &[None, Some([1.2, 0.4, 0.])] {
        let t = f.0.replace('P', p).replace('Q', q).replace('R', r);
        let o = format!("{} ({})*x + ({})*y + 3", if max { "max" } else { "min" }, a, b);
        let (pf, qf, rf): (f64, f64, f64) = (p.parse().unwrap(), q.parse().unwrap(), r.parse().unwrap());
        let s = if max { -1. } else { 1. };
        let best = s * (a * pf + b * qf + 3.) - rf.sqrt() * (a * a + b * b).sqrt();
        let sp = mk(&o, &[(&t, f.1)]);
        c.case(|| format!("{} from {:?}", sp.show(), st), |c| one(c, &sp, *st, Want::Solved(best)));
    } } } } } } }

    c.section("convex functions as limits of a variable");
    for (f, lo) in [("(x - 1)*(x - 1) + (y + 2)*(y + 2)", 0.), ("x*x + x*y + y*y - 3*x", -3.), ("x*x*x*x + y*y - 2*y + 5", 4.), ("x*x - sin(x) + y*y", f64::NAN), ("(x + y)*(x + y) + (x - 3)*(x - 3) - 6", -6.), ("2*x*x - cos(y) + y*y", -1.)] {
        // x*x - sin(x): 2 x = cos x
        let lo = if lo.is_nan() { let (mut a, mut b) = (0f64, 1f64); for _ in 0..80 { let m = (a + b) / 2.; if 2. * m > m.cos() { b = m; } else { a = m; } } a * a - a.sin() } else { lo };
        for (t, o, best) in [(format!("k | {}", f), "min k", lo), (format!("{} | k", f), "max 4 - 2*k", 2. * lo - 4.), (format!("k - ({}) | 0", f), "min 3*k + 1", 3. * lo + 1.), (format!("0 | {} + k", f), "max k", lo)] {
            let rel = if t.starts_with('k') { Rel::Ge } else if t.starts_with('0') { Rel::Ge } else { Rel::Le };
            let sp = mk(o, &[(&t, rel)]);
            for st in STARTS { c.case(|| format!("{} from {:?}", sp.show(), st), |c| one(c, &sp, *st, Want::Solved(best))); }
        }
        for max in [false, true] { let o = if max { format!("max -({})", f) } else { format!("min {}", f) };
            let sp = mk(&o, &[]);
            for st in STARTS { c.case(|| format!("{} from {:?}", sp.show(), st), |c| one(c, &sp, *st, Want::Solved(lo))); }
        }
    }

    c.section("many models side by side in one");
    let pool: Vec<(Vec<usize>, usize)> = { let mut o = Vec::new(); subsets(POOL.len(), 2, &mut |s| if s.len() == 2 { o.push((s.to_vec(), s[0] * 3 + s[1])) }); o };
    for nb in [2usize, 3, 5, 8, 12, 20, 34] { for start in 0..c.pick(8usize, 60) { for order in 0..2usize { for from in [false, true] {
        if c.done() { return; }
        if !c.mine() { c.case(|| String::new(), |_| Ok(())); continue; }
        let mut sps: Vec<(Spec, f64)> = Vec::new();
        let mut k = start * 19;
        while sps.len() < nb {
            let (s, h) = &pool[k % pool.len()];
            k += 7;
            let mut cs: Vec<(&str, Rel)> = s.iter().map(|i| POOL[*i]).collect();
            if k % 3 > 0 { cs.extend(BOX.iter()); }
            let sp = mk(QUAD[(h + k) % QUAD.len()], &cs);
            let rows = rows_of(&sp);
            let f = sp.fmin(&[0.; 3]);
            let q: Vec<Vec<f64>> = (0..3).map(|i| (0..3).map(|j| f.h[mcfw::expr::hix(i, j)]).collect()).collect();
            let g = f.g.to_vec();
            let used: Vec<usize> = (0..3).filter(|i| sp.used() >> i & 1 == 1).collect();
            if let Some(v) = qp(&q, &g, &rows, &used) { if inner(&rows).and_then(|r| qp(&q, &g, &r, &used)).is_some() { sps.push((sp, v + f.v)); } }
        }
        c.case(|| format!("order {}, starting values {}: {}", order, from, sps.iter().map(|s| s.0.show()).collect::<Vec<_>>().join(" || ")), |c| side_by_side(c, &sps, order, from));
    } } } }
    c.section("convex objectives over many variables and linear constraints");
    for (n, m) in [(5usize, 3usize), (9, 8), (16, 10), (24, 12), (33, 20), (50, 25), (80, 40)] { for kind in 0..c.pick(6usize, 30) { for from in [false, true] {
        if c.done() { return; }
        let mut w = wide_model(kind, n, m, true, 0);
        // with an interior, and equality rows that are independent
        let zero = vec![0.; n];
        let mut basis: Vec<Vec<f64>> = Vec::new();
        w.cons.retain(|k| {
            if k.1 != Rel::Eq { return true; }
            let mut g = mcfw::wide::dj(&k.0, &zero).g;
            for b in &basis { let p: f64 = b.iter().zip(&g).map(|(a, b)| a * b).sum(); for i in 0..n { g[i] -= p * b[i]; } }
            let q = g.iter().map(|v| v * v).sum::<f64>().sqrt();
            if q < 0.1 { return false; }
            basis.push(g.iter().map(|v| v / q).collect());
            true
        });
        for k in &mut w.cons { match k.1 { Rel::Eq => (), Rel::Le => k.2 += 0.25, Rel::Ge => k.2 -= 0.25 } }
        let sq = |t: T| T::Mul(Box::new(t.clone()), Box::new(t));
        let mut f = wide_expr("affine", n).0;
        for i in 0..n {
            let d = T::Sub(Box::new(T::V(i)), Box::new(T::K(0.5 + (i * (kind + 3) % 7) as f64)));
            f = T::Add(Box::new(f), Box::new(sq(d)));
            if i > 0 { f = T::Add(Box::new(f), Box::new(sq(T::Sub(Box::new(T::V(i)), Box::new(T::V((i * 5) % n)))))); }
        }
        w.obj = if w.max { T::Neg(Box::new(f)) } else { f };
        c.case(|| format!("{} kind {} starting values {}", w.show(), kind, from), |c| {
            let mut b = w.build();
            if from { let m: HashMap<&Node, f64> = b.vars.iter().zip(w.base.iter().cloned()).collect(); b.model.set_init_primals(&m); }
            run_ipopt(&mut b.model)?;
            ck!(b.model.solver_status() == Some(&numopt::solver::base::SolverStatus::Solved), "status {:?}", b.model.solver_status());
            optimal(&w, &b, TOL)?;
            c.step(1);
            c.nontrivial();
            c.trace();
            c.state(hash_str(&w.show()));
            Ok(())
        });
    } } }

    c.section("unbounded models");
    for (o, cs, st) in [("min x", vec![("x | 3", Rel::Le)], None), ("min x*y", vec![], Some([1., 1., 1.])), ("max x*x + k", vec![("k | 1", Rel::Le)], Some([1., 1., 1.]))] {
        let sp = mk(o, &cs);
        c.case(|| format!("{} from {:?}", sp.show(), st), |c| one_key(c, &sp, st, Want::Any, Some(format!("unbounded:{}@ipopt", sp.show().trim().replace(' ', "_")))));
    }
}
