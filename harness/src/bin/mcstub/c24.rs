//! C24: what a solver receives is the whole model, or the solve is refused.

use crate::stub::{self, Call};
use mcfw::checks::c05::{around, fixed, grid, sized, sizes, SIZED, Seen, LIN, NAMES, NLIN, OBJ, ODD};
use mcfw::expr::NV;
use mcfw::fake::{answer_for, Fake};
use mcfw::fw::*;
use mcfw::lp;
use mcfw::model::*;
use mcfw::widemodel::{wide_model, Wm};
use mcfw::{bad, ck};
use numopt::model::{Model, Node};
use numopt::matrix::coo::CooMat;
use numopt::solver::base::{Solver, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd, SolverIpopt};
use std::cell::RefCell;
use std::ptr;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C24", kind: Kind::ModelChecking, run, hang_s: 120, shards: 0,
        rule: "a case is one history of solves of models with one solver object; each model is either refused without the solver being called, or what arrived at the command (the problem file) or at the library (callbacks and limits) is compared with the model itself at every grid point; non-trivial: something arrived and some grid points are feasible and some are not",
        assumptions: &["cbc, clp and the Ipopt library are replaced by stand-ins", "points within 1e-7 of a constraint boundary, but not on it, are not compared", "the library's functions are affine in the slack variables"],
    }
}

const SN: [&str; 3] = ["clp", "cbc", "ipopt"];
fn new(k: usize) -> Box<dyn Solver> { match k { 0 => Box::new(SolverClpCmd::new()), 1 => Box::new(SolverCbcCmd::new()), _ => Box::new(SolverIpopt::new()) } }

/// What arrived: the rows and the objective at each point.
struct Got { st: Std, lay: Layout, at: Vec<(Vec<Row>, f64)> }

fn blank() -> Vals { Vals { phi: 0., gphi: vec![], hphi: CooMat::from_nnz((0, 0), 0), f: vec![], j: CooMat::from_nnz((0, 0), 0), h: vec![], hcomb: CooMat::from_nnz((0, 0), 0) } }
fn empty_std(n: usize) -> Std { Std { class: Class::Lp, n, a: vec![], b: vec![], nf: 0, l: vec![0.; n], u: vec![f64::INFINITY; n], p: vec![false; n], x0: None, c: None } }

fn place(model: &Model, vars: &[Node], names: &[&str], n: usize, val: &dyn Fn(usize) -> f64) -> Result<Layout, Fail> {
    let fp = model.final_primals();
    let mut lay = Layout { pos: vec![None; names.len()], user: vec![None; n] };
    for (k, v) in vars.iter().enumerate() {
        if let Some(x) = fp.get(v) {
            let hits: Vec<usize> = (0..n).filter(|i| (val(*i) - x).abs() <= 1e-9 * (1. + x.abs())).collect();
            ck!(hits.len() == 1, "the value {:e} of {} is none that the solver gave", x, names[k]);
            ck!(lay.user[hits[0]].is_none(), "one value of the solver is reported for two variables");
            lay.pos[k] = Some(hits[0]);
            lay.user[hits[0]] = Some(k);
        }
    }
    Ok(lay)
}

fn by_file<P: AsRef<[f64]>>(names: &[&str], model: &Model, vars: &[Node], text: &str, pts: &[P]) -> Result<Got, Fail> {
    let f = match lp::read(text) { Ok(f) => f, Err(e) => bad!("the problem file cannot be read ({}): {:?}", e, text) };
    let n = f.n();
    let ans = answer_for(text);
    let mut vals = vec![f64::NAN; n];
    for l in ans.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() == 4 && w[1].starts_with("x_") { if let (Ok(i), Ok(v)) = (lp::idx(w[1]), w[2].parse::<f64>()) { vals[i] = v; } }
    }
    let lay0 = place(model, vars, names, n, &|i| vals[i])?;
    // rows that are no equations get a slack
    let extra = f.rows.values().filter(|r| r.1 != '=').count();
    let mut st = empty_std(n + extra);
    let mut lay = lay0;
    lay.user.resize(n + extra, None);
    for (i, v) in f.l.iter() { st.l[*i] = *v; }
    for (i, v) in f.u.iter() { st.u[*i] = *v; }
    for i in &f.int { ck!(*i < n, "integer variable {} does not occur", i); st.p[*i] = true; }
    let mut e = n;
    for (co, rel, rhs) in f.rows.values() {
        let mut r = vec![0.; n + extra];
        for (i, v) in co { r[*i] += v; }
        if *rel != '=' { r[e] = if *rel == '<' { 1. } else { -1. }; e += 1; }
        st.a.push(r);
        st.b.push(*rhs);
    }
    let mut at = Vec::new();
    for u in pts {
        let x = full(&lay, st.n, u.as_ref(), 0.);
        let mut rows = Vec::new();
        for (r, rhs) in st.a.iter().zip(st.b.iter()) {
            let mut q = Row { r0: -rhs, scale: 1. + rhs.abs(), slacks: vec![] };
            for j in 0..st.n { if r[j] != 0. { if lay.user[j].is_some() { q.r0 += r[j] * x[j]; q.scale += (r[j] * x[j]).abs(); } else { q.slacks.push((j, r[j])); } } }
            rows.push(q);
        }
        let o: f64 = f.c.iter().map(|(i, v)| v * x[*i]).sum();
        at.push((rows, if f.max { -o } else { o }));
    }
    Ok(Got { st, lay, at })
}

/// Solves with a script that answers i + 0.5 for variable i and evaluates at the points.
fn ipopt_solve<P: AsRef<[f64]> + 'static>(model: &mut Model, s: &dyn Solver, at: Option<(Layout, Vec<P>)>) -> Result<(Result<(), String>, Vec<stub::Prob>, Vec<(Vec<Row>, f64)>), Fail> {
    stub::reset();
    let out: Rc<RefCell<(Vec<(Vec<Row>, f64)>, Res)>> = Rc::new(RefCell::new((vec![], Ok(()))));
    let o2 = out.clone();
    stub::with(|q| q.script = Some(Box::new(move |c: &Call| {
        let (n, m) = (c.p.n as usize, c.p.m as usize);
        if let Some((lay, pts)) = &at {
            let mut go = || -> Res {
                let nj = c.p.nj as usize;
                let (mut jr, mut jc) = (vec![0i32; nj], vec![0i32; nj]);
                ck!((c.p.jac)(c.p.n, ptr::null(), 1, c.p.m, c.p.nj, jr.as_mut_ptr(), jc.as_mut_ptr(), ptr::null_mut(), c.data) == 1, "Jacobian structure refused");
                for u in pts {
                    let x = full(lay, n, u.as_ref(), 0.);
                    let (mut f, mut g, mut jv) = (0., vec![0.; m], vec![0.; nj]);
                    ck!((c.p.f)(c.p.n, x.as_ptr(), 1, &mut f, c.data) == 1 && (c.p.g)(c.p.n, x.as_ptr(), 0, c.p.m, g.as_mut_ptr(), c.data) == 1
                        && (c.p.jac)(c.p.n, x.as_ptr(), 0, c.p.m, c.p.nj, ptr::null_mut(), ptr::null_mut(), jv.as_mut_ptr(), c.data) == 1, "evaluation refused at {:?}", u.as_ref());
                    let mut jd = vec![vec![0.; n + m]; m];
                    for t in 0..nj { ck!((jr[t] as usize) < m && (jc[t] as usize) < n, "Jacobian entry ({}, {})", jr[t], jc[t]); jd[jr[t] as usize][jc[t] as usize] += jv[t]; }
                    let mut rows = Vec::new();
                    for i in 0..m {
                        let mut q = Row { r0: g[i], scale: 1. + g[i].abs(), slacks: vec![] };
                        // a range becomes a slack; one that is nearly an equation is neither
                        let w = c.p.gu[i] - c.p.gl[i];
                        ck!(w == 0. || w.abs() > 1e-5 * (1. + c.p.gl[i].abs()), "row {} has the limits {:e} and {:e}, which is no constraint of the model", i, c.p.gl[i], c.p.gu[i]);
                        if c.p.gl[i] == c.p.gu[i] { q.r0 -= c.p.gl[i]; } else { q.slacks.push((n + i, -1.)); }
                        for j in 0..n { if lay.user[j].is_none() { if jd[i][j] != 0. { q.slacks.push((j, jd[i][j])); } } else { let t = (jd[i][j] * x[j]).abs(); if t.is_finite() { q.scale += t; } } }
                        rows.push(q);
                    }
                    o2.borrow_mut().0.push((rows, f));
                }
                Ok(())
            };
            let r = go();
            o2.borrow_mut().1 = r;
        }
        unsafe {
            for i in 0..n { *c.x.add(i) = i as f64 + 0.5; if !c.zl.is_null() { *c.zl.add(i) = 0.; } if !c.zu.is_null() { *c.zu.add(i) = 0.; } }
            for i in 0..m { if !c.lam.is_null() { *c.lam.add(i) = 0.; } }
        }
        0
    })));
    let r = catch(|| model.solve(s)).map_err(|e| Fail::from(format!("solve panicked: {}", e)))?.map_err(|e| e.to_string());
    stub::with(|q| q.script = None);
    out.borrow().1.clone()?;
    let probs = stub::with(|q| std::mem::take(&mut q.probs));
    let rows = std::mem::take(&mut out.borrow_mut().0);
    Ok((r, probs, rows))
}

fn one(sp: &Spec, k: usize, s: &dyn Solver, pts: &[[f64; 3]], fake: &Fake) -> Result<Option<Seen>, Fail> {
    let mut b = sp.build();
    // what the class must and may be
    let (mut dep, mut curved) = (0u32, false);
    for u in pts {
        let mut js = vec![sp.fmin(u)];
        js.extend(sp.cons.iter().map(|c| c.diff(u)));
        for j in js.iter().filter(|j| j.ok) {
            for i in 0..NV { if j.g[i].abs() > 1e-6 * j.mg[i].max(1e-3) { dep |= 1 << i; } }
            for i in 0..6 { if j.h[i].abs() > 1e-6 * j.mh[i].max(1e-3) { curved = true; } }
        }
    }
    let used = sp.used();
    let int_dep = (0..3).any(|i| sp.int[i] && dep & (1 << i) != 0);
    let int_used = (0..3).any(|i| sp.int[i] && used & (1 << i) != 0);
    let (refuse, accept) = match k {
        0 => (curved || int_dep, sp.linear() && !int_used),
        1 => (curved, sp.linear()),
        _ => (int_dep, !int_used),
    };
    let files = || -> usize { std::fs::read_dir(".").map(|d| d.count()).unwrap_or(0) };
    let before = files();
    let (res, called, text, probs);
    if k < 2 {
        fake.clear();
        fake.plan("record\nsolve\nexit 0\n");
        res = catch(|| b.model.solve(s)).map_err(|e| Fail::from(format!("solve panicked: {}", e)))?.map_err(|e| e.to_string());
        let a = fake.args();
        if let Some(a) = &a { ck!(a[0] == SN[k], "{} was called instead of {}", a[0], SN[k]); }
        called = a.is_some();
        text = std::fs::read_to_string(fake.dir.join("problem")).unwrap_or_default();
        probs = vec![];
    } else {
        let (r, p, _) = ipopt_solve::<[f64; 3]>(&mut b.model, s, None)?;
        called = p.iter().any(|q| q.solves > 0);
        res = r;
        text = String::new();
        probs = p;
    }
    ck!(files() == before, "files remain after the solve");
    ck!(!refuse || res.is_err(), "{} takes a model of a class that it cannot solve", SN[k]);
    ck!(!accept || res.is_ok(), "{} refuses a model that it can solve: {:?}", SN[k], res);
    if res.is_err() {
        ck!(!called, "{} was called although the solve failed", SN[k]);
        ck!(b.model.solver_status().is_none() && b.model.final_primals().is_empty() && b.model.final_duals().is_empty(), "results after a failed solve");
        return Ok(None);
    }
    ck!(called, "{} was not called", SN[k]);
    ck!(b.model.solver_status() == Some(&SolverStatus::Solved), "status {:?}", b.model.solver_status());
    let got = if k < 2 { by_file(&sp.names, &b.model, &b.vars, &text, pts)? } else {
        ck!(probs.len() == 1, "{} problem objects", probs.len());
        let n = probs[0].n as usize;
        let lay = place(&b.model, &b.vars, &sp.names, n, &|i| i as f64 + 0.5)?;
        let (r, p, at) = ipopt_solve(&mut b.model, s, Some((Layout { pos: lay.pos.clone(), user: lay.user.clone() }, pts.to_vec())))?;
        ck!(r.is_ok() && p.len() == 1, "the second solve fails");
        let m = p[0].m as usize;
        let again = place(&b.model, &b.vars, &sp.names, n, &|i| i as f64 + 0.5)?;
        ck!(again.pos == lay.pos, "the order of variables differs between two solves");
        let mut st = empty_std(n + m);
        let mut lay = lay;
        lay.user.resize(n + m, None);
        st.l[..n].copy_from_slice(&p[0].l); st.u[..n].copy_from_slice(&p[0].u);
        st.l[n..].copy_from_slice(&p[0].gl); st.u[n..].copy_from_slice(&p[0].gu);
        Got { st, lay, at }
    };
    // variables and integrality
    for i in 0..3 {
        if dep & (1 << i) != 0 { ck!(got.lay.pos[i].is_some(), "no value for variable {}", sp.names[i]); }
        if used & (1 << i) == 0 { ck!(got.lay.pos[i].is_none(), "variable {} is not used but there", sp.names[i]); }
    }
    for j in 0..got.st.n {
        let want = match got.lay.user[j] { Some(q) => sp.int[q] && (k < 2), None => false };
        // a variable without effect may lose its integrality
        let any = got.lay.user[j].map(|q| dep & (1 << q) == 0).unwrap_or(false) && int_used && !int_dep;
        ck!(got.st.p[j] == want || any, "integrality of {} is {}", got.lay.user[j].map(|q| sp.names[q]).unwrap_or("a slack"), got.st.p[j]);
    }
    // points
    let mut seen = Seen::default();
    let mut objs: Vec<(f64, f64, f64)> = Vec::new();
    for (u, (rows, o)) in pts.iter().zip(got.at.into_iter()) {
        let fj = sp.fmin(u);
        if fj.ok { objs.push((o, fj.v, fj.mv)); }
        if sp.cons.iter().any(|c| !(c.diff(u).v.abs() < 9e7)) && sp.cons.iter().all(|c| c.diff(u).ok) { continue; }
        let mut want = Tri::Yes;
        let mut defined = true;
        for c in &sp.cons { match c.viol(u) { Some((v, m)) => want = both(want, tri(v, 1. + m)), None => defined = false } }
        if !defined { continue; }
        let g = feasible(&AtPoint { arows: rows, frows: vec![], vals: blank() }, &got.st, &got.lay, u);
        if g != Tri::Unclear && want != Tri::Unclear {
            ck!(g == want, "{:?} is {} in what {} received but {} in the model", u, if g == Tri::Yes { "feasible" } else { "infeasible" }, SN[k], if want == Tri::Yes { "feasible" } else { "infeasible" });
            if want == Tri::Yes { seen.feas += 1 } else { seen.infeas += 1 }
        }
    }
    if let Some(p) = objs.iter().min_by(|a, b| a.2.total_cmp(&b.2)) {
        let q = p.0 - p.1;
        for (v, w, m) in &objs { ck!((v - w - q).abs() <= 2e-8 * (1. + m + q.abs()), "the objective that {} received is {:e}, the model says {:e} plus the constant {:e}", SN[k], v, w, q); }
    }
    Ok(Some(seen))
}

/// A model of many variables and constraints.
fn wide(c: &mut Ctx, k: usize, w: &Wm, fake: &Fake) -> Res {
    let s = new(k);
    let mut b = w.build();
    let names: Vec<&str> = w.names.iter().map(|x| x.as_str()).collect();
    let any = w.int.iter().any(|i| *i);
    let accept = match k { 0 => w.linear && !any, 1 => w.linear, _ => !any };
    let pts = w.points();
    let got = if k < 2 {
        fake.clear();
        fake.plan("record\nsolve\nexit 0\n");
        let r = catch(|| b.model.solve(&*s)).map_err(|e| Fail::from(format!("solve panicked: {}", e)))?.map_err(|e| e.to_string());
        ck!(r.is_ok() == accept && fake.args().is_some() == accept, "accepted is {}, called is {}", r.is_ok(), fake.args().is_some());
        if !accept { return Ok(()); }
        by_file(&names, &b.model, &b.vars, &std::fs::read_to_string(fake.dir.join("problem")).unwrap_or_default(), &pts)?
    } else {
        let (r, p, _) = ipopt_solve::<Vec<f64>>(&mut b.model, &*s, None)?;
        ck!(r.is_ok() == accept && p.iter().any(|q| q.solves > 0) == accept, "accepted is {}", r.is_ok());
        if !accept { return Ok(()); }
        let n = p[0].n as usize;
        let mut lay = place(&b.model, &b.vars, &names, n, &|i| i as f64 + 0.5)?;
        let (_, p, at) = ipopt_solve(&mut b.model, &*s, Some((Layout { pos: lay.pos.clone(), user: lay.user.clone() }, pts.clone())))?;
        let m = p[0].m as usize;
        let mut st = empty_std(n + m);
        lay.user.resize(n + m, None);
        st.l[..n].copy_from_slice(&p[0].l); st.u[..n].copy_from_slice(&p[0].u);
        st.l[n..].copy_from_slice(&p[0].gl); st.u[n..].copy_from_slice(&p[0].gu);
        Got { st, lay, at }
    };
    for i in 0..w.n { ck!(got.lay.pos[i].is_some(), "no value for variable {}", names[i]); }
    for j in 0..got.st.n { ck!(got.st.p[j] == got.lay.user[j].map_or(false, |q| w.int[q] && k < 2), "integrality of column {} is {}", j, got.st.p[j]); }
    let (mut yes, mut no, mut off) = (0u64, 0u64, None);
    for (u, (rows, o)) in pts.iter().zip(got.at.into_iter()) {
        let e = w.holds(u);
        let g = feasible(&AtPoint { arows: rows, frows: vec![], vals: blank() }, &got.st, &got.lay, u);
        if g != Tri::Unclear && e != Tri::Unclear { ck!(g == e, "a point is {:?} in what {} received, {:?} in the model", g, SN[k], e); if e == Tri::Yes { yes += 1 } else { no += 1 } }
        let d = o - w.objective(u);
        let q = *off.get_or_insert(d);
        ck!((d - q).abs() <= 1e-8 * (1. + q.abs() + w.objective(u).abs() + w.n as f64), "the objective that {} received differs by {:e} here, by {:e} elsewhere", SN[k], d, q);
    }
    c.step(yes + no);
    c.state(hash_u64s(&[k as u64, yes, no, w.cons.len() as u64, w.n as u64]));
    if yes > 0 && no > 0 { c.nontrivial(); }
    c.trace();
    Ok(())
}

fn history(c: &mut Ctx, k: usize, h: &[&Spec], pts: &[[f64; 3]], fake: &Fake) -> Res {
    let s = new(k);
    let mut nt = false;
    for (i, sp) in h.iter().enumerate() {
        match one(sp, k, &*s, pts, fake).map_err(|e| if h.len() > 1 { Fail::from(format!("model {}: {}", i, e.msg)) } else { e })? {
            None => { c.note(&format!("refused by {}", SN[k]), 1); c.state(hash_str(&format!("refused {} {}", k, sp.show()))); }
            Some(q) => { c.note(&format!("received by {}", SN[k]), 1); c.step(q.feas + q.infeas); nt |= q.feas > 0 && q.infeas > 0; c.state(hash_u64s(&[k as u64, q.feas, q.infeas, hash_str(&sp.show())])); }
        }
    }
    if nt { c.nontrivial(); }
    c.trace();
    Ok(())
}

fn run(c: &mut Ctx) {
    let fake = Fake::new(&c.scratch.join("bin"));
    let cwd = c.scratch.join("cwd");
    std::fs::create_dir_all(&cwd).expect("cwd");
    std::env::set_current_dir(&cwd).expect("cwd");
    std::env::set_var("TMPDIR", &cwd);
    let g = grid(false);
    let n = &NAMES;
    let lin = cons(LIN, n);
    let nlin = cons(NLIN, n);
    let all: Vec<Con> = lin.iter().chain(nlin.iter()).cloned().collect();
    let spec = |o: &str, cs: Vec<Con>, m: usize| Spec { names: n.to_vec(), int: (0..3).map(|i| m >> i & 1 == 1).collect(), obj: obj(o, n), cons: cs };
    let go = |c: &mut Ctx, k: usize, sp: &Spec, pts: &[[f64; 3]]| { c.case(|| format!("{}: {}", SN[k], sp.show()), |c| history(c, k, &[sp], pts, &fake)); !c.done() };
    c.section("no constraint and one constraint, every objective, integrality pattern and solver");
    for k in 0..3 { for (oi, o) in OBJ.iter().enumerate() { for m in 0..8 {
        if !go(c, k, &spec(o, vec![], m), &g) { return; }
        for (ai, a) in all.iter().enumerate() {
            // the commands are slow to start: each third model for them
            if k < 2 && (oi + ai + m) % c.pick(4, 1) != 0 { continue; }
            if !go(c, k, &spec(o, vec![a.clone()], m), &g) { return; }
        }
    } } }
    c.section("pairs of constraints");
    for k in 0..3 { for (ai, a) in all.iter().enumerate() { for (bi, b) in all.iter().enumerate() {
        let step = if k < 2 { c.pick(16, 2) } else { c.pick(2, 1) };
        if (ai + bi) % step != 0 { continue; }
        let m = [0, 4, 0, 1, 7, 0][(ai + 2 * bi) % 6];
        if !go(c, k, &spec(OBJ[(ai + bi / 2) % OBJ.len()], vec![a.clone(), b.clone()], m), &g) { return; }
    } } }
    c.section("many rows");
    let pool = cons(&["x + y | 1", "x | 2", "2*y | 3", "k + x - y | 1", "k | 1", "x*y | 0.5", "y | x*x"], n);
    for k in 0..3 { for len in 3..=c.pick(12, 30) { for s in 0..7usize {
        let lim = if k < 2 { 15 } else { pool.len() };
        let cs: Vec<Con> = (0..len).map(|i| pool[(s * 3 + i * (1 + s)) % lim].clone()).collect();
        if !go(c, k, &spec("max x - 2*y + k", cs, [0, 4][s % 2 * (k % 2)]), &g[..60]) { return; }
    } } }
    c.section("coefficients near one, near zero and large");
    for k in 0..3 { for a in ODD { for t in [format!("{}*x | 2", a), format!("y + {}*x + k + 3*y | x + y", a), format!("x/{} | -1", a), format!("{}*x*y + x | 1", a)] { for (ri, r) in RELS.iter().enumerate() {
        if k < 2 && t.contains("x*y") { continue; }
        let v: f64 = a.trim_start_matches('{').trim_end_matches('}').parse().unwrap();
        let mut pts = g.clone();
        for m in [2., -1., 3., 1., 0.5] { for d in [-0.3, -1e-5, 0., 1e-5, 0.3] { let x: f64 = m / v * (1. + d); if x.abs() < 5e7 { pts.push([x, 1. - m, (x + m).round()]); pts.push([0.5, x, x]); } } }
        // the file has ten digits
        let o = ["min 0*x + y", "max y - x + k"][ri % 2];
        let o = if ri == 0 { format!("min {}*x + y", a) } else { o.to_string() };
        if !go(c, k, &spec(&o, vec![con(&t, *r, n), con("x | 3", RELS[1 + ri % 2], n)], [0, 2][k % 2]), &pts) { return; }
    } } } }
    c.section("right-hand sides of every size");
    for k in 0..3 { for v in sizes(c.thorough()) { for (i, t) in SIZED.iter().enumerate() { for (ri, r) in RELS.iter().enumerate() {
        if k < 2 && t.contains("y*y") || (k == 2 && t.contains('k')) { continue; }
        if k < 2 && !c.thorough() && (i + ri) % 3 != 0 { continue; }
        let o = ["min x", "max y + x", "", "min 2*x - y"][(i + ri) % 4];
        if !go(c, k, &spec(o, vec![sized(t, v, *r), con("y | 2", RELS[1 + ri % 2], n)], [0, 4][k % 2]), &around(v)) { return; }
    } } } }
    c.section("fixed and nearly fixed variables");
    for k in 0..3 { for (vi, v) in [0., 1., -1., 2., 0.5, 3e-4, -40., 2.5e4].iter().cloned().enumerate() { for (wi, w) in [0., 1e-6, 1e-3].iter().cloned().enumerate() { for (ti, t) in ["x", "y", "k"].iter().enumerate() {
        if k < 2 && !c.thorough() && (vi + wi + ti) % 3 != 0 || k == 2 && *t == "k" { continue; }
        let (cs, pts) = fixed(t, v, w);
        let o = ["min x + y", "max y - x", "", "min 2*x - y*y"][(vi + wi) % if k < 2 { 3 } else { 4 }];
        for turn in [false, true] { let mut cs = cs.clone(); if turn { cs.reverse(); } if !go(c, k, &spec(o, cs, [0, 4][k % 2]), &pts) { return; } }
    } } } }
    c.section("models of many variables and constraints");
    for k in 0..3 { for (n, m) in [(2usize, 3usize), (5, 4), (9, 9), (17, 5), (33, 12), (65, 8), (20, 40), (130, 20), (190, 3), (10, 130)].iter().cloned().chain(if c.thorough() { vec![(260, 30), (70, 130), (300, 3)] } else { vec![] }) { for kind in 0..6 { for linear in [true, false] { for ints in [0usize, 3] {
        if !linear && n * m > c.pick(600, 4000) { continue; }
        if c.done() { return; }
        let w = wide_model(kind, n, m, linear, ints);
        c.case(|| format!("{}: kind {}, {}", SN[k], kind, w.show()), |c| wide(c, k, &w, &fake));
    } } } } }
    c.section("histories of models with one solver object");
    let few: Vec<Spec> = vec![
        spec("min x + 2*y", vec![con("x + y | 1", Rel::Ge, n), con("x | 0", Rel::Ge, n)], 0), spec("max x", vec![con("x | 2", Rel::Le, n)], 1), spec("min x*x", vec![con("x*y | 1", Rel::Eq, n)], 0),
        spec("max x*k", vec![con("k | 3", Rel::Le, n)], 4), spec("", vec![con("x - y | 0.5", Rel::Eq, n)], 0), spec("min k", vec![con("k + x | 1", Rel::Ge, n), con("x | 0.5", Rel::Le, n)], 4), spec("max y - x", vec![], 0), spec("min sin(x)", vec![con("x | 2", Rel::Le, n), con("x | 1", Rel::Ge, n)], 0)];
    let top = c.pick(2, 3);
    for k in 0..3 { for len in 2..=top { mcfw::checks::c06::sequences(few.len(), len, &mut |s| {
        c.case(|| format!("{}: {}", SN[k], s.iter().map(|i| few[*i].show()).collect::<Vec<_>>().join("; then ")), |c| history(c, k, &s.iter().map(|i| &few[*i]).collect::<Vec<_>>(), &g[..60], &fake));
        !c.done()
    }); } }
}
