//! C13: one Ipopt solve, over all return codes, answers and failures of Ipopt's interface.

use crate::c12::{problem, reference, NPROB, PTS};
use crate::stub::{self, Call};
use mcfw::fw::*;
use mcfw::model::*;
use mcfw::{bad, ck};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::SolverIpopt;
use std::cell::RefCell;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C13", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one history of solves with one solver object: per solve a problem, the state of the parameters, which calls of Ipopt's interface fail, and the return code and values Ipopt answers with; non-trivial: a failure or a code other than success is injected",
        assumptions: &["Ipopt's library is replaced by the harness's own definition of its C interface", "without starting values the start is the origin"],
    }
}

/// Parameter states.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Par { Default, Level(i32), Sb(&'static str), Both(i32, &'static str), Missing(&'static str), WrongType(&'static str) }

#[derive(Clone, Debug)]
struct Step { prob: usize, par: Par, create_fails: bool, refuse: Vec<&'static str>, code: i32, vals: usize, evals: bool }

const NP: usize = NPROB + 6;

fn make(k: usize) -> Problem {
    let f = || Box::new(|_: &mut f64, _: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<CooMat<f64>>, _: &[f64]| ());
    if k < NPROB { return problem(k); }
    if k >= NP { return Problem::Nlp(big(k - NP)); }
    match k - NPROB {
        0 => Problem::Nlp(ProblemNlp::new(CooMat::from_nnz((3, 3), 0), CooMat::from_nnz((0, 3), 0), vec![], CooMat::from_nnz((0, 3), 0), vec![], vec![-1e8, 0., f64::NEG_INFINITY], vec![1e8, f64::INFINITY, -2.], Some(vec![0.25, -7., 1e3]), f())),
        1 => Problem::Nlp(ProblemNlp::new(CooMat::from_nnz((2, 2), 1), CooMat::from_nnz((3, 2), 4), vec![1., 2., 3.], CooMat::from_nnz((2, 2), 3), vec![CooMat::from_nnz((2, 2), 1), CooMat::from_nnz((2, 2), 2)], vec![0., 0.], vec![0., 1.], None, f())),
        4 | 5 => {
            let (n, na, nf) = if k - NPROB == 4 { (70, 33, 21) } else { (300, 140, 150) };
            Problem::Nlp(ProblemNlp::new(CooMat::from_nnz((n, n), 5), CooMat::from_nnz((na, n), 400), (0..na).map(|i| i as f64).collect(), CooMat::from_nnz((nf, n), 90), (0..nf).map(|i| CooMat::from_nnz((n, n), i % 3)).collect(),
                (0..n).map(|i| -1. - i as f64).collect(), (0..n).map(|i| 2. + i as f64).collect(), Some((0..n).map(|i| 0.5 * i as f64).collect()), f()))
        }
        2 => Problem::Milp(ProblemMilp::new(vec![1.], CooMat::from_nnz((0, 1), 0), vec![], vec![0.], vec![1.], vec![true], None)),
        _ => Problem::Minlp(ProblemMinlp::new(CooMat::from_nnz((1, 1), 0), CooMat::from_nnz((0, 1), 0), vec![], CooMat::from_nnz((0, 1), 0), vec![], vec![0.], vec![1.], vec![false], None, f())),
    }
}

/// Problems with more variables, rows or entries than 16 bits can count: (variables, linear rows, nonlinear rows, entries per row)
const BIG: &[(usize, usize, usize, usize)] = &[(70000, 1, 0, 70000), (66000, 66000, 1, 1), (300, 400, 7, 200), (40000, 2, 40000, 2), (257, 3, 260, 257), (65537, 0, 1, 3), (131073, 1, 1, 2)];

fn big(k: usize) -> ProblemNlp {
    let (n, na, nf, per) = BIG[k];
    let at = |i: usize, t: usize| (i * 31 + t) % n;
    let ents = |m: usize| -> (Vec<usize>, Vec<usize>) { (0..m).flat_map(|i| (0..per).map(move |t| (i, at(i, t)))).unzip() };
    let (ar, ac) = ents(na);
    let av: Vec<f64> = (0..ar.len()).map(|t| 1. + (t % 7) as f64).collect();
    let (jr, jc) = ents(nf);
    let h: Vec<CooMat<f64>> = (0..nf).map(|i| CooMat::new((n, n), (0..3).map(|t| at(i, t).max(i % n)).collect(), (0..3).map(|t| at(i, t).min(i % n)).collect(), vec![0.; 3])).collect();
    let (jr2, jc2) = (jr.clone(), jc.clone());
    ProblemNlp::new(CooMat::new((n, n), (0..n).collect(), (0..n).collect(), vec![0.; n]), CooMat::new((na, n), ar, ac, av), (0..na).map(|i| i as f64).collect(),
        CooMat::new((nf, n), jr, jc, vec![0.; jr2.len()]), h, (0..n).map(|i| -1. - i as f64).collect(), (0..n).map(|i| 2. + i as f64).collect(), Some((0..n).map(|i| 0.5 * i as f64).collect()),
        Box::new(move |phi: &mut f64, g: &mut Vec<f64>, hp: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
            *phi = x[0] + 2. * x[x.len() - 1];
            for (i, d) in g.iter_mut().enumerate() { *d = 3. * x[i]; }
            for (i, d) in hp.data_mut().iter_mut().enumerate() { *d = x[i] - 1.; }
            for (i, d) in f.iter_mut().enumerate() { *d = x[i % x.len()] + i as f64; }
            for (t, d) in j.data_mut().iter_mut().enumerate() { *d = x[jc2[t]] + jr2[t] as f64; }
            for (i, m) in h.iter_mut().enumerate() { for (t, d) in m.data_mut().iter_mut().enumerate() { *d = x[0] + (i + t) as f64; } }
        }))
}

/// All callbacks of a problem at one point, against the problem's own evaluation.
fn everything(p: &stub::Prob, data: *mut libc::c_void, r: &mut ProblemNlp) -> Res {
    use std::collections::HashMap;
    let (n, na, nf) = (r.nx(), r.na(), r.nf());
    let x: Vec<f64> = (0..n).map(|i| (i % 13) as f64 - 5.5).collect();
    let nu: Vec<f64> = (0..nf).map(|i| 1. + (i % 3) as f64).collect();
    let lam: Vec<f64> = vec![7.; na].into_iter().chain(nu.iter().cloned()).collect();
    r.evaluate(&x);
    r.combine_h(&nu);
    let (mut f, mut g, mut con) = (0., vec![0.; n], vec![0.; na + nf]);
    let null = std::ptr::null_mut();
    ck!((p.f)(p.n, x.as_ptr(), 1, &mut f, data) == 1 && (p.grad)(p.n, x.as_ptr(), 0, g.as_mut_ptr(), data) == 1 && (p.g)(p.n, x.as_ptr(), 0, p.m, con.as_mut_ptr(), data) == 1, "a call is refused");
    ck!(f == r.phi() && g == r.gphi(), "objective or gradient differs");
    let mut ax = vec![0.; na];
    for (i, j, v) in r.a().iter() { ax[*i] += v * x[*j]; }
    for i in 0..na { ck!((con[i] - (ax[i] - r.b()[i])).abs() <= 1e-9 * (1. + 1e3 * ax[i].abs() + r.b()[i].abs()), "linear row {} is {:e} instead of {:e}", i, con[i], ax[i] - r.b()[i]); }
    ck!(con[na..] == r.f()[..], "nonlinear rows differ");
    type M = HashMap<(i32, i32), f64>;
    let mut want: [M; 2] = Default::default();
    for (i, j, v) in r.a().iter() { *want[0].entry((*i as i32, *j as i32)).or_insert(0.) += v; }
    for (i, j, v) in r.j().iter() { *want[0].entry(((na + i) as i32, *j as i32)).or_insert(0.) += v; }
    for (i, j, v) in r.hphi().iter() { *want[1].entry((*i as i32, *j as i32)).or_insert(0.) += 0.5 * v; }
    for (i, j, v) in r.hcomb().iter() { *want[1].entry((*i as i32, *j as i32)).or_insert(0.) += v; }
    for (k, nz) in [p.nj, p.nh].iter().enumerate() {
        ck!(*nz >= 0, "a negative number of entries");
        let (mut ir, mut jc, mut v) = (vec![-1; *nz as usize], vec![-1; *nz as usize], vec![f64::NAN; *nz as usize]);
        let (xp, lp) = (x.as_ptr(), lam.as_ptr());
        let ok = if k == 0 { (p.jac)(p.n, std::ptr::null(), 0, p.m, *nz, ir.as_mut_ptr(), jc.as_mut_ptr(), null, data) == 1 && (p.jac)(p.n, xp, 0, p.m, *nz, null as *mut i32, null as *mut i32, v.as_mut_ptr(), data) == 1 }
            else { (p.h)(p.n, std::ptr::null(), 0, 0.5, p.m, std::ptr::null(), 0, *nz, ir.as_mut_ptr(), jc.as_mut_ptr(), null, data) == 1 && (p.h)(p.n, xp, 0, 0.5, p.m, lp, 1, *nz, null as *mut i32, null as *mut i32, v.as_mut_ptr(), data) == 1 };
        ck!(ok, "the {} with the announced number of entries is refused", ["Jacobian", "Hessian"][k]);
        let mut got = M::new();
        for t in 0..v.len() { *got.entry((ir[t], jc[t])).or_insert(0.) += v[t]; }
        for (e, w) in &want[k] { let q = got.get(e).cloned().unwrap_or(0.); ck!((q - w).abs() <= 1e-9 * (1. + w.abs()), "{} entry {:?} is {:e} instead of {:e}", ["Jacobian", "Hessian"][k], e, q, w); }
        for e in got.keys() { ck!(want[k].contains_key(e), "{} has an entry {:?}", ["Jacobian", "Hessian"][k], e); }
    }
    Ok(())
}

fn val(v: usize, vec: usize, i: usize) -> f64 {
    let b = (vec + 1) as f64 * 100. + i as f64 + 0.5;
    match v { 0 => b, 1 => -b, 2 => if i % 2 == 0 { 0. } else { b * 1e-7 }, _ => if vec == 3 || vec == 4 { b * 1e6 } else { -b / 3. } }
}

fn short(x: &dyn std::fmt::Debug) -> String { format!("{:?}", x).chars().take(2000).collect() }

fn step(s: &mut SolverIpopt, st: &Step) -> Result<u64, Fail> {
    // parameters; a fresh solver's own where not stated
    let fresh = SolverIpopt::new();
    *s.get_params_mut() = fresh.get_params().clone();
    let ok = |r: Result<(), simple_error::SimpleError>| r.map_err(|e| Fail::from(format!("set_param: {}", e)));
    let (mut level, mut sb) = (None, None);
    match st.par {
        Par::Default => (),
        Par::Level(i) => { ok(s.set_param("print_level", SolverParam::IntParam(i)))?; level = Some(i); }
        Par::Sb(t) => { ok(s.set_param("sb", SolverParam::StrParam(t.to_string())))?; sb = Some(t); }
        Par::Both(i, t) => { ok(s.set_param("sb", SolverParam::StrParam(t.to_string())))?; ok(s.set_param("print_level", SolverParam::IntParam(i)))?; level = Some(i); sb = Some(t); }
        Par::Missing(k) => { s.get_params_mut().remove(k); }
        Par::WrongType(k) => { s.get_params_mut().insert(k.to_string(), SolverParam::FloatParam(1.)); }
    }
    stub::reset();
    let out: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
    let o2 = out.clone();
    let st2 = st.clone();
    let x0: Rc<RefCell<Vec<f64>>> = Rc::new(RefCell::new(Vec::new()));
    let x2 = x0.clone();
    stub::with(|q| {
        q.fail_create = st.create_fails;
        q.refuse = st.refuse.iter().map(|s| s.to_string()).collect();
        q.script = Some(Box::new(move |c: &Call| {
            let (n, m) = (c.p.n as usize, c.p.m as usize);
            if c.x.is_null() || c.data.is_null() { *o2.borrow_mut() = Err("null start or data".into()); return -199; }
            unsafe {
                *x2.borrow_mut() = std::slice::from_raw_parts(c.x, n).to_vec();
                if st2.evals && st2.prob < NPROB {
                    let mut g = vec![0.; n];
                    let r = (c.p.grad)(c.p.n, PTS[0].as_ptr(), 1, g.as_mut_ptr(), c.data);
                    if r != 1 { *o2.borrow_mut() = Err("gradient refused".into()); }
                }
                if st2.prob >= NP { if let Err(e) = everything(c.p, c.data, &mut big(st2.prob - NP)) { *o2.borrow_mut() = Err(e); return -199; } }
                for i in 0..n {
                    *c.x.add(i) = val(st2.vals, 0, i);
                    if !c.zl.is_null() { *c.zl.add(i) = val(st2.vals, 4, i); }
                    if !c.zu.is_null() { *c.zu.add(i) = val(st2.vals, 3, i); }
                }
                for i in 0..m { if !c.lam.is_null() { *c.lam.add(i) = val(st2.vals, 1, i); } if !c.g.is_null() { *c.g.add(i) = 0.; } }
                if !c.obj.is_null() { *c.obj = 1.; }
            }
            st2.code
        }));
    });
    let mut p = make(st.prob);
    let (n, na, nf, l, u, start) = match &p {
        Problem::Nlp(q) if st.prob >= NP => (q.nx(), q.na(), q.nf(), q.l().to_vec(), q.u().to_vec(), q.x0().map(|x| x.to_vec())),
        _ => { let sd = std_of(&mut p)?; (sd.n, sd.b.len(), sd.nf, sd.l, sd.u, sd.x0) }
    };
    let res = catch(|| s.solve(&mut p)).map_err(|e| Fail::from(format!("panic: {}", e)))?;
    out.borrow().clone()?;
    // whatever happened: created objects are released exactly once
    let (probs, errs, late) = stub::with(|q| (std::mem::take(&mut q.probs), q.errors.clone(), q.options_after_solve));
    ck!(errs.is_empty(), "{}", errs[0]);
    for q in &probs { ck!(q.freed == 1, "a problem object is released {} times", q.freed); }
    let fails = st.create_fails || !st.refuse.is_empty() || matches!(st.par, Par::Missing(_) | Par::WrongType(_)) || sb.map(|t| t.contains('\0')).unwrap_or(false) || st.prob == NPROB + 2 || st.prob == NPROB + 3;
    if fails {
        ck!(res.is_err(), "no error although the solve cannot be set up");
        ck!(probs.iter().all(|q| q.solves == 0), "it solves although the set-up failed");
        return Ok(1);
    }
    let (status, sol): (SolverStatus, ProblemSol) = match res { Ok(r) => r, Err(e) => bad!("an error ({}) although nothing failed", e) };
    ck!(probs.len() == 1 && probs[0].solves == 1, "{} problem objects and {} solves", probs.len(), probs.iter().map(|q| q.solves).sum::<u32>());
    let q = &probs[0];
    // the problem
    ck!(q.n as usize == n && q.m as usize == na + nf, "Ipopt is told {} variables and {} constraints instead of {} and {}", q.n, q.m, n, na + nf);
    ck!(q.l == l && q.u == u, "limits {} instead of {}", short(&(&q.l, &q.u)), short(&(&l, &u)));
    ck!(q.gl == vec![0.; na + nf] && q.gu == vec![0.; na + nf], "constraint limits {:?} {:?}", q.gl, q.gu);
    ck!(q.style == 0, "index style {}", q.style);
    ck!(q.nj >= 0 && q.nh >= 0, "negative numbers of entries");
    ck!(*x0.borrow() == start.clone().unwrap_or(vec![0.; n]), "start {} instead of {}", short(&x0.borrow()), short(&start));
    // the options
    let fi = match fresh.get_param("print_level") { Some(SolverParam::IntParam(i)) => *i, _ => bad!("no print_level") };
    let fs = match fresh.get_param("sb") { Some(SolverParam::StrParam(t)) => t.clone(), _ => bad!("no sb") };
    let want = (level.unwrap_or(fi), sb.map(|t| t.to_string()).unwrap_or(fs));
    ck!(q.ints.iter().filter(|o| o.0 == "print_level").map(|o| o.1).collect::<Vec<_>>().last() == Some(&want.0), "integer options {:?} instead of print_level {}", q.ints, want.0);
    ck!(q.strs.iter().filter(|o| o.0 == "sb").map(|o| o.1.clone()).collect::<Vec<_>>().last() == Some(&want.1), "string options {:?} instead of sb {:?}", q.strs, want.1);
    ck!(late == 0, "options are set after the solve");
    // the result
    let ws = match st.code { 0 | 1 => SolverStatus::Solved, 2 => SolverStatus::Infeasible, _ => SolverStatus::Error };
    ck!(status == ws, "return code {} is reported as {:?}", st.code, status);
    ck!(sol.x.len() == n && sol.pi.len() == n && sol.mu.len() == n && sol.lam.len() == na && sol.nu.len() == nf, "result of wrong dimensions");
    if ws == SolverStatus::Solved {
        let v = |vec: usize, i: usize| val(st.vals, vec, i);
        for i in 0..n {
            ck!(sol.x[i] == v(0, i), "x_{} is {:e}, Ipopt said {:e}", i, sol.x[i], v(0, i));
            ck!(sol.pi[i] == v(4, i), "lower-limit multiplier {} is {:e}, Ipopt said {:e}", i, sol.pi[i], v(4, i));
            ck!(sol.mu[i] == v(3, i), "upper-limit multiplier {} is {:e}, Ipopt said {:e}", i, sol.mu[i], v(3, i));
        }
        for i in 0..na { ck!(sol.lam[i] == -v(1, i), "multiplier of linear row {} is {:e}, Ipopt said {:e} with its opposite sign", i, sol.lam[i], v(1, i)); }
        for i in 0..nf { ck!(sol.nu[i] == -v(1, na + i), "multiplier of nonlinear row {} is {:e}, Ipopt said {:e} with its opposite sign", i, sol.nu[i], v(1, na + i)); }
    }
    // a problem object can be used again: its evaluation is not disturbed
    if st.prob < NPROB {
        let r = reference(st.prob, &PTS[1])?;
        let w = evaluate(&mut p, &PTS[1][..n]);
        ck!(w.phi == r.phi && w.gphi == r.g && w.f[..] == r.con[na..], "the problem evaluates differently after the solve");
    }
    Ok(2 + hash_f64s(&sol.x) % 1000 + st.code as u64 % 1000)
}

fn history(c: &mut Ctx, h: &[Step]) -> Res {
    let mut s = SolverIpopt::new();
    for (i, st) in h.iter().enumerate() {
        let k = step(&mut s, st).map_err(|e| if h.len() > 1 { Fail::from(format!("solve {}: {}", i, e.msg)) } else { e })?;
        c.state(hash_u64s(&[k, st.prob as u64, hash_str(&format!("{:?}{:?}{}", st.par, st.refuse, st.create_fails))]));
        c.step(1);
        if st.code != 0 || st.create_fails || !st.refuse.is_empty() || st.par != Par::Default { c.nontrivial(); }
    }
    c.trace();
    Ok(())
}

pub const PARS: &[Par] = &[Par::Default, Par::Level(0), Par::Level(12), Par::Level(-1), Par::Level(i32::MAX), Par::Sb("yes"), Par::Sb(""), Par::Both(3, "a b"), Par::Both(0, "yes"), Par::Sb("y\0es"), Par::Sb("\0"),
    Par::Missing("print_level"), Par::Missing("sb"), Par::WrongType("print_level"), Par::WrongType("sb")];

fn run(c: &mut Ctx) {
    let refusals: [&[&'static str]; 4] = [&[], &["print_level"], &["sb"], &["print_level", "sb"]];
    let go = |c: &mut Ctx, h: &[Step]| { c.case(|| format!("{:?}", h), |c| history(c, h)); !c.done() };
    let mut codes: Vec<i32> = (-220..=30).collect();
    codes.extend_from_slice(&[i32::MIN, i32::MAX, 256, 65536, 1000, -1000]);
    c.section("every return code");
    for k in 0..NP { for code in &codes { for vals in 0..4 { for evals in [false, true] {
        if !go(c, &[Step { prob: k, par: Par::Default, create_fails: false, refuse: vec![], code: *code, vals, evals }]) { return; }
    } } } }
    c.section("every failure of the set-up");
    let mut all: Vec<Step> = Vec::new();
    for k in 0..NP { for par in PARS { for cf in [false, true] { for r in refusals { for code in [0, 1, 2, -1] {
        let s = Step { prob: k, par: *par, create_fails: cf, refuse: r.to_vec(), code, vals: (k + code as usize % 4) % 4, evals: k % 2 == 0 };
        if !go(c, &[s.clone()]) { return; }
        all.push(s);
    } } } } }
    c.section("very large problems");
    for k in 0..BIG.len() { for code in [0, 1, 2, -1] { for vals in 0..c.pick(1, 4) {
        let s = Step { prob: NP + k, par: Par::Default, create_fails: false, refuse: vec![], code, vals, evals: false };
        c.case(|| format!("{:?} with {:?} variables, linear rows, nonlinear rows, entries per row", s, BIG[k]), |c| history(c, &[s.clone()]));
        if c.done() { return; }
    } } }
    c.section("histories of two solves");
    let small: Vec<Step> = all.iter().filter(|s| [0, 2, 6, 9, NPROB, NPROB + 1, NPROB + 2].contains(&s.prob)).cloned().collect();
    let few: Vec<Step> = small.iter().filter(|s| [0, 6, NPROB + 1].contains(&s.prob) && s.code <= 1).cloned().collect();
    let (first, second) = if c.thorough() { (&small, &small) } else { (&few, &few) };
    for a in first { for b in second { if !go(c, &[a.clone(), b.clone()]) { return; } } }
    if c.thorough() {
        c.section("histories of three solves");
        let tiny: Vec<Step> = few.iter().filter(|s| s.code == 0 || s.code == -1).cloned().step_by(3).collect();
        for a in &tiny { for b in &tiny { for d in &tiny { if !go(c, &[a.clone(), b.clone(), d.clone()]) { return; } } } }
    }
    c.section("very long histories");
    let len = c.pick(60, 300);
    for al in [&small, &all, &few] { for stride in [1usize, 7, 11, 13, 29, 61, 97, 101] { for off in 0..c.pick(4, 20) {
        let h: Vec<Step> = (0..len).map(|t| al[(off * 17 + t * stride + t * t / 5) % al.len()].clone()).collect();
        c.case(|| format!("{} of {} solves, every {}th from {}", len, al.len(), stride, off * 17), |c| history(c, &h));
        if c.done() { return; }
    } } }
}
