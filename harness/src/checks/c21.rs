//! C21: all views of a problem agree, after every sequence of evaluations through them.

use crate::checks::c06::{sequences, FUN};
use crate::checks::c08::{tuples, Data};
use crate::ck;
use crate::expr::close;
use crate::fw::*;
use crate::model::*;
use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C21", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one problem and one sequence of evaluations and combinations, each through one of its views; after every operation the data and dimensions of all views are compared with what was given, and the values of the view just used with the expected ones; non-trivial: the sequence uses two different views",
        assumptions: &["relative tolerance 1e-12 of the sum of magnitudes for linear objectives, 1e-9 for nonlinear values"],
    }
}

/// Everything a view shows that is not an evaluation result; x0, a, b, l, u, p, nx, na, nf.
#[derive(PartialEq, Debug, Clone)]
struct Shown { x0: Option<Vec<f64>>, c: Option<Vec<f64>>, shape: (usize, usize), a: Vec<(usize, usize, f64)>, b: Vec<f64>, l: Vec<f64>, u: Vec<f64>, p: Option<Vec<bool>>, nx: usize, na: usize, nf: Option<usize>,
    hphi: Option<(usize, usize, Vec<(usize, usize)>)>, j: Option<(usize, usize, Vec<(usize, usize)>)>, h: Option<Vec<Vec<(usize, usize)>>> }

fn ent(m: &CooMat<f64>) -> Vec<(usize, usize, f64)> { m.iter().map(|(i, j, v)| (*i, *j, *v)).collect() }
fn pat(m: &CooMat<f64>) -> (usize, usize, Vec<(usize, usize)>) { (m.rows(), m.cols(), m.iter().map(|(i, j, _)| (*i, *j)).collect()) }

macro_rules! basics { ($q:expr) => { Shown { x0: $q.x0().map(|z| z.to_vec()), c: None, shape: ($q.a().rows(), $q.a().cols()), a: ent($q.a()), b: $q.b().to_vec(), l: $q.l().to_vec(), u: $q.u().to_vec(), p: None,
    nx: $q.nx(), na: $q.na(), nf: None, hphi: None, j: None, h: None } } }
macro_rules! nonlin { ($s:expr, $q:expr) => { { $s.nf = Some($q.nf()); $s.hphi = Some(pat($q.hphi())); $s.j = Some(pat($q.j())); $s.h = Some($q.h().iter().map(|m| pat(m).2).collect()); } } }

fn sh_lp(q: &ProblemLp) -> Shown { let mut s = basics!(q); s.c = Some(q.c().to_vec()); s }
fn sh_milp(q: &ProblemMilp) -> Shown { let mut s = basics!(q); s.c = Some(q.c().to_vec()); s.p = Some(q.p().to_vec()); s }
fn sh_nlp(q: &ProblemNlp) -> Shown { let mut s = basics!(q); nonlin!(s, q); s }
fn sh_minlp(q: &ProblemMinlp) -> Shown { let mut s = basics!(q); s.p = Some(q.p().to_vec()); nonlin!(s, q); s }

const VIEWS: [&str; 7] = ["itself", "milp", "nlp", "minlp", "milp as minlp", "nlp as minlp", "nlp, then minlp"];

/// Views of each class: indices into VIEWS.
fn views(p: &Problem) -> Vec<usize> {
    match p { Problem::Lp(_) => vec![0, 1, 2, 3, 4, 5], Problem::Milp(_) => vec![0, 3], Problem::Nlp(_) => vec![0, 3], Problem::Minlp(_) => vec![0] }
}
fn shown(p: &mut Problem, v: usize) -> Shown {
    match p {
        Problem::Lp(q) => match v { 0 => sh_lp(q), 1 => sh_milp(q.as_mut_milp()), 2 => sh_nlp(q.as_mut_nlp()), 3 => sh_minlp(q.as_mut_minlp()), 4 => sh_minlp(q.as_mut_milp().as_mut_minlp()), _ => sh_minlp(q.as_mut_nlp().as_mut_minlp()) },
        Problem::Milp(q) => match v { 0 => sh_milp(q), _ => sh_minlp(q.as_mut_minlp()) },
        Problem::Nlp(q) => match v { 0 => sh_nlp(q), _ => sh_minlp(q.as_mut_minlp()) },
        Problem::Minlp(q) => sh_minlp(q),
    }
}
fn nvals(q: &ProblemNlp) -> Vals { Vals { phi: q.phi(), gphi: q.gphi().to_vec(), hphi: q.hphi().clone(), f: q.f().to_vec(), j: q.j().clone(), h: q.h().clone(), hcomb: q.hcomb().clone() } }

/// Evaluates (or combines) through a view; None if the view cannot.
fn through(p: &mut Problem, v: usize, x: Option<&[f64]>, nu: &[f64]) -> Option<Vals> {
    macro_rules! mi { ($q:expr) => { { let q = $q; match x { Some(x) => q.evaluate(x), None => q.combine_h(nu) } Some(vals(q)) } } }
    macro_rules! nl { ($q:expr) => { { let q = $q; match x { Some(x) => q.evaluate(x), None => q.combine_h(nu) } Some(nvals(q)) } } }
    match p {
        Problem::Lp(q) => match v { 2 => nl!(q.as_mut_nlp()), 3 => mi!(q.as_mut_minlp()), 4 => mi!(q.as_mut_milp().as_mut_minlp()), 5 => mi!(q.as_mut_nlp().as_mut_minlp()), _ => None },
        Problem::Milp(q) => match v { 3 => mi!(q.as_mut_minlp()), _ => None },
        Problem::Nlp(q) => match v { 0 => nl!(q), 3 => mi!(q.as_mut_minlp()), _ => None },
        Problem::Minlp(q) => mi!(q),
    }
}

fn agree(p: &mut Problem, first: &Shown, want_p: &[bool]) -> Res {
    for v in views(p) {
        let s = shown(p, v);
        ck!(s.x0 == first.x0, "starting point of {} is {:?} instead of {:?}", VIEWS[v], s.x0, first.x0);
        ck!(s.shape == first.shape && s.a == first.a, "matrix of {} is {:?} {:?} instead of {:?} {:?}", VIEWS[v], s.shape, s.a, first.shape, first.a);
        ck!(s.b == first.b, "right-hand side of {} is {:?} instead of {:?}", VIEWS[v], s.b, first.b);
        ck!(s.l == first.l, "lower limits of {} are {:?} instead of {:?}", VIEWS[v], s.l, first.l);
        ck!(s.u == first.u, "upper limits of {} are {:?} instead of {:?}", VIEWS[v], s.u, first.u);
        ck!(s.nx == first.nx && s.na == first.na, "dimensions of {} are {}, {} instead of {}, {}", VIEWS[v], s.nx, s.na, first.nx, first.na);
        if let Some(q) = &s.p { ck!(q == want_p, "integer pattern of {} is {:?} instead of {:?}", VIEWS[v], q, want_p); }
        if first.c.is_some() && s.c.is_some() { ck!(s.c == first.c, "costs of {} are {:?} instead of {:?}", VIEWS[v], s.c, first.c); }
        if first.c.is_some() {
            if let Some(nf) = s.nf { ck!(nf == 0, "{} of a linear problem has {} nonlinear constraints", VIEWS[v], nf); }
            if let Some((r, c, e)) = &s.hphi { ck!(e.is_empty() && (*r, *c) == (first.nx, first.nx), "{} of a linear problem has a Hessian {} x {} with {} entries", VIEWS[v], r, c, e.len()); }
            if let Some((r, c, e)) = &s.j { ck!(e.is_empty() && *r == 0 && *c == first.nx, "{} of a linear problem has a Jacobian {} x {} with {} entries", VIEWS[v], r, c, e.len()); }
            if let Some(h) = &s.h { ck!(h.is_empty(), "{} of a linear problem has constraint Hessians", VIEWS[v]); }
        } else {
            ck!(s.nf == first.nf && s.hphi == first.hphi && s.j == first.j && s.h == first.h, "structure of {} differs", VIEWS[v]);
        }
    }
    Ok(())
}

fn point(n: usize, k: usize) -> Vec<f64> { (0..n).map(|j| match k { 0 => 0.5 + j as f64, 1 => -1.25 * (j as f64 + 1.), 2 => 0., _ => if j % 2 == 0 { 1e3 } else { -1e-3 } }).collect() }

/// Operations: (view, point) pairs and one combination per view.
fn ops(p: &mut Problem, npts: usize) -> Vec<(usize, Option<usize>)> {
    let mut o = Vec::new();
    for v in views(p) {
        let can = match (&*p, v) { (Problem::Lp(_), 0) | (Problem::Lp(_), 1) | (Problem::Milp(_), 0) => false, _ => true };
        if !can { continue; }
        for k in 0..npts { o.push((v, Some(k))); }
        o.push((v, None));
    }
    o
}

fn linear(c: &mut Ctx, mk: &dyn Fn() -> Problem, d: &Data, x0: &Option<Vec<f64>>, seq: &[(usize, Option<usize>)]) -> Res {
    let mut p = mk();
    let n = d.c.len();
    let first = Shown { x0: x0.clone(), c: Some(d.c.clone()), shape: (d.b.len(), n), a: d.a.clone(), b: d.b.clone(), l: d.l.clone(), u: d.u.clone(), p: None, nx: n, na: d.b.len(), nf: Some(0), hphi: None, j: None, h: None };
    agree(&mut p, &first, &d.p)?;
    for (v, k) in seq {
        let x = k.map(|k| point(n, k));
        let r = match through(&mut p, *v, x.as_deref(), &[]) { Some(r) => r, None => continue };
        c.step(1);
        if let Some(x) = &x {
            let w: f64 = d.c.iter().zip(x.iter()).map(|(a, b)| a * b).sum();
            let m: f64 = d.c.iter().zip(x.iter()).map(|(a, b)| (a * b).abs()).sum();
            ck!((r.phi - w).abs() <= 1e-12 * m, "objective through {} at {:?} is {:e} instead of {:e}", VIEWS[*v], x, r.phi, w);
            ck!(r.gphi == d.c, "gradient through {} is {:?} instead of {:?}", VIEWS[*v], r.gphi, d.c);
        }
        ck!(r.f.is_empty() && r.h.is_empty() && r.hcomb.nnz() == 0 && r.hphi.nnz() == 0 && r.j.nnz() == 0, "nonlinear parts through {}", VIEWS[*v]);
        agree(&mut p, &first, &d.p)?;
        c.state(hash_f64s(&[r.phi, d.c.iter().sum(), *v as f64]));
    }
    if seq.iter().any(|o| o.0 != seq[0].0) { c.nontrivial(); }
    c.trace();
    Ok(())
}

/// Models: whatever class they are of, all views agree with each other, at all points.
fn model(c: &mut Ctx, sp: &Spec, init: bool, seq: &[(usize, usize)]) -> Res {
    let mut b = sp.build();
    if init {
        let m = b.vars.iter().enumerate().map(|(i, v)| (v, 0.75 + i as f64)).collect();
        b.model.set_init_primals(&m);
    }
    let mut sd = b.model.std_problem_checked()?;
    let first = shown(&mut sd.prob, 0);
    let vs = views(&sd.prob);
    let lay = layout(&sd, &b.vars, first.nx)?;
    let wp: Vec<bool> = (0..first.nx).map(|i| lay.user[i].map(|k| sp.int[k]).unwrap_or(false)).collect();
    agree(&mut sd.prob, &first, &wp)?;
    if init { ck!(first.x0.is_some(), "no starting point"); }
    for (v, k) in seq {
        let v = vs[v % vs.len()];
        let x = point(first.nx, *k);
        let r = match through(&mut sd.prob, v, Some(&x), &[]) { Some(r) => r, None => continue };
        c.step(1);
        let mut u = [0.; 3];
        for i in 0..3 { if let Some(q) = lay.pos[i] { u[i] = x[q]; } }
        let nonlinear = first.c.is_none();
        if nonlinear {
            let j = sp.fmin(&u);
            if j.ok { ck!(close(r.phi, j.v, j.mv), "objective through {} at {:?} is {:e} instead of {:e}", VIEWS[v], x, r.phi, j.v); }
        }
        // all other views at the same point
        for w in &vs {
            let q = match through(&mut sd.prob, *w, Some(&x), &[]) { Some(q) => q, None => continue };
            c.step(1);
            let nan = |a: f64, b: f64| a.is_nan() && b.is_nan() || a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-12 * (1. + a.abs()) || a == b;
            ck!(nan(q.phi, r.phi), "objective through {} is {:e}, through {} {:e}", VIEWS[*w], q.phi, VIEWS[v], r.phi);
            ck!(q.gphi.len() == r.gphi.len() && q.gphi.iter().zip(r.gphi.iter()).all(|(a, b)| nan(*a, *b)), "gradient through {} is {:?}, through {} {:?}", VIEWS[*w], q.gphi, VIEWS[v], r.gphi);
            ck!(q.f.len() == r.f.len() && q.f.iter().zip(r.f.iter()).all(|(a, b)| nan(*a, *b)), "constraint values through {} are {:?}, through {} {:?}", VIEWS[*w], q.f, VIEWS[v], r.f);
        }
        agree(&mut sd.prob, &first, &wp)?;
    }
    c.state(hash_str(&sp.show()));
    c.trace();
    if vs.len() > 1 { c.nontrivial(); }
    Ok(())
}

/// Nonlinear problems made directly.
fn direct(c: &mut Ctx, minlp: bool, m: usize, x0: bool, seq: &[(usize, Option<usize>)]) -> Res {
    let n = 3;
    let f = Box::new(move |phi: &mut f64, g: &mut Vec<f64>, hp: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
        *phi = x[0] * x[0] + x[1];
        g[0] = 2. * x[0]; g[1] = 1.; g[2] = 0.;
        hp.data_mut()[0] = 2.;
        for i in 0..f.len() { f[i] = x[i % 3] * x[i % 3] - i as f64; }
        for (t, d) in j.data_mut().iter_mut().enumerate() { *d = 2. * x[t % 3]; }
        for hh in h.iter_mut() { for d in hh.data_mut().iter_mut() { *d = 2.; } }
    });
    let hp = CooMat::new((n, n), vec![0], vec![0], vec![0.]);
    let a = CooMat::new((2, n), vec![0, 1, 0], vec![1, 2, 1], vec![1., -1., 0.5]);
    let j = CooMat::new((m, n), (0..m).collect(), (0..m).map(|i| i % 3).collect(), vec![0.; m]);
    let h: Vec<CooMat<f64>> = (0..m).map(|i| CooMat::new((n, n), vec![i % 3], vec![i % 3], vec![0.])).collect();
    let s = if x0 { Some(vec![1., 2., 3.]) } else { None };
    let pp = vec![false, true, minlp];
    let mut p = if minlp { Problem::Minlp(ProblemMinlp::new(hp, a, vec![1., -1.], j, h, vec![-1., -2., -3.], vec![1., 2., 3.], pp.clone(), s.clone(), f)) }
        else { Problem::Nlp(ProblemNlp::new(hp, a, vec![1., -1.], j, h, vec![-1., -2., -3.], vec![1., 2., 3.], s.clone(), f)) };
    let wp = if minlp { pp } else { vec![false; 3] };
    let first = Shown { x0: s, c: None, shape: (2, 3), a: vec![(0, 1, 1.), (1, 2, -1.), (0, 1, 0.5)], b: vec![1., -1.], l: vec![-1., -2., -3.], u: vec![1., 2., 3.], p: None, nx: 3, na: 2, nf: Some(m),
        hphi: Some((3, 3, vec![(0, 0)])), j: Some((m, 3, (0..m).map(|i| (i, i % 3)).collect())), h: Some((0..m).map(|i| vec![(i % 3, i % 3)]).collect()) };
    agree(&mut p, &first, &wp)?;
    let nu: Vec<f64> = (0..m).map(|i| i as f64 - 0.5).collect();
    let mut cur: Option<Vec<f64>> = None;
    for (v, k) in seq {
        let x = k.map(|k| point(n, k));
        let r = match through(&mut p, *v, x.as_deref(), &nu) { Some(r) => r, None => continue };
        if x.is_some() { cur = x.clone(); }
        c.step(1);
        if let Some(x) = &cur {
            // both views are one object: the other one shows the same values
            for w in views(&p) {
                let q = match (&mut p, w) { (Problem::Nlp(q), 0) => nvals(q), (Problem::Nlp(q), _) => vals(q.as_mut_minlp()), (Problem::Minlp(q), _) => vals(q), _ => continue };
                ck!(q.phi == x[0] * x[0] + x[1] && q.gphi == [2. * x[0], 1., 0.], "objective or gradient through {} is {:e} {:?}", VIEWS[w], q.phi, q.gphi);
                for i in 0..m { ck!(q.f[i] == x[i % 3] * x[i % 3] - i as f64 && q.j.data()[i] == 2. * x[i % 3], "constraint values through {}: {:?} {:?}", VIEWS[w], q.f, q.j.data()); }
                if k.is_none() { for i in 0..m { ck!(r.hcomb.data().len() == q.hcomb.data().len(), "combined Hessian"); let d = dense(&q.hcomb)?; let _ = i; let mut t = vec![0.; 3]; for z in 0..m { t[z % 3] += 2. * nu[z]; }
                    for z in 0..3 { ck!((d[z][z] - t[z]).abs() < 1e-12, "combined Hessian through {}: {:?}", VIEWS[w], d); } } }
            }
        }
        agree(&mut p, &first, &wp)?;
        c.state(hash_f64s(&[r.phi, m as f64]));
    }
    c.trace();
    if seq.iter().any(|o| o.0 != seq[0].0) { c.nontrivial(); }
    Ok(())
}

/// Models of many variables: all views agree with each other and with the model.
fn wide(c: &mut Ctx, w: &crate::widemodel::Wm, init: bool) -> Res {
    let mut b = w.build();
    if init {
        let m = b.vars.iter().zip(w.base.iter().cloned()).collect();
        b.model.set_init_primals(&m);
    }
    let mut sd = b.model.std_problem_checked()?;
    let first = shown(&mut sd.prob, 0);
    let vs = views(&sd.prob);
    let lay = layout(&sd, &b.vars, first.nx)?;
    let wp: Vec<bool> = (0..first.nx).map(|i| lay.user[i].map(|k| w.int[k]).unwrap_or(false)).collect();
    if init { for (i, p) in lay.pos.iter().enumerate() { if let (Some(p), Some(x0)) = (p, &first.x0) { ck!(x0[*p] == w.base[i], "the starting value of variable {} is {:e} instead of {:e}", i, x0[*p], w.base[i]); } } ck!(first.x0.is_some(), "no starting point"); }
    let n = first.nx;
    let mut shift: Option<f64> = None;
    for k in 0..vs.len() * 3 {
        let v = vs[k % vs.len()];
        let x: Vec<f64> = (0..n).map(|i| 0.0625 * ((i * (3 + 2 * (k % 5))) % 37) as f64 - 1.).collect();
        let user: Vec<f64> = (0..w.n).map(|i| lay.pos[i].map_or(0., |q| x[q])).collect();
        let nu: Vec<f64> = (0..first.nf.unwrap_or(0)).map(|i| 1. - 0.25 * i as f64).collect();
        let r = match through(&mut sd.prob, v, Some(&x), &nu) { Some(r) => r, None => continue };
        let d = r.phi - w.objective(&user);
        let s = *shift.get_or_insert(d);
        ck!((d - s).abs() <= 1e-9 * (1. + r.phi.abs() + s.abs()), "objective through {} is off by {:e}, elsewhere by {:e}", VIEWS[v], d, s);
        let r = match through(&mut sd.prob, v, None, &nu) { Some(r) => r, None => continue };
        for o in &vs {
            if through(&mut sd.prob, *o, Some(&x), &nu).is_none() { continue; }
            let q = match through(&mut sd.prob, *o, None, &nu) { Some(q) => q, None => continue };
            c.step(1);
            ck!(close(q.phi, r.phi, r.phi.abs()) && q.gphi == r.gphi && q.f == r.f, "values through {} and {} differ", VIEWS[*o], VIEWS[v]);
            ck!(q.j.data() == r.j.data() && q.hphi.data() == r.hphi.data() && dense(&q.hcomb)? == dense(&r.hcomb)?, "derivatives through {} and {} differ", VIEWS[*o], VIEWS[v]);
        }
        agree(&mut sd.prob, &first, &wp)?;
    }
    c.trace();
    c.state(hash_str(&w.show()));
    if vs.len() > 1 { c.nontrivial(); }
    Ok(())
}

fn run(c: &mut Ctx) {
    c.section("linear problems made directly, all data patterns");
    let vals: &[f64] = &[1., -1., 2.5, 0.];
    let maxe = c.pick(2, 3);
    for n in 0..=3usize { for na in 0..=2usize {
        let cells: Vec<(usize, usize)> = (0..na).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
        for e in 0..=maxe {
            if e > 0 && cells.is_empty() { break; }
            let mut sets: Vec<Vec<(usize, usize)>> = Vec::new();
            if e == 0 { sets.push(vec![]); } else { tuples(&cells, e, &mut |t| sets.push(t.to_vec())); }
            for (q, s) in sets.iter().enumerate() { for r in 0..4usize { for pm in 0..(1usize << n) { for x0 in [false, true] { for milp in [false, true] {
                if c.done() { return; }
                if !milp && pm > 0 { continue; }
                let m = q + r;
                let d = Data { c: (0..n).map(|j| [0., 1., -2., 0.1][(m + j) % 4]).collect(), a: s.iter().enumerate().map(|(k, x)| (x.0, x.1, vals[(k + m) % 4])).collect(), b: (0..na).map(|i| [0., 3., -1.5][(m + i) % 3]).collect(),
                    l: (0..n).map(|j| [-1e8, 0., -2., f64::NEG_INFINITY][(m + 3 * j) % 4]).collect(), u: (0..n).map(|j| [1e8, 5., f64::INFINITY][(m + j) % 3]).collect(), p: (0..n).map(|j| pm >> j & 1 == 1).collect() };
                let s0 = if x0 { Some((0..n).map(|j| j as f64 - 0.5).collect::<Vec<f64>>()) } else { None };
                let mk = || { let a = CooMat::new((na, n), d.a.iter().map(|e| e.0).collect(), d.a.iter().map(|e| e.1).collect(), d.a.iter().map(|e| e.2).collect());
                    if milp { Problem::Milp(ProblemMilp::new(d.c.clone(), a, d.b.clone(), d.l.clone(), d.u.clone(), d.p.clone(), s0.clone())) }
                    else { Problem::Lp(ProblemLp::new(d.c.clone(), a, d.b.clone(), d.l.clone(), d.u.clone(), s0.clone())) } };
                let o = ops(&mut mk(), 2);
                let seqs: Vec<Vec<(usize, Option<usize>)>> = if q % 8 == 0 { let mut z = Vec::new(); sequences(o.len(), 2, &mut |t| { z.push(t.iter().map(|i| o[*i]).collect()); true }); z } else { vec![o.clone(), o.iter().rev().cloned().collect()] };
                for sq in &seqs { c.case(|| format!("{} {:?} x0 {:?}: {:?}", if milp { "milp" } else { "lp" }, d, s0, sq), |c| linear(c, &mk, &d, &s0, sq)); }
            } } } } }
        }
    } }
    c.section("long sequences of evaluations");
    let d = Data { c: vec![1., -2., 0.5], a: vec![(0, 0, 1.), (1, 2, 2.), (0, 0, 3.)], b: vec![1., 2.], l: vec![-1., 0., -5.], u: vec![1e8, 4., 5.], p: vec![false; 3] };
    let dm = Data { p: vec![false, true, true], ..d.clone() };
    for (milp, d) in [(false, &d), (true, &dm)] {
        let mk = || { let a = CooMat::new((2, 3), vec![0, 1, 0], vec![0, 2, 0], vec![1., 2., 3.]);
            if milp { Problem::Milp(ProblemMilp::new(d.c.clone(), a, d.b.clone(), d.l.clone(), d.u.clone(), d.p.clone(), None)) } else { Problem::Lp(ProblemLp::new(d.c.clone(), a, d.b.clone(), d.l.clone(), d.u.clone(), None)) } };
        let o = ops(&mut mk(), 3);
        let len = if milp { 4 } else { c.pick(3, 4) };
        sequences(o.len(), len, &mut |t| { let sq: Vec<_> = t.iter().map(|i| o[*i]).collect(); c.case(|| format!("{} {:?}", if milp { "milp" } else { "lp" }, sq), |c| linear(c, &mk, d, &None, &sq)); !c.done() });
    }
    c.section("linear problems of many variables");
    for n in (4..=70usize).chain([97, 127, 128, 129, 255, 256, 257, 1000, 1001, 1023, 4099]) { for k in 0..3usize { for milp in [false, true] {
        if c.done() { return; }
        let na = [1, n / 2, n][k];
        let d = Data { c: (0..n).map(|j| [1., -2., 0.5, 0., 3.25, 0.1, -7.][(j + k) % 7]).collect(), a: (0..na).map(|i| (i, (i * 3 + k) % n, 1. + i as f64)).collect(), b: (0..na).map(|i| i as f64 - 2.).collect(),
            l: (0..n).map(|j| -(j as f64)).collect(), u: (0..n).map(|j| 1. + j as f64).collect(), p: (0..n).map(|j| milp && (j + k) % 3 == 0).collect() };
        let s0: Option<Vec<f64>> = if k == 1 { Some((0..n).map(|j| j as f64 * 0.5).collect()) } else { None };
        let mk = || { let a = CooMat::new((na, n), d.a.iter().map(|e| e.0).collect(), d.a.iter().map(|e| e.1).collect(), d.a.iter().map(|e| e.2).collect());
            if milp { Problem::Milp(ProblemMilp::new(d.c.clone(), a, d.b.clone(), d.l.clone(), d.u.clone(), d.p.clone(), s0.clone())) } else { Problem::Lp(ProblemLp::new(d.c.clone(), a, d.b.clone(), d.l.clone(), d.u.clone(), s0.clone())) } };
        let o = ops(&mut mk(), 4);
        let seqs = [o.clone(), o.iter().rev().cloned().collect::<Vec<_>>()];
        for sq in &seqs { c.case(|| format!("{} of {} variables and {} rows: {:?}", if milp { "milp" } else { "lp" }, n, na, sq), |c| linear(c, &mk, &d, &s0, sq)); }
    } } }
    c.section("nonlinear problems made directly");
    for minlp in [false, true] { for m in 0..4 { for x0 in [false, true] {
        let vs: &[usize] = if minlp { &[0] } else { &[0, 3] };
        let mut o = Vec::new();
        for v in vs { for k in 0..3 { o.push((*v, Some(k))); } o.push((*v, None)); }
        sequences(o.len(), c.pick(3, 4), &mut |t| { let sq: Vec<_> = t.iter().map(|i| o[*i]).collect(); c.case(|| format!("minlp {} with {} constraints, x0 {}: {:?}", minlp, m, x0, sq), |c| direct(c, minlp, m, x0, &sq)); !c.done() });
    } } }
    c.section("models of every class");
    let n = ["x", "y", "k"];
    let mut fs: Vec<String> = vec!["".into()];
    for f in ["x + 2*y", "3 - x", "k", "0.1*x - 0.3*y + 7*k"].iter().chain(FUN.iter()) { fs.push(format!("min {}", f)); fs.push(format!("max {}", f)); }
    let cs: Vec<Vec<&str>> = vec![vec![], vec!["x + y | 1"], vec!["x | 2", "y | 1"], vec!["x + k | 3", "x*y | 1"], vec!["x - y | 0.5", "k | 4", "x + y + k | 2"]];
    for f in &fs { for cc in &cs { for rot in 0..3usize { for int in [false, true] { for init in [false, true] {
        if c.done() { return; }
        let cons: Vec<Con> = cc.iter().enumerate().map(|(i, t)| con(t, RELS[(i + rot) % 3], &n)).collect();
        let sp = Spec { names: n.to_vec(), int: vec![false, false, int], obj: obj(f, &n), cons };
        if sp.used() == 0 { continue; }
        let seq: Vec<(usize, usize)> = vec![(0, 0), (2, 1), (3, 3), (4, 0), (5, 2), (2, 1), (1, 3), (3, 0)];
        c.case(|| format!("{} starting values {}", sp.show(), init), |c| model(c, &sp, init, &seq));
    } } } } }
    c.section("models of many variables and constraints");
    for (n, m) in [(4usize, 2usize), (8, 8), (9, 5), (16, 16), (17, 30), (33, 12), (40, 70), (66, 20), (100, 129)] { for kind in 0..c.pick(6usize, 20) { for linear in [true, false] { for ints in [0usize, 2, 7] { for init in [false, true] {
        if c.done() { return; }
        if n > 40 && !c.thorough() && (kind > 1 || ints == 2) { continue; }
        let w = crate::widemodel::wide_model(kind, n, m, linear, ints);
        c.case(|| format!("{} kind {} starting values {}", w.show(), kind, init), |c| wide(c, &w, init));
    } } } } }
}
