//! C12: Ipopt's callbacks, over all call sequences that its calling convention allows.

use crate::stub::{self, Call, Prob};
use mcfw::expr::close;
use mcfw::fw::*;
use mcfw::model::*;
use mcfw::{bad, ck};
use numopt::matrix::coo::CooMat;
use numopt::model::model_std::ModelStd;
use numopt::problem::base::Problem;
use numopt::problem::lp::ProblemLp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::Solver;
use numopt::solver::SolverIpopt;
use std::cell::RefCell;
use std::ptr;
use std::rc::Rc;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C12", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one problem and one sequence of callbacks (kind, point, new-point flag, multipliers, new-multiplier flag, objective factor) allowed by Ipopt's convention, possibly with a refused call in it; each answer is compared with a separate evaluation of the same problem at that call's arguments; non-trivial: the sequence uses two points or two multiplier vectors",
        assumptions: &["new_x may be false only for the point of the previous call, new_lambda only for the multipliers of the previous Hessian call", "Ipopt's library is replaced by the harness's own definition of its C interface"],
    }
}

pub const PTS: [[f64; 6]; 3] = [[1.25, -0.75, 2., 0.5, -1.5, 0.125], [-0.5, 2., 0.25, -1., 3., 0.75], [0., 0., 0., 0., 0., 0.]];
const FACTORS: [f64; 3] = [1., 0.25, 0.];
fn lambda(k: usize, m: usize) -> Vec<f64> { (0..m).map(|i| match k { 0 => 0.5 + i as f64, 1 => -2. + 0.75 * (i * i) as f64, _ => 0. }).collect() }
const FILL: f64 = 7.77e77;
const IFILL: i32 = -7777;

/// The first problems, which other checks use too, and with larger ones.
pub const NPROB: usize = 14;
const NALL: usize = 28;

/// A point, long enough for every problem.
fn pt(k: usize) -> &'static [f64] {
    static P: std::sync::OnceLock<Vec<Vec<f64>>> = std::sync::OnceLock::new();
    &P.get_or_init(|| PTS.iter().enumerate().map(|(q, p)| {
        let mut v = p.to_vec();
        while v.len() < 800 { let i = v.len(); v.push(if q == 2 { 0. } else { 0.25 * ((i * (7 + 4 * q)) % 23) as f64 - 2.5 + 0.0078125 * q as f64 }); }
        v
    }).collect())[k]
}

/// A point for a problem: those from the twentieth on have points that almost agree.
fn at(k: usize, q: usize) -> &'static [f64] {
    static P: std::sync::OnceLock<Vec<Vec<f64>>> = std::sync::OnceLock::new();
    if k < 20 || k > 23 { return pt(q); }
    &P.get_or_init(|| STEEP.iter().flat_map(|(_, base, e)| (0..3).map(move |q| (0..6).map(|i| base + [0., 1., -2.][q] * (1. + i as f64) * 2f64.powi(-e)).collect::<Vec<f64>>())).collect())[(k - 20) * 3 + q]
}
/// Variables, point and exponent of the steep problems.
const STEEP: [(usize, f64, i32); 4] = [(2, 1., 30), (3, 0., 40), (1, 0., 20), (4, -2., 47)];
/// Multipliers for a problem: those of the steep ones almost agree, too.
fn mult(k: usize, q: usize, m: usize) -> Vec<f64> {
    if k < 20 || k > 23 { return lambda(q, m); }
    (0..m).map(|i| if q == 2 { 0. } else { (q as f64 * 3. + 1. + i as f64) * 2f64.powi(-STEEP[k - 20].2) }).collect()
}

/// The problems; each call makes a fresh one.
pub fn problem(k: usize) -> Problem {
    match k {
        0 => hand(3, 1, &[2, 3], 4),
        1 => hand(3, 2, &[], 6),
        2 => hand(2, 0, &[2], 2),
        3 => hand(2, 0, &[], 3),
        4 => hand(4, 2, &[0, 5], 0),
        5 => hand(1, 0, &[1, 1, 1], 1),
        6 => Problem::Lp(ProblemLp::new(vec![1., -2., 0.5], CooMat::new((2, 3), vec![0, 1, 0, 1, 0], vec![0, 1, 2, 2, 0], vec![1., 2., -1., 3., 0.5]), vec![1., -2.], vec![-1.; 3], vec![1.; 3], None)),
        7 => Problem::Lp(ProblemLp::new(vec![1., 3.], CooMat::from_nnz((0, 2), 0), vec![], vec![-1.; 2], vec![1.; 2], Some(vec![0.5, 0.25]))),
        14 => hand(30, 12, &[2, 40, 7, 1, 0, 33, 5, 5, 9, 3], 50),
        15 => hand(70, 0, &[70, 3], 90),
        16 => hand(65, 66, &[], 65),
        17 => hand(9, 1, &[3; 70], 12),
        18 => mcfw::widemodel::wide_model(1, 26, 14, false, 0).build().model.std_problem().prob,
        19 => mcfw::widemodel::wide_model(2, 40, 30, true, 0).build().model.std_problem().prob,
        24 => mcfw::widemodel::wide_model(0, 130, 12, true, 0).build().model.std_problem().prob,
        25 => mcfw::widemodel::wide_model(3, 40, 270, true, 0).build().model.std_problem().prob,
        26 => hand(300, 2, &[3; 2], 260),
        27 => hand(20, 1, &[4; 300], 12),
        20..=23 => { let (n, base, e) = STEEP[k - 20]; made(n, 1, &[2, 1, 3], 3, base, 2f64.powi(e)) }
        _ => {
            let n = ["x", "y", "z"];
            let (o, cs): (&str, Vec<Con>) = match k {
                8 => ("min x*x + y*y", vec![con("x + y | 1", Rel::Eq, &n), con("x*y | 0.25", Rel::Eq, &n)]),
                9 => ("max x - y*y", vec![con("x + 2*y | 1", Rel::Le, &n), con("x*y*z | 0.25", Rel::Ge, &n), con("x*x | y", Rel::Le, &n)]),
                10 => ("min x", vec![con("x*x + y*y | 2", Rel::Le, &n), con("z - x | 1", Rel::Eq, &n), con("y*z | x", Rel::Eq, &n)]),
                11 => ("min sin(x)*y + x*y*z", vec![con("x + y + z | 1", Rel::Ge, &n), con("x - z | 0.5", Rel::Eq, &n)]),
                12 => ("min x*y", vec![con("x | 1", Rel::Le, &n), con("x - y | 0.5", Rel::Ge, &n), con("cos(x) | y*y", Rel::Eq, &n), con("y | 2", Rel::Ge, &n)]),
                _ => ("", vec![con("x*x*x | y", Rel::Eq, &n), con("y + z | 0.5", Rel::Eq, &n), con("x*z | 0.5", Rel::Eq, &n)]),
            };
            Spec { names: n.to_vec(), int: vec![false; 3], obj: obj(o, &n), cons: cs }.build().model.std_problem().prob
        }
    }
}

/// A problem with own evaluation function; the Hessian patterns have repeated entries.
fn hand(n: usize, na: usize, hs: &[usize], ho: usize) -> Problem { made(n, na, hs, ho, 0., 1.) }

/// The same with variables that count from a base in units of 1 / steep, and Hessians of constraints of size steep.
fn made(n: usize, na: usize, hs: &[usize], ho: usize, base: f64, steep: f64) -> Problem {
    let nf = hs.len();
    let mut cells = Vec::new();
    for i in 0..n { for j in 0..=i { cells.push((i, j)); } }
    let pat = |s: usize, off: usize| -> CooMat<f64> {
        let e: Vec<(usize, usize)> = (0..s).map(|t| cells[(off + t * 2) % cells.len()]).collect();
        CooMat::new((n, n), e.iter().map(|x| x.0).collect(), e.iter().map(|x| x.1).collect(), vec![0.; s])
    };
    let h: Vec<CooMat<f64>> = hs.iter().enumerate().map(|(q, s)| pat(*s, q)).collect();
    let (mut jr, mut jc) = (Vec::new(), Vec::new());
    for i in (0..nf).rev() { for j in 0..n { if (i + j) % 3 != 1 { jr.push(i); jc.push(j); } } }
    let (mut ar, mut ac, mut av) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..na { for j in (0..n).rev() { if (i + j) % 2 == 0 { ar.push(i); ac.push(j); av.push(1.5 + i as f64 - 0.5 * j as f64); } } }
    let nj = jr.len();
    let f = Box::new(move |phi: &mut f64, g: &mut Vec<f64>, hp: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
        let x: &[f64] = &x.iter().map(|v| (v - base) * steep).collect::<Vec<f64>>();
        *phi = x.iter().enumerate().map(|(i, v)| v * (1. + i as f64)).sum();
        for i in 0..g.len() { g[i] = x[i] * 2. + i as f64; }
        for (t, d) in hp.data_mut().iter_mut().enumerate() { *d = x[0] + t as f64 + 0.5; }
        for i in 0..f.len() { f[i] = x[i % x.len()] + i as f64; }
        for (t, d) in j.data_mut().iter_mut().enumerate() { *d = x[x.len() - 1] - t as f64; }
        for (q, hh) in h.iter_mut().enumerate() { for (t, d) in hh.data_mut().iter_mut().enumerate() { *d = (x[0] * (q as f64 + 1.) + t as f64 + 0.25) * steep; } }
    });
    Problem::Nlp(ProblemNlp::new(pat(ho, 1), CooMat::new((na, n), ar, ac, av), (0..na).map(|i| 0.5 + i as f64).collect(), CooMat::new((nf, n), jr, jc, vec![0.; nj]), h,
        vec![-5.; n], vec![5.; n], if n % 2 == 0 { Some(vec![0.5; n]) } else { None }, f))
}

/// Reference values at one point.
pub struct Ref { pub n: usize, pub na: usize, pub nf: usize, pub phi: f64, pub g: Vec<f64>, pub con: Vec<f64>, pub jac: Vec<Vec<f64>>, pub ho: Vec<Vec<f64>>, pub hf: Vec<Vec<Vec<f64>>> }

pub fn reference(k: usize, x: &[f64]) -> Result<Ref, Fail> {
    let mut p = problem(k);
    let q = match &mut p { Problem::Nlp(q) => q, Problem::Lp(q) => q.as_mut_nlp(), _ => bad!("class") };
    let n = q.nx();
    q.evaluate(&x[..n]);
    let mut jac = dense(q.a())?;
    let mut con: Vec<f64> = (0..q.na()).map(|i| jac[i].iter().zip(x).map(|(a, b)| a * b).sum::<f64>() - q.b()[i]).collect();
    con.extend_from_slice(q.f());
    jac.extend(dense(q.j())?);
    Ok(Ref { n, na: q.na(), nf: q.nf(), phi: q.phi(), g: q.gphi().to_vec(), con, jac, ho: dense(q.hphi())?, hf: q.h().iter().map(dense).collect::<Result<_, _>>()? })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    F(usize, bool), Grad(usize, bool), G(usize, bool), Jac(usize, bool), H { x: usize, nx: bool, lam: usize, nl: bool, s: usize },
    StructJ(bool), StructH(bool),
    /// A call that must be refused: callback (0 f, 1 gradient, 2 constraints, 3 Jacobian, 4 Hessian, 5 / 6 structure of those), what is wrong, new-point flag
    Bad(usize, Wrong, bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrong { N(i32), M(i32), Nnz(i32), X, Out, Out2, Data, Lambda }

struct Run<'a> { k: usize, c: &'a Call<'a>, refs: &'a [Ref], js: Option<Vec<(i32, i32)>>, hs: Option<Vec<(i32, i32)>> }

fn vec_close(what: &str, got: &[f64], want: &[f64]) -> Res {
    for i in 0..want.len() { ck!(close(got[i], want[i], want[i].abs()), "{}: entry {} is {:e} instead of {:e}", what, i, got[i], want[i]); }
    Ok(())
}
fn untouched(b: &[f64], from: usize) -> Res { ck!(b[from..].iter().all(|v| *v == FILL), "it writes beyond its output"); Ok(()) }

impl<'a> Run<'a> {
    fn pattern(&mut self, jac: bool, nx: bool) -> Result<Vec<(i32, i32)>, Fail> {
        let p: &Prob = self.c.p;
        let nz = if jac { p.nj } else { p.nh } as usize;
        let (mut r, mut c) = (vec![IFILL; nz + 2], vec![IFILL; nz + 2]);
        let ret = if jac { (p.jac)(p.n, ptr::null(), nx as i32, p.m, p.nj, r.as_mut_ptr(), c.as_mut_ptr(), ptr::null_mut(), self.c.data) }
            else { (p.h)(p.n, ptr::null(), nx as i32, 1., p.m, ptr::null(), 1, p.nh, r.as_mut_ptr(), c.as_mut_ptr(), ptr::null_mut(), self.c.data) };
        ck!(ret == 1, "structure refused ({})", ret);
        ck!(r[nz..].iter().all(|v| *v == IFILL) && c[nz..].iter().all(|v| *v == IFILL), "structure is written beyond its length");
        let rows = if jac { p.m } else { p.n };
        let o: Vec<(i32, i32)> = r[..nz].iter().cloned().zip(c[..nz].iter().cloned()).collect();
        for (i, j) in &o { ck!(*i >= 0 && *i < rows && *j >= 0 && *j < p.n, "structure has the entry ({}, {})", i, j); }
        if !jac { for (i, j) in &o { ck!(i >= j, "Hessian structure has the entry ({}, {}) above the diagonal", i, j); } }
        let old = if jac { &mut self.js } else { &mut self.hs };
        if let Some(q) = old { ck!(*q == o, "the structure changed"); }
        *old = Some(o.clone());
        Ok(o)
    }
    fn dense(&self, pat: &[(i32, i32)], v: &[f64], rows: usize) -> Vec<Vec<f64>> {
        let mut d = vec![vec![0.; self.c.p.n as usize]; rows];
        for (e, x) in pat.iter().zip(v) { d[e.0 as usize][e.1 as usize] += x; }
        d
    }
    fn op(&mut self, o: Op) -> Res {
        let p: &Prob = self.c.p;
        let (n, m) = (p.n as usize, p.m as usize);
        let d = self.c.data;
        match o {
            Op::F(k, nx) => {
                let mut v = [FILL; 3];
                ck!((p.f)(p.n, at(self.k, k).as_ptr(), nx as i32, v.as_mut_ptr(), d) == 1, "refused");
                vec_close("objective", &v, &[self.refs[k].phi])?;
                untouched(&v, 1)
            }
            Op::Grad(k, nx) => {
                let mut v = vec![FILL; n + 2];
                ck!((p.grad)(p.n, at(self.k, k).as_ptr(), nx as i32, v.as_mut_ptr(), d) == 1, "refused");
                vec_close("gradient", &v, &self.refs[k].g)?;
                untouched(&v, n)
            }
            Op::G(k, nx) => {
                let mut v = vec![FILL; m + 2];
                ck!((p.g)(p.n, at(self.k, k).as_ptr(), nx as i32, p.m, v.as_mut_ptr(), d) == 1, "refused");
                vec_close("constraints", &v, &self.refs[k].con)?;
                untouched(&v, m)
            }
            Op::Jac(k, nx) => {
                let pat = match &self.js { Some(q) => q.clone(), None => self.pattern(true, false)? };
                let nz = p.nj as usize;
                let mut v = vec![FILL; nz + 2];
                ck!((p.jac)(p.n, at(self.k, k).as_ptr(), nx as i32, p.m, p.nj, ptr::null_mut(), ptr::null_mut(), v.as_mut_ptr(), d) == 1, "refused");
                untouched(&v, nz)?;
                let w = self.dense(&pat, &v[..nz], m);
                for i in 0..m { vec_close(&format!("Jacobian row {}", i), &w[i], &self.refs[k].jac[i])?; }
                Ok(())
            }
            Op::H { x, nx, lam, nl, s } => {
                let pat = match &self.hs { Some(q) => q.clone(), None => self.pattern(false, false)? };
                let nz = p.nh as usize;
                let mut v = vec![FILL; nz + 2];
                let l = mult(self.k, lam, m);
                ck!((p.h)(p.n, at(self.k, x).as_ptr(), nx as i32, FACTORS[s], p.m, l.as_ptr(), nl as i32, p.nh, ptr::null_mut(), ptr::null_mut(), v.as_mut_ptr(), d) == 1, "refused");
                untouched(&v, nz)?;
                let w = self.dense(&pat, &v[..nz], n);
                let r = &self.refs[x];
                for i in 0..n { for j in 0..n {
                    let (mut e, mut mag) = (FACTORS[s] * r.ho[i][j], r.ho[i][j].abs());
                    for q in 0..r.nf { e += l[r.na + q] * r.hf[q][i][j]; mag += (l[r.na + q] * r.hf[q][i][j]).abs(); }
                    ck!(close(w[i][j], e, mag), "Lagrangian Hessian ({}, {}) is {:e} instead of {:e}", i, j, w[i][j], e);
                } }
                Ok(())
            }
            Op::StructJ(nx) => self.pattern(true, nx).map(|_| ()),
            Op::StructH(nx) => self.pattern(false, nx).map(|_| ()),
            Op::Bad(cb, w, nx) => {
                let x = if w == Wrong::X { ptr::null() } else { at(self.k, 1).as_ptr() };
                let nn = if let Wrong::N(d) = w { if d < -50 { -1 } else { p.n + d } } else { p.n };
                let mm = if let Wrong::M(d) = w { if d < -50 { -1 } else { p.m + d } } else { p.m };
                let nz0 = if cb == 3 || cb == 5 { p.nj } else { p.nh };
                let nz = if let Wrong::Nnz(d) = w { if d < -50 { -1 } else { nz0 + d } } else { nz0 };
                let data = if w == Wrong::Data { ptr::null_mut() } else { d };
                let mut v = vec![FILL; p.nj.max(p.nh) as usize + 4096];
                let (mut r, mut q) = (vec![IFILL; p.nj.max(p.nh) as usize + 4096], vec![IFILL; p.nj.max(p.nh) as usize + 4096]);
                let out = if w == Wrong::Out { ptr::null_mut() } else { v.as_mut_ptr() };
                let l = lambda(1, m.max(1));
                let lp = if w == Wrong::Lambda { ptr::null() } else { l.as_ptr() };
                let (rp, qp) = (if w == Wrong::Out { ptr::null_mut() } else { r.as_mut_ptr() }, if w == Wrong::Out2 { ptr::null_mut() } else { q.as_mut_ptr() });
                let nxi = nx as i32;
                let ret = match cb {
                    0 => (p.f)(nn, x, nxi, out, data),
                    1 => (p.grad)(nn, x, nxi, out, data),
                    2 => (p.g)(nn, x, nxi, mm, out, data),
                    3 => (p.jac)(nn, x, nxi, mm, nz, ptr::null_mut(), ptr::null_mut(), v.as_mut_ptr(), data),
                    4 => (p.h)(nn, x, nxi, 1., mm, lp, 1, nz, ptr::null_mut(), ptr::null_mut(), v.as_mut_ptr(), data),
                    5 => (p.jac)(nn, ptr::null(), nxi, mm, nz, rp, qp, ptr::null_mut(), data),
                    _ => (p.h)(nn, ptr::null(), nxi, 1., mm, ptr::null(), 1, nz, rp, qp, ptr::null_mut(), data),
                };
                ck!(ret == 0, "an inconsistent call is answered with {}", ret);
                ck!(v.iter().all(|z| *z == FILL) && r.iter().all(|z| *z == IFILL) && q.iter().all(|z| *z == IFILL), "a refused call writes something");
                Ok(())
            }
        }
    }
}

fn run_seq(c: &mut Ctx, k: usize, refs: &Rc<Vec<Ref>>, seq: &[Op]) -> Res {
    stub::reset();
    let out: Rc<RefCell<Res>> = Rc::new(RefCell::new(Ok(())));
    let (o2, r2, s2) = (out.clone(), refs.clone(), seq.to_vec());
    stub::with(|s| s.script = Some(Box::new(move |call: &Call| {
        let mut r = Run { k, c: call, refs: &r2, js: None, hs: None };
        for (t, o) in s2.iter().enumerate() {
            if let Err(e) = r.op(*o) { *o2.borrow_mut() = Err(Fail::from(format!("call {} ({:?}): {}", t, o, e.msg))); break; }
        }
        0
    })));
    let mut p = problem(k);
    SolverIpopt::new().solve(&mut p).map_err(|e| Fail::from(e.to_string()))?;
    let n = stub::with(|s| s.probs.len());
    ck!(n == 1, "{} problems were created", n);
    let r = out.borrow().clone();
    r?;
    c.step(seq.len() as u64);
    c.trace();
    // abstract state: which point and multipliers were last given, over all sequences
    let mut last = (9usize, 9usize, 9usize);
    for o in seq {
        match o { Op::F(x, _) | Op::Grad(x, _) | Op::G(x, _) | Op::Jac(x, _) => last.0 = *x, Op::H { x, lam, s, .. } => last = (*x, *lam, *s), _ => () }
        c.state(hash_u64s(&[k as u64, last.0 as u64, last.1 as u64, last.2 as u64, hash_str(&format!("{:?}", o))]));
    }
    let mut xs: Vec<usize> = seq.iter().filter_map(|o| match o { Op::F(x, _) | Op::Grad(x, _) | Op::G(x, _) | Op::Jac(x, _) | Op::H { x, .. } => Some(*x), _ => None }).collect();
    xs.sort(); xs.dedup();
    if xs.len() > 1 { c.nontrivial(); }
    Ok(())
}

/// The operations allowed next, given the point of the last call and the multipliers of the last Hessian call.
fn next(cur: Option<usize>, lam: Option<usize>, pts: usize, lams: usize, factors: usize) -> Vec<Op> {
    let mut o = Vec::new();
    for x in 0..pts {
        let mut fl = vec![true];
        if cur == Some(x) { fl.push(false); }
        for nx in fl {
            o.push(Op::F(x, nx)); o.push(Op::Grad(x, nx)); o.push(Op::G(x, nx)); o.push(Op::Jac(x, nx));
            for l in 0..lams {
                let mut nls = vec![true];
                if lam == Some(l) { nls.push(false); }
                for nl in nls { for s in 0..factors { o.push(Op::H { x, nx, lam: l, nl, s }); } }
            }
        }
    }
    o.push(Op::StructJ(true));
    o.push(Op::StructH(false));
    o
}
fn after(o: Op, cur: Option<usize>, lam: Option<usize>) -> (Option<usize>, Option<usize>) {
    match o {
        Op::F(x, _) | Op::Grad(x, _) | Op::G(x, _) | Op::Jac(x, _) => (Some(x), lam),
        Op::H { x, lam: l, .. } => (Some(x), Some(l)),
        _ => (cur, lam),
    }
}

fn dfs(seq: &mut Vec<Op>, cur: Option<usize>, lam: Option<usize>, len: usize, al: (usize, usize, usize), f: &mut dyn FnMut(&[Op]) -> bool) -> bool {
    if seq.len() == len { return f(seq); }
    for o in next(cur, lam, al.0, al.1, al.2) {
        seq.push(o);
        let (a, b) = after(o, cur, lam);
        let go = dfs(seq, a, b, len, al, f);
        seq.pop();
        if !go { return false; }
    }
    true
}

fn bads(k: usize) -> Vec<Op> {
    let (na, nf) = { let mut p = problem(k); match &mut p { Problem::Nlp(q) => (q.na(), q.nf()), Problem::Lp(q) => (q.na(), 0), _ => (0, 0) } };
    let mut o = Vec::new();
    for cb in 0..7 { for nx in [true, false] {
        for d in [1, -1, -99, 100] { o.push(Op::Bad(cb, Wrong::N(d), nx)); }
        if cb >= 2 { for d in [1, -1, -99, 100] { o.push(Op::Bad(cb, Wrong::M(d), nx)); } }
        if cb >= 3 { for d in [1, -1, -99, 100] { o.push(Op::Bad(cb, Wrong::Nnz(d), nx)); } }
        if cb < 3 { o.push(Op::Bad(cb, Wrong::X, nx)); o.push(Op::Bad(cb, Wrong::Out, nx)); }
        if (cb == 3 || cb == 4) && nx { o.push(Op::Bad(cb, Wrong::X, nx)); }
        if cb == 4 && na + nf > 0 && nf > 0 { o.push(Op::Bad(cb, Wrong::Lambda, nx)); }
        if cb >= 5 { o.push(Op::Bad(cb, Wrong::Out, nx)); o.push(Op::Bad(cb, Wrong::Out2, nx)); }
        o.push(Op::Bad(cb, Wrong::Data, nx));
    } }
    o
}

fn run(c: &mut Ctx) {
    let mut refs: Vec<Rc<Vec<Ref>>> = Vec::new();
    for k in 0..NALL {
        match (0..3).map(|x| reference(k, at(k, x))).collect::<Result<Vec<_>, _>>() {
            Ok(r) => refs.push(Rc::new(r)),
            Err(e) => { c.case(|| format!("problem {}", k), |_| Err(e)); return; }
        }
    }
    let go = |c: &mut Ctx, k: usize, s: &[Op]| -> bool {
        c.case(|| format!("problem {}: {:?}", k, s), |c| run_seq(c, k, &refs[k], s));
        !c.done()
    };
    c.section("all sequences, three points, three multipliers, three factors");
    for len in 1..=2 { for k in 0..NPROB { dfs(&mut vec![], None, None, len, (3, 3, 3), &mut |s| go(c, k, s)); } }
    c.section("all sequences, two points, two multipliers, two factors");
    for k in 0..NPROB { dfs(&mut vec![], None, None, 3, (2, 2, 2), &mut |s| go(c, k, s)); }
    c.section("longer sequences");
    for k in 0..(if c.thorough() { NPROB } else { 5 }) { dfs(&mut vec![], None, None, 4, (2, 2, 2), &mut |s| go(c, k, s)); }
    if c.thorough() { for k in [0, 2, 4, 6, 9] { dfs(&mut vec![], None, None, 5, (2, 2, 1), &mut |s| go(c, k, s)); } }
    c.section("problems of many variables, constraints and entries");
    for k in NPROB..NALL {
        if k >= 24 { for len in 1..=2 { dfs(&mut vec![], None, None, len, if c.thorough() { (2, 2, 2) } else { (2, 2, 1) }, &mut |s| go(c, k, s)); } continue; }
        for len in 1..=2 { dfs(&mut vec![], None, None, len, (3, 3, 3), &mut |s| go(c, k, s)); }
        dfs(&mut vec![], None, None, 3, if c.thorough() { (2, 2, 2) } else { (2, 2, 1) }, &mut |s| go(c, k, s));
    }
    c.section("refused calls between others");
    for k in 0..NALL {
        let b = bads(k);
        for pre in 0..=(if k < NPROB { 2 } else if c.thorough() && k < 24 { 1 } else { 0 }) {
            dfs(&mut vec![], None, None, pre, (2, 2, 1), &mut |p| {
                let (mut cur, mut lam) = (None, None);
                for o in p { let q = after(*o, cur, lam); cur = q.0; lam = q.1; }
                for (bi, w) in b.iter().enumerate() {
                    if pre == 2 && !c.thorough() && (bi + k) % 7 != 0 { continue; }
                    let mut s = p.to_vec();
                    s.push(*w);
                    if pre < 2 || c.thorough() {
                        // a refused call with a new point still was the last call
                        let cur = if let Op::Bad(_, _, true) = w { None } else { cur };
                        for o in next(cur, lam, 2, 1, 1) { let mut t = s.clone(); t.push(o); if !go(c, k, &t) { return false; } }
                    } else if !go(c, k, &s) { return false; }
                }
                !c.done()
            });
        }
    }
}
