//! C06: evaluation of nonlinear problems, over all histories of evaluations and combinations.

use crate::expr::*;
use crate::fw::*;
use crate::model::*;
use crate::wide::*;
use crate::widemodel::shift;
use crate::{bad, ck};
use numopt::matrix::coo::CooMat;
use numopt::model::model_std::ModelStd;
use numopt::model::*;
use numopt::problem::base::Problem;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C06", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one nonlinear model, one access path and one sequence of evaluations and combinations; after every operation all values are compared with reference values and derivatives; non-trivial: the sequence contains two different points or multiplier vectors",
        assumptions: &["relative tolerance 1e-9 of the sum of magnitudes; undefined points are evaluated as part of histories but their own values are not compared"],
    }
}

const N: [&str; 3] = ["x", "y", "k"];
/// The last four are the first one with its coordinates exchanged, with two signs changed, moved
/// by little (the integer variable, too), and moved in one coordinate (to near an integer).
const POINTS: [[f64; 3]; 8] = [[1.25, -0.75, 1.], [-0.5, 2., -1.], [0., 0., 0.], [0.375, 0.625, 2.], [-0.75, 1.25, 1.], [-1.25, 0.75, 1.], [1.25 + 1e-6, -0.75 - 1e-6, 1. + 1e-7], [1.25, -0.75, 2. - 3e-4]];
const NP: usize = POINTS.len();

/// The Nlp's own methods, or those of the Minlp it is built on.
fn eval(p: &mut Problem, direct: bool, x: &[f64]) -> Vals {
    match p {
        Problem::Nlp(q) if direct => { q.evaluate(x); nv(q) }
        _ => evaluate(p, x),
    }
}
fn comb(p: &mut Problem, direct: bool, nu: &[f64]) -> Vals {
    match p {
        Problem::Nlp(q) if direct => { q.combine_h(nu); nv(q) }
        _ => combine(p, nu),
    }
}
fn nv(q: &ProblemNlp) -> Vals {
    Vals { phi: q.phi(), gphi: q.gphi().to_vec(), hphi: q.hphi().clone(), f: q.f().to_vec(), j: q.j().clone(), h: q.h().clone(), hcomb: q.hcomb().clone() }
}

fn lower(m: &CooMat<f64>, what: &str) -> Res {
    for (i, j, _) in m.iter() { ck!(i >= j, "{} has an entry ({}, {}) above the diagonal", what, i, j); }
    Ok(())
}

pub fn nu_of(kind: usize, nf: usize) -> Vec<f64> {
    (0..nf).map(|i| match kind { 0 => 1. + i as f64 * 0.5, 1 => if i % 2 == 0 { 0. } else { -2. }, 2 => -0.25 * (i as f64 + 1.), _ => 1. + (nf - 1 - i) as f64 * 0.5 }).collect()
}

struct Sys<'a> { sp: &'a Spec, lay: Layout, n: usize, frow: Vec<usize>, exact: bool }

impl<'a> Sys<'a> {
    fn jets(&self, x: &[f64]) -> (Jet, Vec<Jet>) {
        let mut u = [0.5; 3];
        for k in 0..3 { if let Some(i) = self.lay.pos[k] { u[k] = x[i]; } }
        (self.sp.fmin(&u), self.frow.iter().map(|k| self.sp.cons[*k].diff(&u)).collect())
    }
    fn grad(&self, what: &str, got: &[f64], j: &Jet) -> Res {
        for i in 0..self.n {
            if let Some(k) = self.lay.user[i] { ck!(close(got[i], j.g[k], j.mg[k]), "{}: entry for {} is {:e} instead of {:e}", what, N[k], got[i], j.g[k]); }
        }
        Ok(())
    }
    fn hess(&self, what: &str, m: &CooMat<f64>, js: &[(f64, Jet)]) -> Res {
        ck!(m.rows() == self.n && m.cols() == self.n, "{} is {} x {}", what, m.rows(), m.cols());
        lower(m, what)?;
        let d = dense(m)?;
        for i in 0..self.n { for k in 0..=i {
            let (mut w, mut mj) = (0., 0.);
            if let (Some(a), Some(b)) = (self.lay.user[i], self.lay.user[k]) {
                for (c, j) in js { w += c * j.h[hix(a, b)]; mj += c.abs() * j.mh[hix(a, b)]; }
            }
            ck!(close(d[i][k], w, mj), "{}: entry ({}, {}) is {:e} instead of {:e}", what, i, k, d[i][k], w);
        } }
        Ok(())
    }
    fn compare(&self, v: &Vals, x: &[f64]) -> Res {
        let (o, fs) = self.jets(x);
        ck!(v.gphi.len() == self.n && v.f.len() == self.frow.len() && v.h.len() == self.frow.len() && v.j.rows() == self.frow.len() && v.j.cols() == self.n, "wrong dimensions");
        if o.ok {
            if self.exact { ck!(close(v.phi, o.v, o.mv), "objective is {:e} instead of {:e}", v.phi, o.v); }
            for i in 0..self.n { if self.lay.user[i].is_none() { ck!(v.gphi[i] == 0., "gradient entry of a slack is {:e}", v.gphi[i]); } }
            self.grad("gradient", &v.gphi, &o)?;
            self.hess("Hessian of the objective", &v.hphi, &[(1., o)])?;
        }
        let jd = dense(&v.j)?;
        for (r, f) in fs.iter().enumerate() {
            if !f.ok { continue; }
            let (mut w, mut m) = (f.v, f.mv);
            for i in 0..self.n { if self.lay.user[i].is_none() { w += jd[r][i] * x[i]; m += (jd[r][i] * x[i]).abs(); } }
            ck!(close(v.f[r], w, m), "constraint value {} is {:e} instead of {:e}", r, v.f[r], w);
            self.grad(&format!("Jacobian row {}", r), &jd[r], f)?;
            self.hess(&format!("Hessian of constraint {}", r), &v.h[r], &[(1., *f)])?;
        }
        Ok(())
    }
}

fn history(c: &mut Ctx, sp: &Spec, direct: bool, seq: &[usize]) -> Res {
    let b = sp.build();
    let mut sd = b.model.std_problem_checked()?;
    let st = std_of(&mut sd.prob)?;
    let lay = layout(&sd, &b.vars, st.n)?;
    let frow: Vec<usize> = (0..st.nf).map(|i| sd.jindex2constr.get(&i).and_then(|q| index_of(&b.cons, q)).ok_or_else(|| Fail::from("row not mapped"))).collect::<Result<_, _>>()?;
    let exact = matches!(st.class, Class::Nlp | Class::Minlp);
    let sy = Sys { sp, lay, n: st.n, frow, exact };
    let mut cur: Option<Vec<f64>> = None;
    let mut h: Vec<u64> = Vec::new();
    for (t, op) in seq.iter().enumerate() {
        if *op < NP {
            let x: Vec<f64> = (0..sy.n).map(|i| match sy.lay.user[i] { Some(k) => POINTS[*op][k], None => 0.3 * (i as f64 + 1.) * (if *op < 4 { *op as f64 } else { 0. } - 1.5) }).collect();
            let v = eval(&mut sd.prob, direct, &x);
            sy.compare(&v, &x).map_err(|e| Fail::from(format!("after operation {}: {}", t, e.msg)))?;
            h.push(hash_f64s(&[v.phi, v.gphi.iter().sum::<f64>(), v.f.iter().sum::<f64>()]));
            cur = Some(x);
        } else {
            let nu = nu_of(op - NP, st.nf);
            let v = comb(&mut sd.prob, direct, &nu);
            if let Some(x) = &cur {
                let (_, fs) = sy.jets(x);
                if fs.iter().all(|f| f.ok) {
                    let js: Vec<(f64, Jet)> = nu.iter().cloned().zip(fs.into_iter()).collect();
                    sy.hess("combined Hessian", &v.hcomb, &js).map_err(|e| Fail::from(format!("after operation {}: {}", t, e.msg)))?;
                }
                // combining does not disturb the evaluated values
                sy.compare(&v, x).map_err(|e| Fail::from(format!("after operation {} (combination): {}", t, e.msg)))?;
                h.push(hash_f64s(&v.hcomb.data().to_vec()));
            } else { lower(&v.hcomb, "combined Hessian")?; }
        }
        c.state(hash_u64s(&[hash_str(&sp.show()), h.last().cloned().unwrap_or(0)]));
        c.step(1);
    }
    c.trace();
    if seq.iter().any(|o| *o < NP && *o != seq[0]) { c.nontrivial(); }
    Ok(())
}

/// All sequences of exactly `len` operations.
pub fn sequences(nops: usize, len: usize, f: &mut dyn FnMut(&[usize]) -> bool) {
    let mut s = vec![0; len];
    loop {
        if !f(&s) { return; }
        let mut i = len;
        loop {
            if i == 0 { return; }
            i -= 1;
            s[i] += 1;
            if s[i] < nops { break; }
            s[i] = 0;
        }
    }
}

/// Problems made directly, with every pattern of Hessian entries.
fn direct(c: &mut Ctx, minlp: bool, sizes: &[usize], seq: &[usize]) -> Res {
    let n = 3;
    let cells = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (1, 0)]; // one cell twice
    let h: Vec<CooMat<f64>> = sizes.iter().enumerate().map(|(q, s)| {
        let e: Vec<(usize, usize)> = (0..*s).map(|t| cells[(q * 2 + t) % cells.len()]).collect();
        CooMat::new((n, n), e.iter().map(|x| x.0).collect(), e.iter().map(|x| x.1).collect(), vec![0.; *s])
    }).collect();
    let m = sizes.len();
    let f = Box::new(move |phi: &mut f64, g: &mut Vec<f64>, hp: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
        *phi = x.iter().sum();
        for i in 0..g.len() { g[i] = x[i] * 2.; }
        for (t, d) in hp.data_mut().iter_mut().enumerate() { *d = x[0] + t as f64; }
        for i in 0..f.len() { f[i] = x[i % 3] + i as f64; }
        for (t, d) in j.data_mut().iter_mut().enumerate() { *d = x[1] - t as f64; }
        for (q, hh) in h.iter_mut().enumerate() { for (t, d) in hh.data_mut().iter_mut().enumerate() { *d = x[2] * (q as f64 + 1.) + t as f64; } }
    });
    let hp = CooMat::new((n, n), vec![0, 2], vec![0, 1], vec![0.; 2]);
    let a = CooMat::new((1, n), vec![0], vec![1], vec![1.]);
    let j = CooMat::new((m, n), (0..m).collect(), (0..m).map(|i| i % n).collect(), vec![0.; m]);
    let mut p = if minlp { Problem::Minlp(ProblemMinlp::new(hp, a, vec![1.], j, h, vec![-1.; n], vec![1.; n], vec![true, false, true], None, f)) }
        else { Problem::Nlp(ProblemNlp::new(hp, a, vec![1.], j, h, vec![-1.; n], vec![1.; n], None, f)) };
    let mut cur: Option<[f64; 3]> = None;
    for op in seq {
        if *op < NP {
            let x = POINTS[*op];
            let v = eval(&mut p, !minlp, &x);
            ck!(v.phi == x.iter().sum::<f64>(), "phi is {:e}", v.phi);
            ck!(v.gphi == x.iter().map(|q| q * 2.).collect::<Vec<_>>(), "gradient {:?}", v.gphi);
            ck!(v.hphi.data() == [x[0], x[0] + 1.], "Hessian {:?}", v.hphi.data());
            for i in 0..m { ck!(v.f[i] == x[i % 3] + i as f64, "f {:?}", v.f); ck!(v.j.data()[i] == x[1] - i as f64, "J {:?}", v.j.data()); }
            for (q, hh) in v.h.iter().enumerate() { for (t, d) in hh.data().iter().enumerate() { ck!(*d == x[2] * (q as f64 + 1.) + t as f64, "H{} {:?}", q, hh.data()); } }
            cur = Some(x);
        } else {
            let nu = nu_of(op - NP, m);
            let v = comb(&mut p, !minlp, &nu);
            lower(&v.hcomb, "combined Hessian")?;
            let mut w = vec![vec![0.; n]; n];
            if let Some(x) = cur {
                for (q, s) in sizes.iter().enumerate() { for t in 0..*s { let e = cells[(q * 2 + t) % cells.len()]; w[e.0][e.1] += nu[q] * (x[2] * (q as f64 + 1.) + t as f64); } }
            }
            let d = dense(&v.hcomb)?;
            for i in 0..n { for k in 0..n { if (d[i][k] - w[i][k]).abs() > 1e-12 * (1. + w[i][k].abs()) { bad!("combined Hessian at ({}, {}) is {:e} instead of {:e}", i, k, d[i][k], w[i][k]); } } }
        }
        c.step(1);
    }
    c.trace();
    c.nontrivial();
    Ok(())
}

/// Problems made directly, of any size: `m` Hessians with `per` entries each, and unit multipliers among others.
fn direct_wide(c: &mut Ctx, minlp: bool, n: usize, m: usize, per: usize, order: usize) -> Res {
    let cells: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..=i).map(move |k| (i, k))).collect();
    let pat: Vec<Vec<(usize, usize)>> = (0..m).map(|q| (0..per).map(|t| cells[match order { 0 => q * 3 + t, 1 => (q + 1) * 7919 + t * 31, _ => cells.len() * 4 + q - t % cells.len() } % cells.len()]).collect()).collect();
    let h: Vec<CooMat<f64>> = pat.iter().map(|e| CooMat::new((n, n), e.iter().map(|x| x.0).collect(), e.iter().map(|x| x.1).collect(), vec![0.; e.len()])).collect();
    let f = Box::new(move |phi: &mut f64, g: &mut Vec<f64>, hp: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
        *phi = x[0] * 3.;
        for i in 0..g.len() { g[i] = x[i] * 2.; }
        for (t, d) in hp.data_mut().iter_mut().enumerate() { *d = x[0] + t as f64; }
        for i in 0..f.len() { f[i] = x[i % x.len()] + i as f64; }
        for (t, d) in j.data_mut().iter_mut().enumerate() { *d = x[0] - t as f64; }
        for (q, hh) in h.iter_mut().enumerate() { for (t, d) in hh.data_mut().iter_mut().enumerate() { *d = x[0] * (q as f64 + 1.) + t as f64; } }
    });
    let hp = CooMat::new((n, n), (0..n).collect(), vec![0; n], vec![0.; n]);
    let a = CooMat::new((1, n), vec![0], vec![0], vec![1.]);
    let j = CooMat::new((m, n), (0..m).collect(), (0..m).map(|i| i % n).collect(), vec![0.; m]);
    let mut p = if minlp { Problem::Minlp(ProblemMinlp::new(hp, a, vec![1.], j, h, vec![-1.; n], vec![1.; n], vec![true; n], None, f)) }
        else { Problem::Nlp(ProblemNlp::new(hp, a, vec![1.], j, h, vec![-1.; n], vec![1.; n], None, f)) };
    for x0 in [1.5, -0.5, 1.5, 0.] {
        let x: Vec<f64> = (0..n).map(|i| x0 + i as f64).collect();
        let v = eval(&mut p, !minlp, &x);
        ck!(v.phi == x[0] * 3. && v.gphi == x.iter().map(|q| q * 2.).collect::<Vec<_>>(), "phi or gradient");
        for i in 0..n { ck!(v.hphi.data()[i] == x[0] + i as f64, "Hessian {:?}", v.hphi.data()); }
        for i in 0..m { ck!(v.f[i] == x[i % n] + i as f64, "f {}", i); ck!(v.j.data()[i] == x[0] - i as f64, "J {}", i); }
        let mut nus: Vec<Vec<f64>> = (0..m).map(|q| { let mut u = vec![0.; m]; u[q] = -2.; u }).collect();
        for k in 0..4 { nus.push(nu_of(k, m)); }
        for nu in nus {
            let v = comb(&mut p, !minlp, &nu);
            lower(&v.hcomb, "combined Hessian")?;
            let mut w = vec![vec![0.; n]; n];
            for q in 0..m { for (t, e) in pat[q].iter().enumerate() {
                ck!(v.h[q].data()[t] == x[0] * (q as f64 + 1.) + t as f64, "H{} is disturbed", q);
                w[e.0][e.1] += nu[q] * (x[0] * (q as f64 + 1.) + t as f64);
            } }
            let d = dense(&v.hcomb)?;
            for i in 0..n { for k in 0..n { if (d[i][k] - w[i][k]).abs() > 1e-9 * (1. + w[i][k].abs() + (m * per) as f64) { bad!("combined Hessian at ({}, {}) is {:e} instead of {:e} for {:?}", i, k, d[i][k], w[i][k], nu); } } }
            c.step(1);
        }
    }
    c.trace();
    c.nontrivial();
    c.state(hash_u64s(&[n as u64, m as u64, per as u64, order as u64]));
    Ok(())
}

/// Models over many variables with many nonlinear constraints, evaluated `rounds` times.
fn wide_model(c: &mut Ctx, kind: usize, n: usize, m: usize, rounds: usize, same: bool) -> Res {
    let vs: Vec<Node> = (0..n).map(|i| VariableScalar::new_continuous(&if same { "w".to_string() } else { format!("w{}", i) })).collect();
    let nonlin: Vec<&str> = KINDS.iter().cloned().filter(|k| !k.starts_with("affine")).collect();
    let o = wide_expr(nonlin[kind % nonlin.len()], n).0;
    let fs: Vec<T> = (0..m).map(|q| { // each over a window of the variables
        let w = n.min(2 + q % 5);
        let t = wide_expr(nonlin[(kind + 1 + q) % nonlin.len()], w).0;
        shift(&t, q % (n - w + 1))
    }).collect();
    let mut model = Model::new();
    model.set_objective(if kind % 2 == 0 { Objective::minimize(&o.node(&vs)) } else { Objective::maximize(&o.node(&vs)) });
    let sg = if kind % 2 == 0 { 1. } else { -1. };
    let cs: Vec<Constraint> = fs.iter().map(|t| t.node(&vs).equal(0.25)).collect();
    for q in &cs { model.add_constraint(q); }
    let mut sd = std_problem(&model);
    let pos: Vec<usize> = match vs.iter().map(|x| sd.var2index.get(x).cloned()).collect() { Some(p) => p, None => bad!("a variable has no place") };
    let st = std_of(&mut sd.prob)?;
    ck!(st.n == n, "{} variables instead of {}", st.n, n);
    let rows: Vec<usize> = (0..st.nf).map(|i| sd.jindex2constr.get(&i).and_then(|q| index_of(&cs, q)).ok_or_else(|| Fail::from("row not mapped"))).collect::<Result<_, _>>()?;
    for r in 0..rounds {
        let xu: Vec<f64> = (0..n).map(|i| match r % 5 { 4 => 0.5, k => 0.25 + 0.0625 * ((i * (7 + k) + r) % 13) as f64 * (if k % 2 == 1 && i % 2 == 1 { -1. } else { 1. }) }).collect();
        let mut x = vec![0.; n];
        for i in 0..n { x[pos[i]] = xu[i]; }
        let v = evaluate(&mut sd.prob, &x);
        let oj = dj(&o, &xu);
        ck!(near(v.phi, sg * oj.v, n), "evaluation {}: objective is {:e} instead of {:e}", r, v.phi, sg * oj.v);
        let hd = dense(&v.hphi)?;
        for i in 0..n {
            ck!(near(v.gphi[pos[i]], sg * oj.g[i], n), "evaluation {}: gradient entry {} is {:e} instead of {:e}", r, i, v.gphi[pos[i]], sg * oj.g[i]);
            for k in 0..=i { let (a, b) = (pos[i].max(pos[k]), pos[i].min(pos[k])); ck!(near(hd[a][b], sg * oj.h[i][k], n), "evaluation {}: Hessian entry ({}, {}) is {:e} instead of {:e}", r, i, k, hd[a][b], sg * oj.h[i][k]); }
        }
        let js: Vec<Dj> = rows.iter().map(|q| dj(&fs[*q], &xu)).collect();
        let jd = dense(&v.j)?;
        for (q, w) in js.iter().enumerate() {
            ck!(near(v.f[q], w.v - 0.25, n) || near(v.f[q], w.v, n), "evaluation {}: value {} is {:e} instead of {:e}", r, q, v.f[q], w.v - 0.25);
            for i in 0..n { ck!(near(jd[q][pos[i]], w.g[i], n), "evaluation {}: Jacobian entry ({}, {}) is {:e} instead of {:e}", r, q, i, jd[q][pos[i]], w.g[i]); }
        }
        let nu: Vec<f64> = if r % 2 == 0 { nu_of(r % 4, st.nf) } else { (0..st.nf).map(|q| if q == r % st.nf.max(1) { 1.5 } else { 0. }).collect() };
        let v = combine(&mut sd.prob, &nu);
        let hc = dense(&v.hcomb)?;
        lower(&v.hcomb, "combined Hessian")?;
        for i in 0..n { for k in 0..=i {
            let (a, b) = (pos[i].max(pos[k]), pos[i].min(pos[k]));
            let w: f64 = nu.iter().zip(js.iter()).map(|(u, j)| u * j.h[i][k]).sum();
            ck!(near(hc[a][b], w, n + 4 * m), "combination {}: entry ({}, {}) is {:e} instead of {:e}", r, i, k, hc[a][b], w);
        } }
        c.step(2);
        c.state(hash_f64s(&oj.g));
    }
    c.trace();
    c.nontrivial();
    Ok(())
}

/// A steep model, evaluated at points and combined with multipliers that almost agree.
/// Objective sin(s(x - b)) y, functions cos(s(x - b)) + y y and y s(x - b); `n` further variables.
fn steep(c: &mut Ctx, b: f64, e: i32, n: usize, first: bool, int: bool, direct: bool, seq: &[usize]) -> Res {
    let s = 2f64.powi(e);
    let x = VariableScalar::new_continuous(if first { "a" } else { "z" });
    let y = if int { VariableScalar::new_integer("m") } else { VariableScalar::new_continuous("m") };
    let more: Vec<Node> = (0..n).map(|i| VariableScalar::new_continuous(&format!("n{}", i))).collect();
    let z = s * (&x - b);
    let mut o = z.sin() * &y;
    for w in &more { o = o + w; }
    let mut m = Model::new();
    m.set_objective(Objective::minimize(&o));
    m.add_constraint(&(z.cos() + &y * &y).equal(0.));
    m.add_constraint(&(&y * &z).equal(0.));
    let mut sd = m.std_problem();
    let (px, py) = (sd.var2index[&x], sd.var2index[&y]);
    let (f1, f2) = { let v = sd.jindex2constr[&0] == m.constraints()[0]; if v { (0, 1) } else { (1, 0) } };
    let (mut at, mut nu) = (None, None);
    for q in seq {
        let v = if *q < 4 {
            at = Some([0., 1., -1., 2.][*q]);
            let mut p = vec![0.5; n + 2];
            p[px] = b + at.unwrap() / s; p[py] = 2.;
            eval(&mut sd.prob, direct, &p)
        } else {
            let t = [1., 2., -1.][*q - 4] / s;
            nu = Some([t, t * 0.5]);
            let mut u = vec![0.; 2]; u[f1] = t; u[f2] = t * 0.5;
            comb(&mut sd.prob, direct, &u)
        };
        let z = match at { Some(z) => z, None => continue };
        let y = 2.;
        let (si, co) = (f64::sin(z), f64::cos(z));
        let near = |g: f64, w: f64, m: f64| (g - w).abs() <= 1e-9 * (w.abs() + m);
        ck!(near(v.phi, si * y + 0.5 * n as f64, 1.), "objective {:e} instead of {:e}", v.phi, si * y + 0.5 * n as f64);
        ck!(near(v.gphi[px], s * co * y, s) && near(v.gphi[py], si, 1.), "gradient {:?}", v.gphi);
        ck!(near(v.f[f1], co + y * y, 1.) && near(v.f[f2], y * z, 1.), "functions {:?}", v.f);
        let j = dense(&v.j)?;
        ck!(near(j[f1][px], -s * si, s) && near(j[f1][py], 2. * y, 1.) && near(j[f2][px], s * y, s) && near(j[f2][py], z, 1.), "Jacobian {:?}", j);
        let (hi, lo) = (px.max(py), px.min(py));
        let hp = dense(&v.hphi)?;
        ck!(near(hp[px][px], -s * s * si * y, s * s) && near(hp[hi][lo], s * co, s) && near(hp[py][py], 0., 1.), "Hessian {:?}", hp);
        let (h1, h2) = (dense(&v.h[f1])?, dense(&v.h[f2])?);
        ck!(near(h1[px][px], -s * s * co, s * s) && near(h1[hi][lo], 0., s) && near(h1[py][py], 2., 1.), "Hessian of the first function {:?}", h1);
        ck!(near(h2[px][px], 0., s * s) && near(h2[hi][lo], s, s) && near(h2[py][py], 0., 1.), "Hessian of the second function {:?}", h2);
        if *q >= 4 {
            if let Some(u) = nu {
                let hc = dense(&v.hcomb)?;
                ck!(near(hc[px][px], -u[0] * s * s * co, s) && near(hc[hi][lo], u[1] * s, 1.) && near(hc[py][py], 2. * u[0], 1. / s), "combined Hessian {:?}", hc);
            }
        }
        c.step(1);
        c.state(hash_f64s(&[z, s, *q as f64]));
    }
    if seq.iter().any(|q| *q != seq[0]) { c.nontrivial(); }
    c.trace();
    Ok(())
}

/// Zeros of both signs and numbers that are not finite: the same values as a problem never evaluated before.
fn undefined(c: &mut Ctx, sp: &Spec, direct: bool, seq: &[usize]) -> Res {
    let make = || sp.build().model.std_problem_checked();
    let pt = |n: usize, q: usize| -> Vec<f64> { (0..n).map(|i| [0., -0., f64::INFINITY, f64::NAN, f64::NEG_INFINITY, if i % 2 == 0 { 1. } else { 0. }, if i % 2 == 0 { 1. } else { -0. }, if i % 2 == 0 { 0. } else { 1. }, if i % 2 == 0 { -0. } else { 1. }][q]).collect() };
    let mut sd = make()?;
    let st = std_of(&mut sd.prob)?;
    if st.class == Class::Lp || st.class == Class::Milp { return Ok(()); }
    for (t, q) in seq.iter().enumerate() {
        let v = eval(&mut sd.prob, direct, &pt(st.n, *q));
        if t + 1 < seq.len() { c.step(1); continue; }
        let mut fr = make()?;
        let w = eval(&mut fr.prob, direct, &pt(st.n, *q));
        let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || x.is_nan() && y.is_nan() || x.is_finite() && y.is_finite() && (x - y).abs() <= 1e-9 * x.abs());
        let dm = |a: &CooMat<f64>, b: &CooMat<f64>| -> Result<bool, Fail> { let (a, b) = (dense(a)?, dense(b)?); Ok(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| same(x, y))) };
        let good = same(&[v.phi], &[w.phi]) && same(&v.gphi, &w.gphi) && same(&v.f, &w.f) && dm(&v.hphi, &w.hphi)? && dm(&v.j, &w.j)? && v.h.iter().zip(&w.h).map(|(a, b)| dm(a, b)).collect::<Result<Vec<_>, _>>()?.iter().all(|g| *g);
        ck!(good, "the values depend on what was evaluated before: objective {:e} and {:e}, gradient {:?} and {:?}, functions {:?} and {:?}", v.phi, w.phi, v.gphi, w.gphi, v.f, w.f);
        // multipliers that are not finite, after others
        let nf = w.f.len();
        if nf > 0 && seq.iter().all(|z| z == q) {
            for at in 0..=nf { for bad in [f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
                let u: Vec<f64> = (0..nf).map(|i| if at == nf || at == i { bad } else { 0.5 - i as f64 }).collect();
                comb(&mut sd.prob, direct, &vec![2.; nf]);
                let g = comb(&mut sd.prob, direct, &u);
                let mut fr = make()?;
                eval(&mut fr.prob, direct, &pt(st.n, *q));
                let w = comb(&mut fr.prob, direct, &u);
                ck!(dm(&g.hcomb, &w.hcomb)?, "the combination with the multipliers {:?} depends on the one before", u);
                c.step(3);
            } }
        }
        c.step(2);
        c.state(hash_f64s(&[v.phi, *q as f64]));
    }
    if seq.iter().any(|q| *q != seq[0]) { c.nontrivial(); }
    c.trace();
    Ok(())
}

pub const FUN: &[&str] = &["x*x", "x*y", "sin(x)*y", "x/y", "x*x*x - y", "x*y*k", "cos(x + y)", "(x - y)*(x - y)", "k*x + y*y", "1/(x*x + 1)", "x*x/(y*y + 2)", "sin(x*y) + cos(k)", "x - y + 0.5", "y*y*y*y"];

/// Several problems living at a time, evaluated, combined and made anew in every order.  An operation is
/// (problem, 0-2: point, 3: multipliers, 4: drop it and make it again).
fn several(c: &mut Ctx, sps: &[&Spec], direct: bool, seq: &[(usize, usize)]) -> Res {
    struct One { prob: Problem, lay: Layout, n: usize, nf: usize, frow: Vec<usize>, exact: bool, cur: Option<Vec<f64>> }
    fn make(sp: &Spec) -> Result<One, Fail> {
        let b = sp.build();
        let mut sd = b.model.std_problem_checked()?;
        let st = std_of(&mut sd.prob)?;
        let lay = layout(&sd, &b.vars, st.n)?;
        let frow = (0..st.nf).map(|i| sd.jindex2constr.get(&i).and_then(|q| index_of(&b.cons, q)).ok_or_else(|| Fail::from("row not mapped"))).collect::<Result<_, _>>()?;
        Ok(One { exact: matches!(st.class, Class::Nlp | Class::Minlp), prob: sd.prob, lay, n: st.n, nf: st.nf, frow, cur: None })
    }
    let mut ps: Vec<Option<One>> = sps.iter().map(|s| make(s).map(Some)).collect::<Result<_, _>>()?;
    for (t, (w, op)) in seq.iter().enumerate() {
        if *op == 4 { ps[*w] = None; ps[*w] = Some(make(sps[*w])?); c.step(1); continue; }
        let o = ps[*w].as_mut().unwrap();
        let sy = Sys { sp: sps[*w], lay: o.lay.clone(), n: o.n, frow: o.frow.clone(), exact: o.exact };
        let at = |e: Fail| Fail::from(format!("after operation {} (problem {}): {}", t, w, e.msg));
        if *op < 3 {
            let x: Vec<f64> = (0..sy.n).map(|i| match sy.lay.user[i] { Some(k) => POINTS[*op][k], None => 0.3 * (i as f64 + 1.) }).collect();
            let v = eval(&mut o.prob, direct, &x);
            sy.compare(&v, &x).map_err(at)?;
            o.cur = Some(x);
        } else {
            let nu = nu_of(*w, o.nf);
            let v = comb(&mut o.prob, direct, &nu);
            if let Some(x) = &o.cur {
                let (_, fs) = sy.jets(x);
                if fs.iter().all(|f| f.ok) {
                    let js: Vec<(f64, Jet)> = nu.iter().cloned().zip(fs).collect();
                    sy.hess("combined Hessian", &v.hcomb, &js).map_err(at)?;
                }
                sy.compare(&v, x).map_err(at)?;
            }
        }
        c.step(1);
    }
    c.state(hash_u64s(&[hash_str(&sps.iter().map(|s| s.show()).collect::<String>()), hash_str(&format!("{:?}", seq)) % 64]));
    c.trace();
    if seq.iter().any(|o| o.0 != seq[0].0) { c.nontrivial(); }
    Ok(())
}

fn run(c: &mut Ctx) {
    let int = vec![false, false, true];
    let noint = vec![false; 3];
    let rels = [Rel::Eq, Rel::Le, Rel::Ge];
    let mut specs: Vec<Spec> = Vec::new();
    for (i, f) in FUN.iter().enumerate() {
        for (k, t) in ["min", "max"].iter().enumerate() {
            let o = obj(&format!("{} {}", t, f), &N);
            specs.push(Spec { names: N.to_vec(), int: noint.clone(), obj: o.clone(), cons: vec![] });
            for g in 0..FUN.len() {
                let h = (g + 5) % FUN.len();
                let cs = vec![con(&format!("{} | 1", FUN[g]), rels[(i + g + k) % 3], &N), con(&format!("y | {}", FUN[h]), rels[(i + k + g / 2) % 3], &N), con("x + 2*y | 3", rels[g % 3], &N)];
                specs.push(Spec { names: N.to_vec(), int: if g % 2 == 0 { noint.clone() } else { int.clone() }, obj: o.clone(), cons: cs });
            }
        }
    }
    specs.push(Spec { names: N.to_vec(), int: noint.clone(), obj: None, cons: cons(&["x*y | 0.5", "x*x | y"], &N) });
    specs.push(Spec { names: N.to_vec(), int: noint.clone(), obj: obj("min x + y", &N), cons: cons(&["x*y*k | 0.5", "x*x | y", "x | 1", "sin(k) | x"], &N) });
    c.section("models from the public model layer");
    for (i, sp) in specs.iter().enumerate() {
        for d in [false, true] {
            if c.done() { return; }
            let len = c.pick(if d || i % 5 != 0 { 3 } else { 4 }, 4);
            sequences(NP + 4, len, &mut |s| {
                c.case(|| format!("{} via {}: {:?} (0-7: points, 8-11: multipliers)", sp.show(), if d { "own methods" } else { "Minlp view" }, s), |c| history(c, sp, d, s));
                !c.done()
            });
        }
    }
    c.section("several problems at a time");
    let m = specs.len();
    for i in (0..m).step_by(c.pick(3, 1)) { for stride in [0usize, 1, 2, m / 2, m - 1] {
        if c.done() { return; }
        let sps = [&specs[i], &specs[(i + stride) % m]];
        let d = (i + stride) % 2 == 0;
        sequences(10, c.pick(3, 4), &mut |s| {
            let q: Vec<(usize, usize)> = s.iter().map(|o| (o / 5, o % 5)).collect();
            if q[0].0 != 0 { return true; }
            c.case(|| format!("{} and {} via {}: {:?} (problem, 0-2: point, 3: multipliers, 4: made again)", sps[0].show(), sps[1].show(), if d { "own methods" } else { "Minlp view" }, q), |c| several(c, &sps, d, &q));
            !c.done()
        });
    } }
    c.section("zeros of both signs and numbers that are not finite");
    for sp in &specs { for d in [false, true] { for len in 2..=c.pick(2, 3) {
        if c.done() { return; }
        sequences(9, len, &mut |s| {
            c.case(|| format!("{} via {}: {:?} (0: zero, 1: minus zero, 2, 4: infinite, 3: not a number, 5-8: zeros of either sign beside ones)", sp.show(), if d { "own methods" } else { "Minlp view" }, s), |c| with_seed(1, || undefined(c, sp, d, s)));
            !c.done()
        });
    } } }
    c.section("problems made directly");
    let mut sizes: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..4 { sizes.push(vec![a]); for b in 0..4 { sizes.push(vec![a, b]); for d in 0..4 { sizes.push(vec![a, b, d]); } } }
    sizes.push(vec![7, 0, 7]);
    for s in &sizes { for m in [false, true] {
        sequences(NP + 4, 3, &mut |q| {
            c.case(|| format!("Hessians with {:?} entries, minlp {}: {:?}", s, m, q), |c| direct(c, m, s, q));
            !c.done()
        });
    } }
    c.section("points and multipliers that almost agree");
    for (b, e) in [(0., 3), (0., 10), (0., 20), (0., 27), (0., 30), (0., 34), (0., 40), (0., 50), (0., 60), (0., 100), (1., 14), (1., 24), (1., 30), (1., 34), (1., 40), (1., 44), (-3., 20), (-3., 37), (1000., 20), (1000., 33)] {
        for (n, first, int, d) in [(0usize, true, false, true), (0, false, false, false), (1, false, true, false), (3, true, false, true), (9, false, false, true)] {
            sequences(7, c.pick(3, 4), &mut |q| {
                c.case(|| format!("unit 2^-{} from {}, {} more variables, {} {} {}: {:?} (0-3: points, 4-6: multipliers)", e, b, n, first, int, d, q), |c| steep(c, b, e, n, first, int, d, q));
                !c.done()
            });
        }
    }
    c.section("large problems made directly");
    for n in [1usize, 2, 5, 8, 9, 16, 17, 33, 40, 66, 130, 260, 300] { for m in [1usize, 2, 3, 7, 8, 9, 16, 17, 33, 65, 130, 257] { for per in [1usize, 4, 9, 33] { for order in 0..3 { for k in [false, true] {
        if n * m > c.pick(600, 1400) { continue; }
        c.case(|| format!("{} variables, {} Hessians with {} entries, order {}, minlp {}", n, m, per, order, k), |c| direct_wide(c, k, n, m, per, order));
    } } } } }
    c.section("models over many variables with many constraints");
    for kind in 0..8 { for n in [2usize, 3, 5, 8, 9, 12, 17, 24] { for m in [0usize, 1, 2, 5, 8, 9, 17, 33] { for same in [false, true] {
        if n > c.pick(12, 24) { continue; }
        c.case(|| format!("kind {}, {} variables, {} constraints, same names {}", kind, n, m, same), |c| wide_model(c, kind, n, m, 12, same));
    } } } }
    for kind in 0..8 { for (n, m) in [(40usize, 3usize), (66, 2), (3, 66), (2, 130), (4, 260)] { if n > 30 && kind % 4 != 0 && !c.thorough() { continue; } c.case(|| format!("kind {}, {} variables, {} constraints", kind, n, m), |c| wide_model(c, kind, n, m, 4, false)); } }
    c.section("long histories");
    let rounds = c.pick(300, 1100);
    for kind in 0..8 { for (n, m) in [(2, 2), (3, 5), (4, 1)] {
        c.case(|| format!("kind {}, {} variables, {} constraints, {} evaluations", kind, n, m, rounds), |c| wide_model(c, kind, n, m, rounds, false));
    } }
}
