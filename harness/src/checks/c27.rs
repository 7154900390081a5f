//! C27: problems are made exactly from data of consistent sizes.

use crate::{bad, ck};
use crate::fw::*;
use numopt::matrix::coo::CooMat;
use numopt::problem::base::ProblemSol;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C27", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one class of problem and one size for every part of its data; it must be accepted exactly if the sizes agree, and then report them; non-trivial: inconsistent sizes",
        assumptions: &["refusal is a panic of the constructor, as everywhere in this crate"],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cl { Lp, Milp, Nlp, Minlp }

/// Sizes of all parts; the last three are those of one Hessian (which one, rows, columns).
const PARTS: [&str; 14] = ["columns of A", "rows of A", "b", "l", "u", "p", "x0", "c", "rows of Hphi", "columns of Hphi", "rows of J", "columns of J", "number of H", "rows of one H"];
const HC: usize = 14; // columns of one H
type Sizes = [usize; 15];

fn parts(cl: Cl) -> Vec<usize> {
    match cl {
        Cl::Lp => vec![0, 1, 2, 3, 4, 6, 7],
        Cl::Milp => vec![0, 1, 2, 3, 4, 5, 6, 7],
        Cl::Nlp => vec![0, 1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 13, HC],
        Cl::Minlp => vec![0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, HC],
    }
}

fn good(cl: Cl, s: &Sizes, x0: bool, odd: usize) -> bool {
    let n = s[0];
    let mut g = s[2] == s[1] && s[3] == n && s[4] == n && (!x0 || s[6] == n);
    if matches!(cl, Cl::Milp | Cl::Minlp) { g &= s[5] == n; }
    if matches!(cl, Cl::Lp | Cl::Milp) { g &= s[7] == n; }
    if matches!(cl, Cl::Nlp | Cl::Minlp) { g &= s[8] == n && s[9] == n && s[11] == n && s[12] == s[10] && (odd >= s[12] || s[13] == n && s[HC] == n); }
    g
}

enum P { Lp(ProblemLp), Milp(ProblemMilp), Nlp(ProblemNlp), Minlp(ProblemMinlp) }

fn make(cl: Cl, s: &Sizes, x0: bool, odd: usize) -> P {
    let a = CooMat::<f64>::from_nnz((s[1], s[0]), 0);
    let (b, l, u) = (vec![1.; s[2]], vec![-1.; s[3]], vec![1.; s[4]]);
    let p = vec![true; s[5]];
    let x = if x0 { Some(vec![0.5; s[6]]) } else { None };
    let c = vec![2.; s[7]];
    let hp = CooMat::<f64>::from_nnz((s[8], s[9]), 0);
    let j = CooMat::<f64>::from_nnz((s[10], s[11]), 0);
    let h: Vec<CooMat<f64>> = (0..s[12]).map(|k| CooMat::from_nnz(if k == odd { (s[13], s[HC]) } else { (s[0], s[0]) }, 0)).collect();
    let f = Box::new(|_: &mut f64, _: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<f64>, _: &mut CooMat<f64>, _: &mut Vec<CooMat<f64>>, _: &[f64]| ());
    match cl {
        Cl::Lp => P::Lp(ProblemLp::new(c, a, b, l, u, x)),
        Cl::Milp => P::Milp(ProblemMilp::new(c, a, b, l, u, p, x)),
        Cl::Nlp => P::Nlp(ProblemNlp::new(hp, a, b, j, h, l, u, x, f)),
        Cl::Minlp => P::Minlp(ProblemMinlp::new(hp, a, b, j, h, l, u, p, x, f)),
    }
}

fn check(c: &mut Ctx, cl: Cl, s: &Sizes, x0: bool, odd: usize) -> Res {
    let want = good(cl, s, x0, odd);
    let r = catch(|| make(cl, s, x0, odd));
    c.step(1);
    c.trace();
    c.state(hash_u64s(&s.iter().map(|v| *v as u64).collect::<Vec<_>>()));
    let q = match r {
        Err(e) => { ck!(!want, "consistent data is refused: {}", e); c.nontrivial(); return Ok(()); }
        Ok(q) => { ck!(want, "inconsistent data is accepted"); q }
    };
    let (n, na, nf) = (s[0], s[1], s[12]);
    let len = |x: Option<&[f64]>| x.map(|x| x.len());
    let wx = if x0 { Some(n) } else { None };
    match q {
        P::Lp(mut q) => {
            ck!(q.nx() == n && q.na() == na && q.c().len() == n && q.b().len() == na && q.l().len() == n && q.u().len() == n && len(q.x0()) == wx, "the sizes are reported wrongly");
            ck!(q.as_mut_milp().p().len() == n && q.as_mut_nlp().nf() == 0 && q.as_mut_minlp().p().len() == n, "the sizes of the views are wrong");
        }
        P::Milp(q) => ck!(q.nx() == n && q.na() == na && q.c().len() == n && q.b().len() == na && q.l().len() == n && q.u().len() == n && q.p().len() == n && len(q.x0()) == wx, "the sizes are reported wrongly"),
        P::Nlp(mut q) => {
            ck!(q.nx() == n && q.na() == na && q.nf() == nf && q.b().len() == na && q.f().len() == nf && q.gphi().len() == n && q.l().len() == n && q.u().len() == n && len(q.x0()) == wx && q.h().len() == nf, "the sizes are reported wrongly");
            for k in 0..nf + 3 { ck!(catch(|| q.combine_h(&vec![1.; k])).is_ok() == (k == nf), "{} multipliers for {} functions", k, nf); }
        }
        P::Minlp(mut q) => {
            ck!(q.nx() == n && q.na() == na && q.nf() == nf && q.b().len() == na && q.f().len() == nf && q.gphi().len() == n && q.l().len() == n && q.u().len() == n && q.p().len() == n && len(q.x0()) == wx && q.h().len() == nf, "the sizes are reported wrongly");
            for k in 0..nf + 3 { ck!(catch(|| q.combine_h(&vec![1.; k])).is_ok() == (k == nf), "{} multipliers for {} functions", k, nf); }
        }
    }
    let z = ProblemSol::new(n, na, nf);
    ck!(z.x == vec![0.; n] && z.mu == vec![0.; n] && z.pi == vec![0.; n] && z.lam == vec![0.; na] && z.nu == vec![0.; nf], "an empty solution is {:?}", z);
    Ok(())
}

fn run(c: &mut Ctx) {
    let show = |cl: Cl, s: &Sizes, x0: bool, odd: usize| {
        let mut t = format!("{:?}:", cl);
        for k in parts(cl) { if k == 6 && !x0 { continue; } t += &if k == HC { format!(" columns of H {}: {}", odd, s[k]) } else if k == 13 { format!(" rows of H {}: {}", odd, s[k]) } else { format!(" {}: {}", PARTS[k], s[k]) }; }
        t
    };
    let top = 5usize;
    let top_n = c.pick(3, 4);
    for depth in 0..=c.pick(2, 3) {
        c.section(&format!("{} parts of another size", depth));
        for cl in [Cl::Lp, Cl::Milp, Cl::Nlp, Cl::Minlp] { for n in 0..=top_n { for na in 0..=2usize { for nf in 0..=(if matches!(cl, Cl::Nlp | Cl::Minlp) { 2usize } else { 0 }) { for x0 in [false, true] {
            let base: Sizes = [n, na, na, n, n, n, n, n, n, n, nf, n, nf, n, n];
            let ks = parts(cl);
            let mut go = |c: &mut Ctx, s: &Sizes| {
                for odd in 0..nf.max(1) { c.case(|| show(cl, s, x0, odd), |c| check(c, cl, s, x0, odd)); }
                !c.done()
            };
            if depth == 0 { if !go(c, &base) { return; } continue; }
            for (i, k1) in ks.iter().enumerate() { for v1 in 0..=top {
                if v1 == base[*k1] { continue; }
                let mut s = base;
                s[*k1] = v1;
                if depth == 1 { if !go(c, &s) { return; } continue; }
                for (i2, k2) in ks.iter().enumerate().skip(i + 1) { for v2 in 0..=top {
                    if v2 == base[*k2] { continue; }
                    let mut s = s;
                    s[*k2] = v2;
                    if depth == 2 { if !go(c, &s) { return; } continue; }
                    for k3 in ks.iter().skip(i2 + 1) { for v3 in [0, n, n + 1, na + 1] {
                        if v3 == base[*k3] { continue; }
                        let mut s = s;
                        s[*k3] = v3;
                        if !go(c, &s) { return; }
                    } }
                } }
            } }
        } } } } }
    }
    c.section("sizes that differ by a power of two, large problems");
    // one part whose size differs from what it should be by 1, 2, 4, ..., 256 or more
    for cl in [Cl::Lp, Cl::Milp, Cl::Nlp, Cl::Minlp] { for (n, na, nf) in [(0usize, 0usize, 0usize), (1, 1, 1), (3, 2, 2), (20, 7, 3), (300, 257, 5), (1000, 256, 4)] { for x0 in [false, true] {
        let nf = if matches!(cl, Cl::Nlp | Cl::Minlp) { nf } else { 0 };
        let base: Sizes = [n, na, na, n, n, n, n, n, n, n, nf, n, nf, n, n];
        c.case(|| show(cl, &base, x0, nf), |c| check(c, cl, &base, x0, nf));
        for k in parts(cl) { for d in [1usize, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 65536] { for down in [false, true] {
            if down && d > base[k] { continue; }
            let mut s = base;
            s[k] = if down { s[k] - d } else { s[k] + d };
            for odd in 0..nf.max(1) { c.case(|| show(cl, &s, x0, odd), |c| check(c, cl, &s, x0, odd)); }
        } } if c.done() { return; } }
    } } }
    // the number of multipliers
    for nf in [0usize, 1, 2, 3, 5, 16, 40, 255, 256, 300] { for cl in [Cl::Nlp, Cl::Minlp] {
        c.case(|| format!("{:?}: numbers of multipliers for {} functions", cl, nf), |c| {
            let s: Sizes = [2, 1, 1, 2, 2, 2, 2, 2, 2, 2, nf, 2, nf, 2, 2];
            let mut q = make(cl, &s, false, nf);
            let mut ks: Vec<usize> = (0..600).collect();
            ks.extend([nf + 1024, nf + 65536, nf + (1 << 20)]);
            for k in ks {
                let nu = vec![1.; k];
                let r = match &mut q { P::Nlp(q) => catch(|| q.combine_h(&nu)).is_ok(), P::Minlp(q) => catch(|| q.combine_h(&nu)).is_ok(), _ => bad!("class") };
                ck!(r == (k == nf), "{} multipliers for {} functions", k, nf);
                c.step(1);
            }
            c.nontrivial();
            c.trace();
            c.state(nf as u64);
            Ok(())
        });
    } }
    c.section("sizes that agree with each other only");
    // every combination of sizes of a linear problem
    for cl in [Cl::Lp, Cl::Milp] { for k in 0..3usize.pow(8) {
        let d = |i: usize| k / 3usize.pow(i as u32) % 3;
        let s: Sizes = [d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), 0, 0, 0, 0, 0, 0, 0];
        if cl == Cl::Lp && d(5) > 0 { continue; }
        c.case(|| show(cl, &s, true, 0), |c| check(c, cl, &s, true, 0));
    } if c.done() { return; } }
}
