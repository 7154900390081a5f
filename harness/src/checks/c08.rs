//! C08: the LP file describes the same problem.

use crate::fw::*;
use crate::lp::{self, Lp};
use crate::{bad, ck};
use numopt::matrix::coo::CooMat;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use std::process::{Command, Stdio};

pub fn def() -> CheckDef {
    CheckDef {
        id: "C08", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one mixed-integer linear problem written to a file that is read back by an independent reader of the format (and, where stated, by clp), or one point at which writing fails; non-trivial: at least one row entry",
        assumptions: &["names of variables and rows end in their index", "clp 1.17 as the solver's reader; rows and variables without any entry are judged by the format's grammar only"],
    }
}

#[derive(Clone, Debug)]
pub struct Data { pub c: Vec<f64>, pub a: Vec<(usize, usize, f64)>, pub b: Vec<f64>, pub l: Vec<f64>, pub u: Vec<f64>, pub p: Vec<bool> }

impl Data {
    pub fn problem(&self) -> ProblemMilp {
        let a = CooMat::new((self.b.len(), self.c.len()), self.a.iter().map(|e| e.0).collect(), self.a.iter().map(|e| e.1).collect(), self.a.iter().map(|e| e.2).collect());
        ProblemMilp::new(self.c.clone(), a, self.b.clone(), self.l.clone(), self.u.clone(), self.p.clone(), None)
    }
    pub fn dense(&self) -> Vec<Vec<f64>> {
        let mut d = vec![vec![0.; self.c.len()]; self.b.len()];
        for (i, j, v) in &self.a { d[*i][*j] += v; }
        d
    }
    fn unchanged(&self, p: &ProblemMilp) -> bool {
        let t: Vec<(usize, usize, f64)> = p.a().iter().map(|(i, j, v)| (*i, *j, *v)).collect();
        t == self.a && p.c() == self.c && p.b() == self.b && p.l() == self.l && p.u() == self.u && p.p() == self.p && p.a().rows() == self.b.len() && p.a().cols() == self.c.len()
    }
}

fn eq(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-10 * b.abs() }

/// Sums of duplicates may be added in another order.
fn eqs(a: f64, b: f64, mag: f64) -> bool { eq(a, b) || (a - b).abs() <= 1e-10 * b.abs() + 1e-15 * mag }

pub fn compare(lp: &Lp, d: &Data, strict: bool) -> Res {
    let n = d.c.len();
    ck!(!lp.max, "it maximizes");
    for (j, v) in &lp.c { ck!(*j < n || *v == 0., "objective names variable {}", j); }
    for j in 0..n {
        let g = lp.c.get(&j).cloned().unwrap_or(0.);
        ck!(eq(g, d.c[j]), "objective coefficient of variable {} is {:e} instead of {:e}", j, g, d.c[j]);
    }
    // per row: column to sum and sum of magnitudes
    let mut den: Vec<std::collections::BTreeMap<usize, (f64, f64)>> = vec![Default::default(); d.b.len()];
    for (i, j, v) in &d.a { let e = den[*i].entry(*j).or_insert((0., 0.)); e.0 += v; e.1 += v.abs(); }
    let mut in_row = vec![false; n];
    for r in &den { for (j, e) in r { if e.0 != 0. { in_row[*j] = true; } } }
    let int: std::collections::HashSet<usize> = lp.int.iter().cloned().collect();
    for i in lp.rows.keys() { ck!(*i < d.b.len(), "it has a row {}", i); }
    for i in 0..d.b.len() {
        match lp.rows.get(&i) {
            None => ck!(!strict && den[i].values().all(|v| v.0 == 0.), "row {} is missing", i),
            Some((m, r, b)) => {
                ck!(*r == '=', "row {} is not an equality", i);
                ck!(eq(*b, d.b[i]), "right-hand side {} is {:e} instead of {:e}", i, b, d.b[i]);
                for (j, v) in m { ck!(*j < n || *v == 0., "row {} names variable {}", i, j); }
                for j in m.keys().chain(den[i].keys()) {
                    let (g, e) = (m.get(j).cloned().unwrap_or(0.), den[i].get(j).cloned().unwrap_or((0., 0.)));
                    ck!(eqs(g, e.0, e.1), "entry ({}, {}) is {:e} instead of {:e}", i, j, g, e.0);
                }
            }
        }
    }
    for j in 0..n {
        let used = strict || d.c[j] != 0. || in_row[j];
        if !used { continue; }
        let l = lp.l.get(&j).cloned().unwrap_or(0.);
        let u = lp.u.get(&j).cloned().unwrap_or(f64::INFINITY);
        ck!(eq(l, d.l[j]), "lower limit {} is {:e} instead of {:e}", j, l, d.l[j]);
        ck!(eq(u, d.u[j]), "upper limit {} is {:e} instead of {:e}", j, u, d.u[j]);
        ck!((!strict && d.l[j] == d.u[j]) || int.contains(&j) == d.p[j], "variable {} is{} integer", j, if d.p[j] { " not" } else { "" });
    }
    for j in &lp.int { ck!(*j < n && d.p[*j], "variable {} is listed as integer", j); }
    Ok(())
}

fn one(c: &mut Ctx, d: &Data, solver: bool) -> Res {
    let p = d.problem();
    let f = c.scratch.join("p.lp");
    let fs = f.to_str().unwrap();
    if let Err(e) = p.write_to_lp_file(fs) { bad!("writing fails: {}", e); }
    let s = std::fs::read_to_string(&f).map_err(|e| Fail::from(e.to_string()))?;
    let r = lp::read(&s).map_err(|e| Fail::from(format!("not a well-formed LP file: {}\n{}", e, s)))?;
    compare(&r, d, true).map_err(|e| Fail::from(format!("{}\n{}", e.msg, s.chars().take(20000).collect::<String>())))?;
    ck!(d.unchanged(&p), "writing changed the problem");
    c.state(hash_str(&s));
    c.step(1);
    c.trace();
    if !d.a.is_empty() { c.nontrivial(); }
    if solver {
        let m = c.scratch.join("p.mps");
        let _ = std::fs::remove_file(&m);
        let o = Command::new("clp").current_dir(&c.scratch).args(["p.lp", "presolve", "off", "outputFormat", "3", "export", "p.mps"])
            .stdin(Stdio::null()).output().map_err(|e| Fail::from(e.to_string()))?;
        let t = match std::fs::read_to_string(&m) { Ok(t) => t, Err(_) => bad!("clp cannot read the file:\n{}\n{}", s, String::from_utf8_lossy(&o.stdout)) };
        let r = lp::read_mps(&t).map_err(|e| Fail::from(format!("MPS: {}\n{}", e, t)))?;
        compare(&r, d, false).map_err(|e| Fail::from(format!("as clp reads it: {}\n{}\n{}", e.msg, s, t)))?;
        c.note("read_by_clp", 1);
    }
    Ok(())
}

/// All vectors of length n over an alphabet.
pub fn tuples<T: Clone>(al: &[T], n: usize, f: &mut dyn FnMut(&[T])) {
    let mut ix = vec![0; n];
    loop {
        let v: Vec<T> = ix.iter().map(|i| al[*i].clone()).collect();
        f(&v);
        let mut i = n;
        loop {
            if i == 0 { return; }
            i -= 1;
            ix[i] += 1;
            if ix[i] < al.len() { break; }
            ix[i] = 0;
        }
    }
}

const NUMS: &[f64] = &[0., 1., -1., 2.5, -0.75, 1. / 3., -1e-7, 1e10, 123456.789012345, -0., 1.0000000001, -9.9999999999e5, 1e-300, 3e200, 10., 100., 0.1];

fn run(c: &mut Ctx) {
    c.section("numbers in every place");
    for v in NUMS { for w in NUMS {
        let d = Data { c: vec![*v, 1., *w], a: vec![(0, 0, *w), (0, 1, *v), (1, 2, 1.)], b: vec![*v, *w], l: vec![-1e8, v.min(*w), -1.], u: vec![1e8, v.max(*w), 2.], p: vec![false, true, true] };
        c.case(|| format!("{:?}", d), |c| one(c, &d, false));
        let d = Data { c: vec![*v], a: vec![(0, 0, *w)], b: vec![*v], l: vec![v.min(*w)], u: vec![v.max(*w)], p: vec![true] };
        c.case(|| format!("{:?}", d), |c| one(c, &d, false));
    } }
    c.section("shapes, patterns with repetitions in every order, integer patterns");
    let vals: &[f64] = &[1., -1., 2.5, 0.];
    let maxe = c.pick(3, 4);
    for n in 1..=3usize { for na in 0..=2usize {
        let cells: Vec<(usize, usize)> = (0..na).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
        for e in 0..=maxe {
            if e > 0 && cells.is_empty() { break; }
            let mut sets: Vec<Vec<(usize, usize)>> = Vec::new();
            if e == 0 { sets.push(vec![]); } else { tuples(&cells, e, &mut |t| sets.push(t.to_vec())); }
            for (q, s) in sets.iter().enumerate() {
                for r in 0..c.pick(4, 8) {
                    if c.done() { return; }
                    let a: Vec<(usize, usize, f64)> = s.iter().enumerate().map(|(k, x)| (x.0, x.1, vals[(k * (r + 1) + q + r) % 4])).collect();
                    let m = q + r;
                    let d = Data { c: (0..n).map(|j| [0., 1., -2., -1.][(m + j) % 4]).collect(), a, b: (0..na).map(|i| [0., 3., -1.5][(m + i) % 3]).collect(),
                        l: (0..n).map(|j| [-1e8, 0., -2., 1.][(m + 3 * j) % 4]).collect(), u: (0..n).map(|j| [1e8, 5., 1.][(m + j) % 3]).collect(), p: (0..n).map(|j| m >> j & 1 == 1).collect() };
                    c.case(|| format!("{:?}", d), |c| one(c, &d, false));
                }
            }
        }
    } }
    c.section("as clp reads it");
    let co: &[f64] = c.pick(&[1., -1., 2.5][..], &[1., -1., 2.5, 1. / 3., -12345.678901]);
    let li: &[(f64, f64)] = &[(-1e8, 1e8), (0., 1e8), (-2., 5.), (1., 1.), (-3., -1.), (-1e8, 0.), (0., 1.)];
    for c0 in co { for c1 in co { for a1 in co { for (i, x) in li.iter().enumerate() { for (k, y) in li.iter().enumerate() { for p in 0..4usize {
        if (i + k + p) % c.pick(4, 1) != 0 { continue; }
        if c.done() { return; }
        let d = Data { c: vec![*c0, 0., *c1], a: vec![(0, 1, *a1), (0, 0, 1.), (0, 1, 0.5), (1, 2, -1.), (1, 0, *c1)], b: vec![3., [0., -1.5][k % 2]], l: vec![x.0, y.0, -1.], u: vec![x.1, y.1, 7.],
            p: vec![p & 1 == 1, p & 2 == 2, false] };
        c.case(|| format!("{:?}", d), |c| one(c, &d, true));
    } } } } } }
    c.section("many variables and rows");
    for n in [5usize, 11, 12, 40, 101, 400] { for k in 0..c.pick(6usize, 24) {
        let m = n / 2 + k % 3;
        let a: Vec<(usize, usize, f64)> = (0..3 * n).map(|t| ((t * 7 + k) % m, (t * t + 3 * k + t) % n, [1., -1., 2.5, -0.125, 7.][(t + k) % 5])).collect();
        let d = Data { c: (0..n).map(|j| (j as f64 - 3.) * 0.5).collect(), a, b: (0..m).map(|i| i as f64 - 1.).collect(), l: (0..n).map(|j| -(j as f64)).collect(), u: (0..n).map(|j| j as f64 + 0.5).collect(),
            p: (0..n).map(|j| (j + k) % 3 == 0).collect() };
        c.case(|| format!("{} variables, {} rows, pattern {}", n, m, k), |c| one(c, &d, n <= 101));
    } }
    for n in [199usize, 200, 201, 202, 255, 256, 257, 258, 300, 501, 513, 1025] { for k in 0..c.pick(3usize, 10) {
        // full rows and full columns
        let mut a: Vec<(usize, usize, f64)> = (0..n).map(|j| (0, j, [-1., -2.5, 7., 0.125, 1., -3.][(j + k) % 6])).collect();
        a.extend((1..n).map(|i| (i, k, -0.5 - i as f64)));
        a.extend((0..n).rev().filter(|j| j % 2 == 0).map(|j| (n - 1, j, -1. - 0.5 * j as f64)));
        let d = Data { c: (0..n).map(|j| 3.5 - j as f64).collect(), a, b: (0..n).map(|i| 1. - i as f64).collect(), l: (0..n).map(|j| -(j as f64)).collect(), u: (0..n).map(|j| j as f64 + 0.5).collect(), p: (0..n).map(|j| (j + k) % 3 == 0).collect() };
        c.case(|| format!("{} variables and rows, full rows, pattern {}", n, k), |c| one(c, &d, false));
    } }
    for (n, k) in [(65535usize, 0usize), (65536, 1), (65537, 2), (66000, 3), (70001, 4), (100003, 5)] {
        if c.done() { return; }
        // one entry in each row
        let d = Data { c: (0..n).map(|j| [0., 1., -2.5][(j + k) % 3]).collect(), a: (0..n).map(|i| (i, (i * 7 + k) % n, [1., -0.5, 3.][i % 3])).collect(), b: (0..n).map(|i| i as f64).collect(),
            l: (0..n).map(|j| -(j as f64)).collect(), u: (0..n).map(|j| j as f64 + 0.5).collect(), p: (0..n).map(|j| (j + k) % 3 == 0).collect() };
        c.case(|| format!("{} variables and rows", n), |c| one(c, &d, false));
    }
    c.section("files that cannot be written");
    let small = Data { c: vec![1., 2.], a: vec![(0, 0, 1.), (0, 1, 2.)], b: vec![1.], l: vec![0.; 2], u: vec![1.; 2], p: vec![false, true] };
    let n = c.pick(150usize, 1500);
    let big = Data { c: vec![1.5; n], a: (0..n).map(|j| (j % 5, j, 2.5)).collect(), b: vec![1.; 5], l: vec![0.; n], u: vec![1.; n], p: (0..n).map(|j| j % 2 == 0).collect() };
    for (nm, d) in [("small", &small), ("large", &big)] {
        for path in ["/nonexistent/dir/p.lp", "/dev/full", "DIR", "", "NODIR/p.lp", "FILE/p.lp"] {
            c.case(|| format!("{} problem to {:?}", nm, path), |c| {
                let dir = c.scratch.join("dir.lp");
                let _ = std::fs::create_dir(&dir);
                let file = c.scratch.join("plain");
                std::fs::write(&file, "x").unwrap();
                let p = match path { "DIR" => dir.to_str().unwrap().to_string(), "NODIR/p.lp" => c.scratch.join("none/p.lp").to_str().unwrap().to_string(),
                    "FILE/p.lp" => file.join("p.lp").to_str().unwrap().to_string(), x => x.to_string() };
                let m = d.problem();
                match catch(|| m.write_to_lp_file(&p)) { Ok(Ok(())) => bad!("no error"), Ok(Err(_)) => (), Err(e) => bad!("panic: {}", e) }
                ck!(d.unchanged(&m), "writing changed the problem");
                c.trace();
                c.nontrivial();
                Ok(())
            });
        }
        // a file size limit at every byte
        let len = { let f = std::env::temp_dir().join(format!("mc08-{}", std::process::id())); let _ = d.problem().write_to_lp_file(f.to_str().unwrap()); let s = std::fs::read(&f).map(|b| b.len()).unwrap_or(0); let _ = std::fs::remove_file(&f); s };
        for k in 0..=len {
            if len > 12000 && k % 7 != 0 && k != len && k + 1 != len { continue; }
            c.case(|| format!("{} problem, {} of {} bytes can be written", nm, k, len), |c| {
                let m = d.problem();
                let f = c.scratch.join("lim.lp");
                let _ = std::fs::remove_file(&f);
                let r = limited(k as u64, || m.write_to_lp_file(f.to_str().unwrap()));
                match r {
                    Ok(()) => {
                        let s = std::fs::read(&f).unwrap_or_default();
                        ck!(s.len() == len && k == len, "no error although only {} bytes are there", s.len());
                    }
                    Err(_) => ck!(k < len, "an error although everything could be written"),
                }
                ck!(d.unchanged(&m), "writing changed the problem");
                c.trace();
                c.nontrivial();
                Ok(())
            });
        }
    }
}

/// Runs `f` with this process's files limited to `n` bytes.
pub fn limited<R>(n: u64, f: impl FnOnce() -> R) -> R {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut o: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut o);
        let q = libc::rlimit { rlim_cur: n, rlim_max: o.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &q);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &o);
        r
    }
}
