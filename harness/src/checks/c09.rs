//! C09: reading solution files.

use crate::checks::c08::Data;
use crate::ck;
use crate::fake::Fake;
use crate::fw::*;
use crate::sol;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::base::Problem;
use numopt::problem::lp::ProblemLp;
use numopt::solver::base::{Solver, SolverParam};
use numopt::solver::{SolverCbcCmd, SolverClpCmd};

pub fn def() -> CheckDef {
    CheckDef {
        id: "C09", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one file content read in one of the two formats; a complete file must give exactly what it says, any other one must not panic nor give a solved status with a value it does not state; non-trivial: complete files and damaged ones that are still read",
        assumptions: &["a complete file lists every variable and row once (the solvers are called with printingOptions all) and ends in a newline"],
    }
}

fn prob(nx: usize, na: usize) -> ProblemMilp {
    Data { c: vec![1.; nx], a: (0..na).map(|i| (i, i % nx.max(1), 1.)).collect(), b: vec![0.; na], l: vec![0.; nx], u: vec![1.; nx], p: vec![false; nx] }.problem()
}

fn read(c: &mut Ctx, p: &ProblemMilp, b: &[u8], cbc: bool) -> Res {
    let f = c.scratch.join("s.sol");
    std::fs::write(&f, b).map_err(|e| Fail::from(e.to_string()))?;
    let got = match catch(|| SolverCbcCmd::read_sol_file(f.to_str().unwrap(), p, cbc)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => return Err(format!("panic: {}", e).into()),
    };
    match sol::judge(b, p.nx(), p.na(), cbc, &got) {
        Ok(k) => {
            if k != "refused" { c.nontrivial(); }
            c.note(k, 1);
            c.state(hash_u64s(&[hash_str(k), got.as_ref().map(|r| hash_f64s(&r.1.x) ^ hash_f64s(&r.1.lam) ^ hash_f64s(&r.1.pi)).unwrap_or(0)]));
            c.step(1);
            c.trace();
            Ok(())
        }
        Err(e) => Err(e.into()),
    }
}

fn go(c: &mut Ctx, p: &ProblemMilp, b: &[u8], cbc: bool) {
    c.case(|| format!("{} format, {} variables, {} rows: {:?}", if cbc { "cbc" } else { "clp" }, p.nx(), p.na(), String::from_utf8_lossy(b)), |c| read(c, p, b, cbc));
}

pub const HEADS: &[&str] = &["Optimal - objective value 5.00000000\n", "Infeasible - objective value 0.00000000\n", "Integer infeasible - objective value 1.00000000\n", "optimal\nObjective value 5\n",
    "infeasible\nObjective value 5\n", "Unbounded - objective value 0\n", "Stopped on time - objective value 5.0\n", "Stopped on iterations - objective value 5.0\n", "", "\n", "Optimal", "Optima - objective value 5\n", "optimal\n", "Integer\n",
    "integer infeasible - objective value 1\n", "error\n", "Optimal (within gap tolerance) - objective value 5.0\n", " \n"];

pub fn body(nx: usize, na: usize, k: usize) -> Vec<String> {
    let v = [3., 0., -1.5, 1e8, 2.5e-7, 123456.75, -0.125];
    let m = [0., 1., -2.5, 0.5, -1e-9, 31.428571];
    let mut o = Vec::new();
    for i in 0..na { o.push(format!("{:>7} c_{:<10} {:>15} {:>23}\n", i, i, v[(i + k) % 7], m[(i + 2 * k + 1) % 6])); }
    for i in 0..nx { o.push(format!("{:>7} x_{:<10} {:>15} {:>23}\n", i, i, v[(2 * i + k) % 7], m[(i + k) % 6])); }
    o
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut o = Vec::new();
    for p in permutations(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); o.push(q); } }
    o
}

fn run(c: &mut Ctx) {
    c.section("complete files in every order of lines");
    for nx in 1..=3usize { for na in 0..=2usize {
        let p = prob(nx, na);
        for k in 0..12 { for perm in permutations(nx + na) { for cbc in [true, false] { for h in [0usize, 3, 1, 2, 4] {
            let b = body(nx, na, k);
            let s: String = HEADS[h].to_string() + &perm.iter().map(|i| b[*i].clone()).collect::<String>();
            if c.done() { return; }
            go(c, &p, s.as_bytes(), cbc);
        } } } }
    } }
    for n in [10usize, 11, 25, 101] { for k in 0..12 { for cbc in [true, false] {
        let p = prob(n, n + 1);
        let s = HEADS[0].to_string() + &body(n, n + 1, k).concat();
        go(c, &p, s.as_bytes(), cbc);
    } } }
    c.section("long files in many orders");
    for n in [9usize, 10, 11, 16, 32, 33, 64, 65, 99, 100, 101, 128, 130, 256, 257, 1000, 1001] { for na in [0usize, 1, n - 1, n, n + 1] {
        let p = prob(n, na);
        for k in 0..c.pick(3, 12) { for (cbc, h) in [(true, 0usize), (false, 3), (false, 0)] { for stride in [1usize, 2, 7, 97] { for rev in [false, true] {
            if c.done() { return; }
            let b = body(n, na, k + n);
            let mut o: Vec<usize> = (0..stride).flat_map(|s| (s..b.len()).step_by(stride)).collect();
            if rev { o.reverse(); }
            let s: String = HEADS[h].to_string() + &o.iter().map(|i| b[*i].clone()).collect::<String>();
            c.case(|| format!("{} format, {} variables, {} rows, values {}, every {}th line, reversed {}", if cbc { "cbc" } else { "clp" }, n, na, k, stride, rev), |c| read(c, &p, s.as_bytes(), cbc));
            // one line lost
            if stride == 7 { for lost in [0, o.len() / 2, o.len() - 1] {
                let s: String = HEADS[h].to_string() + &o.iter().enumerate().filter(|(i, _)| *i != lost).map(|(_, i)| b[*i].clone()).collect::<String>();
                c.case(|| format!("{} format, {} variables, {} rows, values {}, every {}th line, reversed {}, line {} lost", if cbc { "cbc" } else { "clp" }, n, na, k, stride, rev, lost), |c| read(c, &p, s.as_bytes(), cbc));
            } }
        } } } }
    } }
    c.section("very long files");
    for (n, na) in [(4097usize, 3usize), (3, 4097), (32769, 2), (65537, 5), (5, 65537), (70001, 70003), (131073, 1), (1, 131073), (1000003, 2)] { for (cbc, h, rev) in [(true, 0usize, false), (false, 3, true)] {
        if c.done() { return; }
        c.case(|| format!("{} format, {} variables, {} rows, reversed {}", if cbc { "cbc" } else { "clp" }, n, na, rev), |c| {
            let p = prob(n, na);
            let mut b = body(n, na, n);
            if rev { b.reverse(); }
            read(c, &p, (HEADS[h].to_string() + &b.concat()).as_bytes(), cbc)
        });
    } }
    c.section("all sequences of lines");
    let lines = ["      0 x_0   3   0\n", "      1 x_1   -2.5   1.5\n", "      0 c_0    4    -0.5\n", "      0 x_0   7   -3\n", "      2 x_2   1   1\n", "      1 c_1   1   1\n", "\n", "      0 x_0   3\n", "      1 x_1   abc   0\n",
        "      0 y_0   1   1\n", "      0 x0   1   1\n", "**    1 x_1   1   1\n", "      1 x_1   nan   inf   0\n", "      0 x_-1  1   1\n", "      0 x_99999999999999999999999  1   1\n", "      0 x_0_7   2   1\n", "      1 x_01  2  1\n", "      0 c_+0  1  2\n", "      1 x_1_  2  2\n", "      0 c_0    4    -", "      1 x_1   -2.5   1.\r\n"];
    let p = prob(2, 1);
    let top = c.pick(4, 5);
    for len in 0..=top {
        crate::checks::c06::sequences(lines.len(), len, &mut |s| {
            let mut q = s.to_vec();
            q.sort();
            let s: String = s.iter().map(|i| lines[*i]).collect();
            for h in [0usize, 3] { go(c, &p, (HEADS[h].to_string() + &s).as_bytes(), h == 0); }
            if len <= 3 { for h in 0..HEADS.len() { for cbc in [true, false] { go(c, &p, (HEADS[h].to_string() + &s).as_bytes(), cbc); } } }
            !c.done()
        });
    }
    c.section("every prefix and every damage of one byte");
    let bytes: &[u8] = &[0, b' ', b'\n', b'-', b'.', b'e', b'9', b'0', b'x', b'_', b'c', 0xff, b'\t', b'+', b'*', b'O', b'\r'];
    for (nx, na) in [(2usize, 1usize), (3, 0), (1, 2), (2, 12)] { for h in [0usize, 3, 1, 2] { for k in 0..c.pick(2, 6) {
        let p = prob(nx, na);
        let s = (HEADS[h].to_string() + &body(nx, na, k).concat()).into_bytes();
        let cbc = h != 3;
        for n in 0..=s.len() { go(c, &p, &s[..n], cbc); }
        for i in 0..=s.len() {
            if c.done() { return; }
            for b in bytes {
                let mut t = s.clone();
                if i < s.len() { t[i] = *b; go(c, &p, &t, cbc); }
                let mut t = s.clone();
                t.insert(i, *b);
                go(c, &p, &t, cbc);
            }
            if i < s.len() { let mut t = s.clone(); t.remove(i); go(c, &p, &t, cbc); }
        }
        // a line lost, a line doubled, two lines joined
        let ls: Vec<String> = String::from_utf8(s.clone()).unwrap().split_inclusive('\n').map(|x| x.to_string()).collect();
        for i in 0..ls.len() {
            let mut t = ls.clone(); t.remove(i); go(c, &p, t.concat().as_bytes(), cbc);
            let mut t = ls.clone(); t.insert(i, ls[i].clone()); go(c, &p, t.concat().as_bytes(), cbc);
            let mut t = ls.clone(); t[i] = t[i].trim_end().to_string(); go(c, &p, t.concat().as_bytes(), cbc);
            let mut t = ls.clone(); let q = t[i].clone(); t[i] = q[..q.len() / 2].to_string() + "\n"; go(c, &p, t.concat().as_bytes(), cbc);
        }
        for cut in 0..s.len() { // a hole: bytes lost in the middle
            for w in [2usize, 5, 20] { if cut + w <= s.len() { let mut t = s[..cut].to_vec(); t.extend_from_slice(&s[cut + w..]); go(c, &p, &t, cbc); } }
        }
    } } }
    sizes(c);
    c.section("no file");
    for path in ["/nonexistent/x.sol", "", "/", "/dev/null"] { for cbc in [true, false] {
        c.case(|| format!("path {:?}", path), |c| {
            let p = prob(2, 1);
            let got = match catch(|| SolverCbcCmd::read_sol_file(path, &p, cbc)) { Ok(Ok(r)) => Ok(r), Ok(Err(e)) => Err(e.to_string()), Err(e) => return Err(format!("panic: {}", e).into()) };
            c.trace();
            sol::judge(b"", 2, 1, cbc, &got).map(|_| ()).map_err(Fail::from)
        });
    } }
}

/// Values and multipliers as the solvers print them.
const VALUES: &[&str] = &["0", "-0", "1", "-1", "0.1", "1e-05", "1e-06", "-2.5e-07", "9.9e-08", "1e-08", "-3e-09", "1e-10", "-1e-12", "1e-15", "5e-17", "1e-100", "-1e-300", "0.99999999", "1.0000001", "2.9999999", "-4.00000001", "0.5", "2.5", "1e+08", "-1e+08", "99999999.5", "1e+10", "-1e+15", "1e+50", "1.7e+308", "0.33333333", "123456.79", "1e+30", "-1e+30"];

fn family(k: usize, v: usize) -> (Data, Vec<u8>, Vec<u8>) {
    let (nx, na) = [(3usize, 2usize), (1, 1), (5, 4), (2, 0)][k / 8 % 4];
    let lim = [(0., 1.), (-1e8, 1e8), (0., 1e8), (-1e8, 0.), (-5., 5.)];
    let d = Data { c: (0..nx).map(|j| [1., -1., 0.][(j + v) % 3]).collect(), a: (0..na).map(|i| (i, i % nx, 1.)).collect(), b: (0..na).map(|i| i as f64).collect(), l: (0..nx).map(|j| lim[(j + v + k) % 5].0).collect(), u: (0..nx).map(|j| lim[(j + v + k) % 5].1).collect(), p: (0..nx).map(|j| k >> (j % 3) & 1 == 1).collect() };
    let n = VALUES.len();
    let mut o = String::new();
    for i in 0..na { o.push_str(&format!("{:>7} c_{:<10} {:>15} {:>23}\n", i, i, VALUES[(v + 5 * i) % n], VALUES[(v * 3 + 7 * i + k) % n])); }
    for i in 0..nx { o.push_str(&format!("{:>7} x_{:<10} {:>15} {:>23}\n", i, i, VALUES[(v + i) % n], VALUES[(v * 5 + 11 * i + k / 8) % n])); }
    (d, (HEADS[0].to_string() + &o).into_bytes(), (HEADS[3].to_string() + &o).into_bytes())
}

fn sizes(c: &mut Ctx) {
    c.section("values and multipliers of every size, every integrality pattern, read directly and by a solve");
    let fake = Fake::new(&c.scratch.join("bin"));
    let cwd = c.scratch.join("cwd");
    std::fs::create_dir_all(&cwd).expect("dir");
    let here = std::env::current_dir();
    std::env::set_current_dir(&cwd).expect("cwd");
    for k in 0..32usize { for v in 0..VALUES.len() {
        let (d, f, g) = family(k, v);
        let none = d.p.iter().all(|b| !*b);
        for cbc in [true, false] {
            let b = if cbc { &f } else { &g };
            if !none && !cbc { continue; }
            c.case(|| format!("{} format, {:?}: {:?}", if cbc { "cbc" } else { "clp" }, d, String::from_utf8_lossy(b)), |c| read(c, &d.problem(), b, cbc));
        }
        // cbc with a mixed-integer problem, cbc and clp with a linear one
        for form in 0..3usize {
            if c.done() { return; }
            if form > 0 && !none { continue; }
            if !c.thorough() && none && (v + form) % 2 == 1 { continue; }
            let b = if form == 2 { &g } else { &f };
            c.case(|| format!("solve of {:?} by {} giving {:?}", d, ["cbc", "cbc (linear)", "clp"][form], String::from_utf8_lossy(b)), |c| {
                fake.out(b);
                fake.plan("write -\nexit 0\n");
                let q = d.problem();
                let mut p = if form == 0 { Problem::Milp(d.problem()) } else { Problem::Lp(ProblemLp::new(q.c().to_vec(), q.a().clone(), q.b().to_vec(), q.l().to_vec(), q.u().to_vec(), None)) };
                let got = catch(|| if form < 2 { let mut s = SolverCbcCmd::new(); let _ = s.set_param("logLevel", SolverParam::IntParam(0)); s.solve(&mut p) } else { let mut s = SolverClpCmd::new(); let _ = s.set_param("logLevel", SolverParam::IntParam(0)); s.solve(&mut p) })
                    .map_err(|e| Fail::from(format!("panic: {}", e)))?.map_err(|e| e.to_string());
                let t = sol::judge(b, q.nx(), q.na(), form < 2, &got).map_err(Fail::from)?;
                ck!(t == "complete", "the file is not judged complete: {}", t);
                c.nontrivial();
                c.note("solves", 1);
                c.step(1);
                c.trace();
                Ok(())
            });
        }
    } }
    if let Ok(h) = here { let _ = std::env::set_current_dir(h); }
}
