//! C11: concurrent solves.

use crate::checks::c08::Data;
use crate::fake::Fake;
use crate::fw::*;
use crate::gate::{self, Done, Job, Op};
use crate::{bad, ck};
use numopt::problem::base::Problem;
use numopt::problem::lp::ProblemLp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd};
use std::path::PathBuf;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C11", kind: Kind::ModelChecking, run, hang_s: 850, shards: 0,
        rule: "a case is one schedule (or, for the complete explorations, the set of all schedules that differ in the order of dependent file accesses) of the file accesses of two or three concurrent solves in threads or forked processes; non-trivial: the participants' accesses are interleaved",
        assumptions: &["the code between two file accesses (open, create, remove, rename, spawn, and the command's reading and writing) runs without interruption", "the command is a stand-in whose answer is computed from the problem file it reads",
            "complete explorations treat accesses of different paths as independent"],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What { Cbc, Clp, CbcMilp, CbcFails, CbcTwice, ClpTwice }

fn key(i: usize, r: usize) -> f64 { 3. + 2. * i as f64 + 10. * r as f64 }

/// Result: for every solve a code (1 right, 2 other status, 3 error, 4 panic, 5 another problem's values).
fn solve(w: What, i: usize, r: usize) -> f64 {
    let k = key(i, r);
    let n = 1 + i; // problems of different size
    let d = Data { c: std::iter::once(k).chain((1..n).map(|j| j as f64)).collect(), a: (0..n).map(|j| (0, j, 1.)).collect(), b: vec![k], l: vec![0.; n], u: vec![100.; n], p: vec![w == What::CbcMilp; n] };
    let p = d.problem();
    let mut q = match w { What::CbcMilp => Problem::Milp(p), _ => Problem::Lp(ProblemLp::new(p.c().to_vec(), p.a().clone(), p.b().to_vec(), p.l().to_vec(), p.u().to_vec(), None)) };
    let clp = matches!(w, What::Clp | What::ClpTwice);
    let got = catch(|| if clp { let mut s = SolverClpCmd::new(); let _ = s.set_param("logLevel", SolverParam::IntParam(0)); s.solve(&mut q) } else { let mut s = SolverCbcCmd::new(); let _ = s.set_param("logLevel", SolverParam::IntParam(0)); s.solve(&mut q) });
    match got {
        Err(_) => 4.,
        Ok(Err(_)) => 3.,
        Ok(Ok((SolverStatus::Solved, s))) => if s.x.len() == n && s.lam.len() == 1 && (0..n).all(|j| s.x[j] == k * 10. + j as f64) && s.lam[0] == k * 100. { 1. } else { 5. },
        Ok(Ok(_)) => 2.,
    }
}

fn job(w: What, i: usize) -> Job {
    let n = if matches!(w, What::CbcTwice | What::ClpTwice) { 2 } else { 1 };
    Box::new(move || (0..n).map(|r| solve(w, i, r)).collect())
}

struct Env { fake: Fake, cwd: PathBuf, tmp: PathBuf }
impl Env {
    fn new(c: &Ctx) -> Env {
        let (cwd, tmp) = (c.scratch.join("cwd"), c.scratch.join("tmp"));
        for d in [&cwd, &tmp] { let _ = std::fs::remove_dir_all(d); std::fs::create_dir_all(d).expect("dir"); std::fs::write(d.join("keep"), "x").expect("keep"); }
        std::env::set_current_dir(&cwd).expect("cwd");
        std::env::set_var("TMPDIR", &tmp);
        let fake = Fake::new(&c.scratch.join("bin"));
        fake.plan("solve");
        gate::init(&c.scratch.join("gate"));
        let _ = solve(What::Cbc, 0, 0); // the library has been used before
        Env { fake, cwd, tmp }
    }
    fn left(&self) -> Vec<String> {
        let mut o = Vec::new();
        for d in [&self.cwd, &self.tmp] { for e in std::fs::read_dir(d).expect("dir").flatten() { if e.file_name() != "keep" { o.push(e.path().to_string_lossy().into_owned()); } } }
        o
    }
    fn clean(&self) { for f in self.left() { let _ = std::fs::remove_file(&f); let _ = std::fs::remove_dir_all(&f); } }
    fn plans(&self, ws: &[What]) {
        for i in 0..gate::MAXP {
            let f = self.fake.dir.join(format!("plan.{}", i));
            if ws.get(i) == Some(&What::CbcFails) { std::fs::write(&f, "solve\nexit 1").expect("plan"); } else { let _ = std::fs::remove_file(&f); }
        }
    }
}

fn show(t: &[Done]) -> String { t.iter().map(|d| format!("{}{}", (b'A' + d.who as u8) as char, d.op.short())).collect::<Vec<_>>().join(" ") }

/// Runs once and judges.
fn once(c: &mut Ctx, e: &Env, ws: &[What], jobs: &[Job], fork: bool, choose: &mut dyn FnMut(&[Option<Op>], &[Done]) -> usize) -> Result<Vec<Done>, Fail> {
    e.plans(ws);
    let r = gate::run(jobs, fork, choose);
    c.step(r.trace.len() as u64);
    c.trace();
    c.note("schedules executed", 1);
    if r.blocked > 0 { c.note("steps during which a participant was blocked", r.blocked as u64); }
    let sw = r.trace.windows(2).filter(|w| w[0].who != w[1].who).count();
    if sw > ws.len() - 1 { c.nontrivial(); }
    let mut h = 0;
    for d in &r.trace { h = hash_u64s(&[h, d.who as u64, d.op.kind as u64]); c.state(h); }
    let left = e.left();
    e.clean();
    let t = show(&r.trace);
    if let Some(b) = &r.broken { bad!("{} in {}", b, t); }
    for (i, w) in ws.iter().enumerate() {
        let want = if *w == What::CbcFails { 2. } else { 1. };
        let ok = r.results[i].len() == if matches!(w, What::CbcTwice | What::ClpTwice) { 2 } else { 1 } && r.results[i].iter().all(|q| *q == want || (want == 2. && *q == 3.));
        ck!(ok, "participant {} ({:?}) gets {:?} (1 its own result, 2 not solved, 3 error, 4 panic, 5 another's values) in {}", (b'A' + i as u8) as char, w, r.results[i], t);
    }
    ck!(left.is_empty(), "left behind: {:?} in {}", left, t);
    Ok(r.trace)
}

/// All schedules of participants with the given numbers of steps in at most b blocks.
fn schedules(steps: &[usize], b: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(left: &mut Vec<usize>, last: usize, b: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        let alive: Vec<usize> = (0..left.len()).filter(|i| left[*i] > 0).collect();
        if alive.is_empty() { f(cur); return; }
        if alive.len() > b { return; } // each needs a block
        for i in alive {
            if i == last { continue; }
            let n = left[i];
            for k in 1..=n {
                left[i] -= k;
                for _ in 0..k { cur.push(i); }
                go(left, i, b - 1, cur, f);
                for _ in 0..k { cur.pop(); }
                left[i] += k;
            }
        }
    }
    go(&mut steps.to_vec(), usize::MAX, b, &mut Vec::new(), f);
}

/// Dynamic partial-order reduction: all orders of dependent accesses.
fn dpor(c: &mut Ctx, e: &Env, ws: &[What], fork: bool, cap: usize) -> Res {
    struct Node { who: usize, enabled: Vec<usize>, todo: Vec<usize>, done: Vec<usize> }
    let jobs: Vec<Job> = ws.iter().enumerate().map(|(i, w)| job(*w, i)).collect();
    let mut stack: Vec<Node> = Vec::new();
    let mut runs = 0;
    loop {
        let prefix: Vec<usize> = stack.iter().map(|n| n.who).collect();
        let t = once(c, e, ws, &jobs, fork, &mut |w, tr| if tr.len() < prefix.len() { prefix[tr.len()] } else { w.iter().position(|x| x.is_some()).unwrap_or(0) })?;
        runs += 1;
        for (i, d) in t.iter().enumerate() {
            if i < stack.len() { continue; }
            let enabled = d.next.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
            stack.push(Node { who: d.who, enabled, todo: vec![], done: vec![d.who] });
        }
        // happens-before by program order and dependence
        let n = t.len().min(stack.len());
        let mut hb = vec![vec![false; n]; n];
        for i in 0..n {
            let mut j = i;
            while j > 0 {
                j -= 1;
                if t[j].who == t[i].who || t[j].op.dependent(&t[i].op) { for k in 0..=j { if k == j || hb[k][j] { hb[k][i] = true; } } }
            }
        }
        for i in 0..n {
            let prev = (0..i).rev().find(|j| t[*j].who == t[i].who);
            for j in (0..i).rev() {
                if t[j].who == t[i].who || !t[j].op.dependent(&t[i].op) { continue; }
                if let Some(p) = prev { if j < p && hb[j][p] { continue; } if j < p && j == p { continue; } }
                let nd = &mut stack[j];
                if nd.enabled.contains(&t[i].who) { if !nd.done.contains(&t[i].who) && !nd.todo.contains(&t[i].who) { nd.todo.push(t[i].who); } }
                else { for q in nd.enabled.clone() { if !nd.done.contains(&q) && !nd.todo.contains(&q) { nd.todo.push(q); } } }
                break;
            }
        }
        // back to the last choice that is left
        loop {
            match stack.last_mut() {
                None => { c.note("complete explorations", 1); c.note(&format!("orders of {} {:?}", if fork { "processes" } else { "threads" }, ws), runs as u64); return Ok(()); }
                Some(nd) => {
                    if let Some(p) = nd.todo.pop() { nd.done.push(p); nd.who = p; break; }
                    stack.pop();
                }
            }
        }
        if runs >= cap || c.late() {
            if c.late() { c.cut(); }
            c.note("explorations cut short", 1); c.note(&format!("orders (cut short) of {} {:?}", if fork { "processes" } else { "threads" }, ws), runs as u64); return Ok(()); }
    }
}

fn run(c: &mut Ctx) {
    let e = Env::new(c);
    use What::*;
    let pairs: Vec<Vec<What>> = vec![vec![Cbc, Cbc], vec![Clp, Clp], vec![Cbc, Clp], vec![CbcMilp, Cbc], vec![Cbc, CbcFails], vec![CbcFails, CbcFails], vec![CbcTwice, Cbc], vec![ClpTwice, ClpTwice], vec![CbcTwice, CbcTwice]];
    let triples: Vec<Vec<What>> = vec![vec![Cbc, Cbc, Cbc], vec![Clp, Clp, Clp], vec![Cbc, Clp, CbcFails], vec![CbcMilp, Clp, Clp]];
    let name = |f: bool| if f { "forked processes" } else { "threads" };
    c.section("complete explorations of the order of dependent accesses");
    let cap = c.pick(3000, 30_000);
    for fork in [true, false] { for ws in pairs.iter().chain(triples.iter()).chain(std::iter::once(&vec![Cbc, Clp, Cbc, Cbc])) {
        // these have very many orders: the first ones in depth-first order
        if fork && [vec![CbcTwice, CbcTwice], vec![ClpTwice, ClpTwice], vec![Cbc, Cbc, Cbc], vec![Clp, Clp, Clp], vec![Cbc, Clp, Cbc, Cbc]].contains(ws) && !c.thorough() { continue; }
        c.case(|| format!("{} {:?}, all orders of dependent accesses", name(fork), ws), |c| dpor(c, &e, ws, fork, cap));
    } }
    // the number of steps of each alone
    let count = |w: What| -> usize { e.plans(&[w]); let r = gate::run(&[job(w, 0)], true, &mut |_, _| 0); e.clean(); r.trace.len() };
    let counts: Vec<(What, usize)> = [Cbc, Clp, CbcMilp, CbcFails, CbcTwice, ClpTwice].iter().map(|w| (*w, count(*w))).collect();
    let steps = |ws: &[What]| -> Vec<usize> { ws.iter().map(|w| counts.iter().find(|c| c.0 == *w).unwrap().1.max(1)).collect() };
    for (ws3, blocks) in [(false, c.pick(5, 6)), (true, c.pick(4, 5))] {
        c.section(&format!("all schedules of {} participants in at most {} blocks", if ws3 { 3 } else { 2 }, blocks));
        for fork in [true, false] { for (q, ws) in (if ws3 { &triples } else { &pairs }).iter().enumerate() {
            let twice = ws.iter().any(|w| matches!(w, CbcTwice | ClpTwice));
            let b = if twice || (ws3 && q > 0) { blocks - 1 } else { blocks };
            let jobs: Vec<Job> = ws.iter().enumerate().map(|(i, w)| job(*w, i)).collect();
            schedules(&steps(ws), b, &mut |s| {
                if c.done() { return; }
                c.case(|| format!("{} {:?}, schedule {}", name(fork), ws, s.iter().map(|i| (b'A' + *i as u8) as char).collect::<String>()), |c| {
                    let mut at = 0;
                    once(c, &e, ws, &jobs, fork, &mut |w, _| {
                        while at < s.len() { let k = s[at]; at += 1; if w[k].is_some() { return k; } }
                        w.iter().position(|x| x.is_some()).unwrap_or(0)
                    }).map(|_| ())
                });
            });
        } }
    }
}
