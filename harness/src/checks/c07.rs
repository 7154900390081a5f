//! C07: solver results reach exactly the variables and constraints they belong to.

use crate::fw::*;
use crate::model::*;
use crate::widemodel::{answered, wide_model};
use crate::{bad, ck};
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C07", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one model, one solver answer (status and a distinct value in every slot) and one naming of the variables; rows and limits are recognized by their values at sample points, and the reported primals and duals compared with the slots they belong to; non-trivial: at least two constraints",
        assumptions: &["models with two equalities of the same function up to sign, or two inequalities that hold the same function below zero, are left out, because their multipliers cannot be told apart"],
    }
}

/// A solver that answers with given values.
pub struct Mock { pub params: HashMap<String, SolverParam>, pub status: usize, pub variant: usize, pub fail: bool }
impl Mock { pub fn new(status: usize, variant: usize) -> Mock { Mock { params: HashMap::new(), status, variant, fail: false } } }
pub fn status_of(i: usize) -> SolverStatus { match i { 0 => SolverStatus::Solved, 1 => SolverStatus::Infeasible, 2 => SolverStatus::Unknown, _ => SolverStatus::Error } }

pub fn slot(variant: usize, vec: usize, i: usize) -> f64 {
    let v = (vec + 1) as f64 * 1000. + (i + 1) as f64;
    if variant == 7 && vec == 0 { return [f64::INFINITY, f64::NEG_INFINITY, 1e305, f64::MIN_POSITIVE][i % 4]; }
    match variant { 0 => v, 1 => -v, 2 => if i % 2 == 0 { v } else { -v }, 3 => v * 1e-6, 4 => v * 1e-13, 5 => -v * 1e13, _ => if i % 3 == 0 { 0. } else { v } }
}
pub fn answer(variant: usize, n: usize, na: usize, nf: usize) -> ProblemSol {
    let f = |vec: usize, len: usize| (0..len).map(|i| slot(variant, vec, i)).collect::<Vec<f64>>();
    ProblemSol { x: f(0, n), lam: f(1, na), nu: f(2, nf), mu: f(3, n), pi: f(4, n) }
}
impl Solver for Mock {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        if self.fail { return Err(SimpleError::new("mock failure")); }
        let st = match std_of(p) { Ok(s) => s, Err(e) => return Err(SimpleError::new(e.msg)) };
        Ok((status_of(self.status), answer(self.variant, st.n, st.b.len(), st.nf)))
    }
}

const SAMPLE: [[f64; 3]; 5] = [[0.5, 0.25, 1.], [1.75, -0.5, -1.], [-1.25, 2.5, 2.], [0.75, 1.5, -3.], [2.25, 0.875, 0.]];

/// Same function up to sign?
fn same(a: &[Option<f64>], b: &[Option<f64>]) -> bool {
    let mut any = false;
    let (mut p, mut m) = (true, true);
    for (x, y) in a.iter().zip(b.iter()) {
        if let (Some(x), Some(y)) = (x, y) {
            any = true;
            let t = 1e-9 * (1. + x.abs() + y.abs());
            if !((x - y).abs() <= t) { p = false; }
            if !((x + y).abs() <= t) { m = false; }
        }
    }
    any && (p || m)
}
fn plus(a: &[Option<f64>], b: &[Option<f64>]) -> bool { a.iter().zip(b.iter()).all(|(x, y)| match (x, y) { (Some(x), Some(y)) => (x - y).abs() <= 1e-9 * (1. + x.abs() + y.abs()), _ => true }) && same(a, b) }
/// What an inequality holds below zero.
fn below(c: &Con) -> Vec<Option<f64>> { diffs(c).iter().map(|v| v.map(|v| if c.rel == Rel::Ge { -v } else { v })).collect() }
fn diffs(c: &Con) -> Vec<Option<f64>> { SAMPLE.iter().map(|u| { let j = c.diff(u); if j.ok { Some(j.v) } else { None } }).collect() }

/// Can the rows of this model be told apart?
pub fn distinct(sp: &Spec) -> bool {
    for i in 0..sp.cons.len() { for j in 0..i {
        if (sp.cons[i].rel == Rel::Eq) == (sp.cons[j].rel == Rel::Eq) && (if sp.cons[i].rel == Rel::Eq { same(&diffs(&sp.cons[i]), &diffs(&sp.cons[j])) } else { plus(&below(&sp.cons[i]), &below(&sp.cons[j])) }) { return false; }
    } }
    true
}

enum Slot { Row(usize, usize), Lim(usize, usize, f64) } // (vec, index), with the limit's value

fn check(c: &mut Ctx, sp: &Spec, extra: &[usize], status: usize, variant: usize) -> Res {
    let (tr, st) = run_one(sp, extra, status, variant)?;
    c.step(tr);
    c.trace();
    c.state(st);
    if sp.cons.len() > 1 { c.nontrivial(); }
    Ok(())
}

/// `extra`: constraints that are added once more each time they are listed.
pub fn run_one(sp: &Spec, extra: &[usize], status: usize, variant: usize) -> Result<(u64, u64), Fail> {
    let mut b = sp.build();
    for k in extra { b.model.add_constraint(&b.cons[*k]); }
    let mut sd = b.model.std_problem_checked()?;
    let st = std_of(&mut sd.prob)?;
    let lay = layout(&sd, &b.vars, st.n)?;
    // rows at the sample points
    let mut rows: Vec<(usize, usize, Vec<Option<f64>>, Vec<usize>, Option<(usize, f64)>)> = Vec::new(); // vec, index, values, slacks
    for u in SAMPLE.iter() {
        let ap = at_point(&mut sd.prob, &st, &lay, u)?;
        let mut q = 0;
        for (vec, rs) in [(1, &ap.arows), (2, &ap.frows)] { for (i, r) in rs.iter().enumerate() {
            if rows.len() <= q { rows.push((vec, i, Vec::new(), r.slacks.iter().map(|s| s.0).collect(), r.slacks.first().cloned())); }
            rows[q].2.push(if r.r0.is_finite() { Some(r.r0) } else { None });
            q += 1;
        } }
    }
    let m = b.model.solve(&Mock::new(status, variant));
    if let Err(e) = m { bad!("solve: {}", e); }
    ck!(b.model.solver_status() == Some(&status_of(status)), "status {:?} reported", b.model.solver_status());
    // primals
    let pr = b.model.final_primals();
    let mut steps = 0;
    for (k, v) in b.vars.iter().enumerate() {
        match lay.pos[k] {
            Some(i) => ck!(pr.get(v) == Some(&slot(variant, 0, i)), "value of {} is {:?}, the solver gave {:e}", sp.names[k], pr.get(v), slot(variant, 0, i)),
            None => ck!(!pr.contains_key(v), "value for {}, which is not in the model", sp.names[k]),
        }
        steps += 1;
    }
    ck!(pr.len() == st.n, "{} primal values for {} variables", pr.len(), st.n);
    // where each constraint went
    let duals = b.model.final_duals();
    for q in duals.keys() { ck!(b.cons.iter().any(|c| c == *q), "a multiplier for a constraint that is not in the model"); }
    let mut h = Vec::new();
    let mut groups: HashMap<(usize, usize), Vec<usize>> = HashMap::new(); // tight limits and who they may belong to
    let mut taken = vec![false; rows.len()];
    for (k, con) in sp.cons.iter().enumerate() {
        let d = diffs(con);
        let mut at: Option<Slot> = None;
        let times = 1 + extra.iter().filter(|e| **e == k).count();
        let (mut found, mut sum) = (0, 0.);
        for (q, r) in rows.iter().enumerate() {
            if taken[q] || r.3.is_empty() != (con.rel == Rel::Eq) || !same(&d, &r.2) { continue; }
            // r + q s = 0 with s on one side of zero
            if let Some((s, k)) = r.4 { let z = if st.u[s].abs() < 1e7 { -k.signum() } else { k.signum() }; if !plus(&below(con), &r.2.iter().map(|v| v.map(|v| z * v)).collect::<Vec<_>>()) { continue; } }
            taken[q] = true;
            let (vec, i) = if con.rel == Rel::Eq { (r.0, r.1) } else { let s = r.3[0]; if st.u[s].abs() < 1e7 { (3, s) } else { (4, s) } };
            at = Some(Slot::Row(vec, i));
            found += 1;
            sum += slot(variant, vec, i);
            if found == times { break; }
        }
        if at.is_some() { ck!(found == times, "{} rows for {}, which is added {} times", found, con.text, times); }
        if at.is_none() {
            if con.rel == Rel::Eq { bad!("no row for {}", con.text); }
            // a limit on one variable: which, and where
            for v in 0..3 {
                let i = match lay.pos[v] { Some(i) => i, None => continue };
                let j = con.diff(&SAMPLE[0]);
                if j.g[v] != 0. && (0..3).all(|w| w == v || j.g[w] == 0.) {
                    let lim = SAMPLE[0][v] - j.v / j.g[v];
                    let upper = (con.rel == Rel::Le) == (j.g[v] > 0.);
                    at = Some(Slot::Lim(if upper { 3 } else { 4 }, i, lim));
                }
            }
        }
        let got = duals.get(&b.cons[k]).cloned();
        match at {
            Some(Slot::Row(vec, i)) => {
                if times == 1 { ck!(got == Some(slot(variant, vec, i)), "multiplier of {} is {:?}, the solver gave {:e}", con.text, got, slot(variant, vec, i)); }
                else { ck!(got.map_or(false, |g| (g - sum).abs() <= 1e-12 * sum.abs()), "multiplier of {} is {:?}, the solver gave {:e} over its {} rows", con.text, got, sum, times); }
                h.push(sum);
            }
            Some(Slot::Lim(vec, i, lim)) => {
                let act = if vec == 3 { st.u[i] } else { st.l[i] };
                let tight = (act - lim).abs() <= 1e-9 * (1. + lim.abs());
                if tight { groups.entry((vec, i)).or_default().push(k); }
                else { ck!(got.unwrap_or(0.) == 0., "redundant limit {} has the multiplier {:?}", con.text, got); }
            }
            None => bad!("no row and no limit for {}", con.text),
        }
        steps += 1;
    }
    for ((vec, i), ks) in groups {
        let want = slot(variant, vec, i);
        let mut n = 0;
        for k in &ks {
            let got = duals.get(&b.cons[*k]).cloned().unwrap_or(0.);
            if got == want { n += 1; } else { ck!(got == 0., "limit {} has the multiplier {:e}, the solver gave {:e}", sp.cons[*k].text, got, want); }
        }
        if want != 0. || ks.len() == 1 { ck!(n == 1, "multiplier {:e} of limit {} is reported {} times", want, sp.cons[ks[0]].text, n); }
        h.push(want);
    }
    h.sort_by(|a, b| a.partial_cmp(b).unwrap());
    Ok((steps, hash_f64s(&h) ^ status as u64))
}

const TEXTS: &[&str] = &["x | 2", "1 | x", "x | 2 + {0}", "y | 0.5", "k | 3", "-x | 1", "2*y | 3", "x + y | 1", "x - k | 0.5", "x*x | 2", "x*y | 0.25", "y | sin(x)", "x/2 + k/4 | 1", "{3} | {5}", "x - x | 0.125", "k*k | y", "x | 1", "x - 4 | {-0.5}", "k + 1 | {1}"];
const NAMINGS: [[&str; 3]; 4] = [["x", "y", "k"], ["c", "B", "a"], ["_t", "z", "A"], ["_s_a0_b", "_s_j0_b", "_s_a1_b"]];

fn run(c: &mut Ctx) {
    let n = &["x", "y", "k"];
    let all = cons(TEXTS, n);
    let objs: Vec<Option<Obj>> = ["min x + 2*y", "", "max x*y", "min k - x", "max k*k + y"].iter().map(|o| obj(o, n)).collect();
    let spec = |names: usize, o: &Option<Obj>, int: bool, cs: Vec<Con>| Spec { names: NAMINGS[names].to_vec(), int: vec![false, false, int], obj: o.clone(), cons: cs };
    let go = |c: &mut Ctx, sp: &Spec, status: usize, variant: usize| {
        if !distinct(sp) { return; }
        c.case(|| format!("{} with names {:?}, status {:?}, values {}", sp.show(), sp.names, status_of(status), variant), |c| check(c, sp, &[], status, variant));
    };
    c.section("one and two constraints, all statuses and answers");
    for o in &objs { for int in [false, true] { for nm in 0..4 {
        for st in 0..4 { for v in 0..8 {
            go(c, &spec(nm, o, int, vec![]), st, v);
            for a in &all { if c.done() { return; } go(c, &spec(nm, o, int, vec![a.clone()]), st, v); }
        } }
        for (i, a) in all.iter().enumerate() { for (j, b) in all.iter().enumerate() {
            if c.done() { return; }
            go(c, &spec(nm, o, int, vec![a.clone(), b.clone()]), (i + j) % 4, (i + 2 * j) % 8);
        } }
    } } }
    c.section("ordered triples");
    let step = c.pick(3, 1);
    for (i, a) in all.iter().enumerate() { for (j, b) in all.iter().enumerate() { for (k, d) in all.iter().enumerate() {
        if (i + j + k) % step != 0 { continue; }
        if c.done() { return; }
        go(c, &spec((i + k) % 4, &objs[(i + j) % 5], k % 2 == 0, vec![a.clone(), b.clone(), d.clone()]), k % 4, j % 8);
    } } }
    c.section("limits of equal and nearly equal value");
    let form = |v: f64, r: Rel, w: usize| -> (String, Rel) { match w { 0 => (format!("y | {}", v), r), 1 => (format!("{} | y", v), match r { Rel::Le => Rel::Ge, Rel::Ge => Rel::Le, q => q }), 2 => (format!("y + 1 | {}", v + 1.), r), _ => (format!("y - {} | 0", v), r) } };
    for o in &objs { for a in [-2., 0., 0.5, 3., 1e6] { for (bi, d) in [0., 1e-12, 1e-3, 1., -1e-3, -1.].iter().enumerate() { for w1 in 0..4 { for w2 in 0..4 { for third in 0..7usize { for order in 0..2 {
        if c.done() { return; }
        let mut ts: Vec<(String, Rel)> = vec![form(a, Rel::Ge, w1), form(a + d, Rel::Le, w2)];
        // a second variable fixed, an integer one fixed, weaker limits, a row that fixes as well
        match third { 0 => (), 1 => { ts.push(("x | 1".into(), Rel::Ge)); ts.push(("x | 1".into(), Rel::Le)); }, 2 => { ts.push(("k | 2".into(), Rel::Le)); ts.push(("k | 2".into(), Rel::Ge)); }
            3 => ts.push(form(a + d + 5., Rel::Le, w1)), 4 => ts.push(form(a - 4., Rel::Ge, w2)), 5 => ts.push((format!("2*y | {}", 2. * a), Rel::Eq)), _ => ts.push(("x + y | 2.25".into(), Rel::Eq)) }
        if order == 1 { ts.reverse(); }
        let cs = ts.iter().map(|t| con(&t.0, t.1, n)).collect();
        go(c, &spec((w1 + bi) % 4, o, third % 2 == 0, cs), 0, (w1 + 2 * w2 + third) % 7);
    } } } } } } }
    c.section("many rows");
    let top = c.pick(14, 30);
    for len in 4..=top { for start in 0..all.len() { for (nm, o) in objs.iter().enumerate().take(4) {
        if c.done() { return; }
        // distinct right-hand sides make every row recognizable
        let cs: Vec<Con> = (0..len).map(|i| {
            let t = TEXTS[(start + i * 5) % TEXTS.len()].split_once('|').unwrap().0;
            con(&format!("{} | {}", t, 0.0625 * (i as f64 * 3. + 1.)), RELS[(i * 7 + start) % 3], n)
        }).collect();
        go(c, &spec(nm, o, start % 2 == 0, cs), start % 4, len % 7);
    } } }
    c.section("constraints added several times");
    let pick = [0usize, 2, 4, 7, 8, 9, 10, 13];
    for o in &objs { for (i, a) in pick.iter().enumerate() { for (j, b) in pick.iter().enumerate() {
        for ra in 0..RELS.len() { for rb in 0..RELS.len() {
            let t = |k: usize, r: usize, s: f64| con(&format!("{} | {}", TEXTS[k].split_once('|').unwrap().0, s), RELS[r], n);
            let sp = spec((i + j) % 4, o, (i + ra) % 2 == 0, vec![t(*a, ra, 0.625), t(*b, rb, 1.375)]);
            if !distinct(&sp) { continue; }
            for extra in [&[0][..], &[1], &[0, 0], &[0, 1], &[1, 0], &[1, 0, 1], &[0, 1, 1, 0, 0], &[1, 1, 1, 1]] {
                if c.done() { return; }
                let v = (ra + 2 * rb + extra.len()) % 7;
                c.case(|| format!("{} with names {:?}, then again {:?}, values {}", sp.show(), sp.names, extra, v), |c| check(c, &sp, extra, (i + rb) % 4, v));
            }
        } }
    } } }
    c.section("models of many variables and constraints");
    for (n, m) in [(2usize, 3usize), (5, 4), (9, 9), (17, 5), (33, 12), (65, 8), (20, 40), (130, 20), (300, 10)].iter().cloned().chain(if c.thorough() { vec![(520, 30), (70, 300), (1000, 3)] } else { vec![] }) { for kind in 0..6 { for linear in [true, false] { for ints in [0usize, 3] { for v in [0, 1, 2, 6] {
        if !linear && n * m > c.pick(1000, 4000) { continue; }
        if c.done() { return; }
        let w = wide_model(kind, n, m, linear, ints);
        let st = if v == 0 { kind % 4 } else { 0 };
        c.case(|| format!("kind {}, {}, values {}, status {}", kind, w.show(), v, st), |c| {
            let s = answered(&w, v, st)?;
            c.step(s);
            c.nontrivial();
            c.trace();
            c.state(hash_u64s(&[kind as u64, v as u64, s, linear as u64, ints as u64]));
            Ok(())
        });
    } } } } }
    c.section("hash orders");
    let seeds = c.pick(12, 64);
    for o in &objs { for s in 0..seeds {
        let cs: Vec<Con> = ["x + y | 1", "x*y | 0.25", "k | 3", "1 | x", "y | x + k", "k*k | y", "x | 4"].iter().enumerate().map(|(i, t)| con(t, RELS[(i + s as usize) % 3], n)).collect();
        let sp = spec((s % 4) as usize, o, true, cs);
        c.case(|| format!("{} under hash seed {}", sp.show(), s), |c| {
            let (t, h) = with_seed(s, || run_one(&sp, &[], 0, 2))?;
            c.step(t);
            c.trace();
            c.nontrivial();
            c.state(h);
            Ok(())
        });
    } }
}
