//! C22: a model always reflects its history, and failed solves leave nothing stale.

use crate::checks::c06::sequences;
use crate::checks::c07::{answer, status_of};
use crate::fw::*;
use crate::model::*;
use crate::{bad, ck};
use numopt::model::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use std::cell::RefCell;
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C22", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one history of operations on one or two models that share variables and constraints; after every operation everything the models report is compared with a reference state machine, and what each solve hands the solver and reports is compared with the state; non-trivial: the history has at least two solves or a failing solve",
        assumptions: &["the problem for a state is judged against the problem of a model made afresh for that state (whose correctness is C05's and C07's subject) and against the starting values"],
    }
}

/// What a solver saw.
#[derive(Clone, Debug, PartialEq)]
struct Saw { class: u8, a: Vec<Vec<f64>>, b: Vec<f64>, l: Vec<f64>, u: Vec<f64>, p: Vec<bool>, x0: Option<Vec<f64>>, c: Option<Vec<f64>>, at: Vec<Vec<f64>> }

fn saw(p: &mut Problem) -> Result<Saw, Fail> {
    let st = std_of(p)?;
    let mut at = Vec::new();
    for k in 0..3 {
        let x: Vec<f64> = (0..st.n).map(|i| 0.375 + 0.5 * (i as f64) * (k as f64 - 1.) + k as f64 * 0.25).collect();
        let v = evaluate(p, &x);
        let mut r = vec![v.phi];
        r.extend(v.gphi.iter());
        r.extend(v.f.iter());
        for row in dense(&v.j)? { r.extend(row); }
        at.push(r);
    }
    let class = match st.class { Class::Lp => 0, Class::Milp => 1, Class::Nlp => 2, Class::Minlp => 3 };
    Ok(Saw { class, a: st.a, b: st.b, l: st.l, u: st.u, p: st.p, x0: st.x0, c: st.c, at })
}
fn near(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y || x.is_nan() && y.is_nan() || x.is_finite() && y.is_finite() && (x - y).abs() <= 1e-12 * (1. + x.abs())) }
fn same(a: &Saw, b: &Saw) -> Option<&'static str> {
    let nn = |x: &Vec<Vec<f64>>, y: &Vec<Vec<f64>>| x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| near(p, q));
    if a.class != b.class { return Some("class"); }
    if !nn(&a.a, &b.a) || !near(&a.b, &b.b) { return Some("linear rows"); }
    if !near(&a.l, &b.l) || !near(&a.u, &b.u) { return Some("limits"); }
    if a.p != b.p { return Some("integrality"); }
    if a.x0 != b.x0 { return Some("starting point"); }
    match (&a.c, &b.c) { (Some(p), Some(q)) if near(p, q) => (), (None, None) => (), _ => return Some("costs") }
    if !nn(&a.at, &b.at) { return Some("values"); }
    None
}

struct Rec { params: HashMap<String, SolverParam>, status: usize, variant: usize, fail: bool, got: RefCell<Option<Saw>> }
impl Solver for Rec {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let s = saw(p).map_err(|e| SimpleError::new(e.msg))?;
        let (n, na) = (s.l.len(), s.b.len());
        *self.got.borrow_mut() = Some(s);
        if self.fail { return Err(SimpleError::new("this solver fails")); }
        let nf = std_of(p).map_err(|e| SimpleError::new(e.msg))?.nf;
        Ok((status_of(self.status), answer(self.variant, n, na, nf)))
    }
}

const NM: [&str; 3] = ["x", "y", "k"];
const OBJS: [&str; 4] = ["", "min x + 2*y", "max k - y", "min x*x + y"];
const CONS: [(&str, Rel); 5] = [("x + y | 3", Rel::Le), ("x | 2", Rel::Le), ("x*y | 1", Rel::Ge), ("k - x | 0.5", Rel::Eq), ("x | 1", Rel::Le)];
/// Starting values: (variable, value); variable 3 is in no model.
const INITS: [&[(usize, f64)]; 4] = [&[], &[(0, 1.5)], &[(0, -2.), (1, 3.), (2, 4.25)], &[(1, 0.25), (3, 9.)]];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Obj(usize), Add(usize), Many(usize), Init(usize), Solve(usize, usize, bool) }

const MANY: [&[usize]; 3] = [&[], &[1, 3], &[2, 0, 2]];

#[derive(Clone, Default)]
struct State { obj: usize, cons: Vec<usize>, init: usize, last: Option<(usize, Vec<usize>, usize, usize, usize)> } // last: obj, cons, init, status, variant

struct World { vars: Vec<Node>, objs: Vec<Option<(bool, Node)>>, cons: Vec<Constraint> }

fn world() -> World {
    let mut vars: Vec<Node> = NM.iter().enumerate().map(|(i, n)| if i == 2 { VariableScalar::new_integer(n) } else { VariableScalar::new_continuous(n) }).collect();
    let objs = OBJS.iter().map(|o| obj(o, &NM).map(|q| (q.max, q.f.node(&vars)))).collect();
    let cons = CONS.iter().enumerate().map(|(i, (t, r))| con(t, *r, &NM).build(&vars, ["", "a", "b", "", "a"][i])).collect();
    vars.push(VariableScalar::new_continuous("w"));
    World { vars, objs, cons }
}

fn objective(w: &World, o: usize) -> Objective { match &w.objs[o] { None => Objective::empty(), Some((m, f)) => if *m { Objective::maximize(f) } else { Objective::minimize(f) } } }
fn init(w: &World, i: usize) -> HashMap<&Node, f64> { INITS[i].iter().map(|(v, x)| (&w.vars[*v], *x)).collect() }

/// A model made for a state without history.
fn fresh(w: &World, o: usize, cs: &[usize], i: usize) -> Model {
    let mut m = Model::new();
    m.set_objective(objective(w, o));
    for c in cs { m.add_constraint(&w.cons[*c]); }
    m.set_init_primals(&init(w, i));
    m
}

type Key = (usize, Vec<usize>, usize, usize, usize);
struct Expect { prim: HashMap<Node, f64>, dual: HashMap<Constraint, f64>, saw: Saw, pos: Vec<Option<usize>> }

#[derive(Default)]
struct Cache(HashMap<Key, Expect>, HashMap<(usize, Vec<usize>, usize), Saw>);
impl Cache {
    /// The standard problem of a fresh model of that state.
    fn std(&mut self, w: &World, s: &State) -> Result<&Saw, Fail> {
        let k = (s.obj, s.cons.clone(), s.init);
        if !self.1.contains_key(&k) {
            let m = fresh(w, k.0, &k.1, k.2);
            let v = saw(&mut m.std_problem_checked()?.prob)?;
            self.1.insert(k.clone(), v);
        }
        Ok(&self.1[&k])
    }
    fn get(&mut self, w: &World, k: &Key) -> Result<&Expect, Fail> {
        if !self.0.contains_key(k) {
            let mut m = fresh(w, k.0, &k.1, k.2);
            let s = Rec { params: HashMap::new(), status: k.3, variant: k.4, fail: false, got: RefCell::new(None) };
            if let Err(e) = m.solve(&s) { bad!("solving a fresh model fails: {}", e); }
            let sd = m.std_problem_checked()?;
            let pos = w.vars.iter().map(|v| sd.var2index.get(v).cloned()).collect();
            let e = Expect { prim: m.final_primals().into_iter().map(|(v, x)| (v.clone(), x)).collect(), dual: m.final_duals().into_iter().map(|(q, x)| (q.clone(), x)).collect(),
                saw: s.got.borrow_mut().take().unwrap(), pos };
            self.0.insert(k.clone(), e);
        }
        Ok(&self.0[k])
    }
}

fn compare(w: &World, cache: &mut Cache, m: &Model, s: &State, who: &str) -> Res {
    match (m.objective(), &w.objs[s.obj]) {
        (Objective::Empty, None) => (),
        (Objective::Minimize(f), Some((false, g))) | (Objective::Maximize(f), Some((true, g))) => ck!(f == g, "{}: another objective expression", who),
        _ => bad!("{}: another kind of objective than {:?}", who, OBJS[s.obj]),
    }
    let cs = m.constraints();
    ck!(cs.len() == s.cons.len() && cs.iter().zip(s.cons.iter()).all(|(a, b)| *a == w.cons[*b]), "{}: constraints are {:?} instead of {:?}", who, cs, s.cons);
    let iv = m.init_primals();
    ck!(iv == init(w, s.init), "{}: starting values are {:?} instead of {:?}", who, iv, INITS[s.init]);
    let (p, d) = (m.final_primals(), m.final_duals());
    match &s.last {
        None => {
            ck!(m.solver_status().is_none(), "{}: status {:?} without a successful last solve", who, m.solver_status());
            ck!(p.is_empty() && d.is_empty(), "{}: {} values and {} multipliers without a successful last solve", who, p.len(), d.len());
        }
        Some(k) => {
            ck!(m.solver_status() == Some(&status_of(k.3)), "{}: status {:?} instead of {:?}", who, m.solver_status(), status_of(k.3));
            let e = cache.get(w, k)?;
            // names of slack variables are not objects of the user: they are compared by number
            ck!(p.len() == e.prim.len(), "{}: {} values instead of {}", who, p.len(), e.prim.len());
            for v in &w.vars { ck!(p.get(v) == e.prim.get(v), "{}: value of {} is {:?} instead of {:?}", who, v, p.get(v), e.prim.get(v)); }
            ck!(d.len() == e.dual.len(), "{}: {} multipliers instead of {}", who, d.len(), e.dual.len());
            for q in &w.cons { ck!(d.get(q) == e.dual.get(q), "{}: multiplier of {} is {:?} instead of {:?}", who, q, d.get(q), e.dual.get(q)); }
        }
    }
    Ok(())
}

fn history(c: &mut Ctx, w: &World, cache: &mut Cache, seq: &[(usize, Op)], nm: usize) -> Res {
    let mut ms: Vec<Model> = (0..nm).map(|_| Model::new()).collect();
    let mut ss: Vec<State> = vec![State::default(); nm];
    let mut solves = 0;
    for (t, (i, op)) in seq.iter().enumerate() {
        let (m, s) = (&mut ms[*i], &mut ss[*i]);
        match op {
            Op::Obj(o) => { m.set_objective(objective(w, *o)); s.obj = *o; }
            Op::Add(k) => { m.add_constraint(&w.cons[*k]); s.cons.push(*k); }
            Op::Many(k) => { let v: Vec<&Constraint> = MANY[*k].iter().map(|q| &w.cons[*q]).collect(); m.add_constraints(&v); s.cons.extend(MANY[*k]); }
            Op::Init(k) => { m.set_init_primals(&init(w, *k)); s.init = *k; }
            Op::Solve(st, var, fail) => {
                let r = Rec { params: HashMap::new(), status: *st, variant: *var, fail: *fail, got: RefCell::new(None) };
                let res = catch(|| m.solve(&r));
                match &res { Err(e) => bad!("operation {}: panic: {}", t, e), Ok(Ok(())) => ck!(!fail, "operation {}: a failing solve is reported as done", t), Ok(Err(_)) => ck!(*fail, "operation {}: solve fails", t) }
                let k: Key = (s.obj, s.cons.clone(), s.init, *st, *var);
                let g = r.got.borrow_mut().take();
                let e = cache.get(w, &k)?;
                match g { None => bad!("operation {}: the solver was not called", t), Some(g) => {
                    if let Some(q) = same(&g, &e.saw) { bad!("operation {}: the solver got another problem ({}): {:?} instead of {:?}", t, q, g, e.saw); }
                    // starting values of the state
                    let x0 = match &g.x0 { Some(x) => x, None => bad!("operation {}: no starting point", t) };
                    for (v, x) in INITS[s.init] { if let Some(p) = e.pos[*v] { ck!(x0[p] == *x, "operation {}: starting value of {} is {:e} instead of {:e}", t, w.vars[*v], x0[p], x); } }
                } }
                s.last = if *fail { None } else { Some(k) };
                solves += 1;
                if *fail { solves += 1; }
            }
        }
        // the standard problem is that of the state, too
        let (m, s) = (&ms[*i], &ss[*i]);
        let g = saw(&mut m.std_problem_checked()?.prob)?;
        let e = cache.std(w, s)?;
        if let Some(q) = same(&g, e) { bad!("after operation {}: the standard problem is another one ({}): {:?} instead of {:?}", t, q, g, e); }
        for i in 0..nm { compare(w, cache, &ms[i], &ss[i], &format!("after operation {}, model {}", t, i))?; }
        c.step(1);
    }
    let mut h: Vec<u64> = Vec::new();
    for s in &ss { h.push(s.obj as u64); h.push(s.init as u64); h.extend(s.cons.iter().map(|x| *x as u64)); h.push(99); if let Some(l) = &s.last { h.push(l.0 as u64); h.push(l.1.len() as u64); h.push(l.3 as u64 * 8 + l.4 as u64); } }
    c.state(hash_u64s(&h));
    if solves > 1 { c.nontrivial(); }
    c.trace();
    Ok(())
}

fn run(c: &mut Ctx) {
    let w = world();
    let mut cache = Cache::default();
    let full: Vec<(usize, Op)> = (0..4).map(Op::Obj).chain((0..4).map(Op::Add)).chain((0..3).map(Op::Many)).chain((0..4).map(Op::Init))
        .chain([Op::Solve(0, 0, false), Op::Solve(1, 1, false), Op::Solve(3, 2, false), Op::Solve(0, 0, true)]).map(|o| (0, o)).collect();
    let core: Vec<(usize, Op)> = [Op::Obj(1), Op::Obj(2), Op::Add(0), Op::Add(1), Op::Add(4), Op::Init(1), Op::Init(2), Op::Solve(0, 0, false), Op::Solve(1, 1, false), Op::Solve(0, 0, true)].into_iter().map(|o| (0, o)).collect();
    let two: Vec<(usize, Op)> = (0..2).flat_map(|i| [Op::Obj(1 + i), Op::Add(i), Op::Init(1 + i), Op::Solve(i, i, false), Op::Solve(0, 0, true)].into_iter().map(move |o| (i, o))).collect();
    let go = |c: &mut Ctx, cache: &mut Cache, al: &[(usize, Op)], len: usize, nm: usize| {
        sequences(al.len(), len, &mut |s| {
            let seq: Vec<(usize, Op)> = s.iter().map(|i| al[*i]).collect();
            c.case(|| format!("{:?}", seq), |c| history(c, &w, cache, &seq, nm));
            !c.done()
        });
    };
    c.section("all operations on one model");
    go(c, &mut cache, &full, c.pick(4, 5), 1);
    c.section("longer histories of central operations");
    go(c, &mut cache, &core, c.pick(5, 6), 1);
    c.section("two models sharing variables and constraints");
    go(c, &mut cache, &two, c.pick(5, 6), 2);
    c.section("starting values of every size");
    let mut sizes: Vec<f64> = (-320..=308).step_by(c.pick(7, 1)).map(|e| format!("1e{}", e).parse::<f64>().unwrap()).chain([0., 1e7, 1e8, 99999999., 1e9, f64::MAX, f64::MIN_POSITIVE, 5e-324, 4503599627370497.5, 0.1, 1. / 3., f64::INFINITY, f64::NAN]).collect();
    sizes.extend(sizes.clone().iter().map(|v| -v));
    for (i, v) in sizes.iter().enumerate() { for o in 0..OBJS.len() { for cs in [vec![], vec![0usize, 2], vec![3, 1, 4], vec![1, 4, 2, 0]] { for fails in [false, true] {
        if c.done() { return; }
        let q = sizes[(i * 5 + 3) % sizes.len()];
        c.case(|| format!("starting values {:e} and {:e} with objective {:?} and constraints {:?}, first solve {}", v, q, OBJS[o], cs, if fails { "fails" } else { "succeeds" }), |c| {
            let mut m = fresh(&w, o, &cs, 2);
            let mut want = HashMap::new();
            for (k, x) in [(0, *v), (2, q), (3, *v)] { want.insert(&w.vars[k], x); }
            m.set_init_primals(&want);
            for t in 0..3 {
                let is = m.init_primals();
                ck!(is.len() == want.len() && want.iter().all(|(k, x)| is.get(k).map_or(false, |y| y == x || y.is_nan() && x.is_nan())), "starting values are {:?} instead of {:?}", m.init_primals(), want);
                let mut sd = m.std_problem_checked()?;
                let pos: Vec<Option<usize>> = w.vars.iter().map(|v| sd.var2index.get(v).cloned()).collect();
                let std = saw(&mut sd.prob)?.x0;
                let r = Rec { params: HashMap::new(), status: t, variant: t, fail: fails && t == 0, got: RefCell::new(None) };
                let res = m.solve(&r);
                ck!(res.is_err() == (fails && t == 0), "solve {}: {:?}", t, res);
                let got = r.got.borrow_mut().take().and_then(|g| g.x0);
                for (who, x0) in [("the solver", got), ("the standard problem", std)] {
                    let x0 = match x0 { Some(x) => x, None => bad!("solve {}: no starting point for {}", t, who) };
                    for (k, x) in [(0usize, *v), (1, 0.), (2, q)] { if let Some(p) = pos[k] { ck!(x0[p] == x || x0[p].is_nan() && x.is_nan(), "solve {}: starting value of {} for {} is {:e} instead of {:e}", t, NM[k], who, x0[p], x); } }
                }
                c.step(1);
            }
            c.nontrivial();
            c.trace();
            c.state(hash_f64s(&[*v, q, o as f64]));
            Ok(())
        });
    } } } }
    c.section("many constraints and starting values at a time");
    for n in [1usize, 2, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 5001] { for kind in 0..4usize {
        if c.done() { return; }
        c.case(|| format!("{} constraints and starting values, kind {}", n, kind), |c| {
            let v: Vec<Node> = (0..n).map(|i| VariableScalar::new_continuous(&format!("v{}", i))).collect();
            // kind 2: few constraints, each of them many times
            let cs: Vec<Constraint> = (0..if kind == 2 { n.min(7) } else { n }).map(|i| if kind == 3 { (&v[i] + &v[(i + 1) % n]).equal(i as f64) } else { v[i].leq(i as f64) }).collect();
            let list: Vec<&Constraint> = (0..n).map(|i| &cs[i * 3 % cs.len()]).collect();
            let mut m = Model::new();
            let mut want: Vec<&Constraint> = Vec::new();
            for t in 0..2 {
                if kind == 1 { for q in &list { m.add_constraint(q); } } else { m.add_constraints(&list); }
                want.extend(&list);
                ck!(m.constraints().len() == want.len() && m.constraints().iter().zip(&want).all(|(a, b)| a == *b), "{} constraints instead of the {} that were added", m.constraints().len(), want.len());
                let start: HashMap<&Node, f64> = v.iter().enumerate().filter(|(i, _)| t == 0 || i % 2 == 0).map(|(i, x)| (x, i as f64 - 3.5)).collect();
                m.set_init_primals(&start);
                ck!(m.init_primals() == start, "starting values differ from those that were set");
                if n <= 1025 {
                    let mut sd = m.std_problem_checked()?;
                    let got = saw(&mut sd.prob)?;
                    for (i, x) in v.iter().enumerate() { if let (Some(p), Some(x0)) = (sd.var2index.get(x), &got.x0) { ck!(x0[*p] == start.get(x).cloned().unwrap_or(0.), "starting value of {} is {}", i, x0[*p]); } }
                    let rows = sd.aindex2constr.len() + sd.uindex2constr.len();
                    let d = cs.len().min(n);
                    ck!(if kind == 3 && n > 1 { rows == want.len() } else if kind != 3 { rows == list.iter().collect::<std::collections::HashSet<_>>().len() && rows <= d } else { true }, "{} constraints are in the problem", rows);
                }
                c.step(1);
            }
            c.nontrivial();
            c.trace();
            c.state(hash_u64s(&[n as u64, kind as u64]));
            Ok(())
        });
    } }
    c.section("very long histories");
    let len = c.pick(120, 400);
    for (al, nm) in [(&full, 1usize), (&core, 1), (&two, 2)] { for stride in 1..al.len() { for off in 0..c.pick(3, 12) {
        if c.done() { return; }
        // few constraints at a time: otherwise models only grow
        let seq: Vec<(usize, Op)> = (0..len).map(|t| al[(off * 5 + t * stride + t * t / 7) % al.len()]).filter({ let mut n = 0; move |o| { if matches!(o.1, Op::Add(_) | Op::Many(_)) { n += 1; n <= 40 } else { true } } }).collect();
        c.case(|| format!("{} operations, every {}th from {}, alphabet of {}", len, stride, off * 5, al.len()), |c| history(c, &w, &mut cache, &seq, nm));
    } } }
}
