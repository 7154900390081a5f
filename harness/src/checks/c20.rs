//! C20: variables and constraints are identified by object, over all histories of creating,
//! cloning, dropping and storing them.

use crate::checks::c06::sequences;
use crate::checks::{c03, c04, c05, c07};
use crate::expr::*;
use crate::fw::*;
use crate::model::*;
use crate::{bad, ck};
use numopt::model::node_diff::NodeDiff;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use numopt::model::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub fn def() -> CheckDef {
    CheckDef {
        id: "C20", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one history of operations on a table of handles and a value map (after every operation equality, hashes and map lookups of all pairs of live handles are compared with the reference identities), or one expression or model whose variables all have the same name; non-trivial: the history has at least two distinct live objects at some time",
        assumptions: &["numbers, not names, decide the reference result: every variable has its own value"],
    }
}

fn h64<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

const SLOTS: usize = 3;

/// What can be created: the same content again and again.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Make { Var(bool), Const(f64), Add, Mul, Div, Sin, Cos, Long(bool), NoName(bool) }
const MAKES: [Make; 8] = [Make::Var(false), Make::Var(true), Make::Const(1.), Make::Add, Make::Mul, Make::Div, Make::Sin, Make::Cos];

const LONG: &str = "generation_of_unit_17_in_hour_23_of_scenario_5";

fn mk(m: Make, base: &[Node]) -> Node {
    match m {
        Make::Var(i) => if i { VariableScalar::new_integer("x") } else { VariableScalar::new_continuous("x") },
        Make::Long(i) => if i { VariableScalar::new_integer(LONG) } else { VariableScalar::new_continuous(LONG) },
        Make::NoName(i) => if i { VariableScalar::new_integer("") } else { VariableScalar::new_continuous("") },
        Make::Const(c) => ConstantScalar::new(c),
        Make::Add => &base[0] + &base[1],
        Make::Mul => &base[0] * &base[1],
        Make::Div => &base[0] / &base[1],
        Make::Sin => base[0].sin(),
        Make::Cos => base[0].cos(),
    }
}
const RELMAKES: [(Rel, f64, &str); 4] = [(Rel::Eq, 1., "t"), (Rel::Le, 1., "t"), (Rel::Ge, 1., "t"), (Rel::Eq, 1., "")];
fn mkc(m: usize, base: &[Node]) -> Constraint {
    let (r, b, t) = RELMAKES[m];
    match r { Rel::Eq => base[0].equal_and_tag(b, t), Rel::Le => base[0].leq_and_tag(b, t), Rel::Ge => base[0].geq_and_tag(b, t) }
}

/// Operations: 0..nm create in the first empty slot; then clone slot i into the first empty
/// slot; drop slot i; store slot i in the map; replace slot i by a clone of itself.
fn history<T: Clone + Eq + Hash>(c: &mut Ctx, nm: usize, make: &dyn Fn(usize) -> T, seq: &[usize]) -> Res {
    let mut tab: Vec<Option<(usize, T)>> = (0..SLOTS).map(|_| None).collect();
    let mut map: HashMap<T, usize> = HashMap::new();
    let mut stored: std::collections::BTreeSet<usize> = Default::default();
    let mut next = 0;
    let mut two = false;
    for (t, op) in seq.iter().enumerate() {
        let free = tab.iter().position(|s| s.is_none());
        if *op < nm {
            if let Some(f) = free { tab[f] = Some((next, make(*op))); next += 1; }
        } else {
            let k = op - nm;
            let (what, i) = (k / SLOTS, k % SLOTS);
            match what {
                0 => if let (Some(f), Some(x)) = (free, tab[i].clone()) { tab[f] = Some(x); },
                1 => tab[i] = None,
                2 => if let Some((id, x)) = tab[i].clone() {
                    let old = map.insert(x, id);
                    ck!(old == if stored.contains(&id) { Some(id) } else { None }, "operation {}: storing object {} replaced the value {:?}", t, id, old);
                    stored.insert(id);
                },
                _ => if let Some((id, x)) = &tab[i] { let y = x.clone(); tab[i] = Some((*id, y)); },
            }
        }
        // all pairs
        let live: Vec<&(usize, T)> = tab.iter().flatten().collect();
        let refs: HashMap<&T, usize> = live.iter().map(|p| (&p.1, p.0)).collect();
        let distinct: std::collections::BTreeSet<usize> = live.iter().map(|p| p.0).collect();
        ck!(refs.len() == distinct.len(), "operation {}: a map keyed by {} different objects has {} entries", t, distinct.len(), refs.len());
        if distinct.len() > 1 { two = true; }
        for a in &live {
            for b in &live {
                ck!((a.1 == b.1) == (a.0 == b.0), "operation {}: objects {} and {} compare {}", t, a.0, b.0, a.1 == b.1);
                if a.0 == b.0 { ck!(h64(&a.1) == h64(&b.1), "operation {}: two handles of object {} hash differently", t, a.0); }
            }
            ck!(refs.get(&a.1) == Some(&a.0), "operation {}: map of references gives {:?} for object {}", t, refs.get(&a.1), a.0);
            ck!(map.get(&a.1) == if stored.contains(&a.0) { Some(&a.0) } else { None }, "operation {}: map gives {:?} for object {}", t, map.get(&a.1), a.0);
            c.step(1);
        }
        ck!(map.len() == stored.len(), "operation {}: the map has {} entries for {} objects", t, map.len(), stored.len());
        for (k, v) in map.iter() { for a in &live { ck!((*k == a.1) == (*v == a.0), "operation {}: stored key {} and object {} compare {}", t, v, a.0, *k == a.1); } }
        let mut st: Vec<u64> = tab.iter().map(|s| s.as_ref().map(|p| p.0 as u64 + 1).unwrap_or(0)).collect();
        st.extend(stored.iter().map(|s| *s as u64 + 100));
        c.state(hash_u64s(&st) ^ nm as u64);
    }
    if two { c.nontrivial(); }
    c.trace();
    Ok(())
}

/// Removes duplicates: operations on empty slots do nothing, so only histories all of whose
/// operations act are run.
fn acts(nm: usize, seq: &[usize]) -> bool {
    let mut full = [false; SLOTS];
    for op in seq {
        let free = full.iter().position(|s| !s);
        if *op < nm { match free { Some(f) => full[f] = true, None => return false } }
        else {
            let (what, i) = ((op - nm) / SLOTS, (op - nm) % SLOTS);
            if !full[i] { return false; }
            match what { 0 => match free { Some(f) => full[f] = true, None => return false }, 1 => full[i] = false, _ => () }
        }
    }
    true
}

/// Enumerates acting histories depth first.
fn histories(nm: usize, len: usize, seq: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    if seq.len() == len { return f(seq); }
    for op in 0..nm + 4 * SLOTS {
        seq.push(op);
        if acts(nm, seq) && !histories(nm, len, seq, f) { return false; }
        seq.pop();
    }
    true
}

/// An expression over variables that all have the same name.
fn expression(c: &mut Ctx, p: &Prog, v: &[Node]) -> Res {
    let n = match p.build(v, &|_| 0) { Ok(mut s) => s.pop().unwrap(), Err(_) => return Ok(()) };
    let d: Vec<Node> = v.iter().map(|x| n.derivative(x)).collect();
    let ds = n.derivatives(&v.iter().collect::<Vec<_>>());
    let mut any = false;
    for pt in &PTS {
        let j = p.jet(pt);
        if !j.ok { continue; }
        any = true;
        let m = assign(v, pt);
        ck!(m.len() == v.len(), "a map of {} variables has {} entries", v.len(), m.len());
        let e = n.evaluate(&m);
        ck!(close(e, j.v, j.mv), "value at {:?} is {:e} instead of {:e}", pt, e, j.v);
        for i in 0..v.len() {
            let e = d[i].evaluate(&m);
            ck!(close(e, j.g[i], j.mg[i]), "derivative by variable {} at {:?} is {:e} instead of {:e}", i, pt, e, j.g[i]);
            match ds.get(&v[i]) { None => bad!("no derivative by variable {}", i), Some(q) => { let e = q.evaluate(&m); ck!(close(e, j.g[i], j.mg[i]), "joint derivative by variable {} at {:?} is {:e} instead of {:e}", i, pt, e, j.g[i]) } }
        }
        c.step(1);
    }
    if !any { return Ok(()); }
    c03::components(p, v)?;
    c04::check(c, p, v)?;
    c.nontrivial();
    Ok(())
}

/// Constraints that look the same: each keeps its own multiplier.
fn repeated(c: &mut Ctx, texts: &[(usize, usize)], names: [&'static str; 3]) -> Res {
    const POOL: [&str; 4] = ["x + y | 1", "x*y | 0.5", "x - k | 2", "sin(x) | y"];
    let n = ["x", "y", "k"];
    let cs: Vec<Con> = texts.iter().map(|(t, r)| con(POOL[*t], RELS[*r], &n)).collect();
    let sp = Spec { names: names.to_vec(), int: vec![false; 3], obj: obj("min x + y + k", &n), cons: cs };
    let mut b = sp.build();
    let mut sd = b.model.std_problem_checked()?;
    let st = std_of(&mut sd.prob)?;
    ck!(st.b.len() + st.nf == texts.len(), "{} rows for {} constraints", st.b.len() + st.nf, texts.len());
    for i in 0..texts.len() { for k in 0..i { ck!(b.cons[i] != b.cons[k], "constraints {} and {} are equal", i, k); } }
    let mapped: std::collections::BTreeSet<usize> = sd.aindex2constr.values().chain(sd.jindex2constr.values()).filter_map(|q| index_of(&b.cons, q)).collect();
    ck!(mapped.len() == texts.len(), "only constraints {:?} of {} have a row", mapped, texts.len());
    if let Err(e) = b.model.solve(&c07::Mock::new(0, 0)) { bad!("solve: {}", e); }
    let d = b.model.final_duals();
    let mut got: Vec<f64> = Vec::new();
    for (i, q) in b.cons.iter().enumerate() { match d.get(q) { Some(v) => got.push(*v), None => bad!("no multiplier for constraint {}", i) } }
    ck!(d.len() == texts.len(), "{} multipliers for {} constraints", d.len(), texts.len());
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for w in got.windows(2) { ck!(w[0] != w[1], "the multiplier {:e} is reported for two constraints", w[0]); }
    let pr = b.model.final_primals();
    let mut xs: Vec<f64> = Vec::new();
    for (i, v) in b.vars.iter().enumerate() {
        match pr.get(v) { Some(x) => xs.push(*x), None => if sp.used() & (1 << i) != 0 { bad!("no value for variable {}", i) } }
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for w in xs.windows(2) { ck!(w[0] != w[1], "the value {:e} is reported for two variables", w[0]); }
    c.step(got.len() as u64);
    c.state(hash_f64s(&got));
    c.nontrivial();
    c.trace();
    Ok(())
}

/// A solver whose answer is made from the problem it gets: x_j = 10 c_j, a row's multiplier is
/// the row's value at c, a slack's multipliers are those of its row, and the limits of x_j have
/// 1000 + c_j.
pub struct Echo(pub HashMap<String, SolverParam>);
impl Solver for Echo {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.0 }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.0 }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let st = std_of(p).map_err(|e| SimpleError::new(e.msg))?;
        let k = st.c.clone().ok_or_else(|| SimpleError::new("not linear"))?;
        let lam: Vec<f64> = st.a.iter().zip(st.b.iter()).map(|(r, b)| r.iter().zip(k.iter()).map(|(a, x)| a * x).sum::<f64>() - b).collect();
        let of = |j: usize| -> f64 {
            if k[j] != 0. { return 1000. + k[j]; }
            st.a.iter().zip(lam.iter()).filter(|(r, _)| r[j] != 0.).map(|(_, l)| *l).next().unwrap_or(0.)
        };
        let m: Vec<f64> = (0..st.n).map(of).collect();
        Ok((SolverStatus::Solved, ProblemSol { x: k.iter().map(|x| 10. * x).collect(), lam, nu: vec![], mu: m.clone(), pi: m }))
    }
}

/// A linear model with same-named variables: values and multipliers follow the objects.
fn echo(sp: &Spec) -> Res {
    const AT: [f64; 3] = [1., 2., 4.];
    let mut b = sp.build();
    if let Err(e) = b.model.solve(&Echo(HashMap::new())) { bad!("solve: {}", e); }
    let pr = b.model.final_primals();
    for (i, v) in b.vars.iter().enumerate() { ck!(pr.get(v) == Some(&(10. * AT[i])), "value of variable {} is {:?} instead of {:e}", i, pr.get(v), 10. * AT[i]); }
    let d = b.model.final_duals();
    for (q, k) in b.cons.iter().zip(sp.cons.iter()) {
        let got = d.get(q).cloned();
        let j = k.diff(&AT);
        let row = got.map(|g| (g.abs() - j.v.abs()).abs() <= 1e-9 * (1. + j.mv)).unwrap_or(false);
        let only: Vec<usize> = (0..3).filter(|i| j.g[*i] != 0.).collect();
        let lim = k.rel != Rel::Eq && only.len() == 1 && (got.unwrap_or(0.) == 0. || got == Some(1000. + AT[only[0]]));
        ck!(row || lim, "multiplier of {} is {:?}", k.text, got);
    }
    Ok(())
}

/// Many objects: a set holds all of them, clones are found, and all pairs near each other or a
/// power of two apart are different.
fn many<T: Clone + Eq + Hash>(n: usize, make: &dyn Fn(usize) -> T) -> Result<usize, Fail> {
    let all: Vec<T> = (0..n).map(|i| make(i)).collect();
    let mut map: HashMap<T, usize> = HashMap::with_capacity(n);
    for (i, x) in all.iter().enumerate() { if let Some(k) = map.insert(x.clone(), i) { bad!("objects {} and {} have one entry in a map", k, i); } }
    ck!(map.len() == n, "{} entries for {} objects", map.len(), n);
    let mut steps = 0;
    for (i, x) in all.iter().enumerate() {
        ck!(map.get(&x.clone()) == Some(&i), "a map gives {:?} for object {}", map.get(x), i);
        ck!(h64(x) == h64(&x.clone()), "a clone of object {} has another hash", i);
        let mut d = 1;
        while i + d < n { ck!(*x != all[i + d], "objects {} and {} are equal", i, i + d); d *= 2; steps += 1; }
    }
    Ok(steps)
}

fn run(c: &mut Ctx) {
    let base = vars(3);
    c.section("histories of expressions");
    let len = c.pick(6, 7);
    for l in 1..=len {
        // two kinds of objects at a time
        for a in 0..MAKES.len() { for b in a..MAKES.len() {
            if a == b && l < len { continue; }
            let kinds = [MAKES[a], MAKES[b]];
            let nm = if a == b { 1 } else { 2 };
            histories(nm, l, &mut Vec::new(), &mut |s| {
                c.case(|| format!("expressions {:?}: {:?} (create, clone, drop, store, reassign slot)", kinds, s), |c| history(c, nm, &|m| mk(kinds[m], &base), s));
                !c.done()
            });
            if c.done() { return; }
        } }
    }
    c.section("histories of constraints");
    for l in 1..=len {
        for a in 0..4 { for b in a..4 {
            let nm = if a == b { 1 } else { 2 };
            histories(nm, l, &mut Vec::new(), &mut |s| {
                c.case(|| format!("constraints {} {}: {:?}", a, b, s), |c| history(c, nm, &|m| mkc([a, b][m], &base), s));
                !c.done()
            });
            if c.done() { return; }
        } }
    }
    c.section("histories of variables with names of every length");
    for k in 0..=c.pick(24usize, 60) { for int in [false, true] { for l in 2..=4 {
        let nm: String = "abcdefghij_".chars().cycle().take(k).collect();
        histories(1, l, &mut Vec::new(), &mut |s| {
            c.case(|| format!("variable {:?} integer {}: {:?}", nm, int, s), |c| history(c, 1, &|_| if int { VariableScalar::new_integer(&nm) } else { VariableScalar::new_continuous(&nm) }, s));
            !c.done()
        });
        histories(1, l, &mut Vec::new(), &mut |s| {
            c.case(|| format!("constraint tagged {:?}, relation {}: {:?}", nm, int, s), |c| history(c, 1, &|_| if int { base[0].leq_and_tag(2., &nm) } else { base[1].equal_and_tag(&base[0], &nm) }, s));
            !c.done()
        });
    } } }
    for a in [Make::Long(false), Make::Long(true), Make::NoName(false), Make::NoName(true)] { for b in [Make::Long(false), Make::Long(true), Make::NoName(true), Make::Var(false), Make::Var(true), Make::Const(1.)] { for l in 2..=len - 1 {
        histories(2, l, &mut Vec::new(), &mut |s| {
            c.case(|| format!("expressions {:?} {:?}: {:?}", a, b, s), |c| history(c, 2, &|m| mk([a, b][m], &base), s));
            !c.done()
        });
        if c.done() { return; }
    } } }
    c.section("long histories of one kind");
    for m in [Make::Var(false), Make::Const(1.), Make::Add] {
        histories(1, len + 1, &mut Vec::new(), &mut |s| { c.case(|| format!("expression {:?}: {:?}", m, s), |c| history(c, 1, &|_| mk(m, &base), s)); !c.done() });
    }
    histories(1, len + 1, &mut Vec::new(), &mut |s| { c.case(|| format!("constraint: {:?}", s), |c| history(c, 1, &|_| mkc(0, &base), s)); !c.done() });
    c.section("expressions whose variables all have one name");
    let same: Vec<Node> = (0..3).map(|_| VariableScalar::new_continuous("x")).collect();
    for len in 1..=3 {
        let sp = Space { nv: if len < 3 { 3 } else { c.pick(2, 3) }, consts: vec![], scalars: vec![2.], bin: BIN.to_vec(), un: vec![Op::Sin], len };
        programs(&sp, &mut |p| { c.case(|| format!("all named x: {}", p.show()), |c| expression(c, p, &same)); !c.done() });
    }
    for (f, n) in families() { if n > 14 { continue; } let p = family(f, n); c.case(|| format!("all named x: {} {}", f, n), |c| expression(c, &p, &same)); }
    c.section("expressions over integer and mixed variables of one long name");
    for pat in [0b111u32, 0b101, 0b010] {
        let same: Vec<Node> = (0..3).map(|i| if pat >> i & 1 == 1 { VariableScalar::new_integer(LONG) } else { VariableScalar::new_continuous(LONG) }).collect();
        for len in 1..=2 {
            let sp = Space { nv: 3, consts: vec![], scalars: vec![2.], bin: BIN.to_vec(), un: vec![Op::Sin], len };
            programs(&sp, &mut |p| { c.case(|| format!("long names, integer {:b}: {}", pat, p.show()), |c| expression(c, p, &same)); !c.done() });
        }
        for (f, n) in families() { if n > 14 { continue; } let p = family(f, n); c.case(|| format!("long names, integer {:b}: {} {}", pat, f, n), |c| expression(c, &p, &same)); }
    }
    c.section("models whose variables all have one name");
    let g = c05::grid(false);
    let short = ["v", "v", "v"];
    let long = [LONG; 3];
    let all: Vec<Con> = cons(c05::LIN, &c05::NAMES).into_iter().chain(cons(c05::NLIN, &c05::NAMES)).collect();
    let objs: Vec<Option<Obj>> = ["min x + 2*y", "max x*y", "min k - x"].iter().map(|o| obj(o, &c05::NAMES)).collect();
    let step = c.pick(5, 1);
    for (i, a) in all.iter().enumerate() { for (k, b) in all.iter().enumerate() {
        if (i + k) % step != 0 { continue; }
        for (q, nm) in [short, long].iter().enumerate() { for int in [[false; 3], [false, true, true], [true; 3]] {
            if (i / step + q) % 2 == 1 { continue; }
            let sp = Spec { names: nm.to_vec(), int: int.to_vec(), obj: objs[(i + k) % 3].clone(), cons: vec![a.clone(), b.clone()] };
            c.case(|| format!("all of one name: {}", sp.show()), |c| {
                let s = c05::equivalence(&sp, &g, true)?;
                c.step(s.feas + s.infeas);
                if sp.linear() { let mut q = sp.clone(); q.obj = obj("min x + 2*y + 4*k", &c05::NAMES); echo(&q)?; }
                c.trace();
                if s.feas > 0 && s.infeas > 0 { c.nontrivial(); }
                Ok(())
            });
            if c.done() { return; }
        } }
    } }
    c.section("every expression made twice");
    let twice = |c: &mut Ctx, what: String, a: Result<Vec<Node>, (usize, String)>, b: Result<Vec<Node>, (usize, String)>, base: &[Node]| {
        c.case(|| what.clone(), |c| {
            let (a, b) = match (a, b) { (Ok(a), Ok(b)) => (a, b), _ => return Ok(()) };
            let fun = |n: &Node| !matches!(n, Node::VariableScalar(_) | Node::ConstantScalar(_)) && !base.contains(n);
            let (p, q): (Vec<&Node>, Vec<&Node>) = (a.iter().filter(|n| fun(n)).collect(), b.iter().filter(|n| fun(n)).collect());
            let mut m: HashMap<Node, usize> = HashMap::new();
            for (i, n) in p.iter().enumerate() {
                let k = (*n).clone();
                ck!(k == **n && h64(&k) == h64(*n), "a clone of {} is another expression", n);
                let first = *m.entry(k).or_insert(i);
                ck!(*p[first] == **n, "{} is found as {}", n, p[first]);
            }
            for n in &q {
                ck!(!m.contains_key(*n), "{} is found although it was made separately", n);
                for o in &p { ck!(o != n && n != o, "{} and {} were made separately but are equal", o, n); c.step(1); }
                // as sides of constraints
                ck!(n.leq_and_tag(1., "t") != n.leq_and_tag(1., "t"), "two constraints are equal");
            }
            if !p.is_empty() { c.nontrivial(); }
            c.trace();
            c.state(hash_u64s(&[p.len() as u64, m.len() as u64]));
            Ok(())
        });
    };
    let own: Vec<Node> = (0..3).map(|i| VariableScalar::new_continuous(["x", "y", "z"][i])).collect();
    for len in 1..=3 {
        let sp = Space { nv: if len < 3 { 3 } else { 2 }, consts: vec![1.], scalars: vec![2.], bin: BIN.to_vec(), un: vec![Op::Sin, Op::Cos], len };
        programs(&sp, &mut |p| { twice(c, format!("twice: {}", p.show()), p.build(&own, &|_| 0), p.build(&own, &|_| 0), &own); !c.done() });
    }
    for (f, n) in families() { let p = family(f, n); twice(c, format!("twice: {} {}", f, n), p.build(&own, &|_| 0), p.build(&own, &|_| 0), &own); }
    for n in [2usize, 3, 4, 5, 8, 16, 17, 33, 100, 300] { for k in 0..crate::long::LONG_KINDS {
        twice(c, format!("twice: long sum {} of kind {}", n, k), Ok(vec![crate::long::long_affine(k, n, &own).0]), Ok(vec![crate::long::long_affine(k, n, &own).0]), &own);
    } }
    c.section("very many objects");
    for n in c.pick(vec![300usize, 5000, 70000], vec![300, 5000, 70000, 300000]) { for what in 0..5usize {
        c.case(|| format!("{} objects that look the same, kind {}", n, what), |c| {
            let mut some = 0usize;
            if what < 4 { some += many(n, &|i| match what { 0 => mk(Make::Var(i % 2 == 1), &base), 1 => mk(Make::Const(1.), &base), 2 => mk(Make::Add, &base), _ => mk(MAKES[3 + i % 5], &base) })?; }
            else { some += many(n, &|i| mkc(i % 4, &base))?; }
            c.step(some as u64);
            c.nontrivial();
            c.trace();
            c.state((n + what) as u64);
            Ok(())
        });
    } }
    c.section("constraints that look the same");
    let top = c.pick(4, 5);
    for len in 2..=top {
        sequences(8, len, &mut |s| {
            // four functions with two relations each, rotated
            let t: Vec<(usize, usize)> = s.iter().map(|q| (q / 2, [0, 1 + (q / 2) % 2][q % 2])).collect();
            for names in [["x", "y", "k"], ["v", "v", "v"]] {
                c.case(|| format!("constraints {:?} named {:?}", t, names), |c| repeated(c, &t, names));
            }
            !c.done()
        });
    }
}
