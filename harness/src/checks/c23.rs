//! C23: nothing observable depends on hash iteration order.

use crate::checks::c05;
use crate::checks::c07::Mock;
use crate::fw::*;
use crate::model::*;
use crate::widemodel::{print, wide_model};
use crate::{bad, ck};
use numopt::model::model_std::ModelStd;
use numopt::model::*;
use numopt::solver::base::{Solver, SolverParam};
use numopt::solver::{SolverCbcCmd, SolverClpCmd};
use std::collections::BTreeSet;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C23", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one model; it is built, transformed, evaluated and solved under one hash seed after the other until the hash maps of the library have been seen to iterate over the variables in every order (and at least the stated number of seeds), and everything observable is compared with that under the first seed; non-trivial: at least two iteration orders were seen",
        assumptions: &["numbers are compared to 1e-12 relative accuracy, matrices as matrices", "at most 400 seeds per model; the models for which not every order was seen within them are counted in the evidence"],
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Print { text: Vec<String>, nums: Vec<f64> }

/// All that is observable; positions instead of objects.
fn observe(names: &[&'static str], int: &[bool], o: &Option<Obj>, cs: &[Con], twice: &[usize], init: bool, real: Option<usize>) -> Result<(Print, u64), Fail> {
    let vars: Vec<Node> = names.iter().zip(int.iter()).map(|(n, i)| if *i { VariableScalar::new_integer(n) } else { VariableScalar::new_continuous(n) }).collect();
    let mut m = Model::new();
    if let Some(q) = o { let f = q.f.node(&vars); m.set_objective(if q.max { Objective::maximize(&f) } else { Objective::minimize(&f) }); }
    let cons: Vec<Constraint> = cs.iter().map(|k| k.build(&vars, "")).collect();
    for k in &cons { m.add_constraint(k); }
    for k in twice { m.add_constraint(&cons[*k]); }
    if init { let h = vars.iter().enumerate().map(|(i, v)| (v, 0.5 + i as f64)).collect(); m.set_init_primals(&h); }
    let mut text: Vec<String> = Vec::new();
    let mut nums: Vec<f64> = Vec::new();
    // the orders in which maps iterated
    let comp = m.std_components();
    let mut ord: Vec<u64> = Vec::new();
    for (v, _) in comp.obj.prop.a.iter() { ord.push(vars.iter().position(|x| x == v).map(|i| i as u64).unwrap_or(99)); }
    let order = hash_u64s(&ord);
    drop(comp);
    let mut sd = m.std_problem_checked()?;
    let st = std_of(&mut sd.prob)?;
    text.push(format!("class {:?}, {} variables, {} linear and {} nonlinear rows, integer {:?}", st.class, st.n, st.b.len(), st.nf, st.p));
    let mut at: Vec<(usize, usize)> = Vec::new();
    for (v, i) in sd.var2index.iter() { if let Some(k) = vars.iter().position(|x| x == v) { at.push((*i, k)); } }
    at.sort();
    text.push(format!("variables {:?}", at.iter().map(|(i, k)| (*i, names[*k])).collect::<Vec<_>>()));
    for (what, map) in [("rows", &sd.aindex2constr), ("nonlinear rows", &sd.jindex2constr), ("upper limits", &sd.uindex2constr), ("lower limits", &sd.lindex2constr)] {
        let mut q: Vec<(usize, Option<usize>)> = map.iter().map(|(i, k)| (*i, index_of(&cons, k))).collect();
        q.sort();
        text.push(format!("{} {:?}", what, q));
    }
    for r in &st.a { nums.extend(r); }
    nums.extend(&st.b);
    nums.extend(&st.l);
    nums.extend(&st.u);
    if let Some(c) = &st.c { nums.extend(c); }
    if let Some(x) = &st.x0 { nums.extend(x); }
    for k in 0..2 {
        let x: Vec<f64> = (0..st.n).map(|i| 0.375 + 0.25 * i as f64 - k as f64 * 0.8).collect();
        let _ = evaluate(&mut sd.prob, &x);
        let nu: Vec<f64> = (0..st.nf).map(|i| 1. + i as f64).collect();
        let v = combine(&mut sd.prob, &nu);
        nums.push(v.phi);
        nums.extend(&v.gphi);
        nums.extend(&v.f);
        for mat in [&v.hphi, &v.j, &v.hcomb].into_iter().chain(v.h.iter()) { for r in dense(mat)? { nums.extend(r); } }
    }
    let report = |m: &Model, text: &mut Vec<String>, nums: &mut Vec<f64>| {
        let (p, d) = (m.final_primals(), m.final_duals());
        text.push(format!("{:?}: {} values, {} multipliers, present {:?} {:?}", m.solver_status(), p.len(), d.len(),
            vars.iter().map(|v| p.contains_key(v)).collect::<Vec<_>>(), cons.iter().map(|k| d.contains_key(k)).collect::<Vec<_>>()));
        nums.extend(vars.iter().filter_map(|v| p.get(v)));
        nums.extend(cons.iter().filter_map(|k| d.get(k)));
    };
    if let Err(e) = m.solve(&Mock::new(0, 2)) { bad!("solve: {}", e); }
    report(&m, &mut text, &mut nums);
    if let Some(r) = real {
        let res = if r == 0 { let mut s = SolverClpCmd::new(); s.set_param("logLevel", SolverParam::IntParam(0)).ok(); m.solve(&s) } else { let mut s = SolverCbcCmd::new(); s.set_param("logLevel", SolverParam::IntParam(0)).ok(); m.solve(&s) };
        text.push(format!("real solver: {}", res.is_ok()));
        report(&m, &mut text, &mut nums);
    }
    Ok((Print { text, nums }, order))
}

const L1: &str = "the power that flows from the first bus of the first region of the network to the second bus of the second region of the network in hour 1 of day 1 of week 1";
const L2: &str = "the power that flows from the first bus of the first region of the network to the second bus of the second region of the network in hour 1 of day 1 of week 2";
const L3: &str = "the power that flows from the first bus of the first region of the network to the second bus of the second region of the network in hour 1 of day 1 of week 3";

fn differs(a: &Print, b: &Print) -> Option<String> {
    for (x, y) in a.text.iter().zip(b.text.iter()) { if x != y { return Some(format!("{} and {}", x, y)); } }
    if a.text.len() != b.text.len() || a.nums.len() != b.nums.len() { return Some("different sizes".into()); }
    for (i, (x, y)) in a.nums.iter().zip(b.nums.iter()).enumerate() {
        if !(x == y || x.is_nan() && y.is_nan() || x.is_finite() && y.is_finite() && (x - y).abs() <= 1e-12 * (1. + x.abs())) { return Some(format!("number {}: {:e} and {:e}", i, x, y)); }
    }
    None
}

fn check(c: &mut Ctx, names: &[&'static str], int: &[bool], o: &Option<Obj>, cs: &[Con], twice: &[usize], init: bool, least: u64, real: Option<usize>) -> Res {
    let n = o.as_ref().map(|q| (0..names.len()).filter(|i| q.f.syntax().0 & (1 << i) != 0).count()).unwrap_or(0);
    let want: usize = (1..=n).product::<usize>().max(1);
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut first: Option<Print> = None;
    let mut s = 0;
    while s < least || seen.len() < want && s < 400 {
        let (p, q) = with_seed(s, || observe(names, int, o, cs, twice, init, real))?;
        seen.insert(q);
        match &first { None => first = Some(p), Some(f) => if let Some(d) = differs(f, &p) { bad!("seeds 0 and {} give different results: {}", s, d); } }
        s += 1;
        c.step(1);
    }
    if seen.len() < want { c.note("orders_not_all_seen", 1); }
    c.note("seeds", s);
    let f = first.unwrap();
    c.state(hash_f64s(&f.nums) ^ hash_str(&f.text.concat()));
    if seen.len() > 1 { c.nontrivial(); }
    c.trace();
    Ok(())
}

fn run(c: &mut Ctx) {
    let n3 = c05::NAMES;
    let all: Vec<Con> = cons(c05::LIN, &n3).into_iter().chain(cons(c05::NLIN, &n3)).collect();
    let objs: Vec<Option<Obj>> = ["", "min x + 2*y - k", "max x*y + k", "min sin(x)*y + k*k", "max 3*y - x"].iter().map(|t| obj(t, &n3)).collect();
    let least = c.pick(6, 12);
    c.section("pairs of constraints on three variables");
    let step = c.pick(9, 1);
    for (i, a) in all.iter().enumerate() { for (k, b) in all.iter().enumerate() {
        if (i + k) % step != 0 { continue; }
        let o = &objs[(i + 2 * k) % 5];
        let int = [false, false, i % 2 == 0];
        let cs = [a.clone(), b.clone()];
        c.case(|| format!("{} s.t. {}, {}", o.as_ref().map(|o| o.text.clone()).unwrap_or_default(), a.text, b.text), |c| check(c, &n3, &int, o, &cs, &[], k % 3 == 0, least, None));
        if c.done() { return; }
    } }
    c.section("ties and repetitions");
    let pool = cons(&["x | 2", "2 | x", "2*x | 4", "x | 2 + {0}", "-x | -2", "x + y | 1", "x*y | 1", "k | 3", "x*x | y"], &n3);
    for (i, a) in pool.iter().enumerate() { for b in pool.iter() { for t in 0..4usize {
        let o = &objs[1 + (i + t) % 4];
        let cs = [a.clone(), b.clone(), pool[(i * 7 + t) % pool.len()].clone()];
        let tw: &[usize] = [&[][..], &[0][..], &[1, 0][..], &[2, 2, 1][..]][t];
        c.case(|| format!("{} s.t. {}, {}, {}, again {:?}", o.as_ref().unwrap().text, a.text, b.text, cs[2].text, tw), |c| check(c, &n3, &[false; 3], o, &cs, tw, true, least, None));
        if c.done() { return; }
    } } }
    c.section("names that are nearly the same");
    let near: [[&'static str; 3]; 19] = [["abcdefgz", "abcdefgy", "abcdefgx"], ["12345678a", "12345678b", "12345678A"], ["flow_in_branch_010_to_3", "flow_in_branch_010_to_2", "flow_in_branch_010_to_1"], ["abcdefghijklmnopqrstuvwxyz012345_3", "abcdefghijklmnopqrstuvwxyz012345_2", "abcdefghijklmnopqrstuvwxyz012345_1"], [L3, L2, L1], ["za", "ya", "xa"], ["generation_of_unit_1_b", "generation_of_unit_1_a", "generation_of_unit_1_"], ["a.1", "a-1", "a_1"], ["b\u{e9}", "b\u{e8}", "b\u{ea}"],
        ["x", "X", "y"], ["Y", "y", "z"], ["ab", "aB", "Ab"], ["x", "x ", " x"], ["x1", "x01", "x001"], ["x_", "x", "x__"], ["x10", "x9", "x1"], ["", "a", "A"], ["item_number_1_a", "item_number_1_b", "item_number_1_c"], ["\u{e4}", "a", "\u{e4}b"]];
    for (q, nm) in near.iter().enumerate() { for (i, a) in all.iter().enumerate() {
        if i % c.pick(8, 1) != q % c.pick(8, 1) { continue; }
        let b = &all[(i * 13 + q) % all.len()];
        let o = &objs[1 + (i + q) % 4];
        let cs = [a.clone(), b.clone()];
        for int in [[false; 3], [true; 3]] {
            c.case(|| format!("{} s.t. {}, {} with names {:?} integer {}", o.as_ref().unwrap().text, a.text, b.text, nm, int[0]), |c| check(c, nm, &int, o, &cs, &[], true, least.max(10), None));
            if c.done() { return; }
        }
    } }
    c.section("four and five variables, every permutation of the names");
    let base = ["a", "b", "c", "d", "e"];
    let texts = [("min a + 2*b - c + d", vec!["a + b + c + d | 1", "d - a | 2", "b | 1", "c*d | 2"]),
        ("max a*b + c*d", vec!["a + d | 1", "b*c*d | 2", "a | 3", "-d | 1"]),
        ("min (a + b)*(c - d) + sin(a*d)", vec!["a*a + b*b + c*c + d*d | 4", "a | b", "c | 0.5"]),
        ("max a + b + c + d + e", vec!["a + b + c | 1", "c + d + e | 2", "e | 3", "a | -1", "b*e | 2"])];
    for (q, (ot, ct)) in texts.iter().enumerate() {
        let nv = if q == 3 { 5 } else { 4 };
        let o = obj(ot, &base);
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..nv { perms = perms.into_iter().flat_map(|p| (0..nv).filter(|i| !p.contains(i)).map(|i| { let mut r = p.clone(); r.push(i); r }).collect::<Vec<_>>()).collect(); }
        for (pi, p) in perms.iter().enumerate() {
            if nv == 5 && pi % c.pick(6, 1) != 0 { continue; }
            let names: Vec<&'static str> = p.iter().map(|i| base[*i]).collect();
            let cs: Vec<Con> = ct.iter().enumerate().map(|(i, t)| con(t, RELS[(i + pi) % 3], &base)).collect();
            let int: Vec<bool> = (0..nv).map(|i| (i + pi) % 3 == 0).collect();
            c.case(|| format!("model {} with names {:?}", q, names), |c| check(c, &names, &int, &o, &cs, &[0], true, c.pick(24, 100), None));
            if c.done() { return; }
        }
    }
    c.section("models of many variables and constraints");
    for (n, m) in [(6usize, 3usize), (8, 4), (9, 9), (12, 2), (17, 5), (20, 20), (33, 6), (40, 3), (70, 4), (105, 2), (140, 2)].iter().cloned().chain(if c.thorough() { vec![(130, 8), (260, 4), (40, 40)] } else { vec![] }) { for kind in 0..6 { for linear in [true, false] { for ints in [0usize, 3] { for naming in 0..3 {
        if c.done() { return; }
        let mut w = wide_model(kind, n, m, linear, ints);
        if naming > 0 { w.names = (0..n).map(|i| { let k = (i * 37 + 11) % n.next_power_of_two().max(n); if naming == 1 { format!("flow_from_node_{:04}_to_node_{}", k / 7, i) } else { format!("{}_{}", "zyxwvutsrq".chars().nth(i % 10).unwrap(), n - i) } }).collect(); }
        c.case(|| format!("kind {}, {}, names like {}", kind, w.show(), w.names[n / 2]), |c| {
            let mut seen = BTreeSet::new();
            let mut first: Option<Print> = None;
            for s in 0..c.pick(6, 20) {
                let (text, nums, q) = with_seed(s, || print(&w))?;
                seen.insert(q);
                let p = Print { text, nums };
                match &first { None => first = Some(p), Some(f) => if let Some(d) = differs(f, &p) { bad!("seeds 0 and {} give different results: {}", s, d.chars().take(600).collect::<String>()); } }
                c.step(1);
            }
            let f = first.unwrap();
            c.state(hash_f64s(&f.nums) ^ hash_str(&f.text.concat()));
            if seen.len() > 1 { c.nontrivial(); }
            c.trace();
            Ok(())
        });
    } } } } }
    c.section("installed solvers, models with many optima");
    let lin = [("min x + y", vec![("x + y", 1., Rel::Ge), ("x", 2., Rel::Le), ("y", 2., Rel::Le), ("x", -1., Rel::Ge)]),
        ("max x + y + k", vec![("x + y + k", 3., Rel::Le), ("x", 0., Rel::Ge), ("y", 0., Rel::Ge), ("k", 0., Rel::Ge), ("x - y", 1., Rel::Le)]),
        ("min 0*x + y", vec![("x + k", 1., Rel::Eq), ("y", 0., Rel::Ge), ("x", 5., Rel::Le), ("k", 5., Rel::Le), ("x + y", -5., Rel::Ge)]),
        ("max 2*x + 2*y", vec![("x + y", 2.5, Rel::Le), ("x - y", 0.5, Rel::Le), ("y", 2., Rel::Le), ("x", -3., Rel::Ge)]),
        ("min x - y", vec![("x - y", 0., Rel::Ge), ("x", 4., Rel::Le), ("y", -4., Rel::Ge), ("x + y + k", 2., Rel::Eq), ("k", 1., Rel::Le), ("k", -1., Rel::Ge)])];
    for (q, (ot, ct)) in lin.iter().enumerate() { for int in 0..4usize { for r in 0..2 { for tw in 0..2 {
        if int > 0 && r == 0 { continue; }
        let o = obj(ot, &n3);
        let cs: Vec<Con> = ct.iter().map(|(l, b, rel)| con(&format!("{} | {}", l, b), *rel, &n3)).collect();
        let iv = [int & 1 == 1, int & 2 == 2, int & 1 == 1];
        let t: &[usize] = if tw == 0 { &[] } else { &[0, 1] };
        c.case(|| format!("{} {} {:?} again {:?}", ["clp", "cbc"][r], ot, ct, t), |c| {
            // each shard works in its own directory
            let old = std::env::current_dir().map_err(|e| Fail::from(e.to_string()))?;
            std::env::set_current_dir(&c.scratch).map_err(|e| Fail::from(e.to_string()))?;
            let res = check(c, &n3, &iv, &o, &cs, t, false, c.pick(8, 40), Some(r));
            let _ = std::env::set_current_dir(&old);
            res
        });
        let _ = q;
        if c.done() { return; }
    } } } }
}
