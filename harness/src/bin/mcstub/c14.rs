//! C14: solver parameters, over all sequences of assignments to two solver objects.

use crate::stub;
use mcfw::fake::Fake;
use mcfw::fw::*;
use mcfw::{bad, ck};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::Problem;
use numopt::problem::lp::ProblemLp;
use numopt::solver::base::{Solver, SolverParam};
use numopt::solver::{SolverCbcCmd, SolverClpCmd, SolverIpopt};

pub fn def() -> CheckDef {
    CheckDef {
        id: "C14", kind: Kind::ModelChecking, run, hang_s: 120, shards: 0,
        rule: "a case is one solver type and one sequence of parameter assignments to two objects of that type; after every assignment all parameters of both are compared with a reference map, and where stated a solve shows that the values arrive at the solver; non-trivial: the sequence has an accepted assignment",
        assumptions: &["cbc, clp and the Ipopt library are replaced by stand-ins that record what they receive"],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum V { I(i32), F(u64), S(String) }
fn v(p: &SolverParam) -> V { match p { SolverParam::IntParam(i) => V::I(*i), SolverParam::FloatParam(f) => V::F(f.to_bits()), SolverParam::StrParam(s) => V::S(s.clone()) } }
fn mk(p: &V) -> SolverParam { match p { V::I(i) => SolverParam::IntParam(*i), V::F(f) => SolverParam::FloatParam(f64::from_bits(*f)), V::S(s) => SolverParam::StrParam(s.clone()) } }
type Ref = std::collections::BTreeMap<String, V>;

fn new(k: usize) -> Box<dyn Solver> { match k { 0 => Box::new(SolverCbcCmd::new()), 1 => Box::new(SolverClpCmd::new()), _ => Box::new(SolverIpopt::new()) } }
const SN: [&str; 3] = ["cbc", "clp", "ipopt"];
/// The documented parameters and their types.
fn known(k: usize) -> Ref {
    let mut r = Ref::new();
    if k < 2 { r.insert("logLevel".into(), V::I(0)); } else { r.insert("print_level".into(), V::I(0)); r.insert("sb".into(), V::S(String::new())); }
    r
}
fn read(s: &dyn Solver) -> Ref { s.get_params().iter().map(|(k, p)| (k.clone(), v(p))).collect() }

const NAMES: &[&str] = &["logLevel", "print_level", "sb", "loglevel", "", "sb ", "tol"];

fn compare(s: &dyn Solver, r: &Ref, which: usize) -> Res {
    let g = read(s);
    ck!(g == *r, "object {} has the parameters {:?} instead of {:?}", which, g, r);
    for n in NAMES {
        let q = s.get_param(n).map(v);
        ck!(q.as_ref() == r.get(*n), "object {}: {:?} reads {:?} instead of {:?}", which, n, q, r.get(*n));
    }
    Ok(())
}

fn prob() -> Problem { Problem::Lp(ProblemLp::new(vec![1., 2.], CooMat::new((1, 2), vec![0, 0], vec![0, 1], vec![1., 1.]), vec![1.], vec![0.; 2], vec![1.; 2], None)) }

fn effect(k: usize, s: &dyn Solver, r: &Ref, fake: &Fake) -> Res {
    if k < 2 {
        fake.clear();
        fake.plan("record\nsolve\nexit 0\n");
        let q = s.solve(&mut prob());
        ck!(q.is_ok(), "the solve fails: {:?}", q.err());
        let a = match fake.args() { Some(a) => a, None => bad!("the command was not called") };
        ck!(a[0] == SN[k], "{} was called", a[0]);
        let l = match r.get("logLevel") { Some(V::I(i)) => i.to_string(), _ => bad!("no log level") };
        let at = a.iter().position(|w| w.trim_start_matches('-').to_lowercase().starts_with("log"));
        ck!(at.and_then(|i| a.get(i + 1)) == Some(&l), "the command got {:?} instead of log level {}", a, l);
    } else {
        stub::reset();
        let q = s.solve(&mut prob());
        let (want_l, want_s) = match (r.get("print_level"), r.get("sb")) { (Some(V::I(i)), Some(V::S(t))) => (*i, t.clone()), _ => bad!("parameters {:?}", r) };
        if want_s.contains('\0') { ck!(q.is_err(), "an impossible value does not give an error"); return Ok(()); }
        ck!(q.is_ok(), "the solve fails: {:?}", q.err());
        stub::with(|st| {
            let p = &st.probs[0];
            ck!(p.ints.iter().filter(|o| o.0 == "print_level").last().map(|o| o.1) == Some(want_l), "Ipopt got {:?} instead of print_level {}", p.ints, want_l);
            ck!(p.strs.iter().filter(|o| o.0 == "sb").last().map(|o| o.1.clone()) == Some(want_s.clone()), "Ipopt got {:?} instead of sb {:?}", p.strs, want_s);
            Ok(())
        })?;
    }
    Ok(())
}

fn case(c: &mut Ctx, k: usize, seq: &[(usize, usize, usize)], vals: &[V], fx: bool, fake: &Fake) -> Res {
    let mut obj = [new(k), new(k)];
    let mut r = [read(&*obj[0]), read(&*obj[1])];
    ck!(r[0] == r[1], "two new objects differ");
    for (n, t) in known(k) { ck!(r[0].get(&n).map(|q| std::mem::discriminant(q) == std::mem::discriminant(&t)) == Some(true), "parameter {} is {:?}", n, r[0].get(&n)); }
    let mut acc = false;
    for (t, (o, n, x)) in seq.iter().enumerate() {
        let name = NAMES[*n];
        let val = &vals[*x];
        let ok = obj[*o].set_param(name, mk(val)).is_ok();
        let want = r[*o].get(name).map(|q| std::mem::discriminant(q) == std::mem::discriminant(val)).unwrap_or(false);
        ck!(ok == want, "assignment {} of {:?} to {:?} {}", t, val, name, if ok { "succeeds" } else { "fails" });
        if want { r[*o].insert(name.to_string(), val.clone()); acc = true; }
        for i in 0..2 { compare(&*obj[i], &r[i], i).map_err(|e| Fail::from(format!("after assignment {}: {}", t, e.msg)))?; }
        c.state(hash_str(&format!("{}{:?}", k, r)));
        c.step(1);
    }
    if fx {
        for i in 0..2 { effect(k, &*obj[i], &r[i], fake).map_err(|e| Fail::from(format!("solve with object {}: {}", i, e.msg)))?; }
        for i in 0..2 { compare(&*obj[i], &r[i], i).map_err(|e| Fail::from(format!("after the solves: {}", e.msg)))?; }
    }
    let again = read(&*new(k));
    let base = BASE.with(|b| { let mut b = b.borrow_mut(); b[k].get_or_insert_with(|| again.clone()).clone() });
    ck!(again == base, "a new object has {:?}, an earlier one had {:?}", again, base);
    c.trace();
    if acc { c.nontrivial(); }
    Ok(())
}
thread_local! { static BASE: std::cell::RefCell<[Option<Ref>; 3]> = std::cell::RefCell::new([None, None, None]); }

fn run(c: &mut Ctx) {
    let fake = Fake::new(&c.scratch.join("bin"));
    let cwd = c.scratch.join("cwd");
    std::fs::create_dir_all(&cwd).expect("cwd");
    std::env::set_current_dir(&cwd).expect("cwd");
    std::env::set_var("TMPDIR", &cwd);
    let vals = [V::I(0), V::I(7), V::F(0.5f64.to_bits()), V::S("yes".into())];
    let wide = [V::I(0), V::I(1), V::I(-1), V::I(i32::MAX), V::I(i32::MIN), V::I(12), V::F(0f64.to_bits()), V::F(f64::NAN.to_bits()), V::F(7f64.to_bits()), V::S("".into()), V::S("0".into()), V::S("yes".into()), V::S("a b\n".into()), V::S("ü".into()), V::S("y\0".into())];
    let ops = |names: usize, nv: usize| -> Vec<(usize, usize, usize)> {
        let mut o = Vec::new();
        for b in 0..2 { for n in 0..names { for v in 0..nv { o.push((b, n, v)); } } }
        o
    };
    let mut go = |c: &mut Ctx, k: usize, s: &[(usize, usize, usize)], vals: &[V], fx: bool| -> bool {
        c.case(|| format!("{}: {:?}", SN[k], s.iter().map(|(o, n, x)| (o, NAMES[*n], &vals[*x])).collect::<Vec<_>>()), |c| case(c, k, s, vals, fx, &fake));
        !c.done()
    };
    c.section("single assignments of all values, with solves");
    for k in 0..3 { for o in ops(NAMES.len(), wide.len()) { if !go(c, k, &[o], &wide, true) { return; } } }
    c.section("numbers and texts of every size, with solves");
    let mut ints: Vec<i32> = (-130..=c.pick(300, 1100)).collect();
    for k in 1..31 { for d in -1..=1 { ints.push((1i32 << k) + d); ints.push(-(1i32 << k) + d); } }
    let mut texts: Vec<String> = (1..=c.pick(300usize, 1030)).chain([4095, 4096, 4097, 65535, 65536, 70000]).flat_map(|n| [n, n + 1]).enumerate().map(|(i, n)| (0..n).map(|k| if i % 2 == 0 { 'y' } else { (b'a' + ((k * 7 + n) % 26) as u8) as char }).collect()).collect();
    for k in 1..0x250u32 { if let Some(z) = char::from_u32(k) { texts.push(z.to_string()); texts.push(format!("{}no", z)); texts.push(format!("no{}", z)); } }
    let (ni, all): (usize, Vec<V>) = (ints.len(), ints.into_iter().map(V::I).chain(texts.into_iter().map(V::S)).collect());
    for k in 0..3 { for x in 0..all.len() {
        let n = if x >= ni { 2 } else if k == 2 { 1 } else { 0 };
        if k < 2 && x >= ni && x % 50 != 0 { continue; }
        for s in [vec![(0usize, n, x)], vec![(1, n, (x + 1) % all.len()), (0, n, x)]] {
            if k < 2 && s.len() == 2 && x % 7 != 0 { continue; }
            c.case(|| format!("{}: {} to {}", SN[k], NAMES[n], format!("{:?}", all[x]).chars().take(80).collect::<String>()), |c| case(c, k, &s, &all, true, &fake));
        }
        if c.done() { return; }
    } }
    c.section("sequences, with solves");
    for k in 0..3 { let os = ops(4, 4); for a in &os { for b in &os { if !go(c, k, &[*a, *b], &vals, k == 2 || a.1 == 0 || b.1 == 0) { return; } } } }
    c.section("sequences");
    for k in 0..3 { let os = ops(NAMES.len(), 4); for a in &os { for b in &os { for d in &os { if !go(c, k, &[*a, *b, *d], &vals, false) { return; } } } } }
    for k in 0..3 { let os = ops(3, 4); for a in &os { for b in &os { for d in &os { for e in &os { if !go(c, k, &[*a, *b, *d, *e], &vals, false) { return; } } } } } }
    if c.thorough() {
        let os: Vec<_> = ops(4, 4).into_iter().filter(|o| o.1 != 3 || o.2 == 0).collect();
        for k in 0..3 { for a in &os { for b in &os { for d in &os { for e in &os { if !go(c, k, &[*a, *b, *d, *e], &vals, k == 2) { return; } } } } } }
        for k in 0..3 { let os = ops(3, 3); for a in &os { for b in &os { for d in &os { for e in &os { for f in &os { if !go(c, k, &[*a, *b, *d, *e, *f], &vals[1..], false) { return; } } } } } } }
    }
}
