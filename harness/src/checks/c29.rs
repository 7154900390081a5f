//! C29: what nodes and variables say about themselves.

use crate::ck;
use crate::expr::*;
use crate::fw::*;
use numopt::model::node_diff::NodeDiff;
use numopt::model::variable::VariableKind;
use numopt::model::*;
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C29", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one expression program (every node of it, and of its derivatives, is asked whether it is a constant and with which value) or one name with a kind; non-trivial: a node that is a constant and one that is not occur, or the name is not a plain word",
        assumptions: &["which nodes whose value does not change, but which have variables in them, count as constants is left open"],
    }
}

fn node(n: &Node, v: &[Node], must: Option<bool>) -> Result<bool, Fail> {
    let k = n.is_constant();
    if let Some(m) = must { ck!(k == m, "{} is {}said to be a constant", n, if k { "" } else { "not " }); }
    let none: HashMap<&Node, f64> = HashMap::new();
    let w = n.evaluate(&none);
    for pt in &PTS[..4] {
        let g = n.evaluate(&assign(v, pt));
        if k { ck!(g.to_bits() == w.to_bits() || g.is_nan() && w.is_nan(), "the constant {} is {:e} at {:?} and {:e} without values", n, g, pt, w); }
        if g.is_finite() { ck!(n.is_constant_with_value(g) == (k && g == w), "{} is {}said to be the constant {:e}", n, if k && g == w { "not " } else { "" }, g); }
    }
    for q in [0., -0., 1., -1., 2., 3., w + 1e-9, w - 1., -w, w * (1. + 4e-16), f64::INFINITY, f64::NAN] {
        ck!(n.is_constant_with_value(q) == (k && q == w), "{} is {}said to be the constant {:e}", n, if k && q == w { "not " } else { "" }, q);
    }
    match n { Node::VariableScalar(x) => ck!(n.name() == x.name() && !k, "variable {}", n), _ => ck!(n.name() == "", "{} has the name {:?}", n, n.name()) }
    Ok(k)
}

fn program(c: &mut Ctx, p: &Prog, v: &[Node]) -> Res {
    let s = match p.build(v, &|_| 0) { Ok(s) => s, Err(_) => return Ok(()) };
    let syn = p.syntax();
    let jets: Vec<Vec<Jet>> = PTS.iter().map(|pt| p.jets(pt)).collect();
    let (mut yes, mut no) = (0u64, 0u64);
    for (i, n) in s.iter().enumerate() {
        // a constant for certain: no variable in it; none for certain: the value changes
        let changes = jets.iter().any(|a| a[i].ok && jets.iter().any(|b| b[i].ok && (a[i].v - b[i].v).abs() > 1e-6 * (a[i].mv + b[i].mv) + 1e-200));
        let must = if changes { Some(false) } else if syn[i].0 == 0 && p.raw == 0 { Some(true) } else { None };
        if node(n, v, must)? { yes += 1 } else { no += 1 }
        c.step(16);
    }
    let n = s.last().unwrap();
    if jets.iter().any(|j| j.last().unwrap().ok) {
        for x in &v[..p.nv] { if node(&n.derivative(x), v, None)? { yes += 1 } else { no += 1 } c.step(16); }
    }
    if yes > 0 && no > 0 { c.nontrivial(); c.trace(); }
    c.state(hash_u64s(&[yes, no, p.hash()]));
    Ok(())
}

fn name(c: &mut Ctx, s: &str) -> Res {
    let all = [(VariableScalar::new_continuous(s), false), (VariableScalar::new_integer(s), true),
        (VariableScalar::new(s, VariableKind::VarContinuous), false), (VariableScalar::new(s, VariableKind::VarInteger), true)];
    for (n, int) in &all {
        for m in [n.clone(), n.clone().clone()] {
            match &m { Node::VariableScalar(x) => {
                ck!(x.name() == s && m.name() == s, "the name is {:?}", x.name());
                ck!(x.is_integer() == *int && x.is_continuous() != *int, "the kind is {}", if x.is_integer() { "integer" } else { "continuous" });
            }, _ => return Err("a variable is made that is none".into()) }
            ck!(format!("{}", m) == s && format!("{:?}", m) == s, "it is printed as {:?}", format!("{}", m));
            ck!(m == *n, "the copy is another variable");
            ck!(m.arguments().is_empty(), "a variable with arguments");
            node(&m, &[VariableScalar::new_continuous("x"), VariableScalar::new_continuous("y"), VariableScalar::new_continuous("z")], Some(false))?;
            for (q, _) in &all {
                let d = m.partial(q).evaluate(&HashMap::new());
                let w = if q == n { 1. } else { 0. };
                ck!(d == w && m.derivative(q).evaluate(&HashMap::new()) == w, "derivative by {} is {:e}", if q == n { "itself" } else { "another variable" }, d);
            }
            ck!(m.partial(&ConstantScalar::new(1.)).is_constant_with_value(0.), "derivative by a constant");
            c.step(8);
        }
    }
    for i in 0..4 { for k in 0..i { ck!(all[i].0 != all[k].0, "two variables are the same"); } }
    if !s.chars().all(|k| k.is_ascii_alphabetic()) { c.nontrivial(); }
    c.trace();
    c.state(hash_str(s));
    Ok(())
}

fn run(c: &mut Ctx) {
    let v = vars(3);
    c.section("constants");
    for x in [0., -0., 1., -1., 0.1, 1e-320, -1e300, 1. + f64::EPSILON, 1. - f64::EPSILON / 2., 123456789.123, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        c.case(|| format!("constant {:e}", x), |c| {
            for n in [ConstantScalar::new(x), ConstantScalar::new(x).clone()] {
                match &n { Node::ConstantScalar(k) => ck!(k.value().to_bits() == x.to_bits() || x.is_nan() && k.value().is_nan(), "the value is {:e}", k.value()), _ => return Err("no constant".into()) }
                node(&n, &v, Some(true))?;
                for q in [v[0].clone(), n.clone(), ConstantScalar::new(x)] { ck!(n.partial(&q).is_constant_with_value(0.), "derivative of a constant"); }
                ck!(n.arguments().is_empty(), "a constant with arguments");
                c.step(20);
            }
            ck!(ConstantScalar::zero().is_constant_with_value(0.), "zero");
            c.nontrivial(); c.trace(); c.state(x.to_bits());
            Ok(())
        });
    }
    c.section("names and kinds");
    let letters = ["a", "B", "0", "_", " ", "\t", "\n", "\0", "é", "変", "-", ":", "x y", "."];
    c.case(|| "empty name".to_string(), |c| name(c, ""));
    for len in 1..=c.pick(3usize, 4) {
        let mut ix = vec![0usize; len];
        loop {
            let s: String = ix.iter().map(|i| letters[*i]).collect();
            c.case(|| format!("name {:?}", s), |c| name(c, &s));
            let mut i = len;
            loop { if i == 0 { break; } i -= 1; ix[i] += 1; if ix[i] < letters.len() { i = usize::MAX; break; } ix[i] = 0; }
            if i != usize::MAX { break; }
        }
        if c.done() { return; }
    }
    for len in (4..=c.pick(300usize, 1100)).chain([4095, 4096, 65535, 65536, 70000]) {
        let s: String = "variable_name".chars().cycle().take(len).collect();
        c.case(|| format!("name of {} letters", len), |c| name(c, &s));
    }
    c.section("programs");
    let wide = [0., 1., -1., 2., -0.5, 1e-12, 1e9];
    for len in 1..=3 {
        let sp = match len {
            1 => Space { nv: 2, consts: wide.to_vec(), scalars: wide.to_vec(), bin: BIN.to_vec(), un: UN.to_vec(), len },
            2 => Space { nv: 1, consts: vec![0., 1., -2.], scalars: vec![0., 1., -1., 3., 1e-12], bin: BIN.to_vec(), un: UN.to_vec(), len },
            _ => Space { nv: 1, consts: vec![-2.], scalars: c.pick(vec![0., 1.], vec![0., 1., -1.]), bin: BIN.to_vec(), un: UN.to_vec(), len },
        };
        programs(&sp, &mut |p| { c.case(|| p.show(), |c| program(c, p, &v)); !c.done() });
        raw_programs(&raw_space(len, c.thorough()), &mut |p| { c.case(|| p.show(), |c| program(c, p, &v)); !c.done() });
    }
    for (f, n) in families() { let p = family(f, n); c.case(|| format!("{} {}", f, n), |c| program(c, &p, &v)); }
}
