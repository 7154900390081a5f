//! C17: printed expressions, constraints and models mean what they print.

use crate::{bad, ck};
use crate::expr::*;
use crate::fw::*;
use crate::model::*;
use crate::wide::*;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::*;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C17", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one expression program, constraint or model; the printed text is read back by an independent recursive-descent reader with the usual precedence and compared at every point with the reference value of what was built (for derivatives and Hessian entries: with the reference derivative); for models the lines must be the sense, the objective, and every constraint with its tag in order; non-trivial: the printed text has an operator",
        assumptions: &["names and tags without operator characters and line breaks; numbers that are not finite are not printed by this check"],
    }
}

fn reads(what: &str, text: &str, want: &dyn Fn(&[f64]) -> Option<(f64, f64)>, names: &[&str]) -> Result<u64, Fail> {
    let t = match parse(text, names) { Ok(t) => t, Err(e) => bad!("{} is printed as {:?}, which cannot be read: {}", what, text, e) };
    let mut n = 0;
    for pt in &PTS {
        let (w, m) = match want(pt) { Some(z) => z, None => continue };
        let (g, j) = (t.eval(pt), t.jet(pt));
        // the printed form may be less accurate where it divides by almost cancelling sums
        let tol = if j.ok { 1e-9 * (m + j.mv.min(1e3 * m)) } else { 1e-4 * m };
        ck!((g - w).abs() <= tol + 1e-280, "{} is printed as {:?}, which is {:e} at {:?} instead of {:e}", what, text, g, pt, w);
        n += 1;
    }
    Ok(n)
}

fn operators(text: &str) -> bool { text.contains(" + ") || text.contains('*') || text.contains('/') || text.contains('(') }

fn program(c: &mut Ctx, p: &Prog, v: &[Node], deriv: bool) -> Res {
    let n = match p.build(v, &|_| 0) { Ok(mut s) => s.pop().unwrap(), Err(_) => return Ok(()) };
    let jets: Vec<Jet> = PTS.iter().map(|pt| p.jet(pt)).collect();
    if !jets.iter().any(|j| j.ok) { return Ok(()); }
    let at = |pt: &[f64]| PTS.iter().position(|q| &q[..] == pt).unwrap();
    let text = format!("{}", n);
    let k = reads("the expression", &text, &|pt| { let j = &jets[at(pt)]; if j.ok { Some((j.v, j.mv)) } else { None } }, &VN)?;
    let dbg = format!("{:?}", n);
    if dbg != text { reads("the expression (debug form)", &dbg, &|pt| { let j = &jets[at(pt)]; if j.ok { Some((j.v, j.mv)) } else { None } }, &VN)?; }
    c.step(k);
    if deriv {
        for i in 0..p.nv {
            let d = format!("{}", n.derivative(&v[i]));
            let k = reads("the derivative", &d, &|pt| { let j = &jets[at(pt)]; if j.ok { Some((j.g[i], j.mg[i])) } else { None } }, &VN)?;
            c.step(k);
        }
        let comp = n.std_components();
        for (a, b, e) in comp.hphi.iter() {
            let (i, k) = match (v.iter().position(|x| x == a), v.iter().position(|x| x == b)) { (Some(i), Some(k)) => (i, k), _ => continue };
            let q = hix(i, k);
            let s = format!("{}", e);
            let k = reads("the second derivative", &s, &|pt| { let j = &jets[at(pt)]; if j.ok { Some((j.h[q], j.mh[q])) } else { None } }, &VN)?;
            c.step(k);
        }
    }
    c.state(hash_str(&text));
    if operators(&text) { c.nontrivial(); }
    c.trace();
    Ok(())
}

const NUMS: &[f64] = &[0., 1., -1., 0.1, -0.1, 1. / 3., 2.5e-10, 1e-20, 1e20, -1e20, 123456789.123456, 1e15, 1e16, 1e17, -0.30000000000000004, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 4503599627370497.5, 1e-7, 1e-5, 100., 1e6];

fn number(c: &mut Ctx, x: f64, v: &[Node]) -> Res {
    let exact = |what: &str, text: &str, a: f64, b: f64| -> Res {
        // value a + b*x_0 at x_0 = 0 and x_0 = 1
        let t = match parse(text, &VN) { Ok(t) => t, Err(e) => bad!("{} is printed as {:?}, which cannot be read: {}", what, text, e) };
        for (x0, w) in [(0., a), (1., a + b)] {
            let g = t.eval(&[x0, 0., 0.]);
            ck!((g - w).abs() <= 1e-14 * w.abs(), "{} is printed as {:?}, which is {:e} instead of {:e}", what, text, g, w);
        }
        Ok(())
    };
    exact("the constant", &format!("{}", ConstantScalar::new(x)), x, 0.)?;
    exact("the product", &format!("{}", &v[0] * x), 0., x)?;
    exact("the product", &format!("{}", x * &v[0]), 0., x)?;
    exact("the sum", &format!("{}", &v[0] * 0.5 + x), x, 0.5)?;
    exact("the sum", &format!("{}", x - 0.5 * &v[0]), x, -0.5)?;
    if x.abs() < 1e300 && x.abs() > 1e-300 { exact("the quotient", &format!("{}", &v[0] / x), 0., 1. / x)?; }
    let k = v[0].leq(x);
    let s = format!("{}", k);
    let (l, r) = match s.split_once("<=") { Some(q) => q, None => bad!("a constraint is printed as {:?}", s) };
    exact("the left side", l.trim(), 0., 1.)?;
    exact("the right side", r.trim(), x, 0.)?;
    c.nontrivial();
    c.trace();
    Ok(())
}

/// Reads "l rel r" and compares both sides.
fn constraint_text(text: &str, k: &Con, names: &[&str]) -> Result<u64, Fail> {
    let found: Vec<&str> = ["==", "<=", ">="].iter().copied().filter(|r| text.contains(r)).collect();
    ck!(found.len() == 1 && found[0] == k.rel.s(), "the constraint {} is printed as {:?}", k.text, text);
    let (l, r) = text.split_once(found[0]).unwrap();
    let side = |t: &T, pt: &[f64]| { let j = t.jet(pt); if j.ok { Some((j.v, j.mv)) } else { None } };
    let a = reads("the left side", l.trim(), &|pt| side(&k.l, pt), names)?;
    let b = reads("the right side", r.trim(), &|pt| side(&k.r, pt), names)?;
    Ok(a + b)
}

const SIDES: &[&str] = &["x", "y", "0", "1.5", "-2", "{3}", "x + y", "x - y", "2*x", "x*y", "(x + y)*z", "x/(y + 2)", "1 - (x - (y - z))", "sin(x + y)*2", "x/(y*z)", "(x/y)/z", "x/(y/z)", "-(x + 1)", "cos(x)*sin(y) - 0.1"];

const OBJ: &[&str] = &["", "min x", "max x + 2*y", "min (x + 1)*(y - 2)", "max -(x*y)", "min {3}", "max sin(x)/(y + 3)"];
const MC: &[(&str, Rel, &str)] = &[
    ("x + y | 1", Rel::Eq, ""), ("x | 2.5", Rel::Le, "upper"), ("-1 | y", Rel::Le, "tag with words"), ("x*y | z", Rel::Ge, "q"),
    ("x | 2.5", Rel::Le, "upper"), ("z | x - y", Rel::Eq, "a : b"), ("sin(x) | 0", Rel::Ge, ""), ("x | 2.5", Rel::Ge, "lower"),
];

fn model(c: &mut Ctx, o: &str, seq: &[usize]) -> Res {
    let v = vars(3);
    let mut m = Model::new();
    let ob = obj(o, &VN);
    if let Some(q) = &ob { let f = q.f.node(&v); m.set_objective(if q.max { Objective::maximize(&f) } else { Objective::minimize(&f) }); }
    let ks: Vec<Con> = seq.iter().map(|i| con(MC[*i].0, MC[*i].1, &VN)).collect();
    for (k, i) in ks.iter().zip(seq.iter()) { m.add_constraint(&k.build(&v, MC[*i].2)); }
    let text = format!("{}", m);
    let lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let mut p = 0;
    let first = lines.first().copied().unwrap_or("").to_lowercase();
    let (want, senses) = match &ob { None => ("find", ["minimi", "maximi"]), Some(q) if q.max => ("maximi", ["minimi", "find"]), Some(_) => ("minimi", ["maximi", "find"]) };
    ck!(first.contains(want) && !senses.iter().any(|s| first.contains(s)), "the sense is printed as {:?}", first);
    p += 1;
    if let Some(q) = &ob {
        ck!(lines.len() > p, "the objective is missing in {:?}", text);
        let k = reads("the objective", lines[p], &|pt| { let j = q.f.jet(pt); if j.ok { Some((j.v, j.mv)) } else { None } }, &VN)?;
        c.step(k);
        p += 1;
    }
    if !ks.is_empty() {
        ck!(lines.len() > p && lines[p].to_lowercase().starts_with("subject to"), "no constraints part in {:?}", text);
        p += 1;
    }
    ck!(lines.len() == p + ks.len(), "{} lines for {} constraints in {:?}", lines.len() - p.min(lines.len()), ks.len(), text);
    for (n, (k, i)) in ks.iter().zip(seq.iter()).enumerate() {
        let l = lines[p + n];
        let (body, tag) = match l.split_once(" : ") { Some((b, t)) => (b, t), None => (l, "") };
        ck!(tag == MC[*i].2, "tag {:?} instead of {:?} in {:?}", tag, MC[*i].2, text);
        c.step(constraint_text(body, k, &VN)?);
    }
    c.state(hash_str(&text));
    c.nontrivial();
    c.trace();
    Ok(())
}

fn run(c: &mut Ctx) {
    let v = vars(3);
    c.section("numbers");
    for x in NUMS { c.case(|| format!("number {:e}", x), |c| number(c, *x, &v)); }
    c.section("constraints");
    for l in SIDES { for r in SIDES { for rel in RELS {
        if parse(l, &VN).unwrap().plain().is_some() && parse(r, &VN).unwrap().plain().is_some() { continue; }
        let k = con(&format!("{} | {}", l, r), rel, &VN);
        c.case(|| k.text.clone(), |c| {
            let q = k.build(&v, "tag");
            let n = constraint_text(&format!("{}", q), &k, &VN)?;
            let n2 = constraint_text(&format!("{:?}", q), &k, &VN)?;
            c.step(n + n2);
            c.nontrivial();
            c.trace();
            Ok(())
        });
    } } }
    c.section("models");
    let depth = c.pick(3, 4);
    for o in OBJ {
        for len in 0..=depth {
            let mut seq = vec![0usize; len];
            loop {
                c.case(|| format!("{:?} {:?}", o, seq), |c| model(c, o, &seq));
                if c.done() { return; }
                let mut i = len;
                loop { if i == 0 { break; } i -= 1; seq[i] += 1; if seq[i] < MC.len() { i = usize::MAX; break; } seq[i] = 0; }
                if i != usize::MAX { break; }
            }
        }
    }
    c.section("models of growing size");
    for len in (4..=c.pick(40usize, 120)).chain([64, 100, 101, 128]) { for st in [1usize, 3, 5] { for s in 0..2 {
        let seq: Vec<usize> = (0..len).map(|i| (s + i * st) % MC.len()).collect();
        let o = OBJ[(len + s) % OBJ.len()];
        c.case(|| format!("{:?}, {} constraints {} step {}", o, len, s, st), |c| model(c, o, &seq));
        if c.done() { return; }
    } } }
    for len in [150usize, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 999, 1000, 1001, 1025] { for st in [1usize, 3] {
        let seq: Vec<usize> = (0..len).map(|i| i * st % MC.len()).collect();
        c.case(|| format!("{} constraints, step {}", len, st), |c| model(c, OBJ[len % OBJ.len()], &seq));
        if c.done() { return; }
    } }
    c.section("deeply nested expressions");
    for k in 0..crate::long::DEEP_KINDS { for n in crate::long::deep_sizes(false, crate::long::many_paths(k)) {
        if c.done() { return; }
        c.case(|| format!("kind {} nested {} deep", k, n), |c| {
            let e = crate::long::deep(k, n, &v, &[0.; 2]).0;
            let q = reads("a deep expression", &e.to_string(), &|pt| { let w = crate::long::deep(k, n, &v, &pt[..2]).1; Some((w[0], 1. + w[0].abs())) }, &VN)?;
            c.step(q);
            c.nontrivial();
            c.trace();
            c.state(hash_u64s(&[n as u64, k as u64]));
            Ok(())
        });
    } }
    c.section("long tags and names");
    for k in 1..=c.pick(70usize, 300) {
        let tag: String = "constraint with a long tag ".chars().cycle().take(k).collect::<String>().trim().replace(' ', "_");
        let nm: String = "variable_name_".chars().cycle().take(k).collect();
        for rel in RELS { for (int, side) in [(false, false), (true, true)] {
            c.case(|| format!("tag {:?}, name {:?}, {}", tag, nm, rel.s()), |c| {
                let x = if int { VariableScalar::new_integer(&nm) } else { VariableScalar::new_continuous(&nm) };
                let y = if int { VariableScalar::new_continuous("q") } else { VariableScalar::new_integer("q") };
                let e = &x * 2. + &y;
                let q = match (rel, side) { (Rel::Eq, false) => e.equal_and_tag(1.5, &tag), (Rel::Le, false) => e.leq_and_tag(1.5, &tag), (Rel::Ge, false) => e.geq_and_tag(1.5, &tag),
                    (Rel::Eq, true) => e.equal_and_tag(&x, &tag), (Rel::Le, true) => e.leq_and_tag(&x, &tag), (Rel::Ge, true) => e.geq_and_tag(&x, &tag) };
                let names = [&nm[..], "q", "unused"];
                let want = con(&format!("2*{} + q | {}", nm, if side { &nm[..] } else { "1.5" }), rel, &names);
                c.step(constraint_text(&format!("{}", q), &want, &names)?);
                let mut m = Model::new();
                m.set_objective(Objective::maximize(&e));
                m.add_constraint(&q);
                let text = format!("{}", m);
                let l: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
                ck!(l.len() == 4, "{} lines in {:?}", l.len(), text);
                reads("the objective", l[1], &|pt| { let j = want.l.jet(pt); Some((j.v, j.mv)) }, &names)?;
                let (body, t) = match l[3].split_once(" : ") { Some(z) => z, None => (l[3], "") };
                ck!(t == tag, "tag {:?} instead of {:?} in {:?}", t, tag, text);
                c.step(constraint_text(body, &want, &names)?);
                c.nontrivial(); c.trace();
                Ok(())
            });
        } }
    }
    c.section("families of growing size");
    for (f, n) in families() { let p = family(f, n); c.case(|| format!("{} {}", f, n), |c| program(c, &p, &v, n <= 8)); if c.done() { return; } }
    c.section("expressions and models over many variables");
    for n in SIZES.iter().cloned().chain([65, 100, 130, 260]) { for k in KINDS {
        c.case(|| format!("{} over {} variables", k, n), |c| {
            let vs = wvars(n, false);
            let names: Vec<String> = vs.iter().map(|x| x.name().to_string()).collect();
            let nm: Vec<&str> = names.iter().map(|s| &s[..]).collect();
            let t = wide_expr(k, n).0;
            let e = t.node(&vs);
            let mut texts = vec![(format!("{}", e), None), (format!("{:?}", e), None)];
            if n <= 65 { for i in [0, n / 2, n - 1] { texts.push((format!("{}", e.derivative(&vs[i])), Some(i))); } }
            for (text, by) in texts {
                let r = match parse(&text, &nm) { Ok(t) => t, Err(z) => bad!("the text cannot be read ({}): {}...", z, text.chars().take(300).collect::<String>()) };
                for x in wpoints(n) {
                    let (g, w) = (r.eval(&x), match by { None => t.eval(&x), Some(i) => dj(&t, &x).g[i] });
                    ck!(near(g, w, n), "derivative {:?}: the text reads as {:e}, it is {:e}", by, g, w);
                    c.step(1);
                }
            }
            c.nontrivial();
            c.trace();
            c.state(n as u64 ^ hash_str(k));
            Ok(())
        });
    } }
    for (n, m) in [(4usize, 3usize), (9, 9), (17, 12), (33, 40), (70, 100)] { for kind in 0..c.pick(3usize, 12) { for linear in [false, true] {
        let w = crate::widemodel::wide_model(kind, n, m, linear, [0, 2, 3][kind % 3]);
        c.case(|| w.show(), |c| {
            let b = w.build();
            let nm: Vec<&str> = w.names.iter().map(|s| &s[..]).collect();
            let text = format!("{}", b.model);
            let lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
            ck!(lines.len() == 3 + w.cons.len(), "{} lines for {} constraints", lines.len(), w.cons.len());
            ck!(lines[0].to_lowercase().contains(if w.max { "maximi" } else { "minimi" }), "the sense is printed as {:?}", lines[0]);
            let mut pairs: Vec<(&str, String, f64)> = vec![("the objective", lines[1].into(), 0.)];
            for (k, l) in lines[3..].iter().enumerate() {
                let body = l.split_once(" : ").map_or(*l, |q| q.0);
                match body.split_once(w.cons[k].1.s()) { Some((a, r)) => { pairs.push(("a left side", a.trim().into(), 0.)); pairs.push(("a right side", r.trim().into(), w.cons[k].2)); } None => bad!("constraint {} is printed as {:?}", k, body) }
            }
            let mut parsed = Vec::new();
            for (what, s, r) in &pairs { match parse(s, &nm) { Ok(t) => parsed.push((*what, t, *r)), Err(z) => bad!("{} is printed as {:?}, which cannot be read: {}", what, s, z) } }
            for x in wpoints(n) {
                let mut want = vec![w.obj.eval(&x)];
                for (t, _, r) in &w.cons { want.push(t.eval(&x)); want.push(*r); }
                for ((what, t, _), v) in parsed.iter().zip(want) { ck!(near(t.eval(&x), v, n), "{} reads as {:e}, it is {:e}", what, t.eval(&x), v); c.step(1); }
            }
            c.nontrivial();
            c.trace();
            c.state(hash_str(&text));
            Ok(())
        });
        if c.done() { return; }
    } } }
    c.section("every program of one and two instructions, with derivatives");
    for len in 1..=2 {
        let sp = Space { nv: 3, consts: vec![0., 1., -2.], scalars: vec![0., 1., -1., 2.5, -0.5], bin: BIN.to_vec(), un: UN.to_vec(), len };
        programs(&sp, &mut |p| { c.case(|| p.show(), |c| program(c, p, &v, true)); !c.done() });
    }
    c.section("every program of three instructions, with derivatives");
    let sp = if c.thorough() { Space { nv: 3, consts: vec![-2.], scalars: vec![-1., 2.5], bin: BIN.to_vec(), un: UN.to_vec(), len: 3 } }
        else { Space { nv: 2, consts: vec![-2.], scalars: vec![2.5], bin: BIN.to_vec(), un: vec![Op::Neg, Op::Sin], len: 3 } };
    programs(&sp, &mut |p| { c.case(|| p.show(), |c| program(c, p, &v, true)); !c.done() });
    c.section("nodes made by their constructors");
    for len in 1..=3 {
        raw_programs(&raw_space(len, c.thorough()), &mut |p| { c.case(|| p.show(), |c| program(c, p, &v, len < 3)); !c.done() });
    }
    c.section("every program of four arithmetic instructions");
    let sp = if c.thorough() { Space { nv: 2, consts: vec![], scalars: vec![-2.], bin: BIN.to_vec(), un: vec![Op::Neg], len: 4 } }
        else { Space { nv: 2, consts: vec![], scalars: vec![], bin: BIN.to_vec(), un: vec![], len: 4 } };
    programs(&sp, &mut |p| { c.case(|| p.show(), |c| program(c, p, &v, false)); !c.done() });
}
