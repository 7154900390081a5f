//! C16: constraints say what was compared and measure violation correctly.

use crate::ck;
use crate::expr::*;
use crate::fw::*;
use crate::model::*;
use numopt::model::constraint::ConstraintKind;
use numopt::model::*;
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C16", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one left side, relation, right side, overload and tag; the accessors are compared with what was compared, and the violation with that of the two sides at every assignment of the grid of special and ordinary values and absent variables; non-trivial: the case has an assignment where the relation fails and one where it holds",
        assumptions: &["assignments at which the difference of the sides is infinity minus infinity are not compared"],
    }
}

const NUMS: &[f64] = &[0., -0., 1., -1., 2.5, -1e-3, 1e308, -1e308, 5e-324, -5e-324, 1e-300, 12345.6789012345, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE];
const EXPRS: &[&str] = &["x", "y", "{0}", "{1}", "{-2.5}", "{1e308}", "-x", "x + y", "x + 1", "2*x", "x*y", "x - y", "x/y", "1 - x", "sin(x)", "cos(y)", "y + x", "3 + 4*x - y", "x*x", "(x + y)*2", "sin(x*y)"];
const VALS: &[Option<f64>] = &[None, Some(0.), Some(-0.), Some(1.), Some(-1.), Some(0.5), Some(5e-324), Some(1e308), Some(-1e308), Some(f64::INFINITY), Some(f64::NEG_INFINITY), Some(f64::NAN)];
const TAGS: &[&str] = &["", "a", "two words", "\u{e9}\n{}", " a", "a ", "\t", "A", "a\0b", "row[1]", "_c", "e\u{301}", LONG];
const LONG: &str = "a label of more than a hundred characters, a label of more than a hundred characters, a label of more than a hundred characters, and a last one";

#[derive(Clone)]
enum Side { N(f64), E(Node, T) }

fn name(s: &Side) -> String { match s { Side::N(c) => format!("{:?}", c), Side::E(n, _) => format!("[{}]", n) } }

#[derive(Clone, Copy, PartialEq)]
enum Mode { Val, Ref, New }

fn make(l: &Side, rel: Rel, r: &Side, mode: Mode, tag: Option<&str>) -> Option<Constraint> {
    macro_rules! go { ($a:expr, $b:expr) => { match tag {
        Some(t) => match rel { Rel::Eq => $a.equal_and_tag($b, t), Rel::Le => $a.leq_and_tag($b, t), Rel::Ge => $a.geq_and_tag($b, t) },
        None => match rel { Rel::Eq => $a.equal($b), Rel::Le => $a.leq($b), Rel::Ge => $a.geq($b) },
    } } }
    Some(match (l, r, mode) {
        (Side::E(a, _), Side::E(b, _), Mode::New) => Constraint::new(a.clone(), match rel {
            Rel::Eq => ConstraintKind::Equal, Rel::Le => ConstraintKind::LessEqual, Rel::Ge => ConstraintKind::GreaterEqual }, b.clone(), tag?),
        (_, _, Mode::New) => return None,
        (Side::E(a, _), Side::E(b, _), Mode::Ref) => go!(a, b),
        (Side::E(a, _), Side::E(b, _), Mode::Val) => go!(a, b.clone()),
        (Side::N(a), Side::E(b, _), Mode::Ref) => go!(a, b),
        (Side::N(a), Side::E(b, _), Mode::Val) => go!(a, b.clone()),
        (Side::E(a, _), Side::N(b), Mode::Val) => go!(a, *b),
        _ => return None,
    })
}

fn same(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }

fn value(s: &Side, m: &HashMap<&Node, f64>) -> f64 { match s { Side::N(c) => *c, Side::E(n, _) => n.evaluate(m) } }

fn check(c: &mut Ctx, l: &Side, rel: Rel, r: &Side, mode: Mode, tag: Option<&str>, pts: &[Vec<Option<f64>>], v: &[Node]) -> Res {
    let k = match make(l, rel, r, mode, tag) { Some(k) => k, None => return Ok(()) };
    let copy = k.clone();
    let (mut holds, mut fails) = (false, false);
    for (which, q) in [("constraint", &k), ("clone", &copy)] {
        ck!(*q.kind() == match rel { Rel::Eq => ConstraintKind::Equal, Rel::Le => ConstraintKind::LessEqual, Rel::Ge => ConstraintKind::GreaterEqual },
            "the {}'s kind is wrong", which);
        ck!(q.label() == tag.unwrap_or(""), "the {}'s label is {:?}", which, q.label());
        for pt in pts {
            let m: HashMap<&Node, f64> = v.iter().zip(pt.iter()).filter_map(|(n, x)| x.map(|x| (n, x))).collect();
            let (a, b) = (value(l, &m), value(r, &m));
            for (side, got, want, s) in [("left", q.lhs().evaluate(&m), a, l), ("right", q.rhs().evaluate(&m), b, r)] {
                ck!(same(got, want), "the {} side of the {} at {:?} is {:e} instead of {:e}", side, which, pt, got, want);
                if let Side::E(_, t) = s {
                    if pt.iter().all(|x| x.is_some()) {
                        let full: Vec<f64> = pt.iter().map(|x| x.unwrap()).collect();
                        let j = t.jet(&full);
                        ck!(!j.ok || close(got, j.v, j.mv), "the {} side at {:?} is {:e} instead of {:e}", side, pt, got, j.v);
                    } else {
                        let (used, _) = t.syntax();
                        let lost = (0..2).any(|i| used & (1 << i) != 0 && pt[i].is_none());
                        ck!(!lost || got.is_nan(), "the {} side has the value {:e} at {:?}", side, got, pt);
                    }
                }
            }
            c.step(1);
            let viol = q.violation(&m);
            if a.is_nan() || b.is_nan() { ck!(viol.is_nan(), "violation of {} at {:?} is {:e}, but a side is not a number", q, pt, viol); continue; }
            if (a - b).is_nan() { continue; }
            let want = match rel { Rel::Eq => (a - b).abs(), Rel::Le => if a <= b { 0. } else { a - b }, Rel::Ge => if a >= b { 0. } else { b - a } };
            let ok = if want == 0. || !want.is_finite() { viol == want } else { (viol - want).abs() <= 1e-12 * want && viol > 0. };
            ck!(ok, "violation of {} at {:?} with sides {:e} and {:e} is {:e} instead of {:e}", q, pt, a, b, viol, want);
            if want == 0. { holds = true } else { fails = true }
            c.state(hash_f64s(&[a, b, want]));
        }
    }
    if holds && fails { c.nontrivial(); }
    c.trace();
    Ok(())
}

fn run(c: &mut Ctx) {
    let v = vars(3);
    let names = ["x", "y"];
    let mut sides: Vec<Side> = NUMS.iter().map(|x| Side::N(*x)).collect();
    for e in EXPRS { let t = parse(e, &names).expect("pool"); sides.push(Side::E(t.node(&v[..2]), t)); }
    for x in NUMS { sides.push(Side::E(ConstantScalar::new(*x), T::K(*x))); }
    let mut pts = Vec::new();
    for a in VALS { for b in VALS { pts.push(vec![*a, *b]); } }
    c.section("pool of special numbers and expressions, all overloads and tags");
    for l in &sides { for r in &sides { for rel in RELS { for mode in [Mode::Val, Mode::Ref, Mode::New] {
        let mut tags: Vec<Option<&str>> = vec![None];
        tags.extend(TAGS.iter().map(|t| Some(*t)));
        for tag in tags {
            if make(l, rel, r, mode, tag).is_none() { continue; }
            c.case(|| format!("{} {} {} (overload {}) tag {:?}", name(l), rel.s(), name(r), mode as u8, tag), |c| check(c, l, rel, r, mode, tag, &pts, &v[..2]));
            if c.done() { return; }
        }
    } } } }
    c.section("tags of every length");
    let long: Vec<String> = { let mut o = Vec::new(); for l in (0..=c.pick(520usize, 2100)).chain([4095, 4096, 4097, 65535, 65536, 70000, 1 << 20]) { for ch in ["a", "\u{e9}", "\u{1f600}x", " "] { if ch != "a" && l > 300 && l % 5 != 1 { continue; } o.push(ch.chars().cycle().take(l).chain(['e']).collect::<String>()); } } o };
    for (i, t) in long.iter().enumerate() {
        let (l, r) = (&sides[(i * 7) % sides.len()], &sides[(i * 11 + NUMS.len()) % sides.len()]);
        for rel in RELS { for mode in [Mode::Val, Mode::Ref, Mode::New] {
            if make(l, rel, r, mode, Some(t)).is_none() { continue; }
            c.case(|| format!("{} {} {} (overload {}) with a tag of {} characters beginning with {:?}", name(l), rel.s(), name(r), mode as u8, t.chars().count(), t.chars().next()), |c| check(c, l, rel, r, mode, Some(t), &pts[..20], &v[..2]));
        } }
    }
    c.section("every pair of small expression programs");
    let sp = |len| Space { nv: 2, consts: vec![1.], scalars: vec![2.], bin: vec![Op::Add, Op::Sub, Op::Mul, Op::Div], un: vec![Op::Neg, Op::Sin], len };
    let mut pool: Vec<Prog> = Vec::new();
    for len in 1..=1 { programs(&sp(len), &mut |p| { pool.push(p.clone()); true }); }
    
    if c.thorough() { programs(&sp(2), &mut |p| { pool.push(p.clone()); true }); }
    let small: Vec<Vec<Option<f64>>> = PTS.iter().map(|p| p[..2].iter().map(|x| Some(*x)).collect()).collect();
    for (i, p) in pool.iter().enumerate() { for (k, q) in pool.iter().enumerate() {
        for rel in RELS {
            c.case(|| format!("({}) {} ({})", p.show(), rel.s(), q.show()), |c| {
                let (a, b) = match (p.build(&v[..2], &|_| 0), q.build(&v[..2], &|_| 0)) { (Ok(mut a), Ok(mut b)) => (a.pop().unwrap(), b.pop().unwrap()), _ => return Ok(()) };
                // the values themselves are C01's subject; here they are compared between the sides and the violation
                let z = T::K(f64::NAN);
                check(c, &Side::E(a, z.clone()), rel, &Side::E(b, z), Mode::Ref, Some("t"), &small, &v[..2])
            });
            if c.done() { return; }
        }
    } }
}
