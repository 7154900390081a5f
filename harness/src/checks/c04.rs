//! C04: affine recognition.

use crate::ck;
use crate::expr::*;
use crate::fw::*;
use crate::wide::*;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::*;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C04", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one expression program; a claimed affine form is compared with the reference value at every point, linear-by-construction programs must be claimed affine, and the variable set is compared with those that matter and those used; non-trivial: affine and depending on a variable",
        assumptions: &["points where the value is undefined or loses more than six digits are not compared", "relative tolerance 1e-9 of the sum of magnitudes"],
    }
}

/// Coefficients near one, near zero and far from both.
const ODD: &[f64] = &[1.025, 0.98, 1.000001, 1.0000000001, -0.999999, 1e-3, 1e-6, -1e-8, 1e-10, 1e-12, 1e-13, 1e-16, -1e-30, 1e-100, 1e6, 1e12, 1e20, -1e100];

fn judge(c: &mut Ctx, n: &Node, v: &[Node], jets: &[Jet], vars_used: u32, lin: bool) -> Res {
    let q = n.std_properties();
    if lin { ck!(q.affine, "linear by construction but not reported affine"); }
    let mut keys = 0u32;
    let mut co = [0.; 3];
    for (x, a) in q.a.iter() {
        let i = match v.iter().position(|y| y == x) { Some(i) => i, None => return Err(format!("unknown variable {}", x).into()) };
        ck!(keys & (1 << i) == 0, "{} reported twice", VN[i]);
        keys |= 1 << i;
        co[i] = *a;
    }
    ck!(keys & !vars_used == 0, "reports variables {:b}, only {:b} were used", keys, vars_used);
    let mut dep = 0u32;
    for j in jets.iter().filter(|j| j.ok) {
        for i in 0..3 { if j.g[i].abs() > 1e-6 * j.mg[i] { dep |= 1 << i; } }
    }
    ck!(dep & !keys == 0, "value depends on variables {:b}, reports {:b}", dep, keys);
    if q.affine {
        for (pt, j) in PTS.iter().zip(jets.iter()) {
            if !j.ok { continue; }
            let s: f64 = (0..3).map(|i| if keys & (1 << i) != 0 { co[i] * pt[i] } else { 0. }).sum::<f64>() + q.b;
            ck!(close(s, j.v, j.mv), "affine form {:?} + {:e} gives {:e} at {:?}, value is {:e}", co, q.b, s, pt, j.v);
            for i in 0..3 {
                ck!(close(co[i], j.g[i], j.mg[i]), "coefficient of {} is {:e}, slope is {:e}", VN[i], co[i], j.g[i]);
            }
            c.step(4);
        }
        if dep != 0 { c.nontrivial(); }
        c.note("reported_affine", 1);
    }
    c.trace();
    c.state(hash_f64s(&[co[0], co[1], co[2], q.b, keys as f64, q.affine as u8 as f64]));
    Ok(())
}

pub fn check(c: &mut Ctx, p: &Prog, v: &[Node]) -> Res {
    let n = match p.build(v, &|_| 0) { Ok(mut s) => s.pop().unwrap(), Err(_) => return Ok(()) };
    let jets: Vec<Jet> = PTS.iter().map(|pt| p.jet(pt)).collect();
    if !jets.iter().any(|j| j.ok) { return Ok(()); }
    let (vs, lin) = *p.syntax().last().unwrap();
    judge(c, &n, v, &jets, vs, lin)
}

fn run(c: &mut Ctx) {
    let v = vars(3);
    let sp = |len: usize, nv: usize, consts: &[f64], scalars: &[f64], bin: &[Op], un: &[Op]| Space {
        nv, consts: consts.to_vec(), scalars: scalars.to_vec(), bin: bin.to_vec(), un: un.to_vec(), len };
    let wide = [0., 1., -1., 2., 3., -0.5, 1e-12, 1e9];
    c.section("programs of 1 and 2 operations");
    for len in 1..=2 {
        programs(&sp(len, 2, &[0., 1., 3.], &wide, &BIN, &UN), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v));
            !c.done()
        });
    }
    c.section("programs of 3 operations");
    let (cn, sc) = c.pick((vec![2.], vec![1., -1., 2.]), (vec![0., 1., 2.], vec![0., 1., -1., 2., -0.5]));
    programs(&sp(3, 2, &cn, &sc, &BIN, &UN), &mut |p| {
        c.case(|| p.show(), |c| check(c, p, &v));
        !c.done()
    });
    c.section("programs of 4 linear operations and products");
    let sc = c.pick(vec![2.], vec![-1., 2., 3.]);
    programs(&sp(4, 2, &[], &sc, &BIN, &[Op::Neg]), &mut |p| {
        c.case(|| p.show(), |c| check(c, p, &v));
        !c.done()
    });
    c.section("nodes made by their constructors");
    for len in 1..=3 {
        raw_programs(&raw_space(len, c.thorough()), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v));
            !c.done()
        });
    }
    c.section("growing families");
    for (f, n) in families() {
        let p = family(f, n);
        c.case(|| format!("family {} of size {}: {}", f, n, p.show()), |c| check(c, &p, &v));
    }
    c.section("families continued by one and two operations");
    let sc = [0., 1., -1., 2., -0.5];
    for (len, top) in [(1, 24), (2, c.pick(4, 10))] {
        tails(top, len, &sc, &mut |p, l| {
            c.case(|| format!("{}{}", l, p.show()), |c| check(c, p, &v));
            !c.done()
        });
    }
    c.section("variables that share a name, variables of both kinds");
    for (what, vs) in [("same-named", vars_same()), ("integer and continuous", vars_mixed())] {
        for len in 1..=3 {
            let (cn, sc): (&[f64], &[f64]) = if len < 3 { (&[1.], &[0., 1., -1., 3.]) } else { (&[], &[2.]) };
            programs(&sp(len, 2, cn, sc, &BIN, &UN), &mut |p| {
                c.case(|| format!("{} variables: {}", what, p.show()), |c| check(c, p, &vs));
                !c.done()
            });
        }
        for (f, n) in families() {
            let p = family(f, n);
            c.case(|| format!("{} variables: family {} of size {}: {}", what, f, n, p.show()), |c| check(c, &p, &vs));
        }
    }
    c.section("many variables");
    for n in SIZES.iter().cloned().chain([64, 65, 100, 130]) { for k in KINDS { for same in [false, true] {
        c.case(|| format!("{} over {} variables, same names {}", k, n, same), |c| {
            let (t, lin) = wide_expr(k, n);
            let vs = wvars(n, same);
            let e = t.node(&vs);
            let q = e.std_properties();
            ck!(!lin || q.affine, "linear by construction but not reported affine");
            let pos: std::collections::HashMap<&Node, usize> = vs.iter().enumerate().map(|(i, x)| (x, i)).collect();
            let mut co: Vec<Option<f64>> = vec![None; n];
            for (x, a) in q.a.iter() {
                match pos.get(x) { Some(i) => co[*i] = Some(*a), None => return Err(format!("unknown variable {}", x).into()) }
            }
            for (i, a) in co.iter().enumerate() { ck!(a.is_some() || k == &"differences squared" && n == 1, "variable {} is not listed", i); }
            for x in wpoints(n) {
                if n > 40 && !lin { break; }
                if q.affine {
                    let s: f64 = q.b + co.iter().zip(x.iter()).map(|(a, x)| a.unwrap_or(0.) * x).sum::<f64>();
                    let w = t.eval(&x);
                    ck!(near(s, w, n), "affine form gives {:e}, the value is {:e}", s, w);
                    let d = dj(&t, &x);
                    for i in 0..n { ck!(near(co[i].unwrap_or(0.), d.g[i], n), "coefficient {} is {:e} instead of {:e}", i, co[i].unwrap_or(0.), d.g[i]); }
                    c.nontrivial();
                }
                c.step(1);
            }
            c.trace();
            c.state(hash_u64s(&[n as u64, q.a.len() as u64, q.b.to_bits(), q.affine as u64]));
            Ok(())
        });
    } } }
    c.section("deeply nested expressions");
    for k in 0..crate::long::DEEP_KINDS { for n in crate::long::deep_sizes(c.thorough(), k == 4) {
        if c.done() { return; }
        c.case(|| format!("kind {} nested {} deep", k, n), |c| {
            let v = wvars(2, false);
            let (e, w) = crate::long::deep(k, n, &v, &[0.; 2]);
            let q = e.std_properties();
            if k < crate::long::DEEP_AFFINE {
                ck!(q.affine, "a linear expression is not affine");
                ck!((q.b - w[0]).abs() <= 1e-9 * (1. + w[0].abs()), "the constant is {:e} instead of {:e}", q.b, w[0]);
                for i in 0..2 { let a = q.a.get(&v[i]).cloned().unwrap_or(0.); ck!((a - w[i + 1]).abs() <= 1e-9 * (1. + w[i + 1].abs()), "coefficient {} is {:e} instead of {:e}", i, a, w[i + 1]); }
            } else {
                ck!(!q.affine, "a nonlinear expression is affine");
                ck!(q.a.contains_key(&v[0]), "variable x is missing");
                if k > 8 { ck!(q.a.contains_key(&v[1]), "variable y is missing"); }
            }
            for x in q.a.keys() { ck!(v.contains(x), "unknown variable {}", x); }
            c.step(1);
            c.nontrivial();
            c.trace();
            c.state(hash_u64s(&[n as u64, k as u64]));
            Ok(())
        });
    } }
    c.section("very long sums");
    for n in crate::long::long_sizes(c.thorough()) { for m in [1usize, 2, 3, 7, 60] { for k in 0..crate::long::LONG_KINDS {
        if c.done() { return; }
        c.case(|| format!("sum of kind {} of {} terms over {} variables", k, n, m), |c| {
            let v = wvars(m, false);
            let (e, a, b, mag) = crate::long::long_affine(k, n, &v);
            let q = e.std_properties();
            ck!(q.affine, "a long sum is not affine");
            ck!((q.b - b).abs() <= 1e-12 * (1. + mag), "the constant is {:e} instead of {:e}", q.b, b);
            for (i, x) in v.iter().enumerate() { ck!((q.a.get(x).cloned().unwrap_or(0.) - a[i]).abs() <= 1e-12 * (1. + mag), "coefficient {} is {:?} instead of {:e}", i, q.a.get(x), a[i]); }
            for x in q.a.keys() { ck!(v.contains(x), "unknown variable {}", x); }
            c.step(1);
            c.nontrivial();
            c.trace();
            c.state(hash_u64s(&[n as u64, m as u64, k as u64]));
            Ok(())
        });
    } } }
    // One coefficient of unusual size among ordinary ones, in sums of every length.
    c.section("coefficients of every size in sums of every length");
    for n in 1..=c.pick(16usize, 40) { for i in 0..n { for a in ODD { for shape in 0..if n > 1 { 4 } else { 3 } {
        c.case(|| format!("{} terms, coefficient {} is {:e}, shape {}", n, i, a, shape), |c| {
            let vs = wvars(n, shape == 3);
            let co: Vec<f64> = (0..n).map(|k| if k == i { *a } else { [1., -2., 3.][k % 3] }).collect();
            let ts: Vec<Node> = (0..n).map(|k| if shape == 1 && k == i { &vs[k] / (1. / co[k]) } else if k % 2 == 0 { &vs[k] * co[k] } else { co[k] * &vs[k] }).collect();
            let e = match shape {
                2 => ts.iter().rev().fold(ConstantScalar::new(0.5), |s, t| t + s),
                3 => numopt::model::function::add::FunctionAdd::new(ts.clone()),
                _ => ts.iter().skip(1).fold(ts[0].clone(), |s, t| s + t) + 0.5,
            };
            let q = e.std_properties();
            ck!(q.affine, "linear by construction but not reported affine");
            ck!(q.a.len() == n, "{} coefficients for {} variables", q.a.len(), n);
            for k in 0..n { match q.a.get(&vs[k]) { None => return Err(format!("variable {} is not listed", k).into()), Some(g) => ck!((g - co[k]).abs() <= 1e-14 * co[k].abs(), "coefficient {} is {:e} instead of {:e}", k, g, co[k]) } }
            ck!(q.b == if shape == 3 { 0. } else { 0.5 }, "constant {:e}", q.b);
            let mut w = 0.; let mut m: std::collections::HashMap<&Node, f64> = Default::default();
            for k in 0..n { let x = (1 + k) as f64 / co[k].abs(); m.insert(&vs[k], x); w += co[k] * x; }
            let got = e.evaluate(&m);
            w += q.b;
            ck!((got - w).abs() <= 1e-12 * (1. + (n * n) as f64), "value {:e} instead of {:e}", got, w);
            for k in 0..n { let g = e.derivative(&vs[k]).evaluate(&m); ck!((g - co[k]).abs() <= 1e-14 * co[k].abs(), "derivative {} is {:e} instead of {:e}", k, g, co[k]); }
            c.step(n as u64); c.nontrivial(); c.trace();
            c.state(hash_u64s(&[n as u64, i as u64, a.to_bits(), shape]));
            Ok(())
        });
    } } } }
    // The public constructors build what the operators would simplify.
    c.section("constructor-built expressions with constant parts");
    use numopt::model::function::{add::FunctionAdd, cos::FunctionCos, div::FunctionDiv, mul::FunctionMul, sin::FunctionSin};
    #[derive(Clone, Copy, Debug)]
    enum K { C(f64), CosC(f64), SinC(f64), AddC(f64, f64), MulC(f64, f64), DivC(f64, f64), X, Y, XY, CosX, XpY, XmX, ZeroX }
    let pool = [K::C(0.), K::C(1.), K::C(-2.), K::C(3.), K::CosC(2.), K::SinC(0.5), K::AddC(1., 2.), K::MulC(2., 0.), K::MulC(2., -3.), K::DivC(3., 2.), K::X, K::Y, K::XY, K::CosX, K::XpY, K::XmX, K::ZeroX];
    let mk = |k: K, v: &[Node]| -> Node { let n = ConstantScalar::new; match k {
        K::C(a) => n(a), K::CosC(a) => FunctionCos::new(n(a)), K::SinC(a) => FunctionSin::new(n(a)), K::AddC(a, b) => FunctionAdd::new(vec![n(a), n(b)]),
        K::MulC(a, b) => FunctionMul::new(n(a), n(b)), K::DivC(a, b) => FunctionDiv::new(n(a), n(b)), K::X => v[0].clone(), K::Y => v[1].clone(),
        K::XY => FunctionMul::new(v[0].clone(), v[1].clone()), K::CosX => FunctionCos::new(v[0].clone()), K::XpY => FunctionAdd::new(vec![v[0].clone(), v[1].clone()]),
        K::XmX => FunctionAdd::new(vec![v[0].clone(), FunctionMul::new(n(-1.), v[0].clone())]), K::ZeroX => FunctionMul::new(n(0.), v[0].clone()) } };
    let jt = |k: K, pt: &[f64]| -> Jet { let q = Jet::cst; let x = Jet::var(0, pt[0]); let y = Jet::var(1, pt[1]); match k {
        K::C(a) => q(a), K::CosC(a) => q(a.cos()), K::SinC(a) => q(a.sin()), K::AddC(a, b) => q(a + b), K::MulC(a, b) => q(a * b), K::DivC(a, b) => q(a / b),
        K::X => x, K::Y => y, K::XY => x.mul(&y), K::CosX => x.cos(), K::XpY => x.add(&y), K::XmX => x.sub(&x), K::ZeroX => q(0.).mul(&x) } };
    let sy = |k: K| -> (u32, bool) { match k { K::X | K::XmX | K::ZeroX => (1, true), K::Y => (2, true), K::XY => (3, false), K::CosX => (1, false), K::XpY => (3, true), _ => (0, true) } };
    for a in pool { for b in pool { for d in pool { for op in 0..5 {
        c.case(|| format!("constructor {} of {:?} {:?}, then plus/times {:?}", ["add", "mul", "div", "add3", "mul-mul"][op], a, b, d), |c| {
            let (na, nb, nd) = (mk(a, &v), mk(b, &v), mk(d, &v));
            let n = match op {
                0 => FunctionMul::new(FunctionAdd::new(vec![na, nb]), nd),
                1 => FunctionAdd::new(vec![FunctionMul::new(na, nb), nd]),
                2 => FunctionAdd::new(vec![FunctionDiv::new(na, nb), nd]),
                3 => FunctionAdd::new(vec![na, nb, nd]),
                _ => FunctionMul::new(FunctionMul::new(na, nb), nd),
            };
            let jets: Vec<Jet> = PTS.iter().map(|pt| { let (x, y, z) = (jt(a, pt), jt(b, pt), jt(d, pt)); match op {
                0 => x.add(&y).mul(&z), 1 => x.mul(&y).add(&z), 2 => x.div(&y).add(&z), 3 => x.add(&y).add(&z), _ => x.mul(&y).mul(&z) } }).collect();
            if !jets.iter().any(|j| j.ok) { return Ok(()); }
            let (sa, sb, sd) = (sy(a), sy(b), sy(d));
            let l = sa.1 && sb.1 && sd.1;
            let pm = |p: (u32, bool), q: (u32, bool)| (p.0 | q.0, p.1 && q.1 && (p.0 == 0 || q.0 == 0));
            let (vs, lin) = match op {
                0 => pm((sa.0 | sb.0, sa.1 && sb.1), sd),
                1 => { let t = pm(sa, sb); (t.0 | sd.0, t.1 && sd.1) }
                2 => (sa.0 | sb.0 | sd.0, l && sb.0 == 0),
                3 => (sa.0 | sb.0 | sd.0, l),
                _ => pm(pm(sa, sb), sd),
            };
            judge(c, &n, &v, &jets, vs, lin)
        });
    } } } }
}
