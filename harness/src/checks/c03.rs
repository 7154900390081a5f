//! C03: gradient and Hessian components.

use crate::ck;
use crate::expr::*;
use crate::fw::*;
use crate::wide::*;
use numopt::model::node_std::NodeStd;
use numopt::model::*;
use std::collections::BTreeMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C03", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one expression program (in the seeded part: under one hash seed); all listed gradient and Hessian entries are evaluated at every point and compared with the reference, absent ones must be zero, none may repeat; non-trivial: some second derivative is nonzero",
        assumptions: &["points where the value or its derivatives are undefined or lose more than six digits are not compared", "relative tolerance 1e-9 of the sum of magnitudes"],
    }
}

fn ix(v: &[Node], n: &Node) -> Option<usize> { v.iter().position(|x| x == n) }

/// Checks the components; returns (nonzero Hessian, order of variables seen, evaluations).
pub fn components(p: &Prog, v: &[Node]) -> Result<(bool, u64, u64), Fail> {
    let n = match p.build(v, &|_| 0) { Ok(mut s) => s.pop().unwrap(), Err(_) => return Ok((false, 0, 0)) };
    let jets: Vec<Jet> = PTS.iter().map(|pt| p.jet(pt)).collect();
    if !jets.iter().any(|j| j.ok) { return Ok((false, 0, 0)); }
    let comp = n.std_components();
    let mut g: BTreeMap<usize, &Node> = BTreeMap::new();
    let mut order: Vec<u64> = Vec::new();
    for (x, e) in comp.gphi.iter() {
        let i = match ix(v, x) { Some(i) => i, None => return Err(format!("gradient entry for unknown {}", x).into()) };
        order.push(i as u64);
        ck!(g.insert(i, e).is_none(), "two gradient entries for {}", VN[i]);
    }
    let mut h: BTreeMap<usize, &Node> = BTreeMap::new();
    for (x, y, e) in comp.hphi.iter() {
        let (i, k) = match (ix(v, x), ix(v, y)) { (Some(i), Some(k)) => (i, k), _ => return Err(format!("Hessian entry for unknown {}, {}", x, y).into()) };
        ck!(h.insert(hix(i, k), e).is_none(), "two Hessian entries for the pair {}, {}", VN[i], VN[k]);
    }
    let mut nz = false;
    let mut steps = 0;
    for (pt, j) in PTS.iter().zip(jets.iter()) {
        if !j.ok { continue; }
        let m = assign(v, pt);
        let phi = comp.phi.evaluate(&m);
        ck!(close(phi, j.v, j.mv), "value at {:?}: {:e} instead of {:e}", pt, phi, j.v);
        for i in 0..3 {
            let got = g.get(&i).map(|e| e.evaluate(&m)).unwrap_or(0.);
            ck!(close(got, j.g[i], j.mg[i]), "gradient entry {} ({}) at {:?}: {:e} instead of {:e}", VN[i],
                if g.contains_key(&i) { "listed" } else { "absent" }, pt, got, j.g[i]);
        }
        for i in 0..3 { for k in 0..=i {
            let q = hix(i, k);
            let got = h.get(&q).map(|e| e.evaluate(&m)).unwrap_or(0.);
            nz |= j.h[q] != 0.;
            ck!(close(got, j.h[q], j.mh[q]), "Hessian entry {},{} ({}) at {:?}: {:e} instead of {:e}", VN[i], VN[k],
                if h.contains_key(&q) { "listed" } else { "absent" }, pt, got, j.h[q]);
        } }
        steps += 10;
    }
    Ok((nz, hash_u64s(&order), steps))
}

fn check(c: &mut Ctx, p: &Prog, v: &[Node]) -> Res {
    let (nz, _, st) = components(p, v)?;
    c.step(st);
    if nz { c.nontrivial(); c.trace(); }
    let j = p.jet(&PTS[0]);
    if j.ok { c.state(hash_f64s(&j.h)); }
    Ok(())
}

/// Every order in which the map of variables can iterate: seeds are tried until all have been
/// seen.
fn seeded(c: &mut Ctx, p: &Prog, nvars: usize) -> Res {
    let want = [1, 1, 2, 6][nvars];
    let mut seen = std::collections::BTreeSet::new();
    let mut seed = 0;
    while seen.len() < want && seed < 64 {
        let r = with_seed(seed, || { let v = vars(3); components(p, &v) });
        let (_, o, st) = r?;
        seen.insert(o);
        c.step(st);
        c.state(hash_u64s(&[p.hash(), o]));
        seed += 1;
    }
    c.note("hash_seeds_run", seed);
    if seen.len() >= want { c.note("programs_with_all_variable_orders_seen", 1); } else { c.note("programs_with_some_variable_orders_seen", 1); }
    c.nontrivial();
    c.trace();
    Ok(())
}

fn wide_case(c: &mut Ctx, k: &str, n: usize, same: bool) -> Res {
    let (t, _) = wide_expr(k, n);
    let vs = wvars(n, same);
    let comp = t.node(&vs).std_components();
    let pos: std::collections::HashMap<&Node, usize> = vs.iter().enumerate().map(|(i, x)| (x, i)).collect();
    let mut gs: Vec<Option<&Node>> = vec![None; n];
    for (x, e) in comp.gphi.iter() {
        let i = match pos.get(x) { Some(i) => *i, None => return Err(format!("gradient entry for unknown {}", x).into()) };
        ck!(gs[i].is_none(), "two gradient entries for variable {}", i);
        gs[i] = Some(e);
    }
    let mut hs: Vec<Option<&Node>> = vec![None; n * n];
    for (x, y, e) in comp.hphi.iter() {
        let (i, j) = match (pos.get(x), pos.get(y)) { (Some(i), Some(j)) => (*i.max(j), *i.min(j)), _ => return Err(format!("Hessian entry for unknown {}, {}", x, y).into()) };
        ck!(hs[i * n + j].is_none(), "two Hessian entries for the pair {}, {}", i, j);
        hs[i * n + j] = Some(e);
    }
    for x in wpoints(n) {
        let m = vs.iter().zip(x.iter().cloned()).collect();
        let w = dj(&t, &x);
        let g = comp.phi.evaluate(&m);
        ck!(near(g, w.v, n), "value is {:e} instead of {:e}", g, w.v);
        for i in 0..n {
            let g = gs[i].map(|e| e.evaluate(&m)).unwrap_or(0.);
            ck!(near(g, w.g[i], n), "gradient entry {} is {:e} instead of {:e}", i, g, w.g[i]);
            for j in 0..=i {
                let g = hs[i * n + j].map(|e| e.evaluate(&m)).unwrap_or(0.);
                ck!(near(g, w.h[i][j], n), "Hessian entry {}, {} is {:e} instead of {:e}", i, j, g, w.h[i][j]);
                c.step(1);
            }
        }
        c.state(hash_f64s(&w.g));
    }
    c.nontrivial();
    c.trace();
    Ok(())
}

fn run(c: &mut Ctx) {
    let v = vars(3);
    let sp = |len: usize, nv: usize, consts: &[f64], scalars: &[f64], bin: &[Op], un: &[Op]| Space {
        nv, consts: consts.to_vec(), scalars: scalars.to_vec(), bin: bin.to_vec(), un: un.to_vec(), len };
    c.section("programs of 1 and 2 operations");
    for len in 1..=2 {
        programs(&sp(len, 3, &[1., 3.], &[0., 1., -1., 3., 1e9], &BIN, &UN), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v));
            !c.done()
        });
    }
    c.section("programs of 3 operations");
    let (nv, cn, sc) = c.pick((2, vec![], vec![1., 2.]), (3, vec![2.], vec![1., -1., 2.]));
    programs(&sp(3, nv, &cn, &sc, &BIN, &UN), &mut |p| {
        c.case(|| p.show(), |c| check(c, p, &v));
        !c.done()
    });
    if c.thorough() {
        c.section("programs of 4 operations");
        programs(&sp(4, 2, &[], &[2.], &[Op::Add, Op::Mul, Op::Div], &[Op::Sin]), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v));
            !c.done()
        });
    }
    c.section("nodes made by their constructors");
    for len in 1..=3 {
        raw_programs(&raw_space(len, c.thorough()), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v));
            !c.done()
        });
    }
    c.section("growing families");
    for (f, n) in families() {
        if n > 14 { continue; }
        let p = family(f, n);
        c.case(|| format!("family {} of size {}: {}", f, n, p.show()), |c| check(c, &p, &v));
    }
    c.section("nonlinear programs under all variable orders");
    let len = c.pick(2, 3);
    for l in 1..=len {
        programs(&sp(l, 3, &[], if l == 3 { &[] } else { &[2.] }, if l == 3 { &[Op::Add, Op::Mul, Op::Div] } else { &BIN }, &[Op::Sin, Op::Cos]), &mut |p| {
            let (vs, lin) = *p.syntax().last().unwrap();
            let nvars = vs.count_ones() as usize;
            if lin || nvars < 2 || (l == 3 && nvars < 3) { return true; }
            // all variables must matter for the order to be observable
            let j = p.jet(&PTS[0]);
            if !j.ok || (0..3).any(|i| vs & (1 << i) != 0 && j.g[i] == 0.) { return true; }
            c.case(|| format!("{} under all variable orders", p.show()), |c| seeded(c, p, nvars));
            !c.done()
        });
    }
    for (f, n) in families() {
        if n > 7 { continue; }
        let p = family(f, n);
        let (vs, lin) = *p.syntax().last().unwrap();
        if lin || vs.count_ones() < 2 { continue; }
        c.case(|| format!("family {} of size {} under all variable orders: {}", f, n, p.show()), |c| seeded(c, &p, vs.count_ones() as usize));
    }
    c.section("families continued by one and two operations");
    let sc = [0., 1., -1., 2., -0.5];
    for (len, top) in [(1, c.pick(8, 24)), (2, c.pick(2, 4))] {
        tails(top, len, &sc, &mut |p, l| {
            c.case(|| format!("{}{}", l, p.show()), |c| check(c, p, &v));
            !c.done()
        });
    }
    c.section("variables that share a name, variables of both kinds");
    for (what, vs) in [("same-named", vars_same()), ("integer and continuous", vars_mixed())] {
        for len in 1..=2 {
            programs(&sp(len, 3, &[1.], &[0., 1., -1., 3.], &BIN, &UN), &mut |p| {
                c.case(|| format!("{} variables: {}", what, p.show()), |c| check(c, p, &vs));
                !c.done()
            });
        }
        programs(&sp(3, 2, &[], &[2.], &BIN, &[Op::Sin, Op::Cos]), &mut |p| {
            c.case(|| format!("{} variables: {}", what, p.show()), |c| check(c, p, &vs));
            !c.done()
        });
        for (f, n) in families() {
            if n > 9 { continue; }
            let p = family(f, n);
            c.case(|| format!("{} variables: family {} of size {}: {}", what, f, n, p.show()), |c| check(c, &p, &vs));
        }
    }
    c.section("many variables");
    let top = c.pick(17, 33);
    for n in SIZES.iter().cloned().filter(|n| *n <= top) { for k in KINDS { for same in [false, true] {
        c.case(|| format!("{} over {} variables, same names {}", k, n, same), |c| wide_case(c, k, n, same));
    } } }
    c.section("pairs of variables far apart");
    for n in [48, 70, 100, 140, 270].iter().cloned().chain(if c.thorough() { vec![180, 300, 530] } else { vec![] }) { for k in ["far pairs", "neighbours", "half linear", "square of sum"] { for same in [false, true] {
        if k == "square of sum" && n > c.pick(70, 140) || n > 200 && same && !c.thorough() { continue; }
        c.case(|| format!("{} over {} variables, same names {}", k, n, same), |c| wide_case(c, k, n, same));
    } } }
    c.section("variables that occur many times");
    let top = c.pick(550, 2100);
    for k in REPEATS.iter().cloned().filter(|k| *k <= top) { for shape in SHAPES { for (ti, term) in TERMS.iter().enumerate() { for shared in [false, true] {
        c.case(|| format!("{} times {}, {}, shared {}", k, term, shape, shared), |c| {
            let vs = wvars(2, false);
            let (e, f) = repeated(shape, ti, shared, k, &vs[0], &vs[1]);
            let comp = e.std_components();
            for x in wpoints(2) {
                let m = vs.iter().zip(x.iter().cloned()).collect();
                let (w, g, h) = term_at(ti, x[0], x[1]);
                let ok = |a: f64, w: f64| (a - f * w).abs() <= 1e-9 * f * (1. + w.abs());
                let v = comp.phi.evaluate(&m);
                ck!(ok(v, w), "value is {:e} instead of {:e}", v, f * w);
                let (mut gs, mut hs) = ([0.; 2], [0.; 3]);
                for (z, e) in comp.gphi.iter() { match ix(&vs, z) { Some(i) => gs[i] += e.evaluate(&m), None => return Err(format!("gradient entry for unknown {}", z).into()) } }
                for (y, z, e) in comp.hphi.iter() { match (ix(&vs, y), ix(&vs, z)) { (Some(i), Some(j)) => hs[i + j] += e.evaluate(&m), _ => return Err("Hessian entry for an unknown variable".to_string().into()) } }
                for i in 0..2 { ck!(ok(gs[i], g[i]), "gradient entry {} is {:e} instead of {:e}", i, gs[i], f * g[i]); }
                for i in 0..3 { ck!(ok(hs[i], h[i]), "Hessian entry {} is {:e} instead of {:e}", i, hs[i], f * h[i]); }
                c.step(6);
                c.state(hash_f64s(&[f * g[0], f * g[1]]));
            }
            c.nontrivial();
            c.trace();
            Ok(())
        });
    } } } }
}
