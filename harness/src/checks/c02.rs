//! C02: first derivatives.

use crate::ck;
use crate::expr::*;
use crate::fw::*;
use crate::wide::*;
use numopt::model::*;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C02", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one expression program (with sharing); its real derivative with respect to every variable, present or not, is evaluated at every point and compared with the reference gradient, singly and in lists; non-trivial: some compared partial derivative is nonzero",
        assumptions: &["points where the value or its derivatives are undefined or lose more than six digits are not compared", "relative tolerance 1e-9 of the sum of magnitudes"],
    }
}

fn check(c: &mut Ctx, p: &Prog, v: &[Node], lists: bool) -> Res {
    let n = match p.build(v, &|_| 0) { Ok(mut s) => s.pop().unwrap(), Err(_) => return Ok(()) }; // C01 judges building
    let jets: Vec<Jet> = PTS.iter().map(|pt| p.jet(pt)).collect();
    if !jets.iter().any(|j| j.ok) { return Ok(()); }
    let mut nz = false;
    let mut sig: Vec<f64> = Vec::with_capacity(16);
    let singles: Vec<Node> = v.iter().map(|x| n.derivative(x)).collect();
    for (i, d) in singles.iter().enumerate() {
        for (pt, j) in PTS.iter().zip(jets.iter()) {
            if !j.ok { sig.push(0.); continue; }
            let g = d.evaluate(&assign(v, pt));
            nz |= j.g[i] != 0.;
            sig.push(j.g[i]);
            ck!(close(g, j.g[i], j.mg[i]), "d/d{} at {:?}: {:e} instead of {:e}; derivative is {}", VN[i], pt, g, j.g[i], d);
            c.step(1);
        }
    }
    if lists {
        for l in [vec![0usize, 1, 2], vec![2, 1, 0], vec![1, 1], vec![0, 1, 0], vec![1, 0]] {
            let vs: Vec<&Node> = l.iter().map(|i| &v[*i]).collect();
            let m = n.derivatives(&vs);
            for i in l.iter() {
                let d = match m.get(&v[*i]) { Some(d) => d, None => return Err(format!("derivatives({:?}) lacks {}", l, VN[*i]).into()) };
                for (pt, j) in PTS.iter().zip(jets.iter()) {
                    if !j.ok { continue; }
                    let g = d.evaluate(&assign(v, pt));
                    ck!(close(g, j.g[*i], j.mg[*i]), "derivatives({:?}) for {} at {:?}: {:e} instead of {:e}", l, VN[*i], pt, g, j.g[*i]);
                    c.step(1);
                }
            }
            ck!(m.len() == { let mut q = l.clone(); q.sort(); q.dedup(); q.len() }, "derivatives({:?}) has {} entries", l, m.len());
        }
    }
    if nz { c.nontrivial(); c.trace(); }
    c.state(hash_f64s(&sig));
    Ok(())
}

/// Derivatives of derivatives up to `top`, in every order of the variables.
fn higher(c: &mut Ctx, p: &Prog, v: &[Node], nv: usize, top: usize) -> Res {
    let n = match p.build(v, &|_| 0) { Ok(mut s) => s.pop().unwrap(), Err(_) => return Ok(()) };
    let mut front: Vec<(Vec<usize>, Node)> = vec![(vec![], n)];
    let mut nz = false;
    let mut sig = Vec::new();
    for _ in 0..top {
        let mut next = Vec::new();
        for (path, e) in &front {
            let list: Vec<&Node> = v[..nv].iter().rev().collect();
            let all = e.derivatives(&list);
            for i in 0..nv {
                let mut q = path.clone();
                q.push(i);
                let d = all.get(&v[i]).cloned().unwrap_or_else(|| e.derivative(&v[i]));
                for pt in PTS.iter() {
                    let h = p.hyper(pt, &q);
                    let s = (1 << q.len()) - 1;
                    if !h.ok || h.m[s] > 1e12 { continue; }
                    let g = d.evaluate(&assign(v, pt));
                    ck!((g - h.c[s]).abs() <= 1e-9 * (h.m[s] + 1e-3), "derivative {} at {:?}: {:e} instead of {:e}", q.iter().map(|i| VN[*i]).collect::<Vec<_>>().join(","), pt, g, h.c[s]);
                    nz |= q.len() > 1 && h.c[s] != 0.;
                    sig.push(h.c[s]);
                    c.step(1);
                }
                next.push((q, d));
            }
        }
        front = next;
    }
    if nz { c.nontrivial(); c.trace(); }
    c.state(hash_f64s(&sig));
    Ok(())
}

/// The chain rule's paths: exactly those from the expression down to each variable asked for.
fn paths(c: &mut Ctx, p: &Prog, v: &[Node]) -> Res {
    let n = match p.build(v, &|_| 0) { Ok(mut s) => s.pop().unwrap(), Err(_) => return Ok(()) };
    let mut want: Vec<Vec<Node>> = Vec::new();
    let mut work = vec![vec![n.clone()]];
    while let Some(t) = work.pop() {
        let last = t.last().unwrap().clone();
        for a in last.arguments() { let mut q = t.clone(); q.push(a.clone()); work.push(q); }
        if let Node::VariableScalar(_) = last { want.push(t); }
    }
    for l in [vec![0usize, 1, 2], vec![2], vec![1, 1], vec![1, 0], vec![]] {
        let vs: Vec<&Node> = l.iter().map(|i| &v[*i]).collect();
        let m = n.all_simple_paths(&vs);
        ck!(m.len() == { let mut q = l.clone(); q.sort(); q.dedup(); q.len() }, "paths to {:?} has {} entries", l, m.len());
        for i in &l {
            let got = match m.get(&v[*i]) { Some(g) => g, None => return Err(format!("paths to {:?} lacks {}", l, VN[*i]).into()) };
            for g in got { ck!(want.contains(g) && g.last() == Some(&v[*i]), "a listed path of {} nodes is none to {}", g.len(), VN[*i]); }
            for w in want.iter().filter(|w| w.last() == Some(&v[*i])) { ck!(got.contains(w), "a path of {} nodes to {} is not listed", w.len(), VN[*i]); }
            c.step(want.len() as u64);
        }
    }
    if want.len() > 1 { c.nontrivial(); c.trace(); }
    c.state(hash_u64s(&want.iter().map(|w| w.len() as u64).collect::<Vec<_>>()));
    Ok(())
}

/// The partial derivatives with respect to the arguments, and to nodes that are no arguments: added up over
/// the occurrences of an argument they are the derivative of the operation itself.
fn partials(c: &mut Ctx, p: &Prog, v: &[Node]) -> Res {
    let s = match p.build(v, &|_| 0) { Ok(s) => s, Err(_) => return Ok(()) };
    let jets: Vec<Vec<Jet>> = PTS.iter().map(|pt| p.jets(pt)).collect();
    if !jets.iter().any(|js| js.last().unwrap().ok) { return Ok(()); }
    let n = s.last().unwrap();
    let args: Vec<Node> = n.arguments().into_iter().cloned().collect();
    let mut sig = Vec::new();
    let mut asked: Vec<&Node> = args.iter().collect();
    asked.extend(s.iter().filter(|k| *k != n));
    let other = VariableScalar::new_continuous("other");
    let cst = ConstantScalar::new(2.);
    asked.push(&other);
    asked.push(&cst);
    for a in asked {
        let times = args.iter().filter(|b| *b == a).count();
        let d = n.partial(a);
        for (pt, js) in PTS.iter().zip(jets.iter()) {
            if !js.last().unwrap().ok { continue; }
            let m = assign(v, pt);
            let u: Vec<f64> = args.iter().map(|b| b.evaluate(&m)).collect();
            let at = |i: usize| args[i] == *a;
            let (w, maj) = match n {
                Node::FunctionAdd(_) => (times as f64, 1.),
                Node::FunctionMul(_) => { let (x, y) = (if at(0) { u[1] } else { 0. }, if at(1) { u[0] } else { 0. }); (x + y, x.abs() + y.abs()) }
                Node::FunctionDiv(_) => {
                    if u[1] == 0. || u[1].abs() < 1e-140 { continue; }
                    let (x, y) = (if at(0) { 1. / u[1] } else { 0. }, if at(1) { -u[0] / (u[1] * u[1]) } else { 0. });
                    (x + y, x.abs() + y.abs())
                }
                Node::FunctionSin(_) => (if at(0) { u[0].cos() } else { 0. }, 1.),
                Node::FunctionCos(_) => (if at(0) { -u[0].sin() } else { 0. }, 1.),
                _ => (0., 1.),
            };
            let g = if times == 0 { d.evaluate(&m) } else { times as f64 * d.evaluate(&m) };
            ck!(w.is_finite() && close(g, w, maj), "partial derivative of {} by {} ({} occurrences) at {:?}: {:e} in all instead of {:e}", n, a, times, pt, g, w);
            sig.push(w);
            c.step(1);
        }
    }
    if !args.is_empty() { c.nontrivial(); c.trace(); }
    c.state(hash_f64s(&sig));
    Ok(())
}

fn run(c: &mut Ctx) {
    let v = vars(3);
    let sp = |len: usize, nv: usize, consts: &[f64], scalars: &[f64], bin: &[Op], un: &[Op]| Space {
        nv, consts: consts.to_vec(), scalars: scalars.to_vec(), bin: bin.to_vec(), un: un.to_vec(), len };
    c.section("variables and constants themselves");
    for i in 0..3 {
        c.case(|| format!("variable {}", VN[i]), |c| {
            for k in 0..3 {
                let d = v[i].derivative(&v[k]).evaluate(&assign(&v, &PTS[0]));
                ck!(d == if i == k { 1. } else { 0. }, "d{}/d{} = {}", VN[i], VN[k], d);
                ck!(ConstantScalar::new(i as f64).derivative(&v[k]).evaluate(&assign(&v, &PTS[0])) == 0., "derivative of a constant");
                c.step(2);
            }
            Ok(())
        });
    }
    c.section("programs of 1 and 2 operations, with lists");
    let wide = [0., 1., -1., 2., 3., -0.5, 1e-12, 1e9];
    for len in 1..=2 {
        let (cn, sc) = if len == 1 { (wide.to_vec(), wide.to_vec()) } else { (vec![1., 3.], vec![0., 1., -1., 3., 1e9]) };
        programs(&sp(len, 2, &cn, &sc, &BIN, &UN), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v, true));
            !c.done()
        });
    }
    c.section("programs of 3 operations");
    let (cn, sc) = c.pick((vec![2.], vec![1., -1., 2.]), (vec![1., 2.], vec![0., 1., -1., 2., -0.5]));
    programs(&sp(3, 2, &cn, &sc, &BIN, &UN), &mut |p| {
        c.case(|| p.show(), |c| check(c, p, &v, false));
        !c.done()
    });
    c.section("programs of 4 operations");
    let (nv, sc): (usize, Vec<f64>) = c.pick((1, vec![2.]), (2, vec![2.]));
    programs(&sp(4, nv, &[], &sc, &BIN, if c.thorough() { &UN } else { &[Op::Sin] }), &mut |p| {
        c.case(|| p.show(), |c| check(c, p, &v, false));
        !c.done()
    });
    if c.thorough() {
        c.section("programs of 5 operations over one variable, sums, products, quotients");
        programs(&sp(5, 1, &[], &[2.], &[Op::Add, Op::Mul, Op::Div], &[Op::Sin]), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v, false));
            !c.done()
        });
    }
    c.section("paths of the chain rule");
    for len in 1..=c.pick(3, 3) {
        let (sc, un): (Vec<f64>, Vec<Op>) = if len == 3 { (vec![2.], c.pick(vec![Op::Sin], UN.to_vec())) } else { (vec![0., 1., -1., 3.], UN.to_vec()) };
        programs(&sp(len, 2, &[3.], &sc, &BIN, &un), &mut |p| {
            c.case(|| format!("paths: {}", p.show()), |c| paths(c, p, &v));
            !c.done()
        });
    }
    for (f, n) in families() {
        if n > 10 { continue; }
        let p = family(f, n);
        c.case(|| format!("paths: family {} of size {}: {}", f, n, p.show()), |c| paths(c, &p, &v));
    }
    c.section("partial derivatives by arguments");
    for len in 1..=c.pick(2, 3) {
        let (sc, un): (Vec<f64>, Vec<Op>) = if len == 3 { (vec![2.], vec![Op::Sin]) } else { (vec![0., 1., -1., 3.], UN.to_vec()) };
        programs(&sp(len, 2, &[3.], &sc, &BIN, &un), &mut |p| {
            c.case(|| format!("partials: {}", p.show()), |c| partials(c, p, &v));
            !c.done()
        });
        raw_programs(&raw_space(len, false), &mut |p| {
            c.case(|| format!("partials: {}", p.show()), |c| partials(c, p, &v));
            !c.done()
        });
    }
    for (f, n) in families() {
        let p = family(f, n);
        c.case(|| format!("partials: family {} of size {}: {}", f, n, p.show()), |c| partials(c, &p, &v));
    }
    c.section("nodes made by their constructors");
    for len in 1..=3 {
        raw_programs(&raw_space(len, c.thorough()), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, &v, len < 3));
            !c.done()
        });
    }
    c.section("growing families");
    for (f, n) in families() {
        let p = family(f, n);
        c.case(|| format!("family {} of size {}: {}", f, n, p.show()), |c| check(c, &p, &v, true));
    }
    c.section("families continued by one and two operations");
    let sc = [0., 1., -1., 2., -0.5];
    for (len, top) in [(1, 24), (2, c.pick(3, 6))] {
        tails(top, len, &sc, &mut |p, l| {
            c.case(|| format!("{}{}", l, p.show()), |c| check(c, p, &v, len == 1));
            !c.done()
        });
    }
    c.section("derivatives of derivatives");
    for len in 1..=c.pick(2, 3) {
        let (nv, sc, cn) = if len == 3 { (1, vec![2.], vec![]) } else { (2, vec![0., 1., -1., 2.], vec![3.]) };
        let top = if len == 2 { c.pick(3, 3) } else { 3 };
        programs(&sp(len, nv, &cn, &sc, &BIN, &UN), &mut |p| {
            c.case(|| format!("orders up to {}: {}", top, p.show()), |c| higher(c, p, &v, nv, top));
            !c.done()
        });
    }
    for (f, n) in families() {
        if n > 4 { continue; }
        let p = family(f, n);
        c.case(|| format!("orders up to 3: family {} of size {}: {}", f, n, p.show()), |c| higher(c, &p, &v, 2.min(p.nv), if n > 2 { 2 } else { 3 }));
    }
    c.section("variables that share a name, variables of both kinds");
    for (what, vs) in [("same-named", vars_same()), ("integer and continuous", vars_mixed())] {
        for len in 1..=2 {
            programs(&sp(len, 2, &[1.], &[0., 1., -1., 3.], &BIN, &UN), &mut |p| {
                c.case(|| format!("{} variables: {}", what, p.show()), |c| check(c, p, &vs, true));
                !c.done()
            });
        }
        for (f, n) in families() {
            let p = family(f, n);
            c.case(|| format!("{} variables: family {} of size {}: {}", what, f, n, p.show()), |c| check(c, &p, &vs, true));
        }
    }
    c.section("many variables");
    let top = c.pick(20, 40);
    for n in SIZES.iter().cloned().filter(|n| *n <= top) { for k in KINDS { for same in [false, true] {
        c.case(|| format!("{} over {} variables, same names {}", k, n, same), |c| {
            let (t, _) = wide_expr(k, n);
            let vs = wvars(n, same);
            let e = t.node(&vs);
            let list: Vec<&Node> = vs.iter().rev().collect();
            let all = e.derivatives(&list);
            ck!(all.len() == n, "{} derivatives for {} variables", all.len(), n);
            for x in wpoints(n) {
                let m = vs.iter().zip(x.iter().cloned()).collect();
                let w = dj(&t, &x);
                for i in 0..n {
                    let g = match all.get(&vs[i]) { Some(d) => d.evaluate(&m), None => return Err(format!("no derivative for variable {}", i).into()) };
                    ck!(near(g, w.g[i], n), "derivative {} in the list is {:e} instead of {:e}", i, g, w.g[i]);
                    if n <= 9 { let g = e.derivative(&vs[i]).evaluate(&m); ck!(near(g, w.g[i], n), "derivative {} is {:e} instead of {:e}", i, g, w.g[i]); }
                    c.step(1);
                }
                c.state(hash_f64s(&w.g));
            }
            c.nontrivial();
            c.trace();
            Ok(())
        });
    } } }
    c.section("deeply nested expressions");
    for k in 0..crate::long::DEEP_KINDS { for n in crate::long::deep_sizes(c.thorough(), crate::long::many_paths(k)) { for int in [false, true] {
        if c.done() { return; }
        c.case(|| format!("kind {} nested {} deep, integers {}", k, n, int), |c| {
            let v: Vec<Node> = ["x", "y", "z"].iter().map(|n| if int { VariableScalar::new_integer(n) } else { VariableScalar::new_continuous(n) }).collect();
            for x in crate::long::DEEP_POINTS {
                let (e, w) = crate::long::deep(k, n, &v, &x);
                let q: std::collections::HashMap<&Node, f64> = v.iter().zip([x[0], x[1], 5.]).collect();
                let d = e.derivatives(&[&v[2], &v[1], &v[0]]);
                for i in 0..3 {
                    let t = if i < 2 { w[i + 1] } else { 0. };
                    for g in [d[&v[i]].evaluate(&q), e.derivative(&v[i]).evaluate(&q)] { ck!((g - t).abs() <= 1e-8 * (1. + t.abs()), "derivative {} is {:e} instead of {:e}", i, g, t); }
                    c.step(2);
                }
                c.state(hash_f64s(&[w[1], w[2], k as f64]));
            }
            c.nontrivial();
            c.trace();
            Ok(())
        });
    } } }
    c.section("variables that occur many times");
    let top = c.pick(2100, 4000);
    for k in REPEATS.iter().cloned().filter(|k| *k <= top) { for shape in SHAPES { for (ti, term) in TERMS.iter().enumerate() { for shared in [false, true] {
        c.case(|| format!("{} times {}, {}, shared {}", k, term, shape, shared), |c| {
            let vs = wvars(2, false);
            let (e, f) = repeated(shape, ti, shared, k, &vs[0], &vs[1]);
            let list: Vec<&Node> = vs.iter().collect();
            let all = e.derivatives(&list);
            let single: Vec<Node> = if k <= 300 { vs.iter().map(|x| e.derivative(x)).collect() } else { vec![] };
            for x in wpoints(2) {
                let m = vs.iter().zip(x.iter().cloned()).collect();
                let (_, g, _) = term_at(ti, x[0], x[1]);
                for i in 0..2 {
                    let d = match all.get(&vs[i]) { Some(d) => d.evaluate(&m), None => return Err(format!("no derivative for variable {}", i).into()) };
                    ck!((d - f * g[i]).abs() <= 1e-9 * f * (1. + g[i].abs()), "derivative {} in the list is {:e} instead of {:e}", i, d, f * g[i]);
                    if let Some(s) = single.get(i) { let d = s.evaluate(&m); ck!((d - f * g[i]).abs() <= 1e-9 * f * (1. + g[i].abs()), "derivative {} is {:e} instead of {:e}", i, d, f * g[i]); }
                    c.step(1);
                }
                c.state(hash_f64s(&[f * g[0], f * g[1]]));
            }
            c.nontrivial();
            c.trace();
            Ok(())
        });
    } } } }
}
