//! C05: the standard-form problem is equivalent to the model.

use crate::fw::*;
use crate::model::*;
use crate::widemodel::{equivalent, wide_model};
use crate::{bad, ck};
use numopt::model::Constraint;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C05", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one model; at every grid point the existence of slack values that make it feasible, every row, every limit and the objective are compared with the reference, and class, integrality and maps are checked; non-trivial: some grid points are feasible and some are not",
        assumptions: &["grid points within 1e-7 of a constraint boundary, but not on it, are not compared", "points at which a row exceeds 9e7 in size are compared only in the part on large magnitudes", "standard-form rows are affine in the slack variables"],
    }
}

pub const NAMES: [&str; 3] = ["x", "y", "k"];

/// Points at which models over x, y, k are compared.
pub fn grid(thorough: bool) -> Vec<[f64; 3]> {
    let xs: &[f64] = if thorough { &[-3., -2., -1., -0.5, 0., 0.25, 0.5, 0.75, 1., 1.5, 2., 3., 4.] } else { &[-2., -1., -0.5, 0., 0.5, 1., 1.5, 2., 3.] };
    let mut g = Vec::new();
    for x in xs { for y in xs { g.push([*x, *y, ((x + y) * 2.).round() - 1.]); } }
    for k in [-2., -1., 0., 1., 2., 3., 4.] { for x in [-1., 0.5, 2.] { g.push([x, 1. - x, k]); } }
    for m in [1e3, -1e3, 1e6, -1e6, 4e7, -4e7] { g.push([m, 0.5, 1.]); g.push([0.5, m, 1.]); g.push([0.5, 0.5, m]); g.push([m, -m, m]); }
    g
}

#[derive(Default)]
pub struct Seen { pub feas: u64, pub infeas: u64 }

/// Everything about one model.  `pts` are the points to compare at.
/// With `within`, points at which a row exceeds the default limits are left out.
pub fn equivalence(sp: &Spec, pts: &[[f64; 3]], within: bool) -> Result<Seen, Fail> {
    let b = sp.build();
    let mut sd = b.model.std_problem_checked()?;
    let st = std_of(&mut sd.prob)?;
    let lay = layout(&sd, &b.vars, st.n)?;
    let nc = sp.cons.len();
    // what the functions depend on, and whether they are curved, by their jets
    let mut dep = 0u32;
    let mut curved = false;
    for u in pts.iter() {
        let mut js = vec![sp.fmin(u)];
        js.extend(sp.cons.iter().map(|c| c.diff(u)));
        for j in js.iter().filter(|j| j.ok) {
            for i in 0..3 { if j.g[i].abs() > 1e-6 * j.mg[i].max(1e-3) { dep |= 1 << i; } }
            for i in 0..6 { if j.h[i].abs() > 1e-6 * j.mh[i].max(1e-3) { curved = true; } }
        }
    }
    let used = sp.used();
    // variables
    for i in 0..3 {
        if dep & (1 << i) != 0 { ck!(lay.pos[i].is_some(), "variable {} is missing", sp.names[i]); }
        if used & (1 << i) == 0 { ck!(lay.pos[i].is_none(), "variable {} is not used but there", sp.names[i]); }
    }
    // integrality
    for j in 0..st.n {
        let want = match lay.user[j] { Some(k) => sp.int[k], None => false };
        ck!(st.p[j] == want, "integrality of {} is {}", lay.user[j].map(|k| sp.names[k]).unwrap_or("a slack"), st.p[j]);
    }
    // class
    let isint = matches!(st.class, Class::Milp | Class::Minlp);
    let isnl = matches!(st.class, Class::Nlp | Class::Minlp);
    let int_dep = (0..3).any(|i| sp.int[i] && dep & (1 << i) != 0);
    let int_used = (0..3).any(|i| sp.int[i] && used & (1 << i) != 0);
    ck!(!int_dep || isint, "class {:?} although integer variables matter", st.class);
    ck!(int_used || !isint, "class {:?} without integer variables", st.class);
    ck!(!curved || isnl, "class {:?} although something is nonlinear", st.class);
    ck!(!sp.linear() || !isnl, "class {:?} although everything is linear", st.class);
    ck!(isnl || st.nf == 0, "nonlinear rows in a linear problem");
    // maps
    let find = |c: &Constraint, what: &str, i: usize| -> Result<usize, Fail> {
        match index_of(&b.cons, c) { Some(k) => Ok(k), None => Err(format!("{} {} is mapped to a constraint that is not in the model", what, i).into()) } };
    let mut arow = Vec::new();
    ck!(sd.aindex2constr.len() == st.a.len(), "{} linear rows, {} mapped", st.a.len(), sd.aindex2constr.len());
    for i in 0..st.a.len() { match sd.aindex2constr.get(&i) { Some(c) => arow.push(find(c, "linear row", i)?), None => bad!("linear row {} is not mapped", i) } }
    let mut frow = Vec::new();
    ck!(sd.jindex2constr.len() == st.nf, "{} nonlinear rows, {} mapped", st.nf, sd.jindex2constr.len());
    for i in 0..st.nf { match sd.jindex2constr.get(&i) { Some(c) => frow.push(find(c, "nonlinear row", i)?), None => bad!("nonlinear row {} is not mapped", i) } }
    // limits
    for (up, map, lim) in [(true, &sd.uindex2constr, &st.u), (false, &sd.lindex2constr, &st.l)] {
        let what = if up { "upper limit" } else { "lower limit" };
        for (i, c) in map.iter() {
            ck!(*i < st.n, "{} of variable {} is mapped", what, i);
            let k = find(c, what, *i)?;
            if let Some(v) = lay.user[*i] {
                // the constraint must say exactly: variable within this limit
                for base in [[0.5, 0.25, 1.], [-1., 2., -2.]] {
                    for (d, hold) in [(0., true), (-1., up), (1., !up), (-0.25, up), (0.25, !up)] {
                        let mut u = base;
                        u[v] = lim[*i] + d * lim[*i].abs().max(1.);
                        if let Some((vi, m)) = sp.cons[k].viol(&u) {
                            let t = tri(vi, 1. + m);
                            ck!(t == Tri::Unclear || (t == Tri::Yes) == hold, "{} {:e} of {} is said to come from {}, which {} at {:?}", what, lim[*i], sp.names[v],
                                sp.cons[k].text, if hold { "fails" } else { "holds" }, u);
                        }
                    }
                }
            }
        }
        for i in 0..st.n {
            if lim[i].abs() < 1e8 { ck!(map.contains_key(&i), "{} {:e} of {} has no constraint", what, lim[i], lay.user[i].map(|k| sp.names[k]).unwrap_or("a slack")); }
        }
    }
    // points
    let mut seen = Seen::default();
    let mut objs: Vec<(f64, f64, f64, [f64; 3])> = Vec::new();
    for u in pts.iter() {
        if within && sp.cons.iter().any(|c| !(c.diff(u).v.abs() < 9e7)) && sp.cons.iter().all(|c| c.diff(u).ok) { continue; }
        let ap = at_point(&mut sd.prob, &st, &lay, u)?;
        // feasibility
        let mut want = Tri::Yes;
        let mut each = Vec::with_capacity(nc);
        let mut defined = true;
        for c in &sp.cons {
            match c.viol(u) {
                Some((v, m)) => { let t = tri(v, 1. + m); each.push(t); want = both(want, t); }
                None => { each.push(Tri::Unclear); defined = false; }
            }
        }
        let rows = ap.arows.iter().zip(arow.iter()).map(|(r, k)| (r, *k, "linear")).chain(ap.frows.iter().zip(frow.iter()).map(|(r, k)| (r, *k, "nonlinear")));
        for (r, k, what) in rows {
            let t = row_ok(r, &st);
            if t != Tri::Unclear && each[k] != Tri::Unclear {
                ck!(t == each[k], "at {:?} a {} row mapped to {} is {} although the constraint is {}", u, what, sp.cons[k].text,
                    if t == Tri::Yes { "satisfiable" } else { "not satisfiable" }, if each[k] == Tri::Yes { "satisfied" } else { "violated" });
            }
            for (s, _) in &r.slacks {
                for m in [&sd.uindex2constr, &sd.lindex2constr] {
                    if let Some(c) = m.get(s) { let q = find(c, "slack limit", *s)?; ck!(q == k, "limit of the slack of {} is mapped to {}", sp.cons[k].text, sp.cons[q].text); }
                }
            }
        }
        if defined {
            let got = feasible(&ap, &st, &lay, u);
            if got != Tri::Unclear && want != Tri::Unclear {
                ck!(got == want, "{:?} is {} in the standard form but {} in the model", u,
                    if got == Tri::Yes { "feasible" } else { "infeasible" }, if want == Tri::Yes { "feasible" } else { "infeasible" });
                if want == Tri::Yes { seen.feas += 1 } else { seen.infeas += 1 }
            }
        }
        // objective
        let fj = sp.fmin(u);
        if fj.ok {
            let mut o = Vec::new();
            o.push(ap.vals.phi);
            if let Some(c) = &st.c {
                ck!(c.len() == st.n, "objective vector has length {}", c.len());
                for s in [0., 0.75] { o.push(full(&lay, st.n, u, s).iter().zip(c.iter()).map(|(a, b)| a * b).sum()); }
            }
            for v in o { objs.push((v, fj.v, fj.mv, *u)); }
        }
    }
    // the constant, by the most accurate point
    if let Some(p) = objs.iter().min_by(|a, b| a.2.total_cmp(&b.2)) {
        let q = p.0 - p.1;
        for (v, w, m, u) in &objs { ck!((v - w - q).abs() <= 1e-8 * (1. + m + q.abs()), "objective at {:?} is {:e}, the model says {:e} plus the constant {:e}", u, v, w, q); }
    }
    Ok(seen)
}

fn go(c: &mut Ctx, sp: &Spec, pts: &[[f64; 3]]) {
    c.case(|| sp.show(), |c| {
        let s = equivalence(sp, pts, true)?;
        c.step(s.feas + s.infeas);
        c.trace();
        c.state(hash_u64s(&[s.feas, s.infeas, hash_str(&sp.show())]));
        if s.feas > 0 && s.infeas > 0 { c.nontrivial(); }
        Ok(())
    });
}

pub const LIN: &[&str] = &["x | 2", "2 | x", "x | -1", "-x | 1", "1 | -x", "2*x | 3", "x/2 | 1", "x + 1 | 2", "{2} | x", "x | 1 + {0.5}", "x | y", "y | x + 1", "x + y | 1", "x - y | -0.5",
    "2*x + 3*y | 1", "x - x | 0", "0*x | 1", "x + y - x | 1", "x + y | x + 1", "{3} | {5}", "k | 1", "k + x | 2.5", "k/2 | 0.75", "(x + y)*2 | 1", "x | x", "y | 0.5", "-2*(y - 1) | 1", "1 - x | y", "x | k",
    "2*x - x | 1.5", "{5} | {5}", "x*{0} + y | 1"];
pub const NLIN: &[&str] = &["x*x | 1", "x*y | 0.5", "sin(x) | 0.5", "x*x + y*y | 2", "x/y | 1", "x*y - x*y | 0", "y | x*x", "cos(x) + k | 1", "x*x - x*x + x | 1", "(x + y)*(x - y) | 0.25", "k*x | 1", "1 | x*x*y", "y - x*x | 0", "sin(y)*x | x"];
pub const OBJ: &[&str] = &["", "min x", "max x", "min 3", "max 2*x - 3*y + 1", "min k - y", "min x*x + y*y", "max -(x*x) + y - 2", "min x - x", "max k*k + x", "min sin(x) + y", "max x*y", "min 0*x + y", "min x + y + k", "max -k/2", "min x*x - x*x + y", "max (x + 1)*2", "min {1}/2 - x"];

/// Right-hand sides of every size, and points on both sides of them.
pub fn sizes(thorough: bool) -> Vec<f64> {
    let mut o = Vec::new();
    for e in -9..=7 { for m in if thorough { &[1., 2.5, 7.][..] } else { &[2.5][..] } { for s in [1., -1.] { let v = s * m * 10f64.powi(e); if v.abs() < 6e7 { o.push(v); } } } }
    o
}
pub fn around(v: f64) -> Vec<[f64; 3]> {
    let mut o = vec![[0.; 3], [v, 0., 0.], [0., v, v.round()]];
    for d in [-1., -0.3, -1e-3, -1e-5, 1e-5, 1e-3, 0.3, 1., -20., 20.] { let x = v * (1. + d); if x.abs() < 8e7 { o.push([x, 0., 1.]); o.push([x / 2., x / 2., x.round()]); o.push([0.25, x, 0.]); } }
    for d in [-1., 1., 1e-3, -1e-3] { o.push([v + d, 0., v.round()]); o.push([1., v + d, (v + d).round()]); }
    o
}
/// A variable with a lower and an upper limit that are equal or hardly differ, and points about them.
pub fn fixed(t: &str, v: f64, w: f64) -> (Vec<Con>, Vec<[f64; 3]>) {
    let cs = vec![sized(&format!("{} | V", t), v + w * (1. + v.abs()), Rel::Le), sized(&format!("{} | V", t), v, Rel::Ge), con("x + y | 1e4", Rel::Le, &NAMES)];
    let mut pts = around(v);
    let s = 1. + v.abs();
    for d in [0., 0.5, 1., -1., 2., 3., -3., 10., -10., 100., -100., 1000., 500., 1001.] { let z = v + d * 1e-6 * s; for q in [[z, 0.5, 1.], [0.25, z, 1.], [z, z, z], [0., 1., z]] { pts.push(q); } }
    (cs, pts)
}
pub const SIZED: &[&str] = &["x | V", "V | x", "x + y | V", "-x | V", "x + 1 | V", "k | V", "x - y*y | V", "2*x | V", "x + {0} | {V}"];
pub fn sized(t: &str, v: f64, rel: Rel) -> Con { con(&t.replace("{V}", &format!("{{{:?}}}", v)).replace("V", &if v < 0. { format!("{{{:?}}}", v) } else { format!("{:?}", v) }), rel, &NAMES) }

pub const ODD: &[&str] = &["1.025", "0.98", "{0.999}", "1.000001", "0.9999999", "1.000000001", "{-1.025}", "0.05", "1e-3", "{-1e-5}", "1e-6", "1e-7", "1e-9", "1e-12", "40", "1e3", "{-1e5}", "1e6"];

fn run(c: &mut Ctx) {
    let g = grid(c.thorough());
    let n = &NAMES;
    let int = vec![false, false, true];
    let mut all: Vec<Con> = cons(LIN, n);
    let lin = all.clone();
    all.extend(cons(NLIN, n));
    let objs: Vec<Option<Obj>> = OBJ.iter().map(|o| obj(o, n)).collect();
    let spec = |o: &Option<Obj>, cs: Vec<Con>, int: &Vec<bool>| Spec { names: n.to_vec(), int: int.clone(), obj: o.clone(), cons: cs };
    c.section("no constraint and one constraint, every objective, every integrality pattern");
    for o in &objs {
        for m in 0..8 {
            let i: Vec<bool> = (0..3).map(|k| m >> k & 1 == 1).collect();
            go(c, &spec(o, vec![], &i), &g);
            for a in &all { if c.done() { return; } go(c, &spec(o, vec![a.clone()], &i), &g); }
        }
    }
    c.section("ordered pairs of constraints");
    let step = c.pick(6, 1);
    for a in &all { for (q, b) in all.iter().enumerate() { for (i, o) in objs.iter().enumerate() {
        if (i + q) % step != 1 % step { continue; }
        if c.done() { return; }
        go(c, &spec(o, vec![a.clone(), b.clone()], &int), &g);
    } } }
    c.section("ordered triples of limits and rows on one variable");
    let lims = cons(&["x | 2", "1 | x", "x | 2 + {0}", "x + 1 | 3", "2*x | 3", "-x | 1", "x - y | 1", "x*x | 1"], n);
    for a in &lims { for b in &lims { for d in &lims {
        if c.done() { return; }
        go(c, &spec(&objs[4], vec![a.clone(), b.clone(), d.clone()], &int), &g[..60]);
    } } }
    c.section("many rows");
    let pool = cons(&["x + y | 1", "x*y | 0.5", "x | 2", "2*y | 3", "y | x*x", "k | 1"], n);
    let top = c.pick(10, 24);
    for len in 3..=top { for s in 0..pool.len() { for st in [1usize, 5, 7, 11] {
        if c.done() { return; }
        let cs: Vec<Con> = (0..len).map(|i| pool[(s + i * st) % pool.len()].clone()).collect();
        go(c, &spec(&objs[6], cs, &int), &g[..40]);
    } } }
    let _ = lin;
    c.section("coefficients near one, near zero and large, alone and among others");
    for a in ODD {
        let texts = [format!("{}*x | 2", a), format!("3 | x*{}", a), format!("x/{} | -1", a), format!("{}*x + y | 1", a), format!("y + {}*x + k + 3*y | x + y", a), format!("{}*x + y*y | 1", a), format!("x - y | x*{}", a), format!("{}*x - 2*x | 1", a), format!("k*{} | 1", a)];
        let os = [format!("min {}*x + y", a), format!("max y - x*{} + k + x", a), format!("min {}*x*x + y", a), format!("max k/{}", a)];
        let v: f64 = a.trim_start_matches('{').trim_end_matches('}').parse().unwrap();
        let mut pts = g.clone();
        for m in [2., -1., 3., 1., 0.5] { for d in [-0.3, -1e-5, 0., 1e-5, 0.3] { let x: f64 = m / v * (1. + d); if x.abs() < 5e7 { pts.push([x, 1. - m, (x + m).round()]); pts.push([0.5, x, x]); } } }
        for (i, t) in texts.iter().enumerate() { for (ri, r) in RELS.iter().enumerate() {
            if c.done() { return; }
            let o = obj(&os[(i + ri) % 4], n);
            for lim in [None, Some("x | 2"), Some("1 | x")] {
                let mut cs = vec![con(t, *r, n)];
                if let Some(l) = lim { cs.insert(i % 2, con(l, RELS[1 + (i + ri) % 2], n)); }
                go(c, &spec(&o, cs, &int), &pts);
            }
        } }
    }
    // Ranges beyond the default limits of +-1e8, one keyed case per model and point.
    c.section("right-hand sides of every size");
    for v in sizes(c.thorough()) { for (i, t) in SIZED.iter().enumerate() { for (ri, r) in RELS.iter().enumerate() {
        if c.done() { return; }
        let pts = around(v);
        go(c, &spec(&objs[(i * 3 + ri) % objs.len()], vec![sized(t, v, *r)], &int), &pts);
        for w in [0.5, 2., -1.] { go(c, &spec(&objs[4], vec![sized(t, v, *r), sized("x | V", v * w, RELS[1 + (ri + i) % 2])], &int), &pts); }
    } } }
    c.section("fixed and nearly fixed variables");
    for (vi, v) in [0., 1., -1., 2., 0.5, 3e-4, -40., 2.5e4, 1e7].iter().cloned().enumerate() { for w in [0., 1e-6, 1e-3] { for (ti, t) in ["x", "y", "k"].iter().enumerate() { for (m, turn) in [false, true].iter().enumerate() {
        if c.done() { return; }
        let (mut cs, pts) = fixed(t, v, w);
        if *turn { cs.reverse(); }
        go(c, &spec(&objs[(vi + ti + m) % objs.len()], cs, &int), &pts);
    } } } }
    c.section("variables named like those that numopt makes");
    for names in [["_s_a0_", "_s_j0_", "_s_a1_"], ["_s_j0_", "", "_s_a0_"], ["_s_a0_", "x", "_s_j1_"]] {
        for (i, a) in all.iter().enumerate() { for (j, b) in all.iter().enumerate() {
            if (i * 7 + j) % c.pick(11, 3) != 0 { continue; }
            if c.done() { return; }
            let sp = Spec { names: names.to_vec(), int: int.clone(), obj: objs[(i + j) % objs.len()].clone(), cons: vec![a.clone(), b.clone()] };
            c.case(|| format!("{:?}: {}", names, sp.show()), |c| { let s = equivalence(&sp, &g[..60], true)?; c.step(s.feas + s.infeas); c.trace(); if s.feas > 0 && s.infeas > 0 { c.nontrivial(); } Ok(()) });
        } }
    }
    c.section("large magnitudes");
    for t in ["x | 2e8", "1000*x | 2e8", "x*x | 1e6", "x | 5e7"] {
        for rel in RELS {
            for (pi, p) in [[0., 0., 0.], [2e8, 0., 0.], [-2e8, 0., 0.], [1e5, 5e4, 0.]].iter().enumerate() {
                let k = con(t, rel, n);
                let sp = spec(&objs[1], vec![k.clone()], &int);
                c.case(|| format!("{} at {:?}", sp.show(), p), |c| {
                    let key = format!("range:{}@{}", k.text.replace(' ', ""), pi);
                    match equivalence(&sp, &[*p], false) {
                        Ok(_) => { c.trace(); Ok(()) }
                        // only the finding itself has a key: a feasible point that is excluded
                        Err(e) => Err(Fail { key: if e.msg.contains("infeasible in the standard form but feasible") || e.msg.contains("not satisfiable although the constraint is satisfied") { Some(key) } else { None }, msg: e.msg }),
                    }
                });
            }
        }
    }
    // the other direction has no finding: no limit is lost, whatever its size
    c.section("nothing that violates a constraint is let in, at any magnitude");
    for v in [5e7, 9.9e7, 1e8, 1.000001e8, 1.5e8, 2e8, 1e9, 1e12, 1e20, 1e100] { for s in [1., -1.] {
        let v: f64 = v * s;
        for t in ["x | V", "V | x", "-x | V", "x + y | V", "2*x | V", "x*x*x | V", "x + 1 | V", "k | V", "x - y*y | V"] { for rel in RELS { for other in [None, Some("x | 1"), Some("y | 2e8"), Some("{3e8} | x")] {
            if c.done() { return; }
            let mut cs = vec![sized(t, v, rel)];
            if let Some(o) = other { cs.push(con(o, if rel == Rel::Ge { Rel::Le } else { Rel::Ge }, n)); }
            let sp = spec(&objs[1], cs, &int);
            c.case(|| format!("{} (only points that violate it)", sp.show()), |c| {
                for x in [0., v, -v, v * 1.25, v * 0.75, v + 1e7, v - 1e7, 1e8, -1e8, 9e7, -9e7, 2e8, -2e8, v / 2.] { for y in [0., x, 1e4] {
                    match equivalence(&sp, &[[x, y, x.round()]], false) {
                        Ok(s) => c.step(1 + s.infeas),
                        Err(e) if e.msg.contains("infeasible in the standard form but feasible") || e.msg.contains("not satisfiable although the constraint is satisfied") => (),
                        Err(e) => return Err(Fail { key: None, msg: format!("at {:?}: {}", [x, y], e.msg) }),
                    }
                } }
                c.nontrivial();
                c.trace();
                Ok(())
            });
        } } }
    } }
    c.section("models of many variables and constraints");
    for (n, m) in [(2usize, 3usize), (5, 4), (9, 9), (17, 5), (33, 12), (65, 8), (20, 40), (130, 20), (190, 2), (3, 1100), (40, 300)].iter().cloned().chain(if c.thorough() { vec![(260, 30), (70, 130), (300, 3), (2, 4200)] } else { vec![] }) { for kind in 0..6 { for linear in [true, false] { for ints in [0usize, 1, 3] {
        if !linear && n * m > c.pick(1000, 4000) { continue; }
        if c.done() { return; }
        let w = wide_model(kind, n, m, linear, ints);
        c.case(|| format!("kind {}, {}", kind, w.show()), |c| {
            let (y, n) = equivalent(&w)?;
            c.step(y + n);
            if y > 0 && n > 0 { c.nontrivial(); }
            c.trace();
            c.state(hash_u64s(&[kind as u64, y, n, w.cons.len() as u64]));
            Ok(())
        });
    } } } }
}
