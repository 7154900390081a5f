//! C01: expressions evaluate like ordinary arithmetic.

use crate::expr::*;
use crate::fw::*;
use crate::wide::*;
use crate::{bad, ck};
use numopt::model::*;
use std::collections::HashMap;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C01", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one program of operator applications (with sharing, constants, numbers on either side, one ownership pattern), executed on the real operators and compared at every point with the reference jet; non-trivial: at least one point was well defined and compared",
        assumptions: &["points where the arithmetic is undefined or loses more than six digits are not compared", "relative tolerance 1e-9 of the sum of magnitudes"],
    }
}

struct Env { vars: Vec<Node> }

fn check(c: &mut Ctx, p: &Prog, vars: &[Node], own: &dyn Fn(usize) -> u8, last_only: bool) -> Res {
    let jets: Vec<Vec<Jet>> = PTS.iter().map(|pt| p.jets(pt)).collect();
    let s = match p.build(vars, own) {
        Ok(s) => s,
        Err((k, m)) => {
            // only a division whose divisor is a constant zero may panic
            let i = p.ins[k];
            let zero = i.op == Op::Div && match i.b {
                Opd::Scalar(v) => v == 0.,
                Opd::Slot(b) => p.syntax()[b as usize].0 == 0 && jets[0][b as usize].v == 0.
                    || jets.iter().all(|j| j[b as usize].v == 0. || !j[b as usize].ok),
            };
            ck!(zero, "instruction {} panics: {}", k, m);
            c.note("divisions_by_literal_zero_refused", 1);
            return Ok(());
        }
    };
    let first = if last_only { s.len() - 1 } else { p.base() };
    let mut any = false;
    let mut got: Vec<f64> = Vec::with_capacity(8);
    for (pt, js) in PTS.iter().zip(jets.iter()) {
        let m = assign(vars, pt);
        for k in first..s.len() {
            let g = s[k].evaluate(&m);
            let j = &js[k];
            if k + 1 == s.len() { got.push(if j.ok { g } else { 0. }); }
            if !j.ok { continue; }
            any = true;
            ck!(close(g, j.v, j.mv), "r{} at {:?}: evaluates to {:e}, arithmetic gives {:e}", k - p.base(), pt, g, j.v);
        }
        c.step((s.len() - first) as u64);
    }
    // a variable without a value
    let k = s.len() - 1;
    for v in 0..p.nv {
        let dep = jets.iter().all(|js| !js[k].ok || js[k].g[v].abs() > 1e-6 * js[k].mg[v]) && jets.iter().any(|js| js[k].ok);
        if !dep { continue; }
        let mut m: HashMap<&Node, f64> = assign(vars, &PTS[0]);
        m.remove(&vars[v]);
        let g = s[k].evaluate(&m);
        ck!(g.is_nan(), "without a value for {} it evaluates to {:e}", VN[v], g);
        c.step(1);
    }
    if any { c.nontrivial(); c.trace(); }
    c.state(hash_f64s(&got) ^ p.ins.len() as u64);
    Ok(())
}

fn run(c: &mut Ctx) {
    let env = Env { vars: vars(3) };
    let v = &env.vars;
    // every operator overload in every ownership pattern
    c.section("programs of 1 operation, all ownership patterns");
    let sp = |len: usize, nv: usize, consts: &[f64], scalars: &[f64], bin: &[Op], un: &[Op]| Space {
        nv, consts: consts.to_vec(), scalars: scalars.to_vec(), bin: bin.to_vec(), un: un.to_vec(), len };
    let wide = [0., 1., -1., 2., 3., -0.5, 1e-12, 1e9];
    programs(&sp(1, 2, &wide, &wide, &BIN, &UN), &mut |p| {
        for o in 0..4u8 {
            c.case(|| format!("{} (ownership {})", p.show(), o), |c| check(c, p, v, &|_| o, false));
        }
        !c.done()
    });
    c.section("programs of 2 operations, all ownership patterns of the second");
    let cn = c.pick(vec![0., 1., 3.], vec![0., 1., -1., 3., 1e-12]);
    let sc = c.pick(vec![0., 1., -1., 3., 1e-12], wide.to_vec());
    programs(&sp(2, 2, &cn, &sc, &BIN, &UN), &mut |p| {
        let h = (p.hash() & 3) as u8;
        for o in 0..4u8 {
            c.case(|| format!("{} (ownership {},{})", p.show(), h, o), |c| check(c, p, v, &|k| if k == 0 { h } else { o }, false));
        }
        !c.done()
    });
    c.section("programs of 3 operations");
    let (cn, sc) = c.pick((vec![0., 1., 2.], vec![0., 1., -1., 2.]), (vec![0., 1., -1., 2., 3.], vec![0., 1., -1., 2., 3., -0.5]));
    programs(&sp(3, 2, &cn, &sc, &BIN, &UN), &mut |p| {
        let h = p.hash();
        c.case(|| p.show(), |c| check(c, p, v, &|k| (h >> (2 * k)) as u8 & 3, true));
        !c.done()
    });
    if c.thorough() {
        c.section("programs of 4 operations over sums, products and small constants");
        programs(&sp(4, 2, &[], &[1., -1., 2.], &[Op::Add, Op::Sub, Op::Mul], &[Op::Neg]), &mut |p| {
            let h = p.hash();
            c.case(|| p.show(), |c| check(c, p, v, &|k| (h >> (2 * k)) as u8 & 3, true));
            !c.done()
        });
    }
    c.section("growing families");
    for (f, n) in families() {
        let p = family(f, n);
        for o in 0..4u8 {
            c.case(|| format!("family {} of size {} (ownership {}): {}", f, n, o, p.show()), |c| check(c, &p, v, &|_| o, false));
        }
    }
    c.section("families continued by one and two operations");
    let sc = [0., 1., -1., 2., -0.5];
    for (len, top) in [(1, 24), (2, c.pick(4, 8))] {
        tails(top, len, &sc, &mut |p, l| {
            let h = p.hash();
            c.case(|| format!("{}{}", l, p.show()), |c| check(c, p, v, &|k| (h >> (2 * (k % 30))) as u8 & 3, true));
            !c.done()
        });
    }
    c.section("variables that share a name, variables of both kinds");
    for (what, vs) in [("same-named", vars_same()), ("integer and continuous", vars_mixed())] {
        for len in 1..=2 {
            programs(&sp(len, 2, &[1.], &[0., 1., -1., 3.], &BIN, &UN), &mut |p| {
                c.case(|| format!("{} variables: {}", what, p.show()), |c| check(c, p, &vs, &|_| 0, true));
                !c.done()
            });
        }
        for (f, n) in families() {
            let p = family(f, n);
            c.case(|| format!("{} variables: family {} of size {}: {}", what, f, n, p.show()), |c| check(c, &p, &vs, &|_| 1, true));
        }
    }
    c.section("many variables");
    for n in SIZES.iter().cloned().chain([64, 65, 100, 130]) { for k in KINDS { for same in [false, true] {
        c.case(|| format!("{} over {} variables, same names {}", k, n, same), |c| {
            let (t, _) = wide_expr(k, n);
            let vs = wvars(n, same);
            let e = t.node(&vs);
            for x in wpoints(n) {
                let m: HashMap<&Node, f64> = vs.iter().zip(x.iter().cloned()).collect();
                let (g, w) = (e.evaluate(&m), t.eval(&x));
                ck!(near(g, w, n), "evaluates to {:e}, arithmetic gives {:e}", g, w);
                c.step(1);
                c.state(hash_f64s(&[g]));
            }
            c.nontrivial();
            c.trace();
            Ok(())
        });
    } } }
    // one operation on numbers of every size
    c.section("deeply nested expressions");
    for k in 0..crate::long::DEEP_KINDS { for n in crate::long::deep_sizes(c.thorough(), false) { for int in [false, true] {
        if c.done() { return; }
        c.case(|| format!("kind {} nested {} deep, integers {}", k, n, int), |c| {
            let v: Vec<Node> = ["x", "y"].iter().map(|n| if int { VariableScalar::new_integer(n) } else { VariableScalar::new_continuous(n) }).collect();
            for x in crate::long::DEEP_POINTS {
                let (e, w) = crate::long::deep(k, n, &v, &x);
                let q: HashMap<&Node, f64> = v.iter().zip(x.iter().cloned()).collect();
                let g = e.evaluate(&q);
                ck!((g - w[0]).abs() <= 1e-9 * (1. + w[0].abs()), "the value is {:e} instead of {:e}", g, w[0]);
                c.step(1);
                c.state(hash_f64s(&[w[0], k as f64]));
            }
            c.nontrivial();
            c.trace();
            Ok(())
        });
    } } }
    c.section("very long sums and products");
    for n in crate::long::long_sizes(c.thorough()) { for m in [1usize, 2, 3, 7, 60, 400] { for k in 0..crate::long::LONG_KINDS {
        if c.done() { return; }
        c.case(|| format!("sum of kind {} of {} terms over {} variables", k, n, m), |c| {
            let v: Vec<Node> = (0..m).map(|i| VariableScalar::new_continuous(&format!("v{}", i))).collect();
            let (e, a, b, mag) = crate::long::long_affine(k, n, &v);
            for t in 0..3usize {
                let x: Vec<f64> = (0..m).map(|i| if t == 0 { 1. } else { ((i * 5 + t * 3) % 11) as f64 * 0.25 - 1. }).collect();
                let q: HashMap<&Node, f64> = v.iter().zip(x.iter().cloned()).collect();
                let (g, w) = (e.evaluate(&q), b + a.iter().zip(x.iter()).map(|(a, x)| a * x).sum::<f64>());
                ck!((g - w).abs() <= 1e-12 * (1. + mag * 2.), "the value is {:e} instead of {:e}", g, w);
                c.step(1);
            }
            c.nontrivial();
            c.trace();
            c.state(hash_u64s(&[n as u64, m as u64, k as u64]));
            Ok(())
        });
    } }
        c.case(|| format!("product of {} factors", n), |c| {
            let v: Vec<Node> = (0..3).map(|i| VariableScalar::new_continuous(&format!("v{}", i))).collect();
            for shape in 0..3 {
                let mut e = v[0].clone();
                for k in 1..n { e = match shape { 0 => e * &v[k % 3], 1 => &v[k % 3] * e, _ => e / &v[k % 3] }; }
                for x in [[-1., 1., -1.], [1.0625, 0.9375, -1.], [0.5, 2., 1.]] {
                    let mut w: f64 = x[0];
                    for k in 1..n { if shape == 2 { w /= x[k % 3] } else { w *= x[k % 3] } }
                    let g = e.evaluate(&v.iter().zip(x.iter().cloned()).collect());
                    ck!((g - w).abs() <= 1e-15 * 4. * n as f64 * w.abs(), "shape {}: the value at {:?} is {:e} instead of {:e}", shape, x, g, w);
                    c.step(1);
                }
            }
            c.nontrivial();
            c.trace();
            Ok(())
        });
    }
    c.section("numbers of every size");
    let mut mags: Vec<f64> = vec![0.];
    for k in (-15..=15).step_by(c.pick(3, 1)) { for m in [1., 1.0000000001, 2.75] { mags.push(m * 10f64.powi(k)); } }
    for b in [127., 128., 255., 256., 257., 1000., 32767., 32768., 65535., 65536., 2147483647., 2147483648., 4294967296., 9007199254740992.] { mags.extend([b, b + 0.5]); }
    for k in [20, 50, 100, 150, 200, 250, 299, 303, 307].iter().flat_map(|k| [*k, -*k]) { for m in [1., 2.75] { mags.push(m * 10f64.powi(k)); } }
    let mags: Vec<f64> = mags.iter().flat_map(|m| [*m, -*m]).collect();
    for a in mags.iter().cloned() {
        c.case(|| format!("operations on {:e} and numbers of every size", a), |c| {
            let (x, y) = (&v[0], &v[1]);
            let alone: Vec<(&str, Node, f64, f64)> = vec![("sin", x.sin(), a.sin(), 1e-12), ("cos", x.cos(), a.cos(), 1e-12), ("neg", -x, -a, 0.), ("sin of a constant", ConstantScalar::new(a).sin(), a.sin(), 1e-12), ("cos of a constant", ConstantScalar::new(a).cos(), a.cos(), 1e-12), ("constant", ConstantScalar::new(a), a, 0.)];
            let m: HashMap<&Node, f64> = [(x, a)].into_iter().collect();
            for (n, e, w, t) in &alone { let g = e.evaluate(&m); ck!((g - w).abs() <= t + 1e-12 * w.abs(), "{} of {:e} is {:e} instead of {:e}", n, a, g, w); }
            let (sum, dif, pro, quo) = (x + y, x - y, x * y, x / y);
            let (sa, da, pa, qa) = (a + y, a - y, a * y, a / y);
            let k = ConstantScalar::new(a);
            let (sk, dk, pk, qk) = (&k + y, &k - y, &k * y, &k / y);
            let (ys, yd, yp) = (y + a, y - a, y * a);
            let yq = if a != 0. { Some(y / a) } else { None };
            for b in mags.iter().cloned() {
                let m: HashMap<&Node, f64> = [(x, a), (y, b)].into_iter().collect();
                let mut l = vec![("x+y", &sum, a + b), ("x-y", &dif, a - b), ("x*y", &pro, a * b), ("a+y", &sa, a + b), ("a-y", &da, a - b), ("a*y", &pa, a * b),
                    ("k+y", &sk, a + b), ("k-y", &dk, a - b), ("k*y", &pk, a * b), ("y+a", &ys, a + b), ("y-a", &yd, b - a), ("y*a", &yp, a * b)];
                if b != 0. { l.extend([("x/y", &quo, a / b), ("a/y", &qa, a / b), ("k/y", &qk, a / b)]); }
                if let Some(q) = &yq { l.push(("y/a", q, b / a)); }
                for (n, e, w) in l {
                    // beyond the range of numbers nothing is said
                    if !w.is_finite() || w != 0. && w.abs() < 1e-290 && (a.abs().max(b.abs()) > 1e-280 || w.abs() < 1e-307) { continue; }
                    if w == 0. && a != 0. && b != 0. && a.abs() != b.abs() { continue; }
                    let g = e.evaluate(&m);
                    ck!((g - w).abs() <= 1e-14 * w.abs(), "{} at {:e} and {:e} is {:e} instead of {:e}", n, a, b, g, w);
                    c.step(1);
                }
            }
            c.nontrivial();
            c.trace();
            c.state(a.to_bits());
            Ok(())
        });
    }
    // functions of constants, identity elements kept or created
    c.section("constant nodes");
    for a in wide {
        for b in wide {
            c.case(|| format!("constants {:e} {:e}", a, b), |c| {
                let m: HashMap<&Node, f64> = HashMap::new();
                let (x, y) = (ConstantScalar::new(a), ConstantScalar::new(b));
                for (n, g, w) in [("+", (&x + &y).evaluate(&m), a + b), ("-", (&x - &y).evaluate(&m), a - b), ("*", (&x * &y).evaluate(&m), a * b),
                    ("sin", x.sin().evaluate(&m), a.sin()), ("cos", y.cos().evaluate(&m), b.cos()), ("neg", (-&x).evaluate(&m), -a),
                    ("n+", (a + &y).evaluate(&m), a + b), ("n-", (a - &y).evaluate(&m), a - b), ("n*", (a * &y).evaluate(&m), a * b),
                    ("+n", (&x + b).evaluate(&m), a + b), ("-n", (&x - b).evaluate(&m), a - b), ("*n", (&x * b).evaluate(&m), a * b)] {
                    ck!(close(g, w, a.abs() + b.abs() + w.abs()), "{}: {:e} instead of {:e}", n, g, w);
                }
                if b != 0. {
                    for (n, g) in [("/", (&x / &y).evaluate(&m)), ("n/", (a / &y).evaluate(&m)), ("/n", (&x / b).evaluate(&m))] {
                        ck!(close(g, a / b, (a / b).abs()), "{}: {:e} instead of {:e}", n, g, a / b);
                    }
                }
                c.step(15);
                c.nontrivial();
                c.trace();
                c.state(hash_f64s(&[a, b]));
                if false { bad!("unreachable"); }
                Ok(())
            });
        }
    }
    c.section("nodes made by their constructors");
    for len in 1..=3 {
        raw_programs(&raw_space(len, c.thorough()), &mut |p| {
            c.case(|| p.show(), |c| check(c, p, v, &|_| 0, false));
            !c.done()
        });
    }
}
