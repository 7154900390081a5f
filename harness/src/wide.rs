//! Expressions over many variables: reference values, gradients and Hessians of any dimension.

use crate::model::T;
use numopt::model::*;

#[derive(Clone, Debug)]
pub struct Dj { pub v: f64, pub g: Vec<f64>, pub h: Vec<Vec<f64>> }

fn chain(a: &Dj, p: f64, p1: f64, p2: f64) -> Dj {
    let n = a.g.len();
    let mut r = Dj { v: p, g: a.g.iter().map(|x| p1 * x).collect(), h: vec![vec![0.; n]; n] };
    for i in 0..n { for j in 0..n { r.h[i][j] = p2 * a.g[i] * a.g[j] + p1 * a.h[i][j]; } }
    r
}
fn lin(a: &Dj, b: &Dj, s: f64) -> Dj {
    let n = a.g.len();
    let mut r = a.clone();
    r.v += s * b.v;
    for i in 0..n { r.g[i] += s * b.g[i]; for j in 0..n { r.h[i][j] += s * b.h[i][j]; } }
    r
}
fn mul(a: &Dj, b: &Dj) -> Dj {
    let n = a.g.len();
    let mut r = Dj { v: a.v * b.v, g: vec![0.; n], h: vec![vec![0.; n]; n] };
    for i in 0..n {
        r.g[i] = a.g[i] * b.v + a.v * b.g[i];
        for j in 0..n { r.h[i][j] = a.h[i][j] * b.v + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.v * b.h[i][j]; }
    }
    r
}

pub fn dj(t: &T, x: &[f64]) -> Dj {
    let n = x.len();
    let c = |v: f64| Dj { v, g: vec![0.; n], h: vec![vec![0.; n]; n] };
    match t {
        T::V(i) => { let mut r = c(x[*i]); r.g[*i] = 1.; r }
        T::C(v) | T::K(v) => c(*v),
        T::Add(a, b) => lin(&dj(a, x), &dj(b, x), 1.),
        T::Sub(a, b) => lin(&dj(a, x), &dj(b, x), -1.),
        T::Mul(a, b) => mul(&dj(a, x), &dj(b, x)),
        T::Div(a, b) => { let q = dj(b, x); let i = 1. / q.v; mul(&dj(a, x), &chain(&q, i, -i * i, 2. * i * i * i)) }
        T::Neg(a) => lin(&c(0.), &dj(a, x), -1.),
        T::Sin(a) => { let q = dj(a, x); chain(&q, q.v.sin(), q.v.cos(), -q.v.sin()) }
        T::Cos(a) => { let q = dj(a, x); chain(&q, q.v.cos(), -q.v.sin(), -q.v.cos()) }
    }
}

fn b(t: T) -> Box<T> { Box::new(t) }
fn v(i: usize) -> T { T::V(i) }
fn co(i: usize) -> f64 { [1., -2., 0.5, 3., -1.][i % 5] }
fn term(i: usize) -> T { if i % 3 == 0 { v(i) } else { T::Mul(b(T::C(co(i))), b(v(i))) } }
fn fold(ts: Vec<T>) -> T { let mut it = ts.into_iter(); let f = it.next().unwrap(); it.fold(f, |l, r| T::Add(b(l), b(r))) }
fn foldr(mut ts: Vec<T>) -> T { let mut r = ts.pop().unwrap(); while let Some(l) = ts.pop() { r = T::Add(b(l), b(r)); } r }
fn tree(ts: &[T]) -> T { if ts.len() == 1 { ts[0].clone() } else { let m = ts.len() / 2; T::Add(b(tree(&ts[..m])), b(tree(&ts[m..]))) } }

pub const KINDS: &[&str] = &["affine", "affine right to left", "affine tree", "affine over 2", "affine minus affine", "affine scaled and shifted", "squares", "neighbours", "square of sum", "sines", "cosine of sum", "fractions", "half linear", "differences squared"];

/// (expression, linear by construction?)
pub fn wide_expr(kind: &str, n: usize) -> (T, bool) {
    let all = |f: &dyn Fn(usize) -> T| (0..n).map(|i| f(i)).collect::<Vec<T>>();
    let aff = || fold(all(&term));
    match kind {
        "affine" => (T::Add(b(aff()), b(T::C(1.5))), true),
        "affine right to left" => (T::Sub(b(T::C(0.25)), b(foldr(all(&term)))), true),
        "affine tree" => (T::Add(b(tree(&all(&term))), b(T::K(-2.))), true),
        "affine over 2" => (T::Div(b(T::Add(b(aff()), b(T::C(3.)))), b(T::C(2.))), true),
        "affine minus affine" => (T::Sub(b(T::Add(b(aff()), b(T::C(3.)))), b(T::Sub(b(tree(&all(&|i| T::Mul(b(v(i)), b(T::C(0.75)))))), b(T::C(7.))))), true),
        "affine scaled and shifted" => (T::Sub(b(T::Mul(b(T::K(-3.)), b(T::Sub(b(aff()), b(T::C(1.)))))), b(T::Neg(b(T::Mul(b(aff()), b(T::C(0.5))))))), true),
        "squares" => (fold(all(&|i| T::Mul(b(term(i)), b(v(i))))), false),
        "neighbours" => (fold(all(&|i| T::Mul(b(v(i)), b(v((i + 1) % n))))), false),
        "square of sum" => (T::Mul(b(aff()), b(aff())), false),
        "sines" => (tree(&all(&|i| T::Sin(b(term(i))))), false),
        "cosine of sum" => (T::Cos(b(aff())), false),
        "fractions" => (fold(all(&|i| T::Div(b(v(i)), b(T::Add(b(T::Mul(b(v((i + 1) % n)), b(v((i + 1) % n)))), b(T::C(2.))))))), false),
        "far pairs" => (T::Add(b(fold(all(&|i| T::Mul(b(v(i)), b(v(n - 1 - i)))))), b(T::Mul(b(v(0)), b(T::Sin(b(v(n - 1))))))), false),
        "half linear" => (foldr(all(&|i| if i % 2 == 0 { term(i) } else { T::Mul(b(v(i)), b(v(i / 2))) })), false),
        _ => (fold(all(&|i| { let d = T::Sub(b(v(i)), b(v((i + 1) % n))); T::Mul(b(d.clone()), b(d)) })), false),
    }
}

pub fn wvars(n: usize, same: bool) -> Vec<Node> {
    (0..n).map(|i| { let s = if same { "w".to_string() } else { format!("w{}", i) }; if i % 4 == 3 { VariableScalar::new_integer(&s) } else { VariableScalar::new_continuous(&s) } }).collect()
}

pub fn wpoints(n: usize) -> Vec<Vec<f64>> {
    vec![(0..n).map(|i| 0.5 + 0.125 * ((i * 7) % 11) as f64).collect(), (0..n).map(|i| (if i % 2 == 0 { 1. } else { -1. }) * (0.25 + 0.0625 * ((i * 5) % 13) as f64)).collect(), vec![0.; n]]
}

/// Equal up to rounding: sums of up to some hundred terms of magnitude one.
pub fn near(a: f64, w: f64, n: usize) -> bool { (a - w).abs() <= 1e-10 * (10. + w.abs() + (n * n) as f64) }

pub const SIZES: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40];

/// An expression of x and y in which a term occurs `k` times, with different factors; (expression, sum of factors).
/// The term is x*y, sin(x)*y or x + 2*y.
pub const SHAPES: &[&str] = &["left to right", "right to left", "tree", "doubled", "pairs"];
pub const TERMS: &[&str] = &["x*y", "sin(x)*y", "x + 2*y"];
pub fn repeated(shape: &str, term: usize, shared: bool, k: usize, x: &Node, y: &Node) -> (Node, f64) {
    let mk = || match term { 0 => x * y, 1 => x.sin() * y, _ => x + 2. * y };
    let one = mk();
    let t = || if shared { one.clone() } else { mk() };
    let co = |i: usize| 1. + 0.25 * (i % 5) as f64;
    let ct = |i: usize| co(i) * t();
    let sum: f64 = (0..k).map(|i| co(i)).sum();
    match shape {
        "left to right" => ((1..k).fold(ct(0), |e, i| e + ct(i)), sum),
        "right to left" => ((1..k).fold(ct(0), |e, i| ct(i) + e), sum),
        "tree" => {
            let mut l: Vec<Node> = (0..k).map(|i| ct(i)).collect();
            while l.len() > 1 { l = l.chunks(2).map(|p| if p.len() == 2 { &p[0] + &p[1] } else { p[0].clone() }).collect(); }
            (l.pop().unwrap(), sum)
        }
        // 2^m >= k occurrences along different paths of one shared expression
        "doubled" => { let mut e = t(); let mut c = 1.; let mut n = 1; while n < k { e = &e + &e; c *= 2.; n *= 2; } (e, c) }
        _ => { let mut e = ct(0); let mut c = 1.; let mut i = 1; while i + 1 < k { e = e + (ct(i) - t()); c += co(i) - 1.; i += 2; } (e, c) }
    }
}
/// Value, gradient and Hessian (xx, xy, yy) of the term.
pub fn term_at(term: usize, x: f64, y: f64) -> (f64, [f64; 2], [f64; 3]) {
    match term { 0 => (x * y, [y, x], [0., 1., 0.]), 1 => (x.sin() * y, [x.cos() * y, x.sin()], [-x.sin() * y, x.cos(), 0.]), _ => (x + 2. * y, [1., 2.], [0.; 3]) }
}
pub const REPEATS: &[usize] = &[20, 40, 70, 110, 150, 200, 260, 350, 520, 700, 1030, 1500, 2060, 3100];
