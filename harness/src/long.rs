//! Very long expressions with values known in closed form.

use numopt::model::*;

pub const LONG_KINDS: usize = 11;

/// An affine expression of n terms over v: the expression, its slopes and constant, and the sum of all magnitudes.
pub fn long_affine(kind: usize, n: usize, v: &[Node]) -> (Node, Vec<f64>, f64, f64) {
    use numopt::model::function::add::FunctionAdd;
    let m = v.len();
    let (mut a, mut b, mut mag) = (vec![0.; m], 0., 0.);
    let mut put = |k: usize, x: f64| { if k < m { a[k] += x } else { b += x }; mag += x.abs(); };
    let co = |k: usize| [1., -1., 2., 0.5, -3., 4.][k % 6];
    let e = match kind {
        0 => { put(0, 1.); let mut e = v[0].clone(); for k in 1..n { put(k % m, 1.); e = e + &v[k % m]; } e }
        1 => { put(0, 1.); let mut e = v[0].clone(); for k in 1..n { put(k % m, 1.); e = &v[k % m] + e; } e }
        2 => { put(0, 1.); let mut e = v[0].clone(); for k in 1..n { put(k % m, -1.); e = e - &v[k % m]; } e }
        3 => { put(0, 2.); let mut e = 2. * &v[0]; for k in 1..n { put(k % m, co(k)); e = e + co(k) * &v[k % m]; } e }
        4 => { put(0, 1.); let mut e = v[0].clone(); for k in 1..n { if k % 3 == 0 { put(m, co(k)); e = e + co(k); } else { put(k % m, 1.); e = e + &v[k % m]; } } e }
        5 => { let ts: Vec<Node> = (0..n.max(2)).map(|k| { put(k % m, 1.); v[k % m].clone() }).collect(); FunctionAdd::new(ts) }
        6 => { let ts: Vec<Node> = (0..n.max(2)).map(|k| if k % 4 == 3 { put(m, co(k)); ConstantScalar::new(co(k)) } else { put(k % m, co(k)); co(k) * &v[k % m] }).collect(); FunctionAdd::new(ts) }
        7 => { let mut ts: Vec<Node> = (0..n).map(|k| { put((k * k) % m, co(k)); &v[(k * k) % m] * co(k) }).collect();
            while ts.len() > 1 { ts = ts.chunks(2).map(|q| if q.len() == 2 { &q[0] + &q[1] } else { q[0].clone() }).collect(); } ts.pop().unwrap() }
        8 => { // parts that are long sums themselves
            let h = n / 2;
            let mut p = v[0].clone(); let mut q = v[1 % m].clone(); put(0, 1.); put(1 % m, -1.);
            for k in 1..h { put(k % m, 1.); p = p + &v[k % m]; put((k + 1) % m, -1.); q = q + &v[(k + 1) % m]; } p - q }
        9 => { put(0, 1.); let mut e = v[0].clone(); for _ in 1..n { put(0, 1.); e = e + &v[0]; } put(m - 1, 1.); put(m, 7.); e + &v[m - 1] + 7. }
        _ => { // one sum added many times
            let s = &v[0] + 2. * &v[m - 1] + 1.;
            let mut e = s.clone(); put(0, 1.); put(m - 1, 2.); put(m, 1.);
            for _ in 1..n / 3 + 1 { put(0, 1.); put(m - 1, 2.); put(m, 1.); e = e + &s; } e }
    };
    (e, a, b, mag)
}

pub fn long_sizes(thorough: bool) -> Vec<usize> {
    let mut s: Vec<usize> = vec![66, 99, 100, 101, 127, 128, 129, 130, 199, 200, 201, 255, 256, 257, 258, 259, 300, 301, 302, 303, 401, 499, 500, 501, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1025];
    if thorough { s.extend(67..99); s.extend([2047, 2048, 2049, 3001, 4097, 5003]); }
    s
}

pub const DEEP_KINDS: usize = 11;
/// Those of the deep kinds that are linear in the variables.
pub const DEEP_AFFINE: usize = 7;

pub fn deep_sizes(thorough: bool, many_paths: bool) -> Vec<usize> {
    let mut s: Vec<usize> = vec![1, 2, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129];
    if !many_paths { s.extend([150, 200, 255, 256, 257, 300, 500]); }
    if thorough { s.extend([40, 50, 51, 90, 111, 140]); if !many_paths { s.extend([301, 511, 513, 1000]); } }
    s
}

/// An expression nested n deep over two variables, and its value and gradient at x: (value, dx, dy).
pub fn deep(kind: usize, n: usize, v: &[Node], x: &[f64]) -> (Node, [f64; 3]) {
    use numopt::model::function::{add::FunctionAdd, div::FunctionDiv, mul::FunctionMul};
    let k = |c: f64| ConstantScalar::new(c);
    let (mut e, mut w) = (v[0].clone(), [x[0], 1., 0.]);
    for i in 0..n {
        let s = |w: [f64; 3], f: f64| [w[0] * f, w[1] * f, w[2] * f];
        match kind {
            0 => { e = -e; w = s(w, -1.); }
            1 => if i % 2 == 0 { e = 2. * e; w = s(w, 2.) } else { e = e * 0.5; w = s(w, 0.5) },
            2 => if i % 2 == 0 { e = e / 4.; w = s(w, 0.25) } else { e = k(4.) * e; w = s(w, 4.) },
            3 => { e = 1. - e; w = s(w, -1.); w[0] += 1.; }
            4 => { e = -e + 0.25 * &v[1]; w = s(w, -1.); w[0] += 0.25 * x[1]; w[2] += 0.25; }
            5 => { e = FunctionAdd::new(vec![FunctionMul::new(k(-0.5), e), v[1].clone()]); w = s(w, -0.5); w[0] += x[1]; w[2] += 1.; }
            6 => { e = FunctionDiv::new(FunctionAdd::new(vec![e, v[0].clone()]), k(2.)); w = [(w[0] + x[0]) / 2., (w[1] + 1.) / 2., w[2] / 2.]; }
            7 => { e = e.sin(); w = [w[0].sin(), w[0].cos() * w[1], w[0].cos() * w[2]]; }
            8 => { e = e.cos(); w = [w[0].cos(), -w[0].sin() * w[1], -w[0].sin() * w[2]]; }
            9 => { e = e.sin() + 0.5 * &v[0] - &v[1] * 0.25; w = [w[0].sin() + 0.5 * x[0] - 0.25 * x[1], w[0].cos() * w[1] + 0.5, w[0].cos() * w[2] - 0.25]; }
            _ => { let q = 1. + x[1] / 1024.; e = e / (&v[1] / 1024. + 1.); w = [w[0] / q, w[1] / q, w[2] / q - w[0] / (q * q) / 1024.]; }
        }
    }
    (e, w)
}
pub const DEEP_POINTS: [[f64; 2]; 3] = [[0.7, -1.25], [-2.5, 3.], [1., 0.5]];
pub fn many_paths(kind: usize) -> bool { matches!(kind, 4 | 5 | 6 | 9 | 10) }
