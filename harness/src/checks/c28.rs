//! C28: the exported comparison of vectors accepts exactly vectors that agree.

use crate::ck;
use crate::fw::*;
use numopt::macros::approx;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C28", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one pair of lengths with one tolerance; all pairs of vectors of these lengths over a set of numbers (signed zeros, neighbouring, huge, infinite and undefined ones included) are compared, as vectors, slices and arrays; non-trivial: some pairs are accepted and some refused",
        assumptions: &["elements agree when their difference, as computed, is at most the tolerance; pairs with equal infinities at one place are not judged"],
    }
}

const NUMS: &[f64] = &[0., -0., 1., 1. + 1e-9, 1.0000000000000002, -1., 2., 1e-12, 5e-324, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
const EPS: &[f64] = &[0., 1e-15, 1e-9, 2e-9, 0.5, 1., 3., f64::INFINITY];

fn agree(a: &[f64], b: &[f64], e: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y || (x - y).abs() <= e)
}

fn passes(a: &[f64], b: &[f64], e: f64, form: u8) -> bool {
    catch(|| match form {
        0 => { let (x, y) = (a.to_vec(), b.to_vec()); numopt::assert_vec_approx_eq!(x, y, epsilon = e); }
        1 => { numopt::assert_vec_approx_eq!(a, b, epsilon = e); }
        2 => { let y = b.to_vec(); numopt::assert_vec_approx_eq!(a, y, epsilon = e); }
        _ => { let mut x = [0.; 2]; x.copy_from_slice(a); numopt::assert_vec_approx_eq!(x, b.to_vec(), epsilon = e); }
    }).is_ok()
}

fn vectors(n: usize, nums: &[f64], f: &mut dyn FnMut(&[f64])) {
    let mut ix = vec![0usize; n];
    loop {
        let v: Vec<f64> = ix.iter().map(|i| nums[*i]).collect();
        f(&v);
        let mut i = n;
        loop {
            if i == 0 { return; }
            i -= 1;
            ix[i] += 1;
            if ix[i] < nums.len() { break; }
            ix[i] = 0;
        }
    }
}

fn pairs(c: &mut Ctx, n: usize, k: usize, e: f64, nums: &[f64]) -> Res {
    let (mut yes, mut no, mut fail) = (0u64, 0u64, None);
    vectors(n, nums, &mut |a| vectors(k, nums, &mut |b| {
        if fail.is_some() { return; }
        if a.iter().zip(b.iter()).any(|(x, y)| x.is_infinite() && x == y) { return; }
        let w = agree(a, b, e);
        for form in 0..4u8 {
            if form == 3 && n != 2 || form == 2 && nums.len() > 8 { continue; }
            if passes(a, b, e, form) != w { fail = Some(format!("{:?} and {:?} with tolerance {:e} (form {}) are {}", a, b, e, form, if w { "refused" } else { "accepted" })); }
        }
        if w { yes += 1 } else { no += 1 }
    }));
    if let Some(f) = fail { return Err(f.into()); }
    c.step(yes + no);
    if no > 0 && (yes > 0 || n != k) { c.nontrivial(); c.trace(); }
    c.state(hash_u64s(&[n as u64, k as u64, e.to_bits(), yes]));
    Ok(())
}

fn run(c: &mut Ctx) {
    c.section("all pairs of short vectors");
    for e in EPS { for n in 0..=2usize { for k in 0..=2usize {
        let nums: Vec<f64> = if n + k > 2 && !c.thorough() { [0., 1., 1. + 1e-9, -1., 1e300, f64::INFINITY, f64::NAN].to_vec() } else { NUMS.to_vec() };
        c.case(|| format!("lengths {} and {}, tolerance {:e}", n, k, e), |c| pairs(c, n, k, *e, &nums));
    } } }
    for (n, k) in [(3usize, 3usize), (3, 2), (2, 3), (3, 0), (0, 3), (1, 3), (3, 1)] { for e in [0., 1e-9, 1.] {
        c.case(|| format!("lengths {} and {}, tolerance {:e}", n, k, e), |c| pairs(c, n, k, e, &[0., 1., 1. + 1e-9, f64::NAN]));
    } }
    c.section("one differing element in vectors of every length");
    for n in 1..=c.pick(70usize, 300) {
        c.case(|| format!("length {}", n), |c| {
            let a: Vec<f64> = (0..n).map(|i| (i % 7) as f64 - 3.).collect();
            for i in 0..n { for (d, e) in [(1e-7, 1e-8), (1e-9, 1e-8), (-1e-7, 1e-8), (1., 0.), (0., 0.), (f64::NAN, 1.), (f64::INFINITY, 1e300)] {
                let mut b = a.clone();
                b[i] += d;
                ck!(passes(&a, &b, e, 1) == agree(&a, &b, e), "element {} differs by {:e} with tolerance {:e}", i, d, e);
                ck!(passes(&b, &a, e, 0) == agree(&b, &a, e), "element {} differs by {:e} with tolerance {:e}", i, d, e);
                c.step(2);
            } }
            for k in 0..n {
                ck!(!passes(&a, &a[..k], 1e9, 1) && !passes(&a[..k], &a, 1e9, 0), "lengths {} and {} are accepted", n, k);
                c.step(2);
            }
            c.nontrivial(); c.trace();
            c.state(n as u64);
            Ok(())
        });
    }
    c.section("long vectors");
    for n in [511usize, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100000] {
        c.case(|| format!("length {}", n), |c| {
            let a: Vec<f64> = (0..n).map(|i| (i % 7) as f64 - 3.).collect();
            let mut at: Vec<usize> = (0..n).step_by((n / c.pick(40, 200)).max(1)).collect();
            let mut k = 1;
            while k < n { at.extend([k - 1, k]); k *= 2; }
            at.extend((0..9).chain(n - 9..n));
            for i in at { for (d, e) in [(1e-7, 1e-8), (1e-9, 1e-8), (-1., 0.), (0., 0.), (f64::NAN, 1.)] {
                let mut b = a.clone();
                b[i] += d;
                ck!(passes(&a, &b, e, 1) == agree(&a, &b, e), "element {} differs by {:e} with tolerance {:e}", i, d, e);
                ck!(passes(&b, &a, e, 0) == agree(&b, &a, e), "element {} differs by {:e} with tolerance {:e}", i, d, e);
                c.step(2);
            } }
            // two lengths that differ by a power of two, ten or so; equal where both have elements
            let mut k = 1;
            while k <= n { for l in [k, k - 1, n - k, n - k + 1] {
                if l == n { continue; }
                ck!(!passes(&a, &a[..l], 1e9, 1) && !passes(&a[..l], &a, 1e9, 0), "lengths {} and {} are accepted", n, l);
                c.step(2);
            } k *= 2; }
            c.nontrivial(); c.trace();
            c.state(n as u64);
            Ok(())
        });
    }
}
