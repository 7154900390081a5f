//! C15: sparse matrices, over all small entry lists.

use crate::checks::c06::sequences;
use crate::fw::*;
use crate::{bad, ck};
use numopt::matrix::coo::CooMat;
use numopt::matrix::csr::CsrMat;
use numopt::matrix::item::MatItem;
use std::fmt::Debug;

pub fn def() -> CheckDef {
    CheckDef {
        id: "C15", kind: Kind::ModelChecking, run, hang_s: 60, shards: 0,
        rule: "a case is one shape, one list of entries (cells in any order with repetitions), one assignment of values and one element type; all operations are compared with the dense matrix; non-trivial: at least two entries",
        assumptions: &["indices lie in the shape"],
    }
}

/// Exact arithmetic: the values are small integers or powers of two.
trait El: MatItem + PartialEq + Debug { fn of(v: i64) -> Self; }
impl El for f64 { fn of(v: i64) -> f64 { v as f64 * 0.5 } }
impl El for i64 { fn of(v: i64) -> i64 { v } }
impl El for f32 { fn of(v: i64) -> f32 { v as f32 } }
impl El for u32 { fn of(v: i64) -> u32 { v.unsigned_abs() as u32 % 7 } }

fn value(pat: usize, k: usize) -> i64 {
    match pat { 0 => 1 << k, 1 => 0, 2 => if k % 2 == 0 { 3 } else { -3 }, 3 => -(k as i64) - 1, _ => (k as i64 * 7 + 3) % 5 }
}

fn dense_of<T: El>(shape: (usize, usize), e: &[(usize, usize)], v: &[T]) -> Vec<Vec<T>> {
    let mut d = vec![vec![T::zero(); shape.1]; shape.0];
    for (c, x) in e.iter().zip(v) { d[c.0][c.1] += *x; }
    d
}

fn check_csr<T: El>(m: &CsrMat<T>, shape: (usize, usize), d: &[Vec<T>], once: bool, what: &str) -> Res {
    ck!(m.rows() == shape.0 && m.cols() == shape.1, "{}: shape {} x {}", what, m.rows(), m.cols());
    let (p, i, x) = (m.indptr(), m.indices(), m.data());
    ck!(p.len() == shape.0 + 1 && p[0] == 0 && p[shape.0] == i.len() && i.len() == x.len() && m.nnz() == i.len(), "{}: pointers {:?} for {} indices and {} values", what, p, i.len(), x.len());
    let mut g = vec![vec![T::zero(); shape.1]; shape.0];
    for r in 0..shape.0 {
        ck!(p[r] <= p[r + 1], "{}: pointers {:?}", what, p);
        let mut seen = vec![false; shape.1];
        for k in p[r]..p[r + 1] {
            ck!(i[k] < shape.1, "{}: column {}", what, i[k]);
            if once { ck!(!seen[i[k]], "{}: column {} twice in row {}", what, i[k], r); }
            seen[i[k]] = true;
            g[r][i[k]] += x[k];
        }
    }
    ck!(g[..] == *d, "{}: represents {:?} instead of {:?}", what, g, d);
    Ok(())
}

fn check<T: El>(c: &mut Ctx, shape: (usize, usize), e: &[(usize, usize)], pat: usize) -> Res {
    let v: Vec<T> = (0..e.len()).map(|k| T::of(value(pat, k))).collect();
    let d = dense_of(shape, e, &v);
    let (r, q): (Vec<usize>, Vec<usize>) = (e.iter().map(|c| c.0).collect(), e.iter().map(|c| c.1).collect());
    // three ways to the same matrix
    let a = CooMat::new(shape, r.clone(), q.clone(), v.clone());
    let mut b = CooMat::<T>::from_pattern(shape, r.clone(), q.clone());
    ck!(b.data().iter().all(|x| *x == T::zero()) && b.data().len() == e.len(), "a pattern's values are not zero");
    b.data_mut().copy_from_slice(&v);
    let mut f = CooMat::<T>::from_nnz(shape, e.len());
    ck!(f.nnz() == e.len() && f.data().iter().all(|x| *x == T::zero()), "from_nnz");
    for k in (0..e.len()).rev() { f.set_row_ind(k, e[k].0); f.set_col_ind(k, e[k].1); f.data_mut()[k] = v[k]; }
    for (what, m) in [("new", &a), ("from_pattern", &b), ("from_nnz", &f), ("clone", &a.clone())] {
        ck!(m.rows() == shape.0 && m.cols() == shape.1 && m.nnz() == e.len(), "{}: {} x {} with {} entries", what, m.rows(), m.cols(), m.nnz());
        ck!(m.row_inds() == &r[..] && m.col_inds() == &q[..] && m.data() == &v[..], "{}: accessors", what);
        // iteration: all entries in order, also the second time and after its end
        for _ in 0..2 {
            let it: Vec<(usize, usize, T)> = m.iter().map(|(i, j, x)| (*i, *j, *x)).collect();
            ck!(it.len() == e.len() && it.iter().enumerate().all(|(k, t)| (t.0, t.1) == e[k] && t.2 == v[k]), "{}: iteration yields {:?}", what, it);
        }
        // product
        for px in 0..5 {
            let x: Vec<T> = (0..shape.1).map(|j| T::of(value((px + 2) % 5, j) % 8)).collect();
            let mut w = vec![T::zero(); shape.0];
            for i in 0..shape.0 { for j in 0..shape.1 { w[i] += d[i][j] * x[j]; } }
            let y = m * x;
            ck!(y == w, "{}: product {:?} instead of {:?}", what, y, w);
        }
        // rows
        let mut s = m.to_csr();
        check_csr(&s, shape, &d, false, "compressed")?;
        ck!(s.nnz() == e.len(), "compressed: {} entries", s.nnz());
        ck!(m.row_inds() == &r[..] && m.col_inds() == &q[..] && m.data() == &v[..], "compressing changed the matrix");
        let t = s.clone();
        s.sum_duplicates();
        check_csr(&s, shape, &d, true, "after adding duplicates")?;
        check_csr(&t, shape, &d, false, "the clone")?;
        let mut cells = e.to_vec();
        cells.sort();
        cells.dedup();
        ck!(s.nnz() == cells.len(), "{} entries after adding duplicates of {} cells", s.nnz(), cells.len());
        s.sum_duplicates();
        check_csr(&s, shape, &d, true, "after adding duplicates again")?;
        c.state(hash_str(&format!("{:?}{:?}{:?}", shape, s.indices(), s.indptr())));
        c.step(9);
    }
    // compressed rows made directly
    let mut k: Vec<usize> = (0..e.len()).collect();
    k.sort_by_key(|i| e[*i].0);
    let mut ptr = vec![0; shape.0 + 1];
    for x in e { for i in x.0..shape.0 { ptr[i + 1] += 1; } }
    let mut s = CsrMat::new(shape, ptr, k.iter().map(|i| e[*i].1).collect(), k.iter().map(|i| v[*i]).collect());
    check_csr(&s, shape, &d, false, "rows made directly")?;
    s.sum_duplicates();
    check_csr(&s, shape, &d, true, "rows made directly, duplicates added")?;
    c.trace();
    if e.len() > 1 { c.nontrivial(); }
    Ok(())
}

/// The same comparisons for matrices too large for a dense one.
fn large<T: El>(c: &mut Ctx, shape: (usize, usize), e: &[(usize, usize)]) -> Res {
    use std::collections::BTreeMap;
    let v: Vec<T> = (0..e.len()).map(|k| T::of((k as i64 * 7 + 3) % 11 - 5)).collect();
    let mut w: BTreeMap<(usize, usize), T> = BTreeMap::new();
    for (k, x) in e.iter().zip(&v) { *w.entry(*k).or_insert(T::zero()) += *x; }
    let m = CooMat::new(shape, e.iter().map(|c| c.0).collect(), e.iter().map(|c| c.1).collect(), v.clone());
    ck!(m.nnz() == e.len() && m.rows() == shape.0 && m.cols() == shape.1, "{} x {} with {} entries", m.rows(), m.cols(), m.nnz());
    ck!(m.iter().count() == e.len() && m.iter().enumerate().all(|(k, (i, j, x))| (*i, *j) == e[k] && *x == v[k]), "iteration");
    let x: Vec<T> = (0..shape.1).map(|j| T::of((j as i64 * 5) % 7 - 3)).collect();
    let mut y = vec![T::zero(); shape.0];
    for (k, a) in e.iter().zip(&v) { y[k.0] += *a * x[k.1]; }
    let z = &m * x;
    if let Some(i) = (0..shape.0).find(|i| z.len() != shape.0 || z[*i] != y[*i]) { bad!("product: element {} is {:?} instead of {:?} ({} elements)", i, z.get(i), y[i], z.len()); }
    let mut s = m.to_csr();
    for (what, once) in [("compressed", false), ("after adding duplicates", true), ("after adding duplicates again", true)] {
        if what != "compressed" { s.sum_duplicates(); }
        let (p, i, d) = (s.indptr(), s.indices(), s.data());
        ck!(s.rows() == shape.0 && s.cols() == shape.1 && p.len() == shape.0 + 1 && p[0] == 0 && p[shape.0] == i.len() && i.len() == d.len() && s.nnz() == i.len(), "{}: sizes", what);
        ck!(i.len() == if once { w.len() } else { e.len() }, "{}: {} entries", what, i.len());
        let mut g: BTreeMap<(usize, usize), T> = BTreeMap::new();
        for r in 0..shape.0 { ck!(p[r] <= p[r + 1], "{}: pointers of row {}", what, r); for k in p[r]..p[r + 1] { *g.entry((r, i[k])).or_insert(T::zero()) += d[k]; } }
        ck!(g.len() == w.len(), "{}: {} cells instead of {}", what, g.len(), w.len());
        for (a, b) in g.iter().zip(w.iter()) { ck!(a == b, "{}: {:?} instead of {:?}", what, a, b); }
    }
    c.step(6);
    c.trace();
    c.nontrivial();
    c.state(hash_u64s(&[shape.0 as u64, shape.1 as u64, e.len() as u64, w.len() as u64]));
    Ok(())
}

fn run(c: &mut Ctx) {
    let go = |c: &mut Ctx, shape: (usize, usize), e: &[(usize, usize)], pat: usize, ty: usize| {
        c.case(|| format!("{:?} entries {:?} values {} type {}", shape, e, pat, ["f64", "i64", "f32", "u32"][ty]), |c| match ty {
            0 => check::<f64>(c, shape, e, pat), 1 => check::<i64>(c, shape, e, pat), 2 => check::<f32>(c, shape, e, pat), _ => check::<u32>(c, shape, e, pat) });
    };
    c.section("all entry lists");
    for r in 0..=3usize { for q in 0..=3usize {
        let cells: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..q).map(move |j| (i, j))).collect();
        let top = if cells.is_empty() { 0 } else if cells.len() <= 4 { c.pick(8, 9) } else if cells.len() <= 6 { c.pick(6, 7) } else { c.pick(5, 6) };
        for len in 0..=top {
            sequences(cells.len(), len, &mut |s| {
                let e: Vec<(usize, usize)> = s.iter().map(|k| cells[*k]).collect();
                for pat in 0..(if len <= 3 { 5 } else { 2 }) { for ty in 0..(if len <= 3 { 4 } else { 1 }) { go(c, (r, q), &e, pat * 2 % 5, ty); } }
                !c.done()
            });
        }
    } }
    c.section("wide and long");
    for (r, q) in [(1usize, 40usize), (40, 1), (17, 5), (5, 17), (30, 30)] { for n in [1usize, 2, 13, 29, 60] { for st in [1usize, 3, 7, 11, 13] { for off in 0..6usize { for ty in 0..4 {
        let e: Vec<(usize, usize)> = (0..n).map(|k| (((k + off) * st) % r, ((k * k + off) * st) % q)).collect();
        if c.done() { return; }
        go(c, (r, q), &e, 2 + off % 3, ty);
    } } } } }
    c.section("many entries");
    for (r, q) in [(1usize, 100usize), (1, 300), (2, 300), (1, 1000), (300, 1), (1000, 2), (1, 70000), (70000, 1), (3, 40000), (40000, 3), (250, 260), (1, 1), (4, 4)] {
        for n in [127usize, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1000, 4097, 65535, 65536, 65537, 70001, 140000] {
            if n > 5000 && !c.thorough() && r * q > 16 && r.max(q) < 40000 { continue; }
            for (st, off) in [(1usize, 0usize), (1, 5), (7, 3), (12347, 1)] { for ty in 0..2 {
                if c.done() { return; }
                let e = move || -> Vec<(usize, usize)> { (0..n).map(|k| (((k / q + off) * st) % r, ((k + off) * st) % q)).collect() };
                c.case(|| format!("{:?} with {} entries, stride {} from {}, type {}", (r, q), n, st, off, ["f64", "i64"][ty]), |c| if ty == 0 { large::<f64>(c, (r, q), &e()) } else { large::<i64>(c, (r, q), &e()) });
            } }
        }
    }
    c.section("rows and columns far apart");
    for d in [1usize, 2, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 131072] { for r in 0..3usize { for col in [false, true] { for order in 0..6usize { for ty in 0..2 {
        if c.done() { return; }
        let e = move || -> Vec<(usize, usize)> {
            let mut e: Vec<(usize, usize)> = vec![(r, 1), (r + d, 1)];
            match order { 0 => (), 1 => e.reverse(), 2 => e.extend([(r, 1), (r + d, 1)]), 3 => e.extend([(r + d, 1), (r + d, 0), (r, 1)]), 4 => e.push((r + 2 * d, 1)), _ => { e.push((r + 2 * d, 0)); e.push((r + d, 1)); e.push((r + 2 * d, 1)); e.push((r, 0)); } }
            if col { e.iter().map(|x| (x.1, x.0)).collect() } else { e }
        };
        let shape = if col { (2, r + 2 * d + 1) } else { (r + 2 * d + 1, 2) };
        c.case(|| format!("{:?} with entries {:?}, type {}", shape, e(), ["f64", "i64"][ty]), |c| if ty == 0 { large::<f64>(c, shape, &e()) } else { large::<i64>(c, shape, &e()) });
    } } } } }
    c.section("data of inconsistent sizes");
    refusals(c);
}

/// Matrices are made exactly when the sizes of the given data agree.
fn refusals(c: &mut Ctx) {
    let made = |c: &mut Ctx, what: &dyn Fn() -> String, good: bool, f: &dyn Fn()| {
        c.case(|| what(), |c| {
            let g = catch(f).is_ok();
            ck!(g == good, "{}: {}", what(), if g { "accepted" } else { "refused" });
            c.step(1);
            c.trace();
            if !good { c.nontrivial(); }
            Ok(())
        });
    };
    let top = c.pick(4, 6);
    // the indices themselves always lie in the shape
    for r in 0..=top { for q in 0..=top {
        let lens = if r * q == 0 { 0 } else { top };
        for nr in 0..=lens { for nq in 0..=lens {
            made(c, &|| format!("pattern of {} rows and {} columns, shape {:?}", nr, nq, (r, q)), nr == nq, &|| {
                CooMat::<f64>::from_pattern((r, q), (0..nr).map(|k| k % r).collect(), (0..nq).map(|k| k % q).collect());
            });
            for nv in 0..=top {
                made(c, &|| format!("triplets of {} rows, {} columns and {} values, shape {:?}", nr, nq, nv, (r, q)), nr == nq && nr == nv, &|| {
                    CooMat::<f64>::new((r, q), (0..nr).map(|k| k % r).collect(), (0..nq).map(|k| k % q).collect(), vec![1.5; nv]);
                });
            }
        } }
        // products
        for nx in 0..=top + 2 { for nz in 0..=lens.min(2) {
            made(c, &|| format!("shape {:?} with {} entries times a vector of {}", (r, q), nz, nx), nx == q, &|| {
                let m = CooMat::new((r, q), vec![0; nz], vec![0; nz], vec![2.0; nz]);
                assert!((&m * vec![1.0; nx]).len() == r);
            });
        } }
        // a matrix made from a number of entries is zero and can be used at once
        for nz in 0..=lens {
            made(c, &|| format!("shape {:?} with {} unset entries", (r, q), nz), true, &|| {
                let m = CooMat::<f64>::from_nnz((r, q), nz);
                assert!(m.row_inds().len() == nz && m.col_inds().len() == nz && m.nnz() == nz);
                assert!(m.iter().all(|(i, j, x)| *i < r && *j < q && *x == 0.0));
                assert!((&m * vec![1.0; q]).iter().all(|x| *x == 0.0));
                let mut s = m.to_csr();
                s.sum_duplicates();
                assert!(s.data().iter().all(|x| *x == 0.0));
            });
        }
        // rows: the number of pointers, their last one, and the numbers of indices and values
        if r <= 3 { for np in 0..=r + 2 { for last in 0..=3usize { for ni in 0..=(if q == 0 { 0 } else { 3usize }) { for nv in 0..=3usize {
            let good = np == r + 1 && ni == nv && last == nv && (r > 0 || last == 0);
            if np == r + 1 && r == 0 && last > 0 { continue; }
            made(c, &|| format!("rows of shape {:?} with {} pointers up to {}, {} indices and {} values", (r, q), np, last, ni, nv), good, &|| {
                let mut p = vec![0; np];
                if np > 0 { p[np - 1] = last; }
                CsrMat::new((r, q), p, (0..ni).map(|k| k % q).collect(), vec![2.5; nv]);
            });
        } } } } }
        if c.done() { return; }
    } }
}
