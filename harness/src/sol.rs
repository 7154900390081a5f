//! Independent readings of solution files: what a complete file says, and what any file states.

use numopt::problem::base::ProblemSol;
use numopt::solver::base::SolverStatus;

#[derive(Clone, Debug, PartialEq)]
pub struct Sol { pub x: Vec<f64>, pub mul: Vec<f64>, pub lam: Vec<f64> }

#[derive(Clone, Debug, PartialEq)]
pub enum Says { Solved(Sol), Infeasible, Other, Damaged }

/// A complete file in the solvers' own form.
pub fn strict(b: &[u8], nx: usize, na: usize, cbc: bool) -> Says {
    let s = match std::str::from_utf8(b) { Ok(s) => s, Err(_) => return Says::Damaged };
    if !s.ends_with('\n') || s.contains('\r') || s.contains('\0') { return Says::Damaged; }
    let lines: Vec<&str> = s[..s.len() - 1].split('\n').collect();
    let h: Vec<&str> = lines[0].split(' ').filter(|w| !w.is_empty()).collect();
    let tail = |w: &[&str]| w.len() == 4 && w[0] == "-" && w[1] == "objective" && w[2] == "value" && w[3].parse::<f64>().is_ok();
    let mut body = 1;
    let head = match h.first().cloned() {
        Some("Optimal") if tail(&h[1..]) => Says::Solved(Sol { x: vec![], mul: vec![], lam: vec![] }),
        Some("Infeasible") if tail(&h[1..]) => Says::Infeasible,
        Some("Integer") if cbc && h.len() > 1 && h[1] == "infeasible" && tail(&h[2..]) => Says::Infeasible,
        Some("Unbounded") if tail(&h[1..]) => Says::Other,
        Some("Stopped") if h.len() > 3 && h[1] == "on" && tail(&h[h.len() - 4..]) => Says::Other,
        Some("optimal") | Some("infeasible") if !cbc && h.len() == 1 => {
            let q: Vec<&str> = lines.get(1).map(|l| l.split(' ').filter(|w| !w.is_empty()).collect()).unwrap_or_default();
            if !(q.len() == 3 && q[0] == "Objective" && q[1] == "value" && q[2].parse::<f64>().is_ok()) { return Says::Damaged; }
            body = 2;
            if h[0] == "optimal" { Says::Solved(Sol { x: vec![], mul: vec![], lam: vec![] }) } else { Says::Infeasible }
        }
        _ => return Says::Damaged,
    };
    let mut x = vec![None; nx];
    let mut lam = vec![None; na];
    for l in &lines[body..] {
        if l.contains('\t') { return Says::Damaged; }
        let w: Vec<&str> = l.split(' ').filter(|w| !w.is_empty()).collect();
        if w.len() != 4 || !w[0].bytes().all(|b| b.is_ascii_digit()) { return Says::Damaged; }
        let num = |t: &str| -> Option<f64> {
            if t.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b)) { t.parse::<f64>().ok() } else { None } };
        let (v, m) = match (num(w[2]), num(w[3])) { (Some(v), Some(m)) => (v, m), _ => return Says::Damaged };
        let (k, i) = match w[1].split_once('_') { Some(p) => p, None => return Says::Damaged };
        let i: usize = match i.parse::<usize>() { Ok(n) if n.to_string() == i => n, _ => return Says::Damaged };
        match k {
            "x" if i < nx && x[i].is_none() => x[i] = Some((v, m)),
            "c" if i < na && lam[i].is_none() => lam[i] = Some(m),
            _ => return Says::Damaged,
        }
    }
    match head {
        Says::Solved(_) => {
            if x.iter().any(|v| v.is_none()) || lam.iter().any(|v| v.is_none()) { return Says::Damaged; }
            Says::Solved(Sol { x: x.iter().map(|v| v.unwrap().0).collect(), mul: x.iter().map(|v| v.unwrap().1).collect(), lam: lam.iter().map(|v| v.unwrap()).collect() })
        }
        h => h,
    }
}

fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }

/// Are the values of this result all stated somewhere in the file?
pub fn stated(b: &[u8], got: &ProblemSol) -> Result<(), String> {
    let s = String::from_utf8_lossy(b);
    let first = s.lines().next().unwrap_or("");
    if !first.to_lowercase().contains("optimal") { return Err(format!("solved, but the file begins with {:?}", first)); }
    let mut xs: Vec<(usize, f64, f64)> = Vec::new();
    let mut cs: Vec<(usize, f64)> = Vec::new();
    for l in s.lines() {
        let w: Vec<&str> = l.split_ascii_whitespace().collect();
        for k in 0..w.len() {
            let (t, i) = match w[k].split_once('_') { Some(p) => p, None => continue };
            let i: usize = match i.parse::<usize>() { Ok(n) if n.to_string() == i => n, _ => continue };
            let (v, m) = match (w.get(k + 1).and_then(|v| v.parse::<f64>().ok()), w.get(k + 2).and_then(|v| v.parse::<f64>().ok())) { (Some(v), Some(m)) => (v, m), _ => continue };
            if t == "x" { xs.push((i, v, m)); }
            if t == "c" { cs.push((i, m)); }
        }
    }
    for (i, v) in got.x.iter().enumerate() {
        let net = got.pi[i] - got.mu[i];
        if !xs.iter().any(|e| e.0 == i && same(e.1, *v) && same(e.2, net)) { return Err(format!("x_{} = {:e} with multiplier {:e} is reported but nowhere stated", i, v, net)); }
    }
    for (i, m) in got.lam.iter().enumerate() {
        if !cs.iter().any(|e| e.0 == i && same(e.1, *m)) { return Err(format!("multiplier {:e} of c_{} is reported but nowhere stated", m, i)); }
    }
    Ok(())
}

/// Judges the result of reading `b`.
pub fn judge(b: &[u8], nx: usize, na: usize, cbc: bool, got: &Result<(SolverStatus, ProblemSol), String>) -> Result<&'static str, String> {
    let says = strict(b, nx, na, cbc);
    if let Ok((_, s)) = got {
        if s.x.len() != nx || s.mu.len() != nx || s.pi.len() != nx || s.lam.len() != na || !s.nu.is_empty() { return Err("result of wrong dimensions".into()); }
    }
    match (says, got) {
        (Says::Solved(w), Ok((SolverStatus::Solved, s))) => {
            for i in 0..nx {
                if s.x[i] != w.x[i] { return Err(format!("x_{} is {:e}, the file says {:e}", i, s.x[i], w.x[i])); }
                let (p, m) = (w.mul[i].max(0.), (-w.mul[i]).max(0.));
                if s.pi[i] != p || s.mu[i] != m { return Err(format!("limits of x_{} have multipliers {:e} (lower) and {:e} (upper), the file says {:e}", i, s.pi[i], s.mu[i], w.mul[i])); }
            }
            for i in 0..na { if s.lam[i] != w.lam[i] { return Err(format!("multiplier of c_{} is {:e}, the file says {:e}", i, s.lam[i], w.lam[i])); } }
            Ok("complete")
        }
        (Says::Solved(_), Ok((st, _))) => Err(format!("a complete solution is read as {:?}", st)),
        (Says::Solved(_), Err(e)) => Err(format!("a complete solution is refused: {}", e)),
        (Says::Infeasible, Ok((SolverStatus::Infeasible, _))) => Ok("infeasible"),
        (Says::Infeasible, r) => Err(format!("an infeasibility report is read as {:?}", r.as_ref().map(|x| &x.0))),
        (_, Ok((SolverStatus::Solved, s))) => stated(b, s).map(|_| "damaged, values stated"),
        (Says::Other, Ok((SolverStatus::Infeasible, _))) => Err("another status is read as infeasible".into()),
        (Says::Damaged, Ok((SolverStatus::Infeasible, _))) => {
            let s = String::from_utf8_lossy(b).lines().next().unwrap_or("").to_lowercase();
            if s.contains("infeasible") { Ok("damaged, infeasible") } else { Err("infeasible although the file does not say so".into()) }
        }
        _ => Ok("refused"),
    }
}
