//! Lenient readers: LP files and free-format MPS files.

use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Lp {
    pub max: bool,
    pub c: BTreeMap<usize, f64>,
    pub rows: BTreeMap<usize, (BTreeMap<usize, f64>, char, f64)>,
    pub l: BTreeMap<usize, f64>,
    pub u: BTreeMap<usize, f64>,
    pub int: Vec<usize>,
}

impl Lp {
    /// One more than the largest variable index.
    pub fn n(&self) -> usize {
        let m = |b: &BTreeMap<usize, f64>| b.keys().last().map(|k| k + 1).unwrap_or(0);
        self.rows.values().map(|r| m(&r.0)).chain([m(&self.c), m(&self.l), m(&self.u)]).max().unwrap_or(0)
    }
}

/// The number at the end of a name.
pub fn idx(name: &str) -> Result<usize, String> {
    let d: String = name.chars().rev().take_while(|c| c.is_ascii_digit()).collect::<String>().chars().rev().collect();
    d.parse().map_err(|_| format!("no index in the name {:?}", name))
}

#[derive(Clone, Debug, PartialEq)]
enum Tok { Num(f64), Name(String), Plus, Minus, Colon, Rel(char) }

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let b: Vec<char> = s.chars().collect();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() { i += 1; continue; }
        if c == '+' { o.push(Tok::Plus); i += 1; continue; }
        if c == '-' { o.push(Tok::Minus); i += 1; continue; }
        if c == ':' { o.push(Tok::Colon); i += 1; continue; }
        if "<>=".contains(c) {
            let mut r = c;
            i += 1;
            if i < b.len() && "<>=".contains(b[i]) { if r == '=' { r = b[i]; } i += 1; }
            o.push(Tok::Rel(r));
            continue;
        }
        if c.is_ascii_digit() || c == '.' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == '.') { i += 1; }
            if i < b.len() && (b[i] == 'e' || b[i] == 'E') {
                let mut k = i + 1;
                if k < b.len() && (b[k] == '+' || b[k] == '-') { k += 1; }
                if k < b.len() && b[k].is_ascii_digit() { while k < b.len() && b[k].is_ascii_digit() { k += 1; } i = k; }
            }
            let t: String = b[s..i].iter().collect();
            o.push(Tok::Num(t.parse().map_err(|_| format!("bad number {:?}", t))?));
            continue;
        }
        if c.is_alphabetic() || "!\"#$%&/,.;?@_`'{}()|~".contains(c) {
            let s = i;
            while i < b.len() && !b[i].is_whitespace() && !"+-<>=:".contains(b[i]) { i += 1; }
            let t: String = b[s..i].iter().collect();
            let q = t.to_lowercase();
            if q == "inf" || q == "infinity" { o.push(Tok::Num(f64::INFINITY)); } else { o.push(Tok::Name(t)); }
            continue;
        }
        return Err(format!("unexpected character {:?}", c));
    }
    Ok(o)
}

fn section(line: &str) -> Option<&'static str> {
    let t: String = line.trim().to_lowercase().split_whitespace().collect::<Vec<_>>().join(" ");
    Some(match t.as_str() {
        "minimize" | "minimum" | "min" => "min",
        "maximize" | "maximum" | "max" => "max",
        "subject to" | "such that" | "st" | "s.t." | "st." => "st",
        "bounds" | "bound" => "bounds",
        "general" | "generals" | "gen" | "integer" | "integers" | "int" => "int",
        "binary" | "binaries" | "bin" => "bin",
        "end" => "end",
        _ => return None,
    })
}

/// Linear terms up to a relation or the end.
fn terms(t: &[Tok], i: &mut usize) -> Result<(BTreeMap<usize, f64>, f64), String> {
    let mut m = BTreeMap::new();
    let mut k = 0.;
    let mut sign = 1.;
    let mut coef: Option<f64> = None;
    let mut signed = false;
    while *i < t.len() {
        match &t[*i] {
            Tok::Plus | Tok::Minus => {
                if let Some(c) = coef.take() { k += sign * c; sign = 1.; }
                if t[*i] == Tok::Minus { sign = -sign; }
                signed = true;
            }
            Tok::Num(v) => { if coef.is_some() { return Err("two numbers in a row".into()); } coef = Some(*v); }
            Tok::Name(n) => {
                // cbc and clp refuse a variable that is listed twice in one row
                if m.insert(idx(n)?, sign * coef.take().unwrap_or(1.)).is_some() { return Err(format!("{} is listed twice", n)); }
                sign = 1.;
                signed = false;
            }
            Tok::Rel(_) | Tok::Colon => break,
        }
        *i += 1;
    }
    if let Some(c) = coef { k += sign * c; signed = false; }
    if signed { return Err("dangling sign".into()); }
    Ok((m, k))
}

fn num(t: &[Tok], i: &mut usize) -> Result<f64, String> {
    let mut s = 1.;
    while *i < t.len() {
        match &t[*i] {
            Tok::Plus => (),
            Tok::Minus => s = -s,
            Tok::Num(v) => { *i += 1; return Ok(s * v); }
            x => return Err(format!("number expected, found {:?}", x)),
        }
        *i += 1;
    }
    Err("number expected".into())
}

pub fn read(s: &str) -> Result<Lp, String> {
    let mut parts: Vec<(&'static str, String)> = Vec::new();
    let mut ended = false;
    for line in s.lines() {
        let line = line.split('\\').next().unwrap_or("");
        if line.trim().is_empty() { continue; }
        if ended { return Err("text after End".into()); }
        match section(line) {
            Some("end") => ended = true,
            Some(x) => parts.push((x, String::new())),
            None => match parts.last_mut() { Some(p) => { p.1.push_str(line); p.1.push('\n'); } None => return Err("text before the objective".into()) },
        }
    }
    if !ended { return Err("no End".into()); }
    let mut lp = Lp::default();
    let mut have_obj = false;
    let mut bounds_text = String::new();
    for (k, txt) in parts.iter() {
        match *k {
            "min" | "max" => {
                if have_obj { return Err("two objectives".into()); }
                have_obj = true;
                lp.max = *k == "max";
                let t = lex(txt)?;
                let mut i = 0;
                if t.len() >= 2 && matches!(t[0], Tok::Name(_)) && t[1] == Tok::Colon { i = 2; }
                lp.c = terms(&t, &mut i)?.0;
                if i != t.len() { return Err("relation in the objective".into()); }
            }
            "st" => {
                let t = lex(txt)?;
                let mut i = 0;
                let mut n = 0;
                while i < t.len() {
                    let mut r = n;
                    if i + 1 < t.len() && t[i + 1] == Tok::Colon {
                        if let Tok::Name(nm) = &t[i] { r = idx(nm)?; } else { return Err("bad label".into()); }
                        i += 2;
                    }
                    let (m, k) = terms(&t, &mut i)?;
                    let rel = match t.get(i) { Some(Tok::Rel(c)) => *c, _ => return Err("row without relation".into()) };
                    i += 1;
                    let b = num(&t, &mut i)?;
                    if lp.rows.insert(r, (m, rel, b - k)).is_some() { return Err(format!("row {} twice", r)); }
                    n += 1;
                }
            }
            "bounds" => bounds_text.push_str(txt),
            "int" | "bin" => {
                for t in lex(txt)? {
                    match t { Tok::Name(n) => lp.int.push(idx(&n)?), x => return Err(format!("{:?} among the integer variables", x)) }
                }
            }
            _ => (),
        }
    }
    if !have_obj { return Err("no objective".into()); }
    // Bounds, one per line
    for line in bounds_text.lines() {
        let t = lex(line)?;
        if t.is_empty() { continue; }
        let mut i = 0;
        if let Tok::Name(n) = &t[0] {
            let j = idx(n)?;
            match t.get(1) {
                Some(Tok::Name(f)) if f.to_lowercase() == "free" => { lp.l.insert(j, f64::NEG_INFINITY); lp.u.insert(j, f64::INFINITY); continue; }
                Some(Tok::Rel(r)) => {
                    i = 2;
                    let v = num(&t, &mut i)?;
                    if *r != '>' { lp.u.insert(j, v); }
                    if *r != '<' { lp.l.insert(j, v); }
                }
                _ => return Err(format!("bad bound {:?}", line)),
            }
        } else {
            let v = num(&t, &mut i)?;
            let r = match t.get(i) { Some(Tok::Rel(c)) => *c, _ => return Err(format!("bad bound {:?}", line)) };
            let j = match t.get(i + 1) { Some(Tok::Name(n)) => idx(n)?, _ => return Err(format!("bad bound {:?}", line)) };
            i += 2;
            if r != '>' { lp.l.insert(j, v); }
            if r != '<' { lp.u.insert(j, v); }
            if let Some(Tok::Rel(r2)) = t.get(i) {
                i += 1;
                let w = num(&t, &mut i)?;
                if *r2 != '>' { lp.u.insert(j, w); }
                if *r2 != '<' { lp.l.insert(j, w); }
            }
        }
        if i != t.len() { return Err(format!("bad bound {:?}", line)); }
    }
    Ok(lp)
}

/// Free-format MPS as clp writes it.
pub fn read_mps(s: &str) -> Result<Lp, String> {
    let mut lp = Lp::default();
    let mut sec = String::new();
    let mut obj = String::new();
    let mut int = false;
    for line in s.lines() {
        if line.starts_with('*') || line.trim().is_empty() { continue; }
        let w: Vec<&str> = line.split_whitespace().collect();
        if !line.starts_with(' ') { sec = w[0].to_string(); continue; }
        let f = |x: &str| -> Result<f64, String> { x.parse().map_err(|_| format!("bad number {:?}", x)) };
        match sec.as_str() {
            "ROWS" => if w[0] == "N" { obj = w[1].to_string(); } else {
                lp.rows.insert(idx(w[1])?, (BTreeMap::new(), match w[0] { "E" => '=', "L" => '<', _ => '>' }, 0.));
            },
            "COLUMNS" => {
                if line.contains("'MARKER'") { int = line.contains("INTORG"); continue; }
                let j = idx(w[0])?;
                if int && !lp.int.contains(&j) { lp.int.push(j); }
                for p in w[1..].chunks(2) {
                    if p.len() < 2 { return Err("bad column line".into()); }
                    let v = f(p[1])?;
                    if p[0] == obj { lp.c.insert(j, v); } else { lp.rows.get_mut(&idx(p[0])?).ok_or("unknown row")?.0.insert(j, v); }
                }
            }
            "RHS" => for p in w[1..].chunks(2) {
                if p.len() < 2 { return Err("bad rhs line".into()); }
                if p[0] != obj { lp.rows.get_mut(&idx(p[0])?).ok_or("unknown row")?.2 = f(p[1])?; }
            },
            "BOUNDS" => {
                let j = idx(w[2])?;
                let v = || -> Result<f64, String> { f(w.get(3).ok_or("no bound value")?) };
                if ["LI", "UI", "BV"].contains(&w[0]) && !lp.int.contains(&j) { lp.int.push(j); }
                match w[0] {
                    "LO" | "LI" => { lp.l.insert(j, v()?); }
                    "UP" | "UI" => { lp.u.insert(j, v()?); }
                    "FX" => { lp.l.insert(j, v()?); lp.u.insert(j, v()?); }
                    "FR" => { lp.l.insert(j, f64::NEG_INFINITY); }
                    "MI" => { lp.l.insert(j, f64::NEG_INFINITY); }
                    "PL" => { lp.u.insert(j, f64::INFINITY); }
                    "BV" => { lp.l.insert(j, 0.); lp.u.insert(j, 1.); }
                    x => return Err(format!("bound type {}", x)),
                }
            }
            _ => (),
        }
    }
    Ok(lp)
}
