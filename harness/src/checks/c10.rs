//! C10: failing solver commands.

use crate::checks::c08::{compare, limited, Data};
use crate::checks::c09::{body, HEADS};
use crate::fake::Fake;
use crate::fw::*;
use crate::sol::{self, Says};
use crate::sys::{faults, Fault, How, Kind as Call};
use crate::{bad, ck, lp};
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub fn def() -> CheckDef {
    CheckDef {
        id: "C10", kind: Kind::FaultEnumeration, run, hang_s: 60, shards: 0,
        rule: "a case is one solve call with one fault (of the command, of the files, or of one system call of the library) followed by a solve call without one; non-trivial: the fault took place",
        assumptions: &["files whose own removal was made to fail may remain", "the command is a stand-in named cbc or clp on PATH that is told what to do", "waiting for the command is only interrupted, it does not fail"],
    }
}

type R = Result<(SolverStatus, ProblemSol), String>;

fn data(k: usize, int: bool) -> Data {
    match k {
        0 => Data { c: vec![1., -2.], a: vec![(0, 0, 1.), (0, 1, 3.5)], b: vec![4.], l: vec![0., -1e8], u: vec![1e8, 7.], p: vec![int, false] },
        1 => Data { c: vec![0., 3., 0.25], a: vec![], b: vec![], l: vec![-1.; 3], u: vec![1.; 3], p: vec![false, int, false] },
        2 => Data { c: vec![5.], a: vec![(0, 0, 1.), (1, 0, -1.), (1, 0, 4.)], b: vec![1., 3.], l: vec![-9.], u: vec![9.], p: vec![int] },
        _ => Data { c: (0..12).map(|i| i as f64).collect(), a: (0..12).map(|i| (i, i, 1. + i as f64)).collect(), b: vec![1.; 12], l: vec![0.; 12], u: vec![5.; 12], p: vec![int; 12] },
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form { CbcMilp, CbcLp, ClpLp }
const FORMS: [Form; 3] = [Form::CbcMilp, Form::CbcLp, Form::ClpLp];
impl Form { fn cbc(self) -> bool { self != Form::ClpLp } }

enum Sv { Cbc(SolverCbcCmd), Clp(SolverClpCmd) }
impl Sv {
    fn new(f: Form) -> Sv { let mut s = if f.cbc() { Sv::Cbc(SolverCbcCmd::new()) } else { Sv::Clp(SolverClpCmd::new()) }; s.log(0); s }
    fn log(&mut self, n: i32) {
        let r = match self { Sv::Cbc(s) => s.set_param("logLevel", SolverParam::IntParam(n)), Sv::Clp(s) => s.set_param("logLevel", SolverParam::IntParam(n)) };
        let _ = r;
    }
    fn solve(&self, p: &mut Problem) -> Result<R, String> {
        catch(|| match self { Sv::Cbc(s) => s.solve(p), Sv::Clp(s) => s.solve(p) }.map_err(|e| e.to_string()))
    }
}

struct Env { fake: Fake, cwd: PathBuf, tmp: PathBuf, good: Vec<u8>, form: Form, d: Data, nx: usize, na: usize }

fn snap(dir: &Path, o: &mut BTreeMap<String, u64>) {
    let rd = match std::fs::read_dir(dir) { Ok(r) => r, Err(_) => { o.insert(format!("{} unreadable", dir.display()), 0); return } };
    for e in rd.flatten() {
        let p = e.path();
        let t = match std::fs::symlink_metadata(&p) { Ok(t) => t, Err(_) => continue };
        use std::os::unix::fs::MetadataExt;
        let h = if t.is_file() { hash_bytes(&std::fs::read(&p).unwrap_or_default()) } else { 0 };
        o.insert(p.to_string_lossy().into_owned(), hash_u64s(&[h, t.mode() as u64, t.ino()]));
        if t.is_dir() { snap(&p, o); }
    }
}

impl Env {
    fn new(c: &Ctx, form: Form, k: usize) -> Env {
        let cwd = c.scratch.join("cwd with space-é");
        let tmp = c.scratch.join("tmp");
        let home = c.scratch.join("bin");
        for d in [&cwd, &tmp] {
            let _ = std::fs::remove_dir_all(d);
            std::fs::create_dir_all(d).expect("dir");
            for n in ["cbc", "clp", "cbc.lp", "cbc.sol", "clp.lp", "clp.sol", "problem.lp", "solution.sol", "input.lp", "output.sol", "model.lp", ".lp", ".sol", "cbcAAAAAA.lp", "clp0.lp", "cbc0.lp", "cbc1.lp"] {
                std::fs::write(d.join(n), format!("not yours: {}", n)).expect("decoy");
            }
            std::fs::create_dir(d.join("sub")).expect("dir");
            std::fs::write(d.join("sub").join("a.lp"), "not yours").expect("decoy");
        }
        std::env::set_current_dir(&cwd).expect("cwd");
        std::env::set_var("TMPDIR", &tmp);
        let d = data(k, form == Form::CbcMilp);
        let (nx, na) = (d.c.len(), d.b.len());
        let good = (HEADS[if form.cbc() { 0 } else { 3 }].to_string() + &body(nx, na, 3).concat()).into_bytes();
        let e = Env { fake: Fake::new(&home), cwd, tmp, good, form, d, nx, na };
        // names that were used once are other people's now
        for _ in 0..2 {
            e.fake.clear();
            e.fake.out(&e.good);
            e.fake.plan("record\nwrite -");
            let _ = e.call();
            if let Some(a) = e.fake.args() {
                for n in a.iter().skip(1).filter(|n| n.ends_with(".lp") || n.ends_with(".sol")) {
                    for d in [&e.cwd, &e.tmp] { let p = d.join(Path::new(n).file_name().unwrap_or_default()); if !p.exists() { let _ = std::fs::write(&p, "not yours"); } }
                }
            }
        }
        e
    }
    fn files(&self) -> BTreeMap<String, u64> {
        let mut o = BTreeMap::new();
        snap(&self.cwd, &mut o);
        snap(&self.tmp, &mut o);
        o
    }
    fn problem(&self) -> Problem {
        match self.form {
            Form::CbcMilp => Problem::Milp(self.d.problem()),
            _ => {
                let p = self.d.problem();
                Problem::Lp(ProblemLp::new(p.c().to_vec(), p.a().clone(), p.b().to_vec(), p.l().to_vec(), p.u().to_vec(), None))
            }
        }
    }
    fn call(&self) -> Result<R, String> { Sv::new(self.form).solve(&mut self.problem()) }
    /// The call without faults, which must work.
    fn next(&self, sv: &Sv) -> Res {
        self.fake.out(&self.good);
        self.fake.plan("write -");
        let r = match sv.solve(&mut self.problem()) { Ok(r) => r, Err(e) => bad!("the next call panics: {}", e) };
        if let Err(e) = &r { bad!("the next call fails: {}", e); }
        match sol::judge(&self.good, self.nx, self.na, self.form.cbc(), &r) { Ok("complete") => Ok(()), Ok(k) => bad!("the next call: {}", k), Err(e) => bad!("the next call: {}", e) }
    }
}

#[derive(Clone, Debug)]
enum Want {
    /// Not solved, whatever else.
    Fails,
    /// Judged by what the output file holds.
    Judge(Vec<u8>),
    /// As far as the output is complete.
    Prefix(Vec<u8>),
    /// Either right or not solved.
    RightOrNot,
    Right,
}

fn judge(e: &Env, w: &Want, r: &R) -> Res {
    let solved = matches!(r, Ok((SolverStatus::Solved, _)));
    let cbc = e.form.cbc();
    match w {
        Want::Fails => ck!(!solved, "reported as solved"),
        Want::Judge(b) => { sol::judge(b, e.nx, e.na, cbc, r).map_err(Fail::from)?; }
        Want::Prefix(b) => if solved {
            ck!(matches!(sol::strict(b, e.nx, e.na, cbc), Says::Solved(_)), "solved although the output ends after {} bytes: {:?}", b.len(), String::from_utf8_lossy(b));
            sol::judge(b, e.nx, e.na, cbc, r).map_err(Fail::from)?;
        },
        Want::RightOrNot => if solved { sol::judge(&e.good, e.nx, e.na, cbc, r).map_err(Fail::from)?; },
        Want::Right => {
            ck!(solved, "a complete answer gives {:?}", r.as_ref().map(|r| &r.0));
            sol::judge(&e.good, e.nx, e.na, cbc, r).map_err(Fail::from)?;
        }
    }
    if let Ok((_, s)) = r { ck!(s.x.len() == e.nx && s.mu.len() == e.nx && s.pi.len() == e.nx && s.lam.len() == e.na && s.nu.is_empty(), "a result of wrong dimensions"); }
    Ok(())
}

/// Open descriptors of this process, and children nobody has waited for.
fn held() -> (usize, usize) {
    let fds = std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
    let kids = std::fs::read_to_string(format!("/proc/self/task/{}/children", unsafe { libc::syscall(libc::SYS_gettid) })).map(|s| s.split_whitespace().count()).unwrap_or(0);
    (fds, kids)
}

/// One call of `f` (which may set up and take back anything) and all that must hold after it.
fn act(c: &mut Ctx, e: &Env, w: &Want, f: &dyn Fn(&Sv, &mut Problem) -> Result<R, String>, stuck: &dyn Fn() -> Vec<String>) -> Res {
    let before = e.files();
    let had = held();
    let sv = Sv::new(e.form);
    let mut p = e.problem();
    let r = f(&sv, &mut p);
    std::env::set_current_dir(&e.cwd).expect("cwd");
    let has = held();
    c.step(1);
    let mut bad = None;
    match &r {
        Err(m) => bad = Some(Fail::from(format!("panic: {}", m))),
        Ok(r) => if let Err(m) = judge(e, w, r) { bad = Some(m) },
    }
    let after = e.files();
    let stuck = stuck();
    for (n, h) in &after {
        let same = before.get(n) == Some(h);
        if same { continue; }
        if stuck.iter().any(|s| n.ends_with(s.as_str())) && !before.contains_key(n) { let _ = std::fs::remove_file(n); continue; }
        if bad.is_none() { bad = Some(Fail::from(format!("{} {} after the call ({:?})", n, if before.contains_key(n) { "is changed" } else { "is left" }, r.as_ref().map(|r| r.as_ref().map(|x| &x.0))))); }
        if !before.contains_key(n) { let _ = std::fs::remove_file(n); let _ = std::fs::remove_dir_all(n); }
    }
    if has != had && bad.is_none() { bad = Some(Fail::from(format!("{} descriptors and {} processes are held after the call, {} and {} before", has.0, has.1, had.0, had.1))); }
    for n in before.keys() { if !after.contains_key(n) && bad.is_none() { bad = Some(Fail::from(format!("{} is gone after the call", n))); } }
    if let Ok(Ok((s, _))) = &r { c.state(hash_str(&format!("{:?} {:?}", s, e.form))); c.note(&format!("reported {:?}", s), 1); } else { c.note("reported an error", 1); }
    if let Some(b) = bad { return Err(b); }
    let again = e.files();
    e.next(&sv)?;
    ck!(again == e.files(), "files are left or changed after the next call");
    c.trace();
    Ok(())
}

fn plain(c: &mut Ctx, e: &Env, plan: &str, out: &[u8], w: &Want) -> Res {
    c.nontrivial();
    act(c, e, w, &|s, p| { e.fake.out(out); e.fake.plan(plan); s.solve(p) }, &|| vec![])
}

/// Several calls of one solver; every one is judged by itself, and nothing may gather.
fn several(c: &mut Ctx, e: &Env, plans: &[(String, Want)], q: &[usize]) -> Res {
    let sv = Sv::new(e.form);
    let before = e.files();
    let had = held();
    for (t, i) in q.iter().enumerate() {
        e.fake.out(&e.good);
        e.fake.plan(&plans[*i].0);
        let r = match sv.solve(&mut e.problem()) { Ok(r) => r, Err(m) => bad!("call {} panics: {}", t, m) };
        judge(e, &plans[*i].1, &r).map_err(|m| Fail::from(format!("call {}: {}", t, m.msg)))?;
        c.step(1);
        if q.len() > 10 && t % 16 != 15 && t + 1 != q.len() { continue; }
        let has = held();
        ck!(has == had, "after call {}: {} descriptors and {} processes are held, {} and {} before", t, has.0, has.1, had.0, had.1);
        ck!(e.files() == before, "after call {}: files are left or changed", t);
        c.state(hash_u64s(&[t as u64, *i as u64, has.0 as u64]));
    }
    c.nontrivial();
    c.trace();
    Ok(())
}

const SIGNALS: [i32; 14] = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 13, 14, 15, 24];

fn run(c: &mut Ctx) {
    let mut at = 0;
    for form in FORMS { for k in 0..4usize {
        let big = k == 3;
        if big && !c.thorough() { continue; }
        let e = Env::new(c, form, k);
        let cbc = form.cbc();
        let pre = move |d: String| format!("{:?}, problem {}: {}", form, k, d);
        c.section("what the command receives");
        for lv in [0, 1, 5, -1, 100, i32::MAX, i32::MIN] {
            c.case(|| pre(format!("log level {}", lv)), |c| {
                e.fake.clear();
                act(c, &e, &Want::Right, &|_, p| { e.fake.out(&e.good); e.fake.plan("record\nwrite -"); let mut s = Sv::new(form); s.log(lv); s.solve(p) }, &|| vec![])?;
                let a = match e.fake.args() { Some(a) => a, None => bad!("the command is not run") };
                ck!(a[0] == if cbc { "cbc" } else { "clp" }, "the command is {}", a[0]);
                let q = std::fs::read_to_string(e.fake.dir.join("problem")).unwrap_or_default();
                let q = lp::read(&q).map_err(|m| Fail::from(format!("the problem file is not readable: {}", m)))?;
                compare(&q, &e.d, true)?;
                ck!(a.windows(2).any(|w| { let n = w[0].trim_start_matches('-').to_lowercase(); n.len() >= 3 && "loglevel".starts_with(&n) && w[1] == lv.to_string() }), "log level {} is not in {:?}", lv, a);
                c.nontrivial();
                Ok(())
            });
        }
        c.section("the command ends at any point of its output, in any way");
        let n = e.good.len();
        for cut in 0..=n {
            if c.done() { return; }
            for how in ["", "exit 1", "kill 9", "kill 15"] {
                let w = if how.is_empty() { Want::Prefix(e.good[..cut].to_vec()) } else { Want::Fails };
                if big && !how.is_empty() && cut % 8 != 0 { continue; }
                c.case(|| pre(format!("output cut at {} of {} bytes, {:?}", cut, n, how)), |c| plain(c, &e, &format!("write {}\n{}", cut, how), &e.good, &w));
            }
        }
        for st in ["", "write 0", "write 40", "write -"] { for s in SIGNALS {
            c.case(|| pre(format!("{:?}, then signal {}", st, s)), |c| plain(c, &e, &format!("{}\nkill {}", st, s), &e.good, &Want::Fails));
        } for x in 1..=255 {
            if x > 3 && x % 16 > 1 && !c.thorough() { continue; }
            c.case(|| pre(format!("{:?}, then exit {}", st, x)), |c| plain(c, &e, &format!("{}\nexit {}", st, x), &e.good, &Want::Fails));
        } }
        c.section("other things the command may do");
        for (plan, w) in [("", Want::Fails), ("chunks", Want::Right), ("sleep 60\nwrite -", Want::Right), ("say\nwrite -", Want::Right), ("rmprob\nwrite -", Want::Right), ("mangle\nwrite -", Want::Right), ("rmprob", Want::Fails),
            ("write -\nrmsol", Want::Fails), ("write -\nrmprob\nexit 2", Want::Fails), ("rmprob\nkill 9", Want::Fails), ("mangle\nwrite 30\nkill 11", Want::Fails), ("write -\nwrite -", Want::Right), ("rmprob\nwrite -\nsleep 20\nrmsol\nexit 1", Want::Fails)] {
            c.case(|| pre(format!("{:?}", plan)), |c| plain(c, &e, plan, &e.good, &w));
        }
        c.section("one solver, several calls with different outcomes");
        {
            let cut = e.good.len() / 2;
            let plans: Vec<(String, Want)> = vec![("write -".into(), Want::Right), ("write -\nexit 1".into(), Want::Fails), ("kill 9".into(), Want::Fails), (format!("write {}", cut), Want::Prefix(e.good[..cut].to_vec())), ("rmprob".into(), Want::Fails)];
            let len = if k == 0 { c.pick(4, 5) } else { 3 };
            crate::checks::c06::sequences(plans.len(), len, &mut |q| {
                c.case(|| pre(format!("one solver: {:?}", q.iter().map(|i| &plans[*i].0).collect::<Vec<_>>())), |c| several(c, &e, &plans, q));
                !c.done()
            });
            let rounds = c.pick(150, 1200);
            for t in 0..plans.len() { // many calls, mostly of one kind
                let q: Vec<usize> = (0..rounds).map(|i| if i % 7 == 6 { 0 } else { t }).collect();
                if k > 0 && t > 0 { continue; }
                c.case(|| pre(format!("one solver: {} calls, mostly {:?}", rounds, plans[t].0)), |c| several(c, &e, &plans, &q));
            }
        }
        c.section("what the command writes");
        for h in HEADS {
            for b in [body(e.nx, e.na, 3).concat(), String::new(), body(e.nx, e.na, 4)[1..].concat(), body(e.nx + 1, e.na, 5).concat(), body(e.nx, e.na + 1, 1).concat(), "garbage\n".repeat(3)] {
                let o = (h.to_string() + &b).into_bytes();
                c.case(|| pre(format!("output {:?}", String::from_utf8_lossy(&o))), |c| plain(c, &e, "write -", &o, &Want::Judge(o.clone())));
                c.case(|| pre(format!("output {:?} and exit 1", String::from_utf8_lossy(&o))), |c| plain(c, &e, "write -\nexit 1", &o, &Want::Fails));
            }
        }
        if !big {
            let lines: Vec<String> = String::from_utf8(e.good.clone()).unwrap().split_inclusive('\n').map(|s| s.to_string()).collect();
            for i in 0..e.good.len() { for b in [0u8, b' ', b'\n', b'_', b'9', 0xff, b'x', b'-'] {
                if !c.thorough() && (i + b as usize) % 4 != 0 { continue; }
                let mut o = e.good.clone();
                o[i] = b;
                c.case(|| pre(format!("output {:?}", String::from_utf8_lossy(&o))), |c| plain(c, &e, "write -", &o, &Want::Judge(o.clone())));
            } }
            for i in 0..lines.len() {
                let mut o = lines.clone(); o.remove(i);
                let o = o.concat().into_bytes();
                c.case(|| pre(format!("output {:?}", String::from_utf8_lossy(&o))), |c| plain(c, &e, "write -", &o, &Want::Judge(o.clone())));
            }
        }
        c.section("the command cannot be run");
        for (i, what) in ["no such command", "PATH empty", "PATH unset", "PATH of a directory that does not exist", "not executable", "a directory", "a dangling link", "an empty file", "garbage", "bad interpreter", "script that does nothing", "script that fails", "a link to itself"].iter().enumerate() {
            c.case(|| pre(what.to_string()), |c| {
                let d = c.scratch.join("path");
                let _ = std::fs::remove_dir_all(&d);
                std::fs::create_dir_all(&d).expect("dir");
                use std::os::unix::fs::{symlink, PermissionsExt};
                for n in ["cbc", "clp"] {
                    let p = d.join(n);
                    let put = |b: &[u8], m: u32| { std::fs::write(&p, b).expect("write"); std::fs::set_permissions(&p, std::fs::Permissions::from_mode(m)).expect("mode"); };
                    match i { 4 => put(b"#!/bin/sh\nexit 0\n", 0o644), 5 => std::fs::create_dir(&p).expect("dir"), 6 => symlink("/nonexistent/cbc", &p).expect("link"), 7 => put(b"", 0o755), 8 => put(&[0x7f, 1, 2, 3, 0, 9], 0o755),
                        9 => put(b"#!/nonexistent/interpreter\n", 0o755), 10 => put(b"#!/bin/sh\nexit 0\n", 0o755), 11 => put(b"#!/bin/sh\nexit 3\n", 0o755), 12 => symlink(&p, &p).expect("link"), _ => () }
                }
                c.nontrivial();
                let home = e.fake.dir.clone();
                act(c, &e, &Want::Fails, &|s, p| {
                    match i { 1 => std::env::set_var("PATH", ""), 2 => std::env::remove_var("PATH"), 3 => std::env::set_var("PATH", "/nonexistent"), _ => std::env::set_var("PATH", &d) }
                    // an unset PATH means the default one, where the real command may be
                    e.fake.plan("");
                    let r = if i == 2 { Ok(Err("skipped".into())) } else { s.solve(p) };
                    std::env::set_var("PATH", &home);
                    r
                }, &|| vec![])
            });
        }
        c.section("directories");
        for (i, what) in ["working directory removed", "temporary directory missing", "temporary directory is a file", "temporary directory is the working directory", "temporary directory is relative", "temporary directory empty string"].iter().enumerate() {
            c.case(|| pre(what.to_string()), |c| {
                let gone = c.scratch.join("gone");
                c.nontrivial();
                let w = if i == 0 { Want::Fails } else if i < 3 { Want::RightOrNot } else { Want::Right };
                act(c, &e, &w, &|s, p| {
                    e.fake.out(&e.good);
                    e.fake.plan("write -");
                    match i {
                        0 => { std::fs::create_dir_all(&gone).expect("dir"); std::env::set_current_dir(&gone).expect("cwd"); std::fs::remove_dir(&gone).expect("rmdir"); }
                        1 => std::env::set_var("TMPDIR", "/nonexistent/tmp"),
                        2 => std::env::set_var("TMPDIR", e.cwd.join("cbc")),
                        3 => std::env::set_var("TMPDIR", &e.cwd),
                        4 => std::env::set_var("TMPDIR", "sub"),
                        _ => std::env::set_var("TMPDIR", ""),
                    }
                    let r = s.solve(p);
                    std::env::set_current_dir(&e.cwd).expect("cwd");
                    std::env::set_var("TMPDIR", &e.tmp);
                    r
                }, &|| vec![])
            });
        }
        c.section("disk full after any number of bytes of the problem file");
        let size = { let f = c.scratch.join("size.lp"); use numopt::problem::milp::ProblemMilpIO; e.d.problem().write_to_lp_file(f.to_str().unwrap()).map(|_| std::fs::metadata(&f).map(|m| m.len()).unwrap_or(0)).unwrap_or(0) };
        for n in 0..size + 2 {
            if c.done() { return; }
            c.case(|| pre(format!("files limited to {} bytes", n)), |c| {
                c.nontrivial();
                e.fake.out(&e.good);
                e.fake.plan("write -");
                // comments may make the file shorter or longer than is needed
                act(c, &e, &(if n >= size { Want::RightOrNot } else { Want::Fails }), &|s, p| limited(n, || s.solve(p)), &|| vec![])
            });
        }
        c.section("no more file descriptors");
        for n in 3..24u64 {
            c.case(|| pre(format!("{} file descriptors", n)), |c| {
                c.nontrivial();
                e.fake.out(&e.good);
                e.fake.plan("write -");
                act(c, &e, &Want::RightOrNot, &|s, p| unsafe {
                    let mut o: libc::rlimit = std::mem::zeroed();
                    libc::getrlimit(libc::RLIMIT_NOFILE, &mut o);
                    let l = libc::rlimit { rlim_cur: n, rlim_max: o.rlim_max };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    let r = s.solve(p);
                    libc::setrlimit(libc::RLIMIT_NOFILE, &o);
                    r
                }, &|| vec![])
            });
        }
        c.section("every system call fails, in every way");
        // which calls there are
        let calls = {
            e.fake.out(&e.good);
            e.fake.plan("write -");
            let mut p = e.problem();
            let s = Sv::new(form);
            faults(&[], || s.solve(&mut p)).1.kinds
        };
        c.note("calls of the library that can fail", if at == 0 { calls.len() as u64 } else { 0 });
        at += 1;
        let mut single: Vec<(Fault, bool)> = Vec::new(); // fault; harmless
        for (i, k) in calls.iter().enumerate() {
            let v: &[(How, bool)] = match k {
                Call::Open => &[(How::Errno(libc::EMFILE), false), (How::Errno(libc::EACCES), false), (How::Errno(libc::ENOSPC), false), (How::Errno(libc::ENOENT), false), (How::Errno(libc::EEXIST), false), (How::Errno(libc::EINTR), true)],
                Call::Write => &[(How::Errno(libc::ENOSPC), false), (How::Errno(libc::EIO), false), (How::Zero, false), (How::Errno(libc::EINTR), true), (How::Short, true)],
                Call::Read => &[(How::Errno(libc::EIO), false), (How::Errno(libc::EISDIR), false), (How::Zero, false), (How::Errno(libc::EINTR), true), (How::Short, true)],
                Call::Unlink => &[(How::Errno(libc::EACCES), false), (How::Errno(libc::EBUSY), false), (How::Errno(libc::ENOENT), false)],
                Call::Spawn => &[(How::Errno(libc::ENOENT), false), (How::Errno(libc::EACCES), false), (How::Errno(libc::EAGAIN), false), (How::Errno(libc::ENOMEM), false)],
                Call::Wait => &[(How::Errno(libc::EINTR), true)],
                Call::Getcwd => &[(How::Errno(libc::ENOENT), false), (How::Errno(libc::EACCES), false)],
                Call::Other => &[(How::Errno(libc::EACCES), false), (How::Errno(libc::ENOSPC), false)],
            };
            for (h, harmless) in v {
                let eintr = *h == How::Errno(libc::EINTR);
                for on in [false, true] {
                    if on && (eintr || *k == Call::Wait) { continue; }
                    single.push((Fault { at: i, how: *h, on }, *harmless));
                }
            }
        }
        let go = |c: &mut Ctx, v: Vec<Fault>, harmless: bool| {
            c.case(|| pre(format!("{:?}", v)), |c| {
                e.fake.out(&e.good);
                e.fake.plan("write -");
                let stuck = std::cell::RefCell::new(Vec::new());
                let hit = std::cell::Cell::new(0);
                let r = act(c, &e, &(if harmless { Want::Right } else { Want::RightOrNot }), &|s, p| {
                    let (r, seen) = faults(&v, || s.solve(p));
                    *stuck.borrow_mut() = seen.stuck;
                    hit.set(seen.hit);
                    r
                }, &|| stuck.borrow().clone());
                if hit.get() > 0 { c.nontrivial(); c.note("system calls made to fail", hit.get() as u64); }
                r
            });
        };
        for (f, h) in &single { if c.done() { return; } go(c, vec![*f], *h); }
        if c.thorough() && k == 0 {
            c.section("every pair of system calls fails");
            for (i, (f, h)) in single.iter().enumerate() { for (g, h2) in &single[i..] {
                if f.at == g.at { continue; }
                if c.done() { return; }
                go(c, vec![*f, *g], *h && *h2);
            } }
        }
    } }
}
