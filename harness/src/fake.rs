//! A stand-in for the commands cbc and clp: the harness's own program under another name.
//! What it does is listed in the file `plan` of the directory FAKE_DIR.

use std::ffi::OsString;
use std::io::Write;
use std::path::{Path, PathBuf};

/// Called first in every program of the harness.
pub fn main_if_fake() {
    let a: Vec<OsString> = std::env::args_os().collect();
    let base = a.get(0).and_then(|s| Path::new(s).file_name()).and_then(|s| s.to_str()).unwrap_or("").to_string();
    if base == "cbc" || base == "clp" { std::process::exit(act(&base, &a)); }
}

fn act(base: &str, a: &[OsString]) -> i32 {
    unsafe { // limits set for the caller are not meant for the command
        for r in [libc::RLIMIT_NOFILE, libc::RLIMIT_FSIZE] {
            let mut l: libc::rlimit = std::mem::zeroed();
            if libc::getrlimit(r, &mut l) == 0 { l.rlim_cur = l.rlim_max; libc::setrlimit(r, &l); }
        }
        let z: libc::rlimit = std::mem::zeroed();
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    let dir = match std::env::var_os("FAKE_DIR") { Some(d) => PathBuf::from(d), None => return 97 };
    let own = dir.join(format!("plan.{}", crate::gate::child_part()));
    let plan = match std::fs::read_to_string(&own).or_else(|_| std::fs::read_to_string(dir.join("plan"))) { Ok(s) => s, Err(_) => return 98 };
    // problem: first argument; solution file: after the word solution, else last
    let args: Vec<String> = a[1..].iter().map(|s| s.to_string_lossy().into_owned()).collect();
    let sol = args.iter().position(|s| s.starts_with("solu") || s.starts_with("-solu")).and_then(|i| args.get(i + 1)).or(args.last()).cloned().unwrap_or_default();
    let prob = args.get(0).cloned().unwrap_or_default();
    for l in plan.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "record" => {
                let _ = std::fs::write(dir.join("args"), format!("{}\n{}\n", base, args.join("\n")));
                let _ = std::fs::copy(&prob, dir.join("problem"));
            }
            "solve" => { // an answer made from the problem, so that nobody else's will do
                crate::gate::child('r', &prob);
                let s = std::fs::read_to_string(&prob).unwrap_or_default();
                crate::gate::child('w', &sol);
                let o = answer_for(&s);
                let _ = std::fs::write(&sol, o);
            }
            "write" => {
                let b = std::fs::read(dir.join("out")).unwrap_or_default();
                let n: usize = w[1].parse().unwrap_or(b.len());
                let _ = std::fs::write(&sol, &b[..n.min(b.len())]);
            }
            "chunks" => { // the same in pieces
                let b = std::fs::read(dir.join("out")).unwrap_or_default();
                if let Ok(mut f) = std::fs::File::create(&sol) { for q in b.chunks(7) { let _ = f.write_all(q); let _ = f.flush(); } }
            }
            "rmprob" => { let _ = std::fs::remove_file(&prob); }
            "mangle" => { let _ = std::fs::write(&prob, "mangled"); }
            "say" => { println!("{}", "Optimal ".repeat(10_000)); eprintln!("{}", "x".repeat(100_000)); }
            "sleep" => std::thread::sleep(std::time::Duration::from_millis(w[1].parse().unwrap_or(1))),
            "rmsol" => { let _ = std::fs::remove_file(&sol); }
            "exit" => return w[1].parse().unwrap_or(96),
            "kill" => unsafe {
                let s: i32 = w[1].parse().unwrap_or(9);
                libc::signal(s, libc::SIG_DFL);
                libc::kill(libc::getpid(), s);
                loop { std::thread::sleep(std::time::Duration::from_millis(50)); }
            },
            _ => (),
        }
    }
    0
}

/// The solution file that the stand-in gives for a problem file.
pub fn answer_for(s: &str) -> String {
    match crate::lp::read(s) {
        Ok(lp) => {
            let nx = lp.n();
            let key: f64 = lp.c.get(&0).cloned().unwrap_or(0.);
            let mut o = format!("Optimal - objective value {}\n", key);
            for i in lp.rows.keys() { o.push_str(&format!("{} c_{} {} {}\n", i, i, 0, key * 100. + *i as f64)); }
            for i in 0..nx { o.push_str(&format!("{} x_{} {} {}\n", i, i, key * 10. + i as f64, key)); }
            o
        }
        Err(_) => "unreadable problem\n".into(),
    }
}

/// A directory with the two commands.
pub struct Fake { pub dir: PathBuf }
impl Fake {
    pub fn new(dir: &Path) -> Fake {
        std::fs::create_dir_all(dir).expect("fake dir");
        let me = std::env::current_exe().expect("exe");
        for n in ["cbc", "clp"] {
            let p = dir.join(n);
            let _ = std::fs::remove_file(&p);
            std::os::unix::fs::symlink(&me, &p).expect("symlink");
        }
        std::env::set_var("FAKE_DIR", dir);
        std::env::set_var("PATH", dir);
        Fake { dir: dir.to_path_buf() }
    }
    pub fn plan(&self, lines: &str) { std::fs::write(self.dir.join("plan"), lines).expect("plan"); }
    pub fn out(&self, b: &[u8]) { std::fs::write(self.dir.join("out"), b).expect("out"); }
    pub fn args(&self) -> Option<Vec<String>> { std::fs::read_to_string(self.dir.join("args")).ok().map(|s| s.lines().map(|l| l.to_string()).collect()) }
    pub fn clear(&self) { for n in ["args", "problem"] { let _ = std::fs::remove_file(self.dir.join(n)); } }
}
