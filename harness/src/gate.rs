//! Schedules of file accesses (C11).  Every participant (a thread or a forked process, together
//! with the solver command it runs) stops before each of its file accesses and goes on when the
//! scheduler lets it; between two of its stops nobody else runs.

use libc::{c_char, c_int};
use std::cell::{Cell, UnsafeCell};
use std::ffi::{CStr, CString};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const MAXP: usize = 4;
const PATHLEN: usize = 400;
const NRES: usize = 64;

#[repr(C)]
pub struct Slot {
    /// 0 running, 1 waiting before a step, 2 finished
    state: AtomicU32,
    go: AtomicU32,
    kind: AtomicU32,
    path: UnsafeCell<[u8; PATHLEN]>,
    path2: UnsafeCell<[u8; PATHLEN]>,
    nres: AtomicU32,
    res: UnsafeCell<[f64; NRES]>,
}
#[repr(C)]
pub struct Block { wake: AtomicU32, off: AtomicU32, slots: [Slot; MAXP] }

static BLOCK: AtomicPtr<Block> = AtomicPtr::new(std::ptr::null_mut());
thread_local! { static PART: Cell<i32> = const { Cell::new(-1) }; }

fn block() -> Option<&'static Block> { let p = BLOCK.load(SeqCst); if p.is_null() { None } else { unsafe { Some(&*p) } } }

fn map(path: &Path, create: bool) -> bool {
    let f = match std::fs::OpenOptions::new().read(true).write(true).create(create).open(path) { Ok(f) => f, Err(_) => return false };
    let n = std::mem::size_of::<Block>();
    if create { let _ = f.set_len(n as u64); }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        if p == libc::MAP_FAILED { return false; }
        BLOCK.store(p as *mut Block, SeqCst);
    }
    true
}

fn futex_wait(a: &AtomicU32, v: u32, ms: u64) {
    let t = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, libc::FUTEX_WAIT, v, &t as *const libc::timespec); }
}
fn futex_wake(a: &AtomicU32) { unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, libc::FUTEX_WAKE, 64); } }

pub fn on() -> bool { PART.try_with(|p| p.get() >= 0).unwrap_or(false) }

unsafe impl Sync for Block {}

fn put(to: &UnsafeCell<[u8; PATHLEN]>, s: &[u8]) {
    let p = to.get() as *mut u8;
    let n = s.len().min(PATHLEN - 1);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), p, n); *p.add(n) = 0; }
}
fn get(of: &UnsafeCell<[u8; PATHLEN]>) -> String { unsafe { CStr::from_ptr(of.get() as *const c_char) }.to_string_lossy().into_owned() }

fn full(p: *const c_char) -> String {
    if p.is_null() { return String::new(); }
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    let mut q = PathBuf::new();
    if !s.starts_with('/') {
        let mut b = [0 as c_char; 4096];
        let r = unsafe { libc::syscall(libc::SYS_getcwd, b.as_mut_ptr(), 4096usize) };
        if r > 0 { q = PathBuf::from(unsafe { CStr::from_ptr(b.as_ptr()) }.to_string_lossy().into_owned()); }
    }
    for c in Path::new(&s).components() { q.push(c); }
    let mut o = PathBuf::new();
    for c in q.components() { match c { std::path::Component::CurDir => (), std::path::Component::ParentDir => { o.pop(); } c => o.push(c) } }
    o.to_string_lossy().into_owned()
}

fn stop(kind: char, p: &str, q: &str) {
    let i = PART.with(|p| p.get());
    let b = match block() { Some(b) => b, None => return };
    if b.off.load(SeqCst) != 0 { return; }
    let s = &b.slots[i as usize];
    PART.with(|p| p.set(-1));
    put(&s.path, p.as_bytes());
    put(&s.path2, q.as_bytes());
    s.kind.store(kind as u32, SeqCst);
    s.state.store(1, SeqCst);
    b.wake.fetch_add(1, SeqCst);
    futex_wake(&b.wake);
    let t = Instant::now();
    while s.go.load(SeqCst) == 0 && b.off.load(SeqCst) == 0 {
        futex_wait(&s.go, 0, 1000);
        if t.elapsed() > Duration::from_secs(60) { break; } // the scheduler is gone
    }
    s.go.store(0, SeqCst);
    PART.with(|p| p.set(i));
}

pub fn step(k: char, p: *const c_char) { stop(k, &full(p), ""); }
pub fn step2(k: char, p: *const c_char, q: *const c_char) { stop(k, &full(p), &full(q)); }

/// The environment for a command run by this participant.
pub unsafe fn with_env(e: *const *mut c_char, f: impl FnOnce(*const *mut c_char) -> c_int) -> c_int {
    let me = CString::new(format!("MC_PART={}", PART.with(|p| p.get()))).unwrap();
    let mut v: Vec<*mut c_char> = Vec::new();
    let mut p = e;
    if !p.is_null() {
        while !(*p).is_null() {
            if !CStr::from_ptr(*p).to_bytes().starts_with(b"MC_PART=") { v.push(*p); }
            p = p.add(1);
        }
    }
    v.push(me.as_ptr() as *mut c_char);
    v.push(std::ptr::null_mut());
    f(v.as_ptr())
}

/// In the stand-in for the command: which participant runs it?
pub fn child_part() -> i32 { std::env::var("MC_PART").ok().and_then(|s| s.parse().ok()).unwrap_or(-1) }

/// A file access of the stand-in.
pub fn child(kind: char, path: &str) {
    let i = child_part();
    if i < 0 { return; }
    if block().is_none() {
        let f = match std::env::var_os("MC_GATE") { Some(f) => f, None => return };
        if !map(Path::new(&f), false) { return; }
    }
    PART.with(|p| p.set(i));
    let c = CString::new(path).unwrap_or_default();
    stop(kind, &full(c.as_ptr()), "");
    PART.with(|p| p.set(-1));
}

// ------------------------------------------------------------------ scheduler

#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub kind: char, pub path: String, pub path2: String }
impl Op {
    fn touches(&self, o: &Op) -> bool {
        let near = |a: &str, b: &str| !a.is_empty() && !b.is_empty() && (a == b || a.starts_with(&format!("{}/", b)) || b.starts_with(&format!("{}/", a)));
        near(&self.path, &o.path) || near(&self.path, &o.path2) || near(&self.path2, &o.path) || near(&self.path2, &o.path2)
    }
    /// Do the two operations not commute?
    pub fn dependent(&self, o: &Op) -> bool {
        if self.kind == '*' || o.kind == '*' { return true; }
        (self.kind == 'w' || o.kind == 'w') && self.touches(o)
    }
    pub fn short(&self) -> String { format!("{}:{}{}", self.kind, self.path.rsplit('/').next().unwrap_or(""), if self.path2.is_empty() { String::new() } else { format!(">{}", self.path2.rsplit('/').next().unwrap_or("")) }) }
}

/// One executed step: who, what, and what every participant was about to do.
#[derive(Clone, Debug)]
pub struct Done { pub who: usize, pub op: Op, pub next: Vec<Option<Op>> }

pub type Job = Box<dyn Fn() -> Vec<f64> + Send + Sync>;

pub struct Run { pub trace: Vec<Done>, pub results: Vec<Vec<f64>>, pub blocked: usize, pub broken: Option<String> }

pub fn init(file: &Path) {
    assert!(map(file, true));
    std::env::set_var("MC_GATE", file);
}

fn body(i: usize, j: &Job) {
    let b = block().unwrap();
    let s = &b.slots[i];
    PART.with(|p| p.set(i as i32));
    stop('b', "", "");
    let r = j();
    PART.with(|p| p.set(-1));
    let n = r.len().min(NRES);
    for k in 0..n { unsafe { *(s.res.get() as *mut f64).add(k) = r[k]; } }
    s.nres.store(n as u32, SeqCst);
    s.state.store(2, SeqCst);
    b.wake.fetch_add(1, SeqCst);
    futex_wake(&b.wake);
}

/// Runs the jobs under the scheduler.  `choose(waiting, trace)` picks who goes next.
pub fn run(jobs: &[Job], fork: bool, choose: &mut dyn FnMut(&[Option<Op>], &[Done]) -> usize) -> Run {
    let b = block().expect("gate");
    b.off.store(0, SeqCst);
    let n = jobs.len();
    for s in &b.slots { s.state.store(0, SeqCst); s.go.store(0, SeqCst); s.nres.store(0, SeqCst); }
    let mut pids = vec![0; n];
    let mut out = Run { trace: Vec::new(), results: Vec::new(), blocked: 0, broken: None };
    let sched = |out: &mut Run, pids: &[i32], choose: &mut dyn FnMut(&[Option<Op>], &[Done]) -> usize| {
        let mut running: Vec<bool> = vec![true; n]; // may be running now
        let mut blocked = vec![false; n];
        let mut last = Instant::now();
        loop {
            // until nobody who is not blocked is running
            let t = Instant::now();
            loop {
                let w = b.wake.load(SeqCst);
                for i in 0..n { if b.slots[i].state.load(SeqCst) != 0 { running[i] = false; blocked[i] = false; } }
                if (0..n).all(|i| !running[i] || blocked[i]) { break; }
                let e = t.elapsed().as_millis() as u64;
                if e >= 100 { for i in 0..n { if running[i] && !blocked[i] { blocked[i] = true; out.blocked += 1; } } break; }
                futex_wait(&b.wake, w, 100 - e);
            }
            let st: Vec<u32> = (0..n).map(|i| b.slots[i].state.load(SeqCst)).collect();
            if st.iter().all(|s| *s == 2) { return; }
            let waiting: Vec<Option<Op>> = (0..n).map(|i| if st[i] == 1 { let s = &b.slots[i]; Some(Op { kind: char::from_u32(s.kind.load(SeqCst)).unwrap_or('?'), path: get(&s.path), path2: get(&s.path2) }) } else { None }).collect();
            if waiting.iter().all(|w| w.is_none()) {
                // all are blocked or busy
                for i in 0..n { if pids[i] > 0 && st[i] == 0 {
                    let mut s = 0;
                    if unsafe { libc::syscall(libc::SYS_wait4, pids[i], &mut s as *mut c_int, libc::WNOHANG, 0) } == pids[i] as i64 { out.broken = Some(format!("participant {} died (status {})", i, s)); return; }
                } }
                if last.elapsed() > Duration::from_secs(20) { out.broken = Some("no participant makes progress".into()); return; }
                std::thread::sleep(Duration::from_millis(2));
                for i in 0..n { if running[i] { blocked[i] = true; } }
                continue;
            }
            last = Instant::now();
            let k = choose(&waiting, &out.trace);
            let k = if waiting.get(k).map(|w| w.is_some()).unwrap_or(false) { k } else { waiting.iter().position(|w| w.is_some()).unwrap() };
            out.trace.push(Done { who: k, op: waiting[k].clone().unwrap(), next: waiting.clone() });
            let s = &b.slots[k];
            running[k] = true;
            blocked[k] = false;
            s.state.store(0, SeqCst);
            s.go.store(1, SeqCst);
            futex_wake(&s.go);
        }
    };
    if fork {
        for i in 0..n {
            let p = unsafe { libc::fork() };
            if p == 0 { body(i, &jobs[i]); unsafe { libc::_exit(0) } }
            if p < 0 { out.broken = Some("fork".into()); break; }
            pids[i] = p;
        }
        if out.broken.is_none() { sched(&mut out, &pids, choose); }
        if out.broken.is_some() { b.off.store(1, SeqCst); for i in 0..n { if pids[i] > 0 { futex_wake(&b.slots[i].go); unsafe { libc::kill(pids[i], libc::SIGKILL); } } } }
        for p in &pids { if *p > 0 { let mut s = 0; unsafe { libc::syscall(libc::SYS_wait4, *p, &mut s as *mut c_int, 0, 0); } } }
    } else {
        std::thread::scope(|sc| {
            for i in 0..n { let j = &jobs[i]; sc.spawn(move || body(i, j)); }
            sched(&mut out, &pids, choose);
            if out.broken.is_some() { b.off.store(1, SeqCst); for i in 0..n { futex_wake(&b.slots[i].go); } }
        });
    }
    for i in 0..n {
        let s = &b.slots[i];
        let k = s.nres.load(SeqCst) as usize;
        out.results.push((0..k.min(NRES)).map(|q| unsafe { *(s.res.get() as *const f64).add(q) }).collect());
    }
    out
}

/// Not a file that anybody could share.
pub fn device(p: *const c_char) -> bool { p.is_null() || unsafe { CStr::from_ptr(p) }.to_bytes().starts_with(b"/dev/") }
