//! Interposes the file and process calls of libc.  The program's own definitions take the place
//! of libc's (as with getrandom in fw.rs); they pass everything through, except that
//!  - inside `faults`, a chosen call fails in a chosen way (C10);
//!  - inside `crate::gate`, file accesses are the steps of a schedule (C11).

use std::cell::RefCell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use libc::{c_char, c_int, c_uint, c_void, size_t, ssize_t};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Open, Write, Read, Unlink, Spawn, Wait, Getcwd, Other }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Errno(c_int),
    /// One byte only.
    Short,
    /// Nothing written, or end of file.
    Zero,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fault {
    /// Number of the call, counted over all interposed calls.
    pub at: usize,
    pub how: How,
    /// Also all later calls of the same kind.
    pub on: bool,
}

struct Plan { armed: Vec<Fault>, kinds: Vec<Kind>, stuck: Vec<String>, hit: usize, sticky: Vec<(Kind, How)> }

static ON: AtomicBool = AtomicBool::new(false);
thread_local! { static PLAN: RefCell<Option<Plan>> = RefCell::new(None); }

/// Outcome of a run under faults.
pub struct Seen {
    /// Kind of every interposed call, in order.
    pub kinds: Vec<Kind>,
    /// Faults that took place.
    pub hit: usize,
    /// Files whose removal was made to fail.
    pub stuck: Vec<String>,
}

/// Runs `f` on this thread with the given faults.
pub fn faults<R>(v: &[Fault], f: impl FnOnce() -> R) -> (R, Seen) {
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { armed: v.to_vec(), kinds: Vec::new(), stuck: Vec::new(), hit: 0, sticky: Vec::new() }));
    ON.store(true, Ordering::SeqCst);
    let r = f();
    ON.store(false, Ordering::SeqCst);
    let p = PLAN.with(|p| p.borrow_mut().take()).unwrap();
    (r, Seen { kinds: p.kinds, hit: p.hit, stuck: p.stuck })
}

fn fault(k: Kind, path: *const c_char) -> Option<How> {
    if !ON.load(Ordering::Relaxed) { return None; }
    PLAN.try_with(|p| {
        let mut g = match p.try_borrow_mut() { Ok(g) => g, Err(_) => return None };
        let p = match g.as_mut() { Some(p) => p, None => return None };
        let i = p.kinds.len();
        p.kinds.push(k);
        let mut h = p.sticky.iter().find(|s| s.0 == k).map(|s| s.1);
        if let Some(f) = p.armed.iter().find(|f| f.at == i).cloned() {
            h = Some(f.how);
            if f.on { p.sticky.push((k, f.how)); }
        }
        if h.is_some() {
            p.hit += 1;
            if k == Kind::Unlink && !path.is_null() {
                let s = unsafe { CStr::from_ptr(path) }.to_string_lossy().into_owned();
                p.stuck.push(s.rsplit('/').next().unwrap_or("").to_string());
            }
        }
        h
    }).unwrap_or(None)
}

unsafe fn fail(e: c_int) -> c_int { *libc::__errno_location() = e; -1 }

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

use crate::gate;

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let f = real!("open64", unsafe extern "C" fn(*const c_char, c_int, c_uint) -> c_int);
    match fault(Kind::Open, path) { Some(How::Errno(e)) => return fail(e), _ => () }
    if gate::on() && !gate::device(path) { gate::step(if flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR) != 0 { 'w' } else { 'r' }, path); }
    f(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let f = real!("unlink", unsafe extern "C" fn(*const c_char) -> c_int);
    match fault(Kind::Unlink, path) { Some(How::Errno(e)) => return fail(e), _ => () }
    if gate::on() { gate::step('w', path); }
    f(path)
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = real!("rename", unsafe extern "C" fn(*const c_char, *const c_char) -> c_int);
    match fault(Kind::Other, a) { Some(How::Errno(e)) => return fail(e), _ => () }
    if gate::on() { gate::step2('w', a, b); }
    f(a, b)
}

#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let f = real!("link", unsafe extern "C" fn(*const c_char, *const c_char) -> c_int);
    match fault(Kind::Other, a) { Some(How::Errno(e)) => return fail(e), _ => () }
    if gate::on() { gate::step2('w', a, b); }
    f(a, b)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: libc::mode_t) -> c_int {
    let f = real!("mkdir", unsafe extern "C" fn(*const c_char, libc::mode_t) -> c_int);
    match fault(Kind::Other, a) { Some(How::Errno(e)) => return fail(e), _ => () }
    if gate::on() { gate::step('w', a); }
    f(a, m)
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    let f = real!("rmdir", unsafe extern "C" fn(*const c_char) -> c_int);
    match fault(Kind::Unlink, a) { Some(How::Errno(e)) => return fail(e), _ => () }
    if gate::on() { gate::step('w', a); }
    f(a)
}

#[no_mangle]
pub unsafe extern "C" fn chdir(a: *const c_char) -> c_int {
    let f = real!("chdir", unsafe extern "C" fn(*const c_char) -> c_int);
    if gate::on() { gate::step('*', a); }
    f(a)
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, b: *mut c_void) -> c_int {
    let f = real!("statx", unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut c_void) -> c_int);
    if gate::on() && !path.is_null() && *path != 0 { gate::step('r', path); }
    f(d, path, flags, mask, b)
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    let f = real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char);
    match fault(Kind::Getcwd, std::ptr::null()) { Some(How::Errno(e)) => { fail(e); return std::ptr::null_mut() }, _ => () }
    f(b, n)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let f = real!("write", unsafe extern "C" fn(c_int, *const c_void, size_t) -> ssize_t);
    match fault(Kind::Write, std::ptr::null()) {
        Some(How::Errno(e)) => return fail(e) as ssize_t,
        Some(How::Short) => return f(fd, b, n.min(1)),
        Some(How::Zero) => return 0,
        _ => ()
    }
    f(fd, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let f = real!("read", unsafe extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t);
    match fault(Kind::Read, std::ptr::null()) {
        Some(How::Errno(e)) => return fail(e) as ssize_t,
        Some(How::Short) => return f(fd, b, n.min(1)),
        Some(How::Zero) => return 0,
        _ => ()
    }
    f(fd, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(p: libc::pid_t, s: *mut c_int, o: c_int) -> libc::pid_t {
    let f = real!("waitpid", unsafe extern "C" fn(libc::pid_t, *mut c_int, c_int) -> libc::pid_t);
    match fault(Kind::Wait, std::ptr::null()) { Some(How::Errno(e)) => return fail(e), _ => () }
    f(p, s, o)
}

type Sp = unsafe extern "C" fn(*mut libc::pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut libc::pid_t, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *mut c_char, envp: *const *mut c_char) -> c_int {
    let f = real!("posix_spawnp", Sp);
    match fault(Kind::Spawn, std::ptr::null()) { Some(How::Errno(e)) => return e, _ => () }
    if gate::on() {
        gate::step('s', std::ptr::null());
        return gate::with_env(envp, |e| f(pid, file, fa, at, argv, e));
    }
    f(pid, file, fa, at, argv, envp)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut libc::pid_t, file: *const c_char, fa: *const c_void, at: *const c_void, argv: *const *mut c_char, envp: *const *mut c_char) -> c_int {
    let f = real!("posix_spawn", Sp);
    match fault(Kind::Spawn, std::ptr::null()) { Some(How::Errno(e)) => return e, _ => () }
    if gate::on() {
        gate::step('s', std::ptr::null());
        return gate::with_env(envp, |e| f(pid, file, fa, at, argv, e));
    }
    f(pid, file, fa, at, argv, envp)
}

/// Makes sure that this module is linked.
pub fn init() { let _ = ON.load(Ordering::Relaxed); }
