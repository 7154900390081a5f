//! Takes the place of the Ipopt library: the harness's own definitions of its C interface.

use libc::{c_char, c_double, c_int, c_void};
use std::cell::RefCell;
use std::ffi::CStr;

pub type F = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
pub type Grad = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
pub type G = extern "C" fn(c_int, *const c_double, c_int, c_int, *mut c_double, *mut c_void) -> c_int;
pub type Jac = extern "C" fn(c_int, *const c_double, c_int, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;
pub type H = extern "C" fn(c_int, *const c_double, c_int, c_double, c_int, *const c_double, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;

#[derive(Clone)]
pub struct Prob {
    pub n: i32, pub m: i32, pub l: Vec<f64>, pub u: Vec<f64>, pub gl: Vec<f64>, pub gu: Vec<f64>, pub nj: i32, pub nh: i32, pub style: i32,
    pub f: F, pub g: G, pub grad: Grad, pub jac: Jac, pub h: H,
    pub ints: Vec<(String, i32)>, pub strs: Vec<(String, String)>, pub nums: Vec<(String, f64)>,
    pub freed: u32, pub solves: u32,
}

/// What IpoptSolve does; gets the arrays.
pub struct Call<'a> { pub p: &'a Prob, pub x: *mut f64, pub g: *mut f64, pub obj: *mut f64, pub lam: *mut f64, pub zl: *mut f64, pub zu: *mut f64, pub data: *mut c_void }
pub type Script = Box<dyn FnMut(&Call) -> i32>;

#[derive(Default)]
pub struct State { pub probs: Vec<Prob>, pub fail_create: bool, pub refuse: Vec<String>, pub errors: Vec<String>, pub script: Option<Script>, pub options_after_solve: u32 }

thread_local! { static S: RefCell<State> = RefCell::new(State::default()); }

pub fn reset() { S.with(|s| *s.borrow_mut() = State::default()); }
pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }

// handles are index + 1 in an otherwise meaningless address
fn handle(i: usize) -> *mut c_void { (0x1000 + 16 * i) as *mut c_void }
fn at(h: *mut c_void) -> Option<usize> { let a = h as usize; if a >= 0x1000 && (a - 0x1000) % 16 == 0 { Some((a - 0x1000) / 16) } else { None } }

unsafe fn live<R>(h: *mut c_void, what: &str, f: impl FnOnce(&mut State, usize) -> R) -> Option<R> {
    with(|s| {
        match at(h) {
            Some(i) if i < s.probs.len() => {
                if s.probs[i].freed > 0 { s.errors.push(format!("{} on a problem object that was released", what)); None } else { Some(f(s, i)) }
            }
            _ => { s.errors.push(format!("{} on something that is not a problem object", what)); None }
        }
    })
}
unsafe fn arr(p: *const f64, n: i32) -> Vec<f64> { if p.is_null() || n <= 0 { Vec::new() } else { std::slice::from_raw_parts(p, n as usize).to_vec() } }

#[no_mangle]
pub unsafe extern "C" fn CreateIpoptProblem(n: c_int, xl: *const c_double, xu: *const c_double, m: c_int, gl: *const c_double, gu: *const c_double,
    nj: c_int, nh: c_int, style: c_int, f: F, g: G, grad: Grad, jac: Jac, h: H) -> *mut c_void {
    with(|s| {
        if s.fail_create { return std::ptr::null_mut(); }
        s.probs.push(Prob { n, m, l: arr(xl, n), u: arr(xu, n), gl: arr(gl, m), gu: arr(gu, m), nj, nh, style, f, g, grad, jac, h,
            ints: vec![], strs: vec![], nums: vec![], freed: 0, solves: 0 });
        handle(s.probs.len() - 1)
    })
}
#[no_mangle]
pub unsafe extern "C" fn FreeIpoptProblem(p: *mut c_void) {
    live(p, "FreeIpoptProblem", |s, i| s.probs[i].freed += 1);
}
unsafe fn text(k: *const c_char) -> String { if k.is_null() { "(null)".into() } else { CStr::from_ptr(k).to_string_lossy().into_owned() } }
#[no_mangle]
pub unsafe extern "C" fn AddIpoptIntOption(p: *mut c_void, k: *const c_char, v: c_int) -> c_int {
    let k = text(k);
    live(p, "AddIpoptIntOption", |s, i| { if s.refuse.contains(&k) { return 0; } if s.probs[i].solves > 0 { s.options_after_solve += 1; } s.probs[i].ints.push((k, v)); 1 }).unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn AddIpoptStrOption(p: *mut c_void, k: *const c_char, v: *const c_char) -> c_int {
    let (k, v) = (text(k), text(v));
    live(p, "AddIpoptStrOption", |s, i| { if s.refuse.contains(&k) { return 0; } if s.probs[i].solves > 0 { s.options_after_solve += 1; } s.probs[i].strs.push((k, v)); 1 }).unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn AddIpoptNumOption(p: *mut c_void, k: *const c_char, v: c_double) -> c_int {
    let k = text(k);
    live(p, "AddIpoptNumOption", |s, i| { if s.refuse.contains(&k) { return 0; } s.probs[i].nums.push((k, v)); 1 }).unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn OpenIpoptOutputFile(_p: *mut c_void, _f: *const c_char, _l: c_int) -> c_int { 1 }
#[no_mangle]
pub unsafe extern "C" fn SetIpoptProblemScaling(_p: *mut c_void, _o: c_double, _x: *mut c_double, _g: *mut c_double) -> c_int { 1 }
#[no_mangle]
pub unsafe extern "C" fn SetIntermediateCallback(_p: *mut c_void, _f: *mut c_void) -> c_int { 1 }

#[no_mangle]
pub unsafe extern "C" fn IpoptSolve(p: *mut c_void, x: *mut c_double, g: *mut c_double, obj: *mut c_double, lam: *mut c_double, zl: *mut c_double, zu: *mut c_double, data: *mut c_void) -> c_int {
    let prob = match live(p, "IpoptSolve", |s, i| { s.probs[i].solves += 1; s.probs[i].clone() }) { Some(q) => q, None => return -199 };
    let mut script = with(|s| s.script.take());
    let r = match script.as_mut() { Some(f) => f(&Call { p: &prob, x, g, obj, lam, zl, zu, data }), None => 0 };
    with(|s| s.script = script);
    r
}
