//! Exhaustive-enumeration framework: sharding over processes, crash and hang isolation,
//! replay of single cases, evidence.
//!
//! A check is a function that enumerates its whole bounded space in a fixed order and calls
//! `Ctx::case` for every element.  Each shard process runs the elements whose index is its own
//! modulo the number of shards.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ hash seeds

static SEED_ON: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Takes the place of libc's getrandom: the standard library seeds its hash maps from it.
/// Outside `with_seed` it is the real thing.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    if SEED_ON.load(Ordering::SeqCst) {
        let mut s = SEED.load(Ordering::SeqCst);
        let b = buf as *mut u8;
        let mut i = 0;
        while i < len {
            let r = splitmix(&mut s).to_le_bytes();
            for k in 0..8 {
                if i < len {
                    *b.add(i) = r[k];
                    i += 1;
                }
            }
        }
        len as isize
    } else {
        libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
    }
}

/// Runs `f` on a new thread whose hash maps are seeded with `seed`.
pub fn with_seed<R: Send, F: FnOnce() -> R + Send>(seed: u64, f: F) -> R {
    SEED.store(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234567, Ordering::SeqCst);
    let r = std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
            SEED_ON.store(true, Ordering::SeqCst);
            // forces this thread's keys to be drawn now
            let m: std::collections::HashMap<u32, u32> = std::collections::HashMap::new();
            drop(m);
            SEED_ON.store(false, Ordering::SeqCst);
            catch_unwind(AssertUnwindSafe(f))
        }).expect("thread");
        h.join().expect("join")
    });
    SEED_ON.store(false, Ordering::SeqCst);
    match r {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}

// ------------------------------------------------------------------ failures

#[derive(Debug, Clone)]
pub struct Fail {
    /// Identifies the specific input for the known-findings file.
    pub key: Option<String>,
    pub msg: String,
}

impl From<String> for Fail {
    fn from(m: String) -> Fail { Fail { key: None, msg: m } }
}
impl From<&str> for Fail {
    fn from(m: &str) -> Fail { Fail { key: None, msg: m.to_string() } }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !($c) { return Err($crate::fw::Fail::from(format!($($a)*))); }
    };
}

#[macro_export]
macro_rules! bad {
    ($($a:tt)*) => { return Err($crate::fw::Fail::from(format!($($a)*))) };
}

// ------------------------------------------------------------------ context

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { ModelChecking, FaultEnumeration }

pub struct CheckDef {
    pub id: &'static str,
    pub kind: Kind,
    pub run: fn(&mut Ctx),
    /// What one case is and what makes it non-trivial.
    pub rule: &'static str,
    /// Seconds without progress on one case after which it counts as hanging.
    pub hang_s: u64,
    /// Number of shards (0: one per core).
    pub shards: usize,
    pub assumptions: &'static [&'static str],
}

pub struct Viol {
    pub idx: u64,
    pub key: Option<String>,
    pub desc: String,
    pub msg: String,
}

pub struct Ctx {
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    start: u64,
    idx: u64,
    pub executed: u64,
    pub nontrivial: u64,
    pub transitions: u64,
    pub replayed: u64,
    states: HashSet<u64>,
    states_full: bool,
    viols: Vec<Viol>,
    unknown_viols: usize,
    samples: Vec<String>,
    notes: BTreeMap<String, u64>,
    deadline: Instant,
    capped: bool,
    stop: bool,
    known: HashSet<String>,
    pub scratch: PathBuf,
    pub sections: Vec<(String, u64)>,
}

static PROG: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());

thread_local! { static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }

static PANIC_LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn set_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let m = match i.location() {
            Some(l) => format!("{} (at {}:{})", m, l.file(), l.line()),
            None => m
        };
        if let Ok(mut g) = PANIC_LAST.lock() { *g = m; }
    }));
}

/// Runs `f`; a panic becomes Err(message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_LAST.lock().map(|g| g.clone()).unwrap_or_default()),
    }
}

pub fn hash_str(s: &str) -> u64 { hash_bytes(s.as_bytes()) }
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    let mut y = h;
    splitmix(&mut y)
}
pub fn hash_u64s(v: &[u64]) -> u64 {
    let mut h: u64 = 0x51ed270b;
    for x in v { let mut y = h ^ *x; h = splitmix(&mut y); }
    h
}
pub fn hash_f64s(v: &[f64]) -> u64 {
    let mut h: u64 = 0x51ed270b;
    for x in v {
        let q = if x.is_nan() { u64::MAX } else { (*x + 0.).to_bits() };
        let mut y = h ^ q;
        h = splitmix(&mut y);
    }
    h
}

impl Ctx {
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.thorough() { t } else { q } }

    /// True when the enumeration may be cut short (enough violations, or the time is up).
    pub fn done(&self) -> bool { self.stop }

    /// Is the time up?
    pub fn late(&self) -> bool { Instant::now() > self.deadline }
    /// Notes that an exploration was cut short.
    pub fn cut(&mut self) { self.capped = true; }

    /// Number of cases enumerated so far (over all shards).
    pub fn index(&self) -> u64 { self.idx }

    /// Marks a part of the enumeration, for the evidence.
    pub fn section(&mut self, name: &str) {
        let i = self.idx;
        self.sections.push((name.to_string(), i));
    }

    /// One element of the bounded space.
    pub fn case<D, F>(&mut self, desc: D, f: F)
    where D: Fn() -> String, F: FnOnce(&mut Ctx) -> Res {
        let i = self.idx;
        self.idx += 1;
        if self.stop { return; }
        match self.only {
            Some(o) => {
                if i != o {
                    if i > o { self.stop = true; }
                    return;
                }
            }
            None => {
                if i % self.nshards != self.shard || i < self.start { return; }
            }
        }
        if self.executed & 63 == 0 && Instant::now() > self.deadline {
            self.capped = true;
            self.stop = true;
            return;
        }
        let p = PROG.load(Ordering::Relaxed);
        if !p.is_null() { unsafe { std::ptr::write_volatile(p, i + 1); } }
        self.executed += 1;
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        let fail = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(Fail { key: None, msg: format!("panic: {}", PANIC_LAST.lock().map(|g| g.clone()).unwrap_or_default()) }),
        };
        match fail {
            None => {
                // a few cases written out for the evidence: later ones push out earlier ones
                let e = self.executed;
                if e == 1 + self.shard || e == 301 + 40 * self.shard || e == 20_000 * (self.shard + 1) || e == 200_000 * (self.shard + 1) {
                    let d = desc();
                    self.samples.insert(0, d);
                }
            }
            Some(e) => {
                let known = e.key.as_ref().map(|k| self.known.contains(k)).unwrap_or(false);
                self.viols.push(Viol { idx: i, key: e.key, desc: desc(), msg: e.msg });
                if !known {
                    self.unknown_viols += 1;
                    if self.unknown_viols >= 3 && std::env::var_os("MC_KEYS").is_none() { self.stop = true; }
                }
            }
        }
    }

    /// Would the next case be run here?  Lets expensive set-up be skipped.
    pub fn mine(&self) -> bool {
        if self.stop { return false; }
        match self.only {
            Some(o) => o == self.idx,
            None => self.idx % self.nshards == self.shard && self.idx >= self.start,
        }
    }

    pub fn state(&mut self, h: u64) {
        if self.states.len() < 2_000_000 { self.states.insert(h); }
        else if !self.states.contains(&h) { self.states_full = true; }
    }
    pub fn step(&mut self, n: u64) { self.transitions += n; }
    /// Counts a complete enumerated trace that was executed on the real code and compared.
    pub fn trace(&mut self) { self.replayed += 1; }
    pub fn nontrivial(&mut self) { self.nontrivial += 1; }
    pub fn note(&mut self, k: &str, n: u64) { *self.notes.entry(k.to_string()).or_insert(0) += n; }
}

// ------------------------------------------------------------------ process plumbing

pub fn verif_dir() -> PathBuf {
    match std::env::var_os("VERIF_DIR") {
        Some(d) => PathBuf::from(d),
        None => PathBuf::from("/verif"),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o
}

fn oneline(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t") }
fn unline(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some(x) => o.push(x), None => () }
        } else { o.push(c) }
    }
    o
}

pub struct Known { pub known: Vec<(String, String, String)> } // property, key, what

/// Lines "known: property=<id> key=<key> <what>".
pub fn load_known() -> Known {
    let mut k = Known { known: Vec::new() };
    let p = verif_dir().join("known_findings.txt");
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let id = it.next().unwrap_or("").to_string();
                let key = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("").to_string();
                let what = it.next().unwrap_or("").to_string();
                k.known.push((id, key, what));
            }
        }
    }
    k
}

fn new_ctx(def: &CheckDef, tier: Tier, shard: u64, nshards: u64, start: u64, only: Option<u64>, scratch: PathBuf, secs: u64) -> Ctx {
    let known = load_known().known.into_iter().filter(|k| k.0 == def.id).map(|k| k.1).collect();
    Ctx {
        tier, shard, nshards, only, start, idx: 0, executed: 0, nontrivial: 0, transitions: 0, replayed: 0,
        states: HashSet::new(), states_full: false, viols: Vec::new(), unknown_viols: 0, samples: Vec::new(),
        notes: BTreeMap::new(), deadline: Instant::now() + Duration::from_secs(secs), capped: false, stop: false,
        known, scratch, sections: Vec::new(),
    }
}

fn map_prog(path: &Path) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress file");
    f.set_len(64).expect("len");
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    }
}

fn tier_of(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }
fn tier_str(t: Tier) -> &'static str { if t == Tier::Thorough { "thorough" } else { "quick" } }

fn shard_main(def: &CheckDef, a: &[String]) -> i32 {
    // shard ID TIER K N START ONLY OUTDIR SECS
    let tier = tier_of(&a[1]);
    let k: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let start: u64 = a[4].parse().unwrap();
    let only: Option<u64> = a[5].parse().ok();
    let dir = PathBuf::from(&a[6]);
    let secs: u64 = a[7].parse().unwrap();
    let out = PathBuf::from(&a[8]);
    PROG.store(map_prog(&out.with_extension("prog")), Ordering::SeqCst);
    let scratch = dir.join(format!("s{}", k));
    std::fs::create_dir_all(&scratch).expect("scratch");
    set_hook();
    let mut c = new_ctx(def, tier, k, n, start, only, scratch, secs);
    // one fixed hash seed for the whole shard; checks that enumerate seeds do so themselves
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    with_seed(1000 + seed, || (def.run)(&mut c));
    let mut s = String::new();
    let _ = writeln!(s, "total\t{}", c.idx);
    let _ = writeln!(s, "executed\t{}", c.executed);
    let _ = writeln!(s, "nontrivial\t{}", c.nontrivial);
    let _ = writeln!(s, "transitions\t{}", c.transitions);
    let _ = writeln!(s, "replayed\t{}", c.replayed);
    let _ = writeln!(s, "capped\t{}", c.capped as u8);
    let _ = writeln!(s, "states_full\t{}", c.states_full as u8);
    for (k, v) in &c.notes { let _ = writeln!(s, "note\t{}\t{}", k, v); }
    for (k, v) in &c.sections { let _ = writeln!(s, "section\t{}\t{}", k, v); }
    for x in &c.samples { let _ = writeln!(s, "sample\t{}", oneline(x)); }
    for v in &c.viols {
        let _ = writeln!(s, "viol\t{}\t{}\t{}\t{}", v.idx, v.key.clone().unwrap_or_default(), oneline(&v.desc), oneline(&v.msg));
    }
    let mut st: Vec<u8> = Vec::with_capacity(c.states.len() * 8);
    for h in &c.states { st.extend_from_slice(&h.to_le_bytes()); }
    std::fs::write(out.with_extension("states"), st).expect("write states");
    let _ = writeln!(s, "end");
    std::fs::write(&out, s).expect("write");
    0
}

fn spawn_shard(def: &CheckDef, tier: Tier, k: u64, n: u64, start: u64, only: Option<u64>, dir: &Path, secs: u64, out: &Path) -> Child {
    let exe = std::env::current_exe().expect("exe");
    let _ = std::fs::remove_file(out);
    let _ = std::fs::remove_file(out.with_extension("prog"));
    let mut c = Command::new(exe);
    c.arg("shard").arg(def.id).arg(tier_str(tier)).arg(k.to_string()).arg(n.to_string()).arg(start.to_string())
        .arg(only.map(|x| x.to_string()).unwrap_or("-".into())).arg(dir).arg(secs.to_string()).arg(out)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if std::env::var_os("MC_STDERR").is_some() { c.stderr(Stdio::inherit()); c.stdout(Stdio::inherit()); }
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000); // ADDR_NO_RANDOMIZE: hash orders by address are reproducible
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().expect("spawn shard")
}

fn kill_group(ch: &mut Child) {
    unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL); }
    let _ = ch.kill();
    let _ = ch.wait();
}

fn read_prog(out: &Path) -> u64 {
    match std::fs::read(out.with_extension("prog")) {
        Ok(b) if b.len() >= 8 => u64::from_le_bytes(b[0..8].try_into().unwrap()),
        _ => 0,
    }
}

enum ShardEnd { Fine, Crash(String), Hang }

fn wait_shard(ch: &mut Child, out: &Path, hang: u64, last: &mut (u64, Instant)) -> Option<ShardEnd> {
    match ch.try_wait() {
        Ok(Some(st)) => {
            unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL); }
            if st.success() { Some(ShardEnd::Fine) }
            else { Some(ShardEnd::Crash(match st.signal() { Some(s) => format!("signal {}", s), None => format!("exit {:?}", st.code()) })) }
        }
        Ok(None) => {
            let p = read_prog(out);
            if p != last.0 { *last = (p, Instant::now()); }
            else if last.1.elapsed() > Duration::from_secs(hang) { kill_group(ch); return Some(ShardEnd::Hang); }
            None
        }
        Err(e) => Some(ShardEnd::Crash(format!("{}", e))),
    }
}

#[derive(Default)]
struct Tot {
    total: u64, executed: u64, nontrivial: u64, transitions: u64, replayed: u64, capped: bool, states_full: bool,
    notes: BTreeMap<String, u64>, samples: Vec<String>, viols: Vec<(u64, String, String, String)>,
    sections: Vec<(String, u64)>, complete: bool,
}

fn parse_out(p: &Path) -> Option<Tot> {
    let s = std::fs::read_to_string(p).ok()?;
    let mut t = Tot::default();
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "total" => t.total = f[1].parse().ok()?,
            "executed" => t.executed = f[1].parse().ok()?,
            "nontrivial" => t.nontrivial = f[1].parse().ok()?,
            "transitions" => t.transitions = f[1].parse().ok()?,
            "replayed" => t.replayed = f[1].parse().ok()?,
            "capped" => t.capped = f[1] == "1",
            "states_full" => t.states_full = f[1] == "1",
            "note" => { t.notes.insert(f[1].to_string(), f[2].parse().ok()?); }
            "section" => { t.sections.push((f[1].to_string(), f[2].parse().ok()?)); }
            "sample" => t.samples.push(unline(f[1])),
            "viol" => t.viols.push((f[1].parse().ok()?, f[2].to_string(), unline(f[3]), unline(f[4]))),
            "end" => t.complete = true,
            _ => (),
        }
    }
    if t.complete { Some(t) } else { None }
}

/// Runs one case alone in a fresh process.  Some(message) if it fails.
fn run_isolated(def: &CheckDef, tier: Tier, idx: u64, dir: &Path) -> Result<Option<(String, String, String)>, String> {
    let out = dir.join("iso.out");
    let mut ch = spawn_shard(def, tier, 0, 1, 0, Some(idx), dir, 600, &out);
    let mut last = (u64::MAX, Instant::now());
    loop {
        if let Some(e) = wait_shard(&mut ch, &out, def.hang_s, &mut last) {
            return match e {
                ShardEnd::Fine => match parse_out(&out) {
                    Some(t) => Ok(t.viols.into_iter().next().map(|v| (v.1, v.2, v.3))),
                    None => Err("no output from isolated case".into()),
                },
                ShardEnd::Crash(s) => if read_prog(&out) == 0 { Err(format!("isolated case died before it began: {}", s)) } else {
                    Ok(Some((String::new(), format!("case {}", idx), format!("the process running the case died: {}", s)))) },
                ShardEnd::Hang => Ok(Some((String::new(), format!("case {}", idx), format!("no progress in {} s", def.hang_s)))),
            };
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn run_main(def: &CheckDef, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let vd = verif_dir();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = vd.join("work").join(format!("{}.{}", def.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("work dir");
    let n = if def.shards > 0 { def.shards } else {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 16)
    } as u64;
    let secs: u64 = std::env::var("MC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 400 } else { 780 });
    let mut sh: Vec<(Child, PathBuf, (u64, Instant), Option<ShardEnd>)> = (0..n).map(|k| {
        let out = dir.join(format!("shard{}.out", k));
        (spawn_shard(def, tier, k, n, 0, None, &dir, secs, &out), out, (u64::MAX, Instant::now()), None)
    }).collect();
    loop {
        let mut live = false;
        for s in sh.iter_mut() {
            if s.3.is_none() {
                s.3 = wait_shard(&mut s.0, &s.1, def.hang_s, &mut s.2);
                if s.3.is_none() { live = true; }
            }
        }
        if !live { break; }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut tot = Tot::default();
    let mut states: Vec<u64> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    for s in sh.iter() {
        match s.3.as_ref().unwrap() {
            ShardEnd::Fine => match parse_out(&s.1) {
                Some(t) => {
                    tot.total = tot.total.max(t.total);
                    tot.executed += t.executed; tot.nontrivial += t.nontrivial; tot.transitions += t.transitions; tot.replayed += t.replayed;
                    tot.capped |= t.capped; tot.states_full |= t.states_full;
                    for (k, v) in t.notes { *tot.notes.entry(k).or_insert(0) += v; }
                    for x in t.samples { if tot.samples.len() < 8 { tot.samples.push(x); } }
                    if tot.sections.is_empty() { tot.sections = t.sections; }
                    tot.viols.extend(t.viols);
                    if let Ok(b) = std::fs::read(s.1.with_extension("states")) {
                        states.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                    }
                }
                None => errors.push("a shard wrote no result".into()),
            },
            e => {
                let why = match e { ShardEnd::Crash(s) => s.clone(), _ => "no progress".into() };
                let p = read_prog(&s.1);
                if p == 0 { errors.push(format!("a shard died before its first case: {}", why)); continue; }
                match run_isolated(def, tier, p - 1, &dir) {
                    Ok(Some(v)) => tot.viols.push((p - 1, v.0, v.1, format!("{} [shard: {}]", v.2, why))),
                    Ok(None) => errors.push(format!("a shard ended with {} at case {}, which alone runs fine", why, p - 1)),
                    Err(e) => errors.push(e),
                }
            }
        }
    }
    states.sort_unstable();
    states.dedup();
    // Findings
    let known = load_known();
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut real: Vec<(u64, String, String, String)> = Vec::new();
    for v in tot.viols.into_iter() {
        if !v.1.is_empty() && known.known.iter().any(|k| k.0 == def.id && k.1 == v.1) { *seen_known.entry(v.1.clone()).or_insert(0) += 1; }
        else { real.push(v); }
    }
    real.sort_by_key(|v| v.0);
    for k in known.known.iter().filter(|k| k.0 == def.id) {
        if seen_known.contains_key(&k.1) {
            println!("KNOWN-FINDING: property={} {} (key={})", def.id, k.2, k.1);
        }
    }
    if std::env::var_os("MC_KEYS").is_some() {
        for v in real.iter().filter(|v| !v.1.is_empty()) { println!("known: property={} key={} {}: {}", def.id, v.1, oneline(&v.2), oneline(&v.3)); }
    }
    let wall = t0.elapsed().as_secs_f64();
    // Evidence
    let mut j = String::new();
    let level = if def.kind == Kind::FaultEnumeration { "fault_enumeration" } else { "model_checking" };
    let _ = write!(j, "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n", def.id, tier_str(tier), seed, level);
    let _ = write!(j, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n", tot.executed, tot.nontrivial, esc(def.rule));
    let _ = write!(j, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", states.len(), tot.transitions, tot.replayed);
    let _ = write!(j, "  \"exhaustive\": {},\n  \"enumerated_cases\": {},\n  \"states_count_is_lower_bound\": {},\n",
        !tot.capped && errors.is_empty() && real.is_empty(), tot.total, tot.states_full);
    for (k, v) in &tot.notes { let _ = write!(j, "  \"{}\": {},\n", esc(k), v); }
    let secs: Vec<String> = tot.sections.iter().enumerate().map(|(i, (k, v))| {
        let end = tot.sections.get(i + 1).map(|x| x.1).unwrap_or(tot.total);
        format!("\"{}: {} cases\"", esc(k), end.saturating_sub(*v))
    }).collect();
    let _ = write!(j, "  \"parts\": [{}],\n", secs.join(", "));
    let sm: Vec<String> = tot.samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(600).collect::<String>()))).collect();
    let _ = write!(j, "  \"known_findings_seen\": {},\n  \"shards\": {},\n  \"samples\": [{}]\n }},\n", seen_known.len(), n, sm.join(", "));
    let asm: Vec<String> = def.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let _ = write!(j, " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", asm.join(", "), wall, real.len());
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    std::fs::write(vd.join("evidence").join(format!("{}.json", def.id)), j).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    println!("{} {}: {} of {} cases run, {} states, {} transitions, {} violations, {:.1} s{}", def.id, tier_str(tier), tot.executed, tot.total,
        states.len(), tot.transitions, real.len(), wall, if tot.capped { " (time budget reached: not exhaustive)" } else { "" });
    if !real.is_empty() {
        let rd = vd.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (i, v) in real.iter().enumerate().take(5) {
            let f = rd.join(format!("{}-{}.txt", def.id, i));
            let _ = std::fs::write(&f, format!("property={}\ntier={}\ncase={}\ninput={}\nviolation={}\n", def.id, tier_str(tier), v.0, v.2, v.3));
            println!("VIOLATION property={} replay={}", def.id, f.display());
            println!("  case {}: {}", v.0, v.2.chars().take(1500).collect::<String>());
            println!("  {}", v.3.chars().take(1500).collect::<String>());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors { println!("ERROR {}", e); }
        return 2;
    }
    0
}

fn replay_main(defs: &[CheckDef], file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) { Ok(s) => s, Err(e) => { println!("ERROR {}", e); return 2; } };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string())).unwrap_or_default();
    let id = get("property");
    let def = match defs.iter().find(|d| d.id == id) { Some(d) => d, None => { println!("ERROR no such check {}", id); return 2; } };
    let dir = verif_dir().join("work").join(format!("replay.{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("dir");
    let r = run_isolated(def, tier_of(&get("tier")), get("case").parse().unwrap_or(0), &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(Some(v)) => { println!("VIOLATION property={} replay={}\n  {}\n  {}", id, file, v.1, v.2); 1 }
        Ok(None) => { println!("the case holds now"); 0 }
        Err(e) => { println!("ERROR {}", e); 2 }
    }
}

pub fn main_with(defs: &[CheckDef]) -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let usage = || { eprintln!("usage: run ID quick|thorough | replay FILE | list"); 2 };
    if a.is_empty() { return usage(); }
    match a[0].as_str() {
        "list" => { for d in defs { println!("{}", d.id); } 0 }
        "run" if a.len() >= 3 => match defs.iter().find(|d| d.id == a[1]) {
            Some(d) => run_main(d, tier_of(&a[2])),
            None => { eprintln!("no such check"); 2 }
        },
        "shard" if a.len() >= 10 => match defs.iter().find(|d| d.id == a[1]) {
            Some(d) => shard_main(d, &a[1..]),
            None => 2
        },
        "replay" if a.len() >= 2 => replay_main(defs, &a[1]),
        _ => usage(),
    }
}
