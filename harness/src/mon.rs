//! Instrumentation shared by every check: the panic monitor, the allocation
//! monitor (a global allocator that keeps a per-thread live/peak count and
//! enforces an armed ceiling), the CPU-time monitor and the per-case observation log.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

// ---------------------------------------------------------------- allocator
pub struct Tracking;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static CAP: Cell<usize> = const { Cell::new(HARD_CAP) };
}
/// A single request or live total of one thread above this is refused, which ends the process (the driver
/// turns that into a verdict of the case that was running) and keeps a runaway case from taking the box down.
pub const HARD_CAP: usize = 4 << 30;

unsafe extern "C" { fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize; }

fn raw_msg(s: &[u8]) { unsafe { write(2, s.as_ptr().cast(), s.len()); } }

#[inline]
fn on_alloc(sz: usize) -> bool {
    let _ = LARGEST.try_with(|l| if sz > l.get() { l.set(sz) });
    let mut ok = true;
    let _ = LIVE.try_with(|l| {
        let v = l.get() + sz as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        let cap = CAP.try_with(|c| c.get()).unwrap_or(HARD_CAP);
        if v > cap as i64 || sz > cap {
            ok = false;
            raw_msg(b"ALLOC-CAP: one case holds more memory than any workload here can need\n");
        }
    });
    ok
}
#[inline]
fn on_free(sz: usize) { let _ = LIVE.try_with(|l| l.set(l.get() - sz as i64)); }

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) { on_free(l.size()); return std::ptr::null_mut(); }
        let p = unsafe { System.alloc(l) };
        crate::world::fresh(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) { on_free(l.size()); return std::ptr::null_mut(); }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !on_alloc(n - l.size()) { on_free(n - l.size()); return std::ptr::null_mut(); }
            let _ = LARGEST.try_with(|x| if n > x.get() { x.set(n) });
        } else { on_free(l.size() - n); }
        let p = unsafe { System.realloc(p, l, n) };
        if n > l.size() && !p.is_null() { crate::world::fresh(unsafe { p.add(l.size()) }, n - l.size()); }
        p
    }
}

/// Runs `f` with another ceiling for this thread.
pub fn with_cap<T>(cap: usize, f: impl FnOnce() -> T) -> T {
    struct Back; impl Drop for Back { fn drop(&mut self) { CAP.with(|c| c.set(HARD_CAP)) } }
    CAP.with(|c| c.set(cap));
    let _b = Back;
    f()
}
/// Makes a decision that depends on each of these bytes, so that an interpreter or sanitizer notices one nobody ever wrote.
pub fn look(b: &[u8]) {
    static SEEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    if b.iter().fold(0x5au8, |a, x| a ^ x) == 0 { SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
}
/// the same for operations
pub fn look_ops(ops: &[smdiff_reader::Op]) {
    for o in ops { match o {
        smdiff_common::Op::Add(a) => look(&a.bytes),
        smdiff_common::Op::Run(r) => look(&[r.byte, r.len]),
        smdiff_common::Op::Copy(c) => { look(&c.addr.to_le_bytes()); look(&c.len.to_le_bytes()) }
    } }
}
/// bytes this thread has allocated and not freed
pub fn live() -> i64 { LIVE.with(|l| l.get()) }
/// Runs `f` and returns its result with the growth of live memory it caused on this
/// thread (peak above the level at entry) and the largest single request.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|l| l.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    let largest = LARGEST.with(|l| l.get());
    (r, (peak - base).max(0) as usize, largest)
}

// ---------------------------------------------------------------- panics
#[derive(Clone, Debug, Default)]
pub struct PanicInfo { pub msg: String, pub file: String, pub line: u32 }

thread_local! {
    static LAST: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() }
            else { "<non-string panic>".into() };
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            // keep the first panic of an unwinding sequence
            if l.is_none() { *l = Some(PanicInfo { msg, file, line }); }
        });
    }));
}
/// Runs the closure; a panic becomes Err with where it was raised.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST.with(|l| *l.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|l| l.borrow_mut().take()).unwrap_or_default()),
    }
}
impl PanicInfo {
    /// raised by the harness's own source (a bug of the harness, not of the code under test)
    pub fn ours(&self) -> bool { !self.msg.starts_with("SPIN") && (self.file.starts_with("src/") || self.file.starts_with("/verif/")) }
    /// stable identity: file name tail without line numbers
    pub fn site(&self) -> String {
        let f = self.file.replace('\\', "/");
        let f = match f.find("/registry/src/") { Some(i) => f[i + 14..].splitn(2, '/').nth(1).unwrap_or("").to_string(), None => f };
        let f = f.trim_start_matches("/repo/").to_string();
        let m: String = self.msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(80).collect();
        format!("{f}: {m}")
    }
}

// ---------------------------------------------------------------- verdicts
#[derive(Debug, Clone)]
pub struct Viol { pub what: String, pub key: String }
pub type R = Result<(), Viol>;
impl Viol {
    pub fn new(key: &str, what: String) -> Self { Viol { what, key: key.into() } }
}
#[macro_export]
macro_rules! viol { ($key:expr, $($a:tt)*) => { return Err($crate::mon::Viol::new($key, format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return Err($crate::mon::Viol::new($key, format!($($a)*))) } } }
/// Unwraps an API result that has to succeed.
#[macro_export]
macro_rules! ok { ($e:expr, $key:expr, $($a:tt)*) => { match $e { Ok(v) => v, Err(e) => return Err($crate::mon::Viol::new($key, format!("{}: unexpected error {:?}", format!($($a)*), e))) } } }

// ---------------------------------------------------------------- observations
/// What one case observed.
pub struct Ctx {
    pub counters: BTreeMap<&'static str, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub desc: String,
    pub blobs: Vec<(String, Vec<u8>)>,
    pub keep_blobs: bool,
    pub thorough: bool,
    pub profile: &'static str,
}
impl Ctx {
    pub fn new(profile: &'static str, thorough: bool, keep: bool) -> Self {
        Ctx { counters: BTreeMap::new(), sig: 0, nontrivial: false, desc: String::new(), blobs: vec![], keep_blobs: keep, thorough, profile }
    }
    pub fn count(&mut self, k: &'static str, n: u64) { *self.counters.entry(k).or_insert(0) += n; }
    pub fn max(&mut self, k: &'static str, n: u64) { let e = self.counters.entry(k).or_insert(0); if n > *e { *e = n } }
    pub fn sign(&mut self, b: &[u8]) { self.sig = crate::rng::hash_bytes(self.sig, b); }
    pub fn signs(&mut self, s: &str) { self.sign(s.as_bytes()) }
    pub fn blob(&mut self, name: &str, b: &[u8]) {
        if self.keep_blobs { self.blobs.push((name.to_string(), b[..b.len().min(1 << 20)].to_vec())); }
    }
}

// ---------------------------------------------------------------- CPU watchdog
pub const MAXT: usize = 64;
pub struct Slot { pub tid: AtomicU64, pub scen: AtomicUsize, pub seed: AtomicU64, pub limit: AtomicU64, pub idx: AtomicU64, pub gen: AtomicU64, pub active: AtomicUsize }
pub static SLOTS: [Slot; MAXT] = [const { Slot { tid: AtomicU64::new(0), scen: AtomicUsize::new(0), seed: AtomicU64::new(0), limit: AtomicU64::new(0), idx: AtomicU64::new(0), gen: AtomicU64::new(0), active: AtomicUsize::new(0) } }; MAXT];

pub fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().and_then(|s| s.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok()).unwrap_or(0)
}
/// CPU ticks (10 ms) used by a thread of this process.
pub fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
pub fn begin(slot: usize, scen: usize, seed: u64, limit_s: u64, idx: u64) {
    let s = &SLOTS[slot];
    s.active.store(0, SeqCst);
    s.scen.store(scen, SeqCst);
    s.seed.store(seed, SeqCst);
    s.limit.store(limit_s, SeqCst);
    s.idx.store(idx, SeqCst);
    s.gen.fetch_add(1, SeqCst);
    s.active.store(1, SeqCst);
}
pub fn end(slot: usize) { SLOTS[slot].active.store(0, SeqCst); }

/// Polls all slots; calls `fired(slot)` when one case has used more CPU time than its limit.
pub fn watchdog(fired: impl Fn(usize) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen = [(0u64, 0u64); MAXT];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for i in 0..MAXT {
                let s = &SLOTS[i];
                if s.active.load(SeqCst) == 0 { continue; }
                let g = s.gen.load(SeqCst);
                let Some(c) = cpu_ticks(s.tid.load(SeqCst)) else { continue };
                if seen[i].0 != g { seen[i] = (g, c); continue; }
                if c.saturating_sub(seen[i].1) > s.limit.load(SeqCst) * 100
                    && s.gen.load(SeqCst) == g && s.active.load(SeqCst) == 1 { fired(i); }
            }
        }
    });
}
