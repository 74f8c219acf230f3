//! Shared infrastructure of all monitors: case scheduling, replay, resource
//! monitors (memory, CPU time, crashes), and evidence output.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
#[cfg(target_has_atomic = "64")]
use std::sync::atomic::AtomicU64;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};

pub mod argsmodel;
pub mod charjson;
pub mod dvarmodel;
pub mod refimpl;
pub mod sigmodel;
pub mod tokmodel;

// ---------------------------------------------------------------------------
// PRNG (independent of the code under test)

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64, stream: u64, idx: u64) -> Self {
        let mut r = Rng(
            seed ^ stream.wrapping_mul(0xD6E8FEB86659FD93),
            idx.wrapping_mul(2).wrapping_add(0x9E3779B97F4A7C15) | 1,
        );
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        // Weyl sequence with a strong finalizer.
        self.0 = self.0.wrapping_add(self.1 | 1);
        let mut z = self.0 ^ self.1.rotate_left(32);
        z = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93);
        z = (z ^ (z >> 32)).wrapping_mul(0xd6e8feb86659fd93);
        z ^ (z >> 32)
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 16) as u32 }
    pub fn u16(&mut self) -> u16 { (self.u64() >> 24) as u16 }
    pub fn u8(&mut self) -> u8 { (self.u64() >> 24) as u8 }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// Number of operations of a history: mostly few, at times hundreds.
    pub fn ops(&mut self, few: usize) -> usize {
        if !cfg!(miri) && self.chance(1, 300) { self.range(200, 1500) } else { self.range(1, few) }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn bool(&mut self) -> bool { self.u64() & 0x100 != 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A 64-bit value biased to boundaries.
    pub fn edge64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => !(1u64 << self.below(64)),
            5 => self.below(300) as u64,
            _ => self.u64(),
        }
    }
    /// Small length, mostly tiny with a heavy tail up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        let m = match self.below(10) {
            0..=3 => 4,
            4..=6 => 12,
            7..=8 => 40,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }
}

// ---------------------------------------------------------------------------
// Hash helper for coverage signatures

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn sig<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    v.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------
// Counting allocator

pub struct Alloc;

static BYPASS: AtomicBool = AtomicBool::new(false);
pub const MAX_SINGLE: usize = 1 << 30;
pub const MAX_LIVE: isize = if usize::BITS > 32 { 1 << (usize::BITS / 2 - 1) } else { isize::MAX };

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static REQ: Cell<usize> = const { Cell::new(0) };
    static NALLOC: Cell<u64> = const { Cell::new(0) };
}

fn account(add: usize, sub: usize, req: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + add as isize - sub as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        let _ = REQ.try_with(|r| if req > r.get() { r.set(req) });
        let _ = NALLOC.try_with(|r| r.set(r.get() + (req > 0) as u64));
        if (req > MAX_SINGLE || v > MAX_LIVE) && !BYPASS.swap(true, Ordering::SeqCst) {
            fail(&format!(
                "memory: code under test requested {} bytes ({} live in this case's thread) for a small input",
                req, v
            ));
        }
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size(), 0, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size(), 0, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(0, l.size(), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n, l.size(), n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// Allocation monitor of the current thread.
pub struct AllocMark { live: isize, count: u64 }
impl AllocMark {
    pub fn new() -> Self {
        let live = LIVE.with(|l| l.get());
        PEAK.with(|p| p.set(live));
        REQ.with(|r| r.set(0));
        AllocMark { live, count: NALLOC.with(|n| n.get()) }
    }
    /// Highest number of additional live bytes since the mark.
    pub fn peak(&self) -> usize { (PEAK.with(|p| p.get()) - self.live).max(0) as usize }
    /// Largest single request since the mark.
    pub fn largest(&self) -> usize { REQ.with(|r| r.get()) }
    /// Currently live bytes relative to the mark.
    pub fn live(&self) -> isize { LIVE.with(|l| l.get()) - self.live }
    pub fn count(&self) -> u64 { NALLOC.with(|n| n.get()) - self.count }
}

// ---------------------------------------------------------------------------
// Run configuration and global state

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RunMode { Native, Miri, Asan }

pub struct Conf {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub mode: RunMode,
    pub out: Option<String>,
    pub replay: String,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub scale: f64,
}

static CONF: OnceLock<Conf> = OnceLock::new();
pub fn conf() -> &'static Conf { CONF.get().unwrap() }

/// Stand-in on interpreted targets without 64-bit atomics, where the counts
/// stay small.
#[cfg(not(target_has_atomic = "64"))]
struct AtomicU64(AtomicUsize);
#[cfg(not(target_has_atomic = "64"))]
impl AtomicU64 {
    const fn new(v: u64) -> Self { Self(AtomicUsize::new(v as usize)) }
    fn load(&self, o: Ordering) -> u64 { self.0.load(o) as u64 }
    fn store(&self, v: u64, o: Ordering) { self.0.store(v.try_into().unwrap(), o) }
    fn fetch_add(&self, v: u64, o: Ordering) -> u64 { self.0.fetch_add(v.try_into().unwrap(), o) as u64 }
}

const SLOTS: usize = 16;
struct Slot { section: AtomicUsize, idx: AtomicU64, seq: AtomicU64, clock: AtomicI32 }
static SLOT: [Slot; SLOTS] = [const {
    Slot {
        section: AtomicUsize::new(0),
        idx: AtomicU64::new(0),
        seq: AtomicU64::new(0),
        clock: AtomicI32::new(0),
    }
}; SLOTS];
static SECTIONS: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
static LAST_SECTION: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
thread_local! {
    static MY: Cell<usize> = const { Cell::new(0) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn section_name(i: usize) -> &'static str {
    SECTIONS.lock().map(|v| v.get(i).copied().unwrap_or("?")).unwrap_or("?")
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Report a violation found by a resource monitor on the current thread.
pub fn fail(msg: &str) -> ! {
    let s = &SLOT[MY.try_with(|m| m.get()).unwrap_or(0)];
    violation(
        section_name(s.section.load(Ordering::SeqCst)),
        s.idx.load(Ordering::SeqCst),
        msg,
        None,
    )
}

static REPORTED: AtomicBool = AtomicBool::new(false);

fn violation(section: &str, idx: u64, msg: &str, stats: Option<&Stats>) -> ! {
    BYPASS.store(true, Ordering::SeqCst);
    if REPORTED.swap(true, Ordering::SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    let c = conf();
    let m: String = msg.chars().take(20000).collect();
    let body = format!(
        "{{\"property\":{},\"seed\":{},\"tier\":{},\"mode\":\"{:?}\",\"section\":{},\"case\":{},\"message\":{},\"replay_cmd\":{}}}\n",
        esc(c.id), c.seed, esc(if c.thorough { "thorough" } else { "quick" }), c.mode,
        esc(section), idx, esc(&m),
        esc(&format!("VERIF_SEED={} tools/check {} --only {}:{}", c.seed, c.id, section, idx)),
    );
    let _ = std::fs::write(&c.replay, body);
    let empty = Stats::default();
    write_out(stats.unwrap_or(&empty), 1);
    let mut o = std::io::stdout();
    let _ = writeln!(o, "case {}:{} seed {}\n{}", section, idx, c.seed, m);
    let _ = writeln!(o, "VIOLATION property={} replay={}", c.id, c.replay);
    let _ = o.flush();
    std::process::exit(1)
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub truncated: bool,
    pub rule: &'static str,
    pub cases: BTreeMap<&'static str, u64>,
}

fn write_out(s: &Stats, violations: u32) {
    let Some(path) = &conf().out else { return };
    let mut j = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"violations\":{},\"truncated\":{},\"rule\":{},\"counters\":{{",
        s.evaluations, s.distinct.len(), violations, s.truncated, esc(s.rule)
    );
    j.push_str(&s.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"cases\":{");
    j.push_str(&s.cases.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"samples\":[");
    j.push_str(&s.samples.iter().map(|v| esc(v)).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    let _ = std::fs::write(path, j);
}

// ---------------------------------------------------------------------------
// Cases

pub type R = Result<(), String>;

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub st: &'a mut Stats,
}

impl<'a> Case<'a> {
    /// Record that a distinct, non-trivial behaviour was observed.
    pub fn observe<T: Hash + ?Sized>(&mut self, v: &T) {
        if self.st.distinct.len() < 1_000_000 {
            self.st.distinct.insert(sig(v));
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) { *self.st.counters.entry(k).or_insert(0) += n; }
    /// Count additional evaluations within this case.
    pub fn evals(&mut self, n: u64) { self.st.evaluations += n; }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.st.samples.len() < 3 {
            let mut s: String = f().chars().take(400).collect();
            if s.is_empty() {
                s.push_str("(empty)");
            }
            self.st.samples.push(s);
        }
    }
}

pub struct Ctx { pub st: Stats, start: std::time::Instant }

impl Ctx {
    pub fn miri(&self) -> bool { conf().mode == RunMode::Miri }
    pub fn thorough(&self) -> bool { conf().thorough }

    /// Run `n` cases of a section: `(quick, thorough, miri)` counts.
    pub fn section<F>(&mut self, name: &'static str, n: (u64, u64, u64), f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let c = conf();
        let total = match c.mode {
            RunMode::Miri => if c.thorough { n.2 * 6 } else { n.2 },
            _ if c.thorough => n.1,
            // Sections of many small cases are cheap.
            _ => if n.0 >= 1000 { (n.0 * 4).min(n.1) } else { n.0 },
        };
        self.run(name, total, f)
    }

    /// Run an exhaustive section: exactly `total` cases, skipped under Miri.
    pub fn exhaustive<F>(&mut self, name: &'static str, total: u64, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        if conf().mode == RunMode::Miri {
            return;
        }
        self.run(name, total, f)
    }

    fn run<F>(&mut self, name: &'static str, total: u64, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let c = conf();
        let sec = {
            let mut v = SECTIONS.lock().unwrap();
            v.push(name);
            v.len() - 1
        };
        LAST_SECTION[0].store(name.as_ptr() as usize, Ordering::SeqCst);
        LAST_SECTION[1].store(name.len(), Ordering::SeqCst);
        let (mut lo, mut hi) = (0, total);
        if let Some((s, i)) = &c.only {
            if s != name {
                return;
            }
            lo = *i;
            hi = *i + 1;
        }
        let stream = sig(name);
        let next = AtomicU64::new(lo);
        let merged = Mutex::new(std::mem::take(&mut self.st));
        let cap = std::time::Duration::from_secs(if c.thorough { 420 } else { 90 });
        let start = self.start;
        let chunk = ((hi - lo) / 64 / c.threads as u64).clamp(1, 4096);
        let work = |me: usize| {
            MY.with(|m| m.set(me));
            SLOT[me].section.store(sec, Ordering::SeqCst);
            let mut st = Stats::default();
            'o: loop {
                let b = next.fetch_add(chunk, Ordering::SeqCst);
                if b >= hi {
                    break;
                }
                for i in b..(b + chunk).min(hi) {
                    SLOT[me].idx.store(i, Ordering::Relaxed);
                    SLOT[me].seq.fetch_add(1, Ordering::SeqCst);
                    st.evaluations += 1;
                    *st.cases.entry(name).or_insert(0) += 1;
                    let r = {
                        let mut case = Case { rng: Rng::new(c.seed, stream, i), idx: i, st: &mut st };
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut case)))
                    };
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
                    };
                    if let Err(e) = r {
                        let _m = merged.lock();
                        violation(name, i, &e, Some(&st));
                    }
                    if i & 15 == 0 && c.mode != RunMode::Miri && start.elapsed() > cap {
                        st.truncated = true;
                        break 'o;
                    }
                }
            }
            SLOT[me].seq.store(0, Ordering::SeqCst);
            let mut m = merged.lock().unwrap();
            m.evaluations += st.evaluations;
            m.truncated |= st.truncated;
            for (k, v) in st.counters {
                *m.counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in st.cases {
                *m.cases.entry(k).or_insert(0) += v;
            }
            if m.distinct.len() < 4_000_000 {
                m.distinct.extend(st.distinct);
            }
            let mut take = 0;
            for s in st.samples {
                if m.samples.len() < 24 && take < 1 {
                    m.samples.push(format!("{}: {}", name, s));
                    take += 1;
                }
            }
        };
        if c.threads <= 1 {
            work(0);
        } else {
            std::thread::scope(|s| {
                let work = &work;
                for t in 0..c.threads {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            #[cfg(not(miri))]
                            register_clock(t);
                            work(t);
                            SLOT[t].clock.store(0, Ordering::SeqCst);
                        })
                        .unwrap();
                }
            });
        }
        self.st = merged.into_inner().unwrap();
    }
}

#[cfg(not(miri))]
fn register_clock(me: usize) {
    unsafe {
        let mut id: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) == 0 {
            SLOT[me].clock.store(id, Ordering::SeqCst);
        }
    }
}

/// CPU seconds a single case may take before it counts as non-terminating.
pub const CASE_CPU_S: f64 = 100.0;

#[cfg(not(miri))]
fn watchdog() {
    let mut seen = [(0u64, 0f64); SLOTS];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for i in 0..SLOTS {
            let clk = SLOT[i].clock.load(Ordering::SeqCst);
            let seq = SLOT[i].seq.load(Ordering::SeqCst);
            if clk == 0 || seq == 0 {
                seen[i].0 = 0;
                continue;
            }
            let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            if unsafe { libc::clock_gettime(clk, &mut ts) } != 0 {
                continue;
            }
            let now = ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9;
            if seen[i].0 != seq {
                seen[i] = (seq, now);
            } else if now - seen[i].1 > CASE_CPU_S {
                MY.with(|m| m.set(i));
                fail(&format!(
                    "no termination: one small case used more than {} s of CPU time",
                    CASE_CPU_S
                ));
            }
        }
    }
}

#[cfg(not(miri))]
extern "C" fn on_signal(sig: libc::c_int) {
    // Only async-signal-safe calls from here on.
    unsafe {
        let me = MY.try_with(|m| m.get()).unwrap_or(0);
        let mut buf = [0u8; 512];
        let mut n = 0;
        let mut put = |b: &[u8]| {
            for &x in b {
                if n < buf.len() {
                    buf[n] = x;
                    n += 1;
                }
            }
        };
        let digits = |mut v: u64, put: &mut dyn FnMut(&[u8])| {
            let mut d = [0u8; 20];
            let mut k = 20;
            loop {
                k -= 1;
                d[k] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            put(&d[k..]);
        };
        let p = LAST_SECTION[0].load(Ordering::SeqCst) as *const u8;
        let l = LAST_SECTION[1].load(Ordering::SeqCst);
        put(b"fatal signal ");
        digits(sig as u64, &mut put);
        put(b" in case ");
        if !p.is_null() {
            put(core::slice::from_raw_parts(p, l));
        }
        put(b":");
        digits(SLOT[me].idx.load(Ordering::SeqCst), &mut put);
        put(b"\n");
        if let Some(c) = CONF.get() {
            put(b"VIOLATION property=");
            put(c.id.as_bytes());
            put(b" replay=");
            put(c.replay.as_bytes());
            put(b"\n");
            let mut path = [0u8; 1024];
            if c.replay.len() < 1023 {
                path[..c.replay.len()].copy_from_slice(c.replay.as_bytes());
                let fd = libc::open(path.as_ptr() as *const _, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
                if fd >= 0 {
                    libc::write(fd, buf.as_ptr() as *const _, n);
                    libc::close(fd);
                }
            }
        }
        libc::write(1, buf.as_ptr() as *const _, n);
        libc::_exit(1);
    }
}

#[cfg(not(miri))]
fn install_signals() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

/// Entry point of every monitor.
pub fn main(id: &'static str, rule: &'static str, f: fn(&mut Ctx)) {
    let mut seed = 1u64;
    let mut thorough = false;
    let mut mode = if cfg!(miri) { RunMode::Miri } else { RunMode::Native };
    let (mut out, mut replay, mut only) = (None, String::from("/dev/null"), None);
    let mut threads = 0usize;
    let mut scale = 1.0;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--seed" => seed = v.parse::<i128>().expect("seed") as u64,
            "--tier" => thorough = v == "thorough",
            "--mode" => if v == "asan" { mode = RunMode::Asan },
            "--out" => out = Some(v),
            "--replay" => replay = v,
            "--threads" => threads = v.parse().expect("threads"),
            "--scale" => scale = v.parse().expect("scale"),
            "--only" => {
                let (s, n) = v.rsplit_once(':').expect("section:index");
                only = Some((s.to_string(), n.parse().expect("index")));
            },
            // Only to learn whether this can be built and started at all.
            "--probe" => return,
            o => panic!("unknown option {o}"),
        }
        i += 2;
    }
    if threads == 0 {
        threads = if mode == RunMode::Miri { 1 } else {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(2).clamp(2, 8)
        };
    }
    let _ = CONF.set(Conf { id, seed, thorough, mode, out, replay, only, threads, scale });
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
    #[cfg(not(miri))]
    {
        if mode == RunMode::Native {
            install_signals();
        }
        std::thread::spawn(watchdog);
    }
    let mut ctx = Ctx { st: Stats::default(), start: std::time::Instant::now() };
    f(&mut ctx);
    ctx.st.rule = rule;
    if conf().only.is_none() && ctx.st.distinct.len() < 2 {
        eprintln!("inconclusive: the run observed nothing");
        std::process::exit(2);
    }
    write_out(&ctx.st, 0);
    println!(
        "{}: held on {} evaluations, {} distinct observations{}",
        id, ctx.st.evaluations, ctx.st.distinct.len(),
        if ctx.st.truncated { " (truncated by time)" } else { "" }
    );
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}\n  observed: {:?}\n  expected: {:?}", format!($($t)*), a, b));
        }
    }};
}

/// Render bytes for messages.
pub fn show(b: &[u8]) -> String { format!("b\"{}\"", b.escape_ascii()) }
