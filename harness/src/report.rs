//! Case runner, trace recording, verdicts.
//!
//! Verdict protocol with the runner script:
//! * `MONITOR-FAIL ...` on stderr and exit status 3: an oracle observed a violation;
//! * a crash (signal) or abort: a violation, located by the progress file;
//! * `RESULT {json}` on stdout and exit status 0: held on everything explored.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};

/// Fixed size string, so that tracing never allocates.
pub struct Buf<const N: usize> {
    len: usize,
    b: [u8; N],
}
impl<const N: usize> Buf<N> {
    pub const fn new() -> Self {
        Buf { len: 0, b: [0; N] }
    }
    pub fn as_str(&self) -> &str {
        std::str::from_utf8(&self.b[..self.len]).unwrap_or("<utf8>")
    }
    pub fn clear(&mut self) {
        self.len = 0;
    }
}
impl<const N: usize> std::fmt::Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            let c = if c.is_ascii() { c as u8 } else { b'?' };
            if self.len < N {
                self.b[self.len] = c;
                self.len += 1;
            }
        }
        Ok(())
    }
}

const TRACE: usize = 1 << 15;
struct Trace {
    buf: Buf<TRACE>,
    hash: u64,
    ops: u64,
}
static mut TRACE_BUF: Trace = Trace { buf: Buf::new(), hash: 0, ops: 0 };
static LIVE_TRACE: AtomicBool = AtomicBool::new(false);

#[allow(static_mut_refs)]
fn trace_mut() -> &'static mut Trace {
    // Only the main thread traces.
    unsafe { &mut *std::ptr::addr_of_mut!(TRACE_BUF) }
}

thread_local! {
    static WHERE: RefCell<Buf<256>> = const { RefCell::new(Buf::new()) };
    static LAST_PANIC: RefCell<Buf<512>> = const { RefCell::new(Buf::new()) };
    static EXPECT_PANIC: Cell<u32> = const { Cell::new(0) };
}

pub fn trace(args: std::fmt::Arguments) {
    let t = trace_mut();
    let start = t.buf.len;
    let _ = t.buf.write_fmt(args);
    let _ = t.buf.write_str("; ");
    for b in &t.buf.b[start..t.buf.len] {
        t.hash = (t.hash ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    t.ops += 1;
    if LIVE_TRACE.load(Relaxed) {
        crate::alloc::paused(|| eprintln!("  {}", args));
    }
}

#[macro_export]
macro_rules! t { ($($a:tt)*) => { $crate::report::trace(format_args!($($a)*)) } }
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { $crate::report::fail(format_args!($($a)*)) } }
/// Monitor assertion.
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => {{ $crate::report::observe(); if !($c) { $crate::report::fail(format_args!($($a)*)) } }} }
/// Monitor equality assertion.
#[macro_export]
macro_rules! same {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        $crate::report::observe();
        let (l, r) = (&$l, &$r);
        if !(*l == *r) {
            $crate::report::fail(format_args!("{}: got {:?}, expected {:?}", format_args!($($a)*), l, r))
        }
    }}
}

pub static mut OBSERVED: u64 = 0;
#[inline]
pub fn observe() {
    // Statistics only (threads may lose counts).
    unsafe {
        let p = std::ptr::addr_of_mut!(OBSERVED);
        p.write_volatile(p.read_volatile().wrapping_add(1));
    }
}

pub fn fail(args: std::fmt::Arguments) -> ! {
    let mut b = Buf::<1024>::new();
    let _ = b.write_fmt(args);
    die_raw(b.as_str())
}

pub fn die_raw(msg: &str) -> ! {
    let t = trace_mut();
    let mut out = [0u8; 2048];
    let mut n = 0;
    let mut put = |s: &str| {
        for b in s.bytes() {
            if n < out.len() {
                out[n] = if b == b'\n' { b' ' } else { b };
                n += 1;
            }
        }
    };
    put("MONITOR-FAIL ");
    WHERE.with(|w| {
        if let Ok(w) = w.try_borrow() {
            put(w.as_str())
        }
    });
    put(": ");
    put(msg);
    let mut e = std::io::stderr();
    let _ = e.write_all(&out[..n]);
    let _ = e.write_all(b"\nTRACE ");
    let _ = e.write_all(t.buf.as_str().as_bytes());
    let _ = e.write_all(b"\n");
    // Not exit(): nothing of the damaged state should run.
    #[cfg(miri)]
    std::process::exit(3);
    #[cfg(not(miri))]
    {
        extern "C" {
            fn _exit(code: i32) -> !;
        }
        unsafe { _exit(3) }
    }
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    /// A key.
    pub fn key(&mut self) -> u64 {
        self.next()
    }
    pub fn of<'a, X>(&mut self, x: &'a [X]) -> &'a X {
        &x[self.below(x.len())]
    }
    /// Small sizes, sometimes larger.
    pub fn size(&mut self) -> usize {
        if !cfg!(miri) && self.below(100) == 0 {
            // Now and then far beyond any initial capacity.
            return if self.below(8) == 0 { self.range(300, 2000) } else { self.range(41, 300) };
        }
        match self.below(16) {
            0 | 1 => 0,
            2 | 3 => 1,
            4..=12 => self.range(2, 6),
            13 | 14 => self.range(7, 12),
            _ => self.range(13, 40),
        }
    }
}

/// An iterator whose `size_hint` says little, though nothing false.
pub struct Hinted<I> {
    it: I,
    left: usize,
    lo: usize,
    hi: usize,
}
pub fn hinted<I: ExactSizeIterator>(r: &mut Rng, it: I) -> Hinted<I> {
    Hinted { left: it.len(), it, lo: r.below(5), hi: r.below(6) }
}
/// One whose `size_hint` is wrong, which must not matter to what is safe.
pub fn lying<I: ExactSizeIterator>(r: &mut Rng, it: I) -> Hinted<I> {
    Hinted { left: (it.len() + r.below(40)).saturating_sub(r.below(20)), it, lo: 1, hi: 1 }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.left = self.left.saturating_sub(1);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        let lo = [0, n, n / 2, n.min(1), n.saturating_sub(1)][self.lo];
        let hi = [None, Some(n), Some(n + 1), Some(2 * n + 1000), Some(usize::MAX), Some(usize::MAX - 1)][self.hi];
        (lo, hi)
    }
}

pub struct Ctx {
    pub seed: u64,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    progress: Option<std::fs::File>,
    evaluations: u64,
    distinct: HashSet<u64>,
    min_ops: u64,
    samples: Vec<String>,
    suites: BTreeMap<String, u64>,
    extra: BTreeMap<String, u64>,
    filter: Option<String>,
    shard: (u64, u64),
    nth: u64,
}

thread_local! {
    static STATS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}

/// Count an observed event (operation kind, fault point, ...).
pub fn count(what: &'static str) {
    add(what, 1)
}
pub fn add(what: &'static str, n: u64) {
    crate::alloc::paused(|| {
        STATS.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                *s.entry(what).or_insert(0) += n
            }
        })
    })
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::paused(|| {
            LAST_PANIC.with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    p.clear();
                    if let Some(s) = info.payload().downcast_ref::<&str>() {
                        let _ = p.write_str(s);
                    } else if let Some(s) = info.payload().downcast_ref::<String>() {
                        let _ = p.write_str(s);
                    } else {
                        let _ = p.write_str("<payload>");
                    }
                    if let Some(l) = info.location() {
                        let _ = write!(p, " at {}:{}", l.file(), l.line());
                    }
                }
            });
            if LIVE_TRACE.load(Relaxed) {
                eprintln!("  (panic: {})", last_panic());
            }
        })
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().as_str().to_string())
}

/// The operation must be refused by panicking.
pub fn must_panic<R>(what: std::fmt::Arguments, f: impl FnOnce() -> R) {
    observe();
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(_) => fail(format_args!("{}: accepted instead of being refused", what)),
        Err(e) => drop(e),
    }
    count("expected_panics");
}

/// Runs `f`, which may or may not panic.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            drop(e);
            None
        }
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            seed: 1,
            scale: 1.0,
            only: None,
            progress: None,
            evaluations: 0,
            distinct: HashSet::new(),
            min_ops: 1,
            samples: vec![],
            suites: BTreeMap::new(),
            extra: BTreeMap::new(),
            filter: None,
            shard: (0, 1),
            nth: 0,
        };
        let mut a = std::env::args().skip(1);
        while let Some(x) = a.next() {
            match x.as_str() {
                "--seed" => c.seed = a.next().unwrap().parse().unwrap(),
                "--scale" => c.scale = a.next().unwrap().parse().unwrap(),
                "--progress" => c.progress = Some(std::fs::File::create(a.next().unwrap()).unwrap()),
                "--suite" => c.filter = Some(a.next().unwrap()),
                "--only" => {
                    let s = a.next().unwrap();
                    let (n, i) = s.rsplit_once('#').unwrap();
                    c.only = Some((n.to_string(), i.parse().unwrap()));
                }
                "--shard" => {
                    let s = a.next().unwrap();
                    let (i, n) = s.split_once('/').unwrap();
                    c.shard = (i.parse().unwrap(), n.parse().unwrap());
                }
                "--trace" => LIVE_TRACE.store(true, Relaxed),
                _ => panic!("unknown argument {}", x),
            }
        }
        install_hook();
        // Warm up whatever is lazily initialised.
        let _ = catch_unwind(|| panic!("warm up {}", 1));
        let _ = format!("{:?}", std::collections::HashMap::<u8, u8>::new());
        let _ = std::thread::current().id();
        eprintln!("start");
        c
    }

    pub fn miri() -> bool {
        cfg!(miri)
    }

    /// Number of cases: `n` natively, `m` under Miri, scaled.
    pub fn n(&self, n: u64, m: u64) -> u64 {
        let b = if cfg!(miri) { m as f64 } else { n as f64 };
        ((b * self.scale).ceil() as u64).max(1)
    }

    /// Run `n` cases of a suite. `body` gets the random generator and the number of the case.
    pub fn suite(&mut self, name: &str, n: u64, mut body: impl FnMut(&mut Rng, u64)) {
        if let Some(f) = &self.filter {
            if !name.contains(f.as_str()) {
                return;
            }
        }
        self.nth += 1;
        let mut h = 0xcbf29ce484222325u64;
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let range = match &self.only {
            Some((s, i)) if s == name => *i..*i + 1,
            Some(_) => return,
            None => 0..n,
        };
        let mut ran = 0;
        for i in range {
            if self.only.is_none() && (self.nth + i) % self.shard.1 != self.shard.0 {
                continue;
            }
            self.start(name, i);
            let seed = h ^ self.seed.wrapping_mul(0xd6e8feb86659fd93) ^ i.wrapping_mul(0xa0761d6478bd642f);
            let mut leaked = 0;
            // A difference in the heap balance has to be reproducible to count (lazily initialised
            // library state shows up once).
            for attempt in 0..2 {
                let t = trace_mut();
                t.buf.clear();
                t.hash = h;
                t.ops = 0;
                crate::ledger::begin();
                let before = crate::alloc::live();
                let mut rng = Rng::new(seed);
                match catch_unwind(AssertUnwindSafe(|| body(&mut rng, i))) {
                    Ok(()) => {}
                    Err(e) => {
                        let m = crate::alloc::paused(last_panic);
                        std::mem::forget(e);
                        fail(format_args!("unexpected panic: {}", m));
                    }
                }
                crate::ledger::end();
                let after = crate::alloc::live();
                if !crate::alloc::GUARDED || after == before || crate::ledger::leak_ok() {
                    break;
                }
                leaked = attempt + 1;
                if attempt == 1 {
                    fail(format_args!(
                        "heap memory not returned: {} blocks, {} bytes more than before the case",
                        after.0 - before.0,
                        after.1 - before.1
                    ));
                }
            }
            let _ = leaked;
            if crate::alloc::GUARDED && i % 256 == 255 {
                crate::alloc::check_quarantine();
            }
            ran += 1;
            self.evaluations += 1;
            let t = trace_mut();
            crate::alloc::paused(|| {
                if t.ops >= self.min_ops {
                    self.distinct.insert(t.hash);
                }
                if self.samples.len() < 6 && (i == 1 || n == 1) {
                    let mut s = format!("{}#{}: {}", name, i, t.buf.as_str());
                    s.truncate(700);
                    self.samples.push(s);
                }
            });
        }
        if crate::alloc::GUARDED {
            crate::alloc::check_quarantine();
        }
        *self.suites.entry(name.to_string()).or_insert(0) += ran;
    }

    fn start(&mut self, name: &str, i: u64) {
        WHERE.with(|w| {
            let mut w = w.borrow_mut();
            w.clear();
            let _ = write!(w, "{}#{}", name, i);
        });
        use std::io::Seek;
        if cfg!(miri) {
            // Miri: on stderr, the runner takes the last one.
            eprintln!("CASE {}#{}", name, i);
        }
        if let Some(f) = &mut self.progress {
            let mut b = Buf::<256>::new();
            let _ = write!(b, "{}#{}", name, i);
            while b.len < 120 {
                let _ = b.write_str(" ");
            }
            let _ = b.write_str("\n");
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.write_all(b.as_str().as_bytes());
        }
    }

    /// A case counts as non-trivial from this number of traced operations on.
    pub fn nontrivial(&mut self, min_ops: u64) {
        self.min_ops = min_ops;
    }

    pub fn note(&mut self, key: &str, n: u64) {
        *self.extra.entry(key.to_string()).or_insert(0) += n;
    }

    pub fn finish(self) -> ! {
        let mut s = String::from("RESULT {");
        let esc = |x: &str| {
            x.chars()
                .flat_map(|c| match c {
                    '"' => "\\\"".chars().collect::<Vec<_>>(),
                    '\\' => "\\\\".chars().collect(),
                    c if (c as u32) < 32 => vec![' '],
                    c => vec![c],
                })
                .collect::<String>()
        };
        let _ = write!(s, "\"evaluations\":{},\"distinct\":{},", self.evaluations, self.distinct.len());
        let _ = write!(s, "\"observations\":{},", unsafe { *std::ptr::addr_of!(OBSERVED) });
        let (a, fr) = (crate::alloc::ALLOCS.load(SeqCst), crate::alloc::CHECKED_FREES.load(SeqCst));
        if crate::alloc::GUARDED {
            let _ = write!(s, "\"heap_allocations_watched\":{},\"heap_releases_checked\":{},", a, fr);
        }
        let (mk, dr) = crate::ledger::totals();
        let _ = write!(s, "\"tracked_elements_created\":{},\"tracked_elements_destroyed\":{},", mk, dr);
        let _ = write!(s, "\"suites\":{{");
        for (i, (k, v)) in self.suites.iter().enumerate() {
            let _ = write!(s, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), v);
        }
        let _ = write!(s, "}},\"events\":{{");
        let mut n = 0;
        STATS.with(|st| {
            for (k, v) in st.borrow().iter() {
                let _ = write!(s, "{}\"{}\":{}", if n > 0 { "," } else { "" }, esc(k), v);
                n += 1;
            }
        });
        for (k, v) in self.extra.iter() {
            let _ = write!(s, "{}\"{}\":{}", if n > 0 { "," } else { "" }, esc(k), v);
            n += 1;
        }
        let _ = write!(s, "}},\"samples\":[");
        for (i, x) in self.samples.iter().enumerate() {
            let _ = write!(s, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(x));
        }
        s.push_str("]}");
        println!("{}", s);
        std::process::exit(0)
    }
}
