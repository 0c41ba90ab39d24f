//! Ledger of tracked elements: who exists, who was destroyed, what element code ran.
//!
//! Every tracked element carries a serial number. Creation, cloning and destruction are recorded
//! and checked online (destroying twice, using a destroyed or never created element, bitwise
//! duplicates that both get destroyed). At the end of a case nothing may be left alive.
//! The ledger can also make the k-th callback into element code panic.
use crate::fail;
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Make,
    Clone,
    CloneFrom,
    Drop,
    Eq,
    Hash,
    Fmt,
}
pub const NEV: usize = 7;

struct Rec {
    key: u64,
    live: bool,
    parent: u32,
}

#[derive(Default)]
struct L {
    recs: Vec<Rec>,
    live: u64,
    made: u64,
    dropped: u64,
    counts: [u64; NEV],
}

thread_local! {
    static LED: RefCell<L> = RefCell::new(L::default());
    /// Callbacks until the injected panic (0: none).
    static FUSE: Cell<u64> = const { Cell::new(0) };
    /// Which events count for the fuse (bit mask).
    static FUSE_MASK: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static FIRED_IN: Cell<Option<Ev>> = const { Cell::new(None) };
    static CALLBACKS: Cell<u64> = const { Cell::new(0) };
    static LEAK_OK: Cell<bool> = const { Cell::new(false) };
}

const BASE: u32 = 0x10_00;

pub fn begin() {
    crate::alloc::paused(|| {
        LED.with(|l| {
            let mut l = l.borrow_mut();
            l.recs.clear();
            l.live = 0;
            l.counts = [0; NEV];
        });
        disarm();
        LEAK_OK.with(|c| c.set(false));
    })
}

/// Elements may be left alive at the end of this case (a destructor panicked).
pub fn allow_leak() {
    LEAK_OK.with(|c| c.set(true));
}

pub fn leak_ok() -> bool {
    LEAK_OK.with(|c| c.get())
}

pub fn end() {
    disarm();
    let (live, first) = LED.with(|l| {
        let l = l.borrow();
        (l.live, l.recs.iter().position(|r| r.live))
    });
    crate::report::observe();
    if live != 0 && !LEAK_OK.with(|c| c.get()) {
        fail!(
            "{} elements never destroyed (first: serial {}, key {:#x})",
            live,
            first.unwrap_or(0),
            LED.with(|l| l.borrow().recs[first.unwrap_or(0)].key)
        );
    }
}

pub fn totals() -> (u64, u64) {
    LED.with(|l| {
        let l = l.borrow();
        (l.made, l.dropped)
    })
}

pub fn live() -> u64 {
    LED.with(|l| l.borrow().live)
}

pub fn counts() -> [u64; NEV] {
    LED.with(|l| l.borrow().counts)
}
pub fn count(e: Ev) -> u64 {
    LED.with(|l| l.borrow().counts[e as usize])
}
/// Run `f` without recording its callbacks in the counters.
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let c = counts();
    let cb = CALLBACKS.with(|c| c.get());
    let fuse = FUSE.with(|f| f.replace(0));
    let r = f();
    LED.with(|l| l.borrow_mut().counts = c);
    CALLBACKS.with(|c| c.set(cb));
    FUSE.with(|f| f.set(fuse));
    r
}

/// Panic in the n-th callback (n >= 1) of the kinds in `mask` from now on.
pub fn arm(n: u64, mask: u32) {
    FUSE.with(|f| f.set(n));
    FUSE_MASK.with(|f| f.set(mask));
    FIRED.with(|f| f.set(false));
    FIRED_IN.with(|f| f.set(None));
    CALLBACKS.with(|f| f.set(0));
}
pub fn disarm() {
    FUSE.with(|f| f.set(0));
}
pub fn fired() -> bool {
    FIRED.with(|f| f.get())
}
/// The kind of callback that panicked last.
pub fn fired_in() -> Option<Ev> {
    FIRED_IN.with(|f| f.get())
}
pub fn callbacks() -> u64 {
    CALLBACKS.with(|f| f.get())
}
pub const MASK_ALL: u32 = !0;
pub fn mask(e: &[Ev]) -> u32 {
    e.iter().fold(0, |a, e| a | 1 << *e as u32)
}

fn tick(e: Ev) {
    if FUSE_MASK.with(|m| m.get()) >> e as u32 & 1 == 0 {
        return;
    }
    CALLBACKS.with(|c| c.set(c.get() + 1));
    let n = FUSE.with(|f| f.get());
    if n == 0 {
        return;
    }
    if n == 1 {
        if std::thread::panicking() && e == Ev::Drop {
            // Never panic while unwinding.
            return;
        }
        FUSE.with(|f| f.set(0));
        FIRED.with(|f| f.set(true));
        FIRED_IN.with(|f| f.set(Some(e)));
        panic!("injected panic in {:?}", e);
    }
    FUSE.with(|f| f.set(n - 1));
}

fn create(key: u64, parent: u32) -> u32 {
    crate::alloc::paused(|| {
        LED.with(|l| {
            let mut l = l.borrow_mut();
            let id = BASE + l.recs.len() as u32;
            l.recs.push(Rec { key, live: true, parent });
            l.live += 1;
            l.made += 1;
            id
        })
    })
}

fn bump(e: Ev) {
    LED.with(|l| l.borrow_mut().counts[e as usize] += 1);
}

/// A new element with this key.
pub fn make(key: u64) -> u32 {
    bump(Ev::Make);
    create(key, 0)
}

fn lookup(id: u32, what: &str) -> (u64, bool) {
    let r = LED.with(|l| {
        let l = l.borrow();
        if id < BASE {
            return None;
        }
        l.recs.get((id - BASE) as usize).map(|r| (r.key, r.live))
    });
    match r {
        Some(r) => r,
        None => fail!("{}: not an element (serial {:#x}): uninitialised, torn or foreign memory", what, id),
    }
}

/// Key of a live element.
pub fn key(id: u32, what: &str) -> u64 {
    let (k, live) = lookup(id, what);
    if !live {
        fail!("{}: element (key {:#x}) used after its destruction", what, k);
    }
    k
}

/// Clone of a live element (may panic).
pub fn clone(id: u32) -> u32 {
    let k = key(id, "clone");
    bump(Ev::Clone);
    tick(Ev::Clone);
    create(k, id)
}

/// In-place clone: the destination keeps its serial and takes the key over (may panic, before
/// anything changed).
pub fn clone_from(dst: u32, src: u32) {
    let k = key(src, "clone_from source");
    key(dst, "clone_from destination");
    bump(Ev::CloneFrom);
    tick(Ev::CloneFrom);
    LED.with(|l| l.borrow_mut().recs[(dst - BASE) as usize].key = k);
}

/// Destruction (may panic, after having been recorded).
pub fn drop(id: u32) {
    let (k, live) = lookup(id, "drop");
    if !live {
        fail!("element (key {:#x}) destroyed twice", k);
    }
    LED.with(|l| {
        let mut l = l.borrow_mut();
        l.recs[(id - BASE) as usize].live = false;
        l.live -= 1;
        l.dropped += 1;
        l.counts[Ev::Drop as usize] += 1;
    });
    tick(Ev::Drop);
}

pub fn eq(a: u32, b: u32) -> bool {
    let (x, y) = (key(a, "eq"), key(b, "eq"));
    bump(Ev::Eq);
    tick(Ev::Eq);
    x == y
}
pub fn hash(a: u32) -> u64 {
    let x = key(a, "hash");
    bump(Ev::Hash);
    tick(Ev::Hash);
    x
}
pub fn fmt(a: u32) -> u64 {
    let x = key(a, "fmt");
    bump(Ev::Fmt);
    tick(Ev::Fmt);
    x
}
/// The element this one is a clone of (0: none). For monitors only.
pub fn parent(id: u32) -> u32 {
    LED.with(|l| {
        let l = l.borrow();
        if id < BASE {
            return 0;
        }
        l.recs.get((id - BASE) as usize).map_or(0, |r| r.parent)
    })
}
/// Is this serial a live element? (For monitors only.)
pub fn is_live(id: u32) -> bool {
    LED.with(|l| {
        let l = l.borrow();
        id >= BASE && l.recs.get((id - BASE) as usize).map_or(false, |r| r.live)
    })
}
