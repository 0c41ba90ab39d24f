//! Guarding allocator: a monitor for every heap operation of the process.
//!
//! Each block carries a header and two redzones. Checked online: the layout given to
//! dealloc/realloc is the one the block was allocated with, no block is freed twice, redzones are
//! intact, and freed memory (kept in a quarantine) is not written to. Blocks are aligned exactly as
//! requested and never better, fresh memory is filled with a pattern, and realloc always moves.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct Guard;

const LIVE: u64 = 0x11fe_b10c_0a11_0c8d;
const FREED: u64 = 0xdead_b10c_f4ee_d000;
const RZ: usize = 32;
const HDR: usize = 64;
const FRONT: u8 = 0xF5;
const BACK: u8 = 0xB7;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;

#[repr(C)]
#[derive(Clone, Copy)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
    base_size: usize,
    base_align: usize,
    tracked: usize,
    serial: u64,
}

pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static CHECKED_FREES: AtomicU64 = AtomicU64::new(0);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
/// Requests above this are refused (out of memory).
pub static MAX_REQUEST: AtomicUsize = AtomicUsize::new(1 << 31);

thread_local! {
    static PAUSED: Cell<u32> = const { Cell::new(0) };
    /// Number of allocation/reallocation calls made by this thread while not paused.
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

const Q: usize = 512;
static QLOCK: AtomicUsize = AtomicUsize::new(0);
static mut QUEUE: [usize; Q] = [0; Q];
static mut QPOS: usize = 0;
static mut QBYTES: usize = 0;

/// Run `f`; what it allocates does not take part in the balance.
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let _ = PAUSED.try_with(|p| p.set(p.get() - 1));
        }
    }
    let _ = PAUSED.try_with(|p| p.set(p.get() + 1));
    let _g = G;
    f()
}

fn tracked() -> bool {
    PAUSED.try_with(|p| p.get() == 0).unwrap_or(false)
}

/// Allocation calls made by this thread so far (outside of `paused`).
pub fn alloc_calls() -> u64 {
    COUNT.try_with(|c| c.get()).unwrap_or(0)
}

pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(SeqCst), LIVE_BYTES.load(SeqCst))
}

fn die(msg: &str, h: Option<&Hdr>, l: Option<&Layout>) -> ! {
    use std::fmt::Write;
    let mut b = crate::report::Buf::<512>::new();
    let _ = write!(b, "heap: {}", msg);
    if let Some(h) = h {
        let _ = write!(b, " [block size={} align={}]", h.size, h.align);
    }
    if let Some(l) = l {
        let _ = write!(b, " [given size={} align={}]", l.size(), l.align());
    }
    crate::report::die_raw(b.as_str())
}

unsafe fn hdr(user: *mut u8) -> *mut Hdr {
    user.sub(HDR + RZ) as *mut Hdr
}

fn geometry(layout: &Layout) -> Option<(usize, usize, usize)> {
    // user address is align (mod 2*align): never aligned better than asked for.
    let align = layout.align();
    let a2 = align.checked_mul(2)?.max(16);
    let pre = HDR + RZ;
    let pre = if align >= 16 {
        (pre + align - 1) / a2 * a2 + align
    } else {
        // base is 16-aligned; offset is a multiple of align but not of 2*align.
        pre + align
    };
    let pre = if pre < HDR + RZ { pre + a2 } else { pre };
    let total = pre.checked_add(layout.size())?.checked_add(RZ)?;
    if total > isize::MAX as usize - a2 {
        return None;
    }
    Some((pre, total, a2))
}

unsafe fn check_block(user: *mut u8, layout: &Layout) -> Hdr {
    let h = std::ptr::read_unaligned(hdr(user));
    if h.magic == FREED {
        die("block freed twice", Some(&h), Some(layout));
    }
    if h.magic != LIVE {
        die("freeing something that is not a live block (or its header was overwritten)", None, Some(layout));
    }
    if h.size != layout.size() || h.align != layout.align() {
        die("block released with a different layout than it was allocated with", Some(&h), Some(layout));
    }
    for i in 0..RZ {
        if *user.sub(RZ).add(i) != FRONT {
            die("write before the start of a block", Some(&h), None);
        }
        if *user.add(h.size + i) != BACK {
            die("write past the end of a block", Some(&h), None);
        }
    }
    h
}

unsafe fn really_free(user: *mut u8) {
    let h = std::ptr::read_unaligned(hdr(user));
    if h.magic != FREED {
        die("header of a freed block was overwritten", None, None);
    }
    for i in 0..h.size.min(4096) {
        if *user.add(i) != DEAD {
            die("freed memory was written to", Some(&h), None);
        }
    }
    System.dealloc(
        h.base as *mut u8,
        Layout::from_size_align_unchecked(h.base_size, h.base_align),
    );
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() > MAX_REQUEST.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let Some((pre, total, balign)) = geometry(&layout) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(Layout::from_size_align_unchecked(total, balign));
        if base.is_null() {
            return base;
        }
        let user = base.add(pre);
        let t = tracked();
        let h = Hdr {
            magic: LIVE,
            size: layout.size(),
            align: layout.align(),
            base: base as usize,
            base_size: total,
            base_align: balign,
            tracked: t as usize,
            serial: ALLOCS.fetch_add(1, Relaxed),
        };
        std::ptr::write_unaligned(hdr(user), h);
        std::ptr::write_bytes(user.sub(RZ), FRONT, RZ);
        std::ptr::write_bytes(user, FRESH, layout.size().min(1 << 16));
        std::ptr::write_bytes(user.add(layout.size()), BACK, RZ);
        if t {
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(layout.size() as i64, Relaxed);
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let mut h = check_block(user, &layout);
        CHECKED_FREES.fetch_add(1, Relaxed);
        if h.tracked != 0 {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(h.size as i64, Relaxed);
        }
        h.magic = FREED;
        std::ptr::write_unaligned(hdr(user), h);
        std::ptr::write_bytes(user, DEAD, h.size.min(4096));
        // Quarantine.
        let mut evicted = [0usize; 4];
        let mut n = 0;
        while QLOCK.compare_exchange(0, 1, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        if h.size > 1 << 20 {
            QLOCK.store(0, Release);
            really_free(user);
            return;
        }
        QBYTES += h.base_size;
        let old = QUEUE[QPOS];
        QUEUE[QPOS] = user as usize;
        QPOS = (QPOS + 1) % Q;
        if old != 0 {
            evicted[n] = old;
            n += 1;
            QBYTES -= std::ptr::read_unaligned(hdr(old as *mut u8)).base_size;
        }
        // Keep the quarantine below 64 MB.
        let mut p = QPOS;
        let mut steps = 0;
        while QBYTES > 64 << 20 && n < 4 && steps < Q {
            if QUEUE[p] != 0 && QUEUE[p] != user as usize {
                evicted[n] = QUEUE[p];
                QBYTES -= std::ptr::read_unaligned(hdr(QUEUE[p] as *mut u8)).base_size;
                QUEUE[p] = 0;
                n += 1;
            }
            p = (p + 1) % Q;
            steps += 1;
        }
        QLOCK.store(0, Release);
        for e in &evicted[..n] {
            really_free(*e as *mut u8);
        }
    }

    unsafe fn realloc(&self, user: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let _ = check_block(user, &layout);
        let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(user, new, layout.size().min(new_size));
            self.dealloc(user, layout);
        }
        new
    }
}

/// Check all quarantined blocks for late writes.
pub fn check_quarantine() {
    unsafe {
        while QLOCK.compare_exchange(0, 1, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        for p in 0..Q {
            let user = QUEUE[p];
            if user == 0 {
                continue;
            }
            let user = user as *mut u8;
            let h = std::ptr::read_unaligned(hdr(user));
            if h.magic != FREED {
                die("header of a freed block was overwritten", None, None);
            }
            for i in 0..h.size.min(4096) {
                if *user.add(i) != DEAD {
                    die("freed memory was written to", Some(&h), None);
                }
            }
        }
        QLOCK.store(0, Release);
    }
}

#[cfg(not(any(miri, feature = "plainalloc")))]
#[global_allocator]
static GUARD: Guard = Guard;

pub const GUARDED: bool = cfg!(not(any(miri, feature = "plainalloc")));
