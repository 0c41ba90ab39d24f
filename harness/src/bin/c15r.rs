//! Threads working on erased things as their tables allow (for race detectors).
#[path = "../parts/race.rs"]
mod race;
use race::*;
use mon::Ctx;
use std::sync::Arc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! each { ($n:expr, $m:expr, $f:ident; $($t:ty),*) => {$( {
        let n = c.n($n, $m);
        c.suite(concat!(stringify!($f), "/", stringify!($t)), n, |r, i| { let _ = i; $f::<$t>(r) });
    } )*} }
    each! { 60, 2, shared; u64, [u16; 3], u8, String, Arc<u64>, Vec<Box<u32>> }
    let n = c.n(60, 4);
    c.suite("inside", n, |r, _| inside(r));
    let n = c.n(60, 3);
    macro_rules! parted { ($($t:ty),*) => {$( c.suite(concat!("parts/", stringify!($t)), n, |r, i| parts::<$t>(r, i)); )*} }
    parted! { u64, [u16; 3], u8, String, Arc<u64>, Vec<Box<u32>> }
    each! { 40, 1, handed; u64, [u16; 3], String, Arc<u64>, Vec<Box<u32>> }
    each! { 40, 2, refs; u64, u8, String, Arc<u64>, Vec<Box<u32>> }
    c.finish();
}
