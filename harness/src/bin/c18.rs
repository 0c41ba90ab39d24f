use mon::align::*;
use mon::el::*;
use mon::huge::*;
use mon::Ctx;
use std::rc::Rc;

fn run() {
    let mut c = Ctx::new();
    c.nontrivial(2);
    macro_rules! s { ($a:expr, $m:expr; $($t:ty),*) => {$(
        let n = c.n($a, $m);
        c.suite(concat!("elements/", stringify!($t)), n, |r, _| elements::<$t>(r));
        let n = c.n($a / 2, $m);
        c.suite(concat!("values/", stringify!($t)), n, |r, _| values::<$t>(r));
    )*} }
    s! { 1000, 2; Tr4, Tr8, TrW, Tr12, Tr24, Tr64, TrA16, TrA64, Tr3, String, Rc<(u64, u64)>, u8, u16, u32, u64, u128, [u8; 3], [u16; 3], [u32; 3], [u64; 3], A8x, A16, A16x, A32, A64, A64x3, A128x, Pad2, Gn16 }
    s! { 200, 1; TrA512, A256x2, A512, A1024, A2048, A4096, A8192, TrBig, [u8; 300], Gn32 }
    if !cfg!(miri) {
        s! { 24, 0; A16k, A32k, A128k }
        s! { 6, 0; A1M }
    }
    macro_rules! cs { ($a:expr, $m:expr; $($t:ty),*) => {$(
        let n = c.n($a, $m);
        c.suite(concat!("copies/", stringify!($t)), n, |r, _| copies::<$t>(r));
    )*} }
    cs! { 1000, 2; u8, u16, u32, u64, u128, [u8; 3], [u8; 17], [u16; 3], [u32; 3], [u64; 3], Pad, Pad2, &'static u64, char, bool, f64, A8x, A16, A16x, A32, A64, A64x3, A128x }
    cs! { 200, 1; A256x2, A512, A1024, A2048, A4096, A8192, [u8; 300] }
    if !cfg!(miri) {
        cs! { 24, 0; A16k, A32k, A128k }
        cs! { 6, 0; A1M }
    }
    macro_rules! hs { ($a:expr; $($o:ident $t:ident),*) => {$(
        let n = c.n($a, 0);
        c.suite(concat!("huge/", stringify!($o)), n, |r, _| owned::<$o>(r));
        c.suite(concat!("huge/", stringify!($t)), n, |r, _| copied::<$t>(r));
    )*} }
    if !cfg!(miri) {
        hs! { 12; D13 C13, D14 C14, D15 C15, D16 C16, D17 C17, D18 C18, D19 C19, D20 C20 }
        hs! { 2; D21 C21, D22 C22, D23 C23, D24 C24, D25 C25 }
        hs! { 1; D26 C26, D27 C27 }
    }
    c.finish();
}

fn main() {
    if cfg!(miri) {
        return run();
    }
    // Elements of a megabyte pass through the stack a few times.
    for i in [28, 27] {
        if let Ok(h) = std::thread::Builder::new().stack_size(1 << i).spawn(run) {
            return h.join().unwrap();
        }
    }
    run()
}
