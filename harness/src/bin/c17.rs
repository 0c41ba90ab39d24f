use mon::cap::*;
use mon::big;
use mon::el::*;
use mon::Ctx;
use std::rc::Rc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! s { ($a:expr; $($t:ty),*) => {$(
        let (n, m) = (c.n($a, 3), if cfg!(miri) { 40 } else { 600 });
        c.suite(concat!("round/", stringify!($t)), n, |r, _| round::<$t>(r));
        c.suite(concat!("room/", stringify!($t)), n, |r, _| room::<$t>(r));
        c.suite(concat!("append/", stringify!($t)), n, |r, _| appends::<$t>(r));
        let n = c.n($a / 50, 1);
        c.suite(concat!("growth/", stringify!($t)), n, |r, i| growth::<$t>(r, [m, m / 8, 3 * m][i as usize % 3]));
    )*} }
    s! { 800; Tr4, Tr8, TrW, Tr12, Tr24, Tr64, TrA64, Tr3, String, Rc<(u64, u64)>, Option<Box<u32>>, u64, u8, A64, Pad2, [u8; 3], [u64; 3], Gn16 }
    s! { 100; TrA512, TrBig, A4096 }
    macro_rules! cs { ($a:expr; $($t:ty),*) => {$(
        let (n, m) = (c.n($a, 3), if cfg!(miri) { 40 } else { 600 });
        c.suite(concat!("round_copy/", stringify!($t)), n, |r, _| round_copy::<$t>(r));
        c.suite(concat!("room_copy/", stringify!($t)), n, |r, _| room_copy::<$t>(r));
        let n = c.n($a / 50, 1);
        c.suite(concat!("growth_copy/", stringify!($t)), n, |r, i| growth_copy::<$t>(r, [m, m / 8, 3 * m][i as usize % 3]));
    )*} }
    cs! { 800; u8, u16, u32, u64, u128, [u8; 3], [u8; 17], [u16; 3], [u32; 3], Pad, Pad2, &'static u64, A64, A64x3, char, bool, f64 }
    cs! { 100; A512, A256x2, A4096, [u8; 300] }
    // Very many elements.
    if !cfg!(miri) {
        c.nontrivial(2);
        macro_rules! many { ($n:literal, $w:literal, $f:ident; $($t:ty),*) => {$(
            let n = c.n($n, 0);
            c.suite(concat!($w, "/", stringify!($t)), n, |r, _| big::$f::<$t>(r));
        )*} }
        many! { 12, "many_copy", room_copy; u8, u16, u32, [u8; 3], [u64; 3] }
        many! { 8, "many", room_dyn; u8, u32, String, [u64; 3] }
    }
    c.finish();
}
