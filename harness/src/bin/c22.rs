use dync::traits::*;
use mon::el::*;
use mon::meta::*;
use mon::vt::*;
use mon::Ctx;
use std::rc::Rc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! s { ($a:expr, $m:expr; $($t:ty, $f:ty;)*) => {$(
        let n = c.n($a, $m);
        c.suite(concat!("stays/", stringify!($t)), n, |r, _| stays::<$t, $f>(r));
        c.suite(concat!("narrow/", stringify!($t)), n, |r, _| made_narrow::<$t, $f>(r));
        c.suite(concat!("made/", stringify!($t)), n, |r, i| match i % 8 {
            0 | 1 => made::<$t, $f, AllVTable>(r, "all"),
            2 => made::<$t, $f, FloatVTable>(r, "float"),
            3 => made::<$t, $f, HVTable>(r, "hash"),
            4 => made::<$t, $f, PCVTable>(r, "clone, eq"),
            5 => made::<$t, $f, CloneVTable>(r, "clone"),
            6 => made::<$t, $f, DropVTable>(r, "drop"),
            _ => made::<$t, $f, (DropFn, AllVTable)>(r, "pair"),
        });
    )*} }
    s! { 1200, 3; Tr4, u32; Tr8, Tr8b; TrW, String; Tr12, [u32; 3]; Tr24, [u64; 3]; TrA64, A64; Tr3, [u8; 3]; String, Tr24; Rc<(u64, u64)>, Box<u64>; u8, bool; u32, char; u64, i64; [u64; 3], String; Pad2, u64; Gn16, u128; [u8; 17], [u8; 5]; u128, A16; }
    s! { 150, 1; TrA512, A512; A4096, A8192; TrBig, [u8; 300]; }
    macro_rules! cs { ($a:expr, $m:expr; $($t:ty, $f:ty;)*) => {$(
        let n = c.n($a, $m);
        c.suite(concat!("stays_copy/", stringify!($t)), n, |r, _| stays_copy::<$t, $f>(r));
        c.suite(concat!("made_copy/", stringify!($t)), n, |r, i| match i % 3 {
            0 => made_copy::<$t, $f, AllVTable>(r, "all"),
            _ => made_copy::<$t, $f, ()>(r, "()"),
        });
        c.suite(concat!("mixed/", stringify!($t)), n, |r, _| made_mixed::<$t, $f>(r));
    )*} }
    cs! { 1200, 3; u8, i8; u16, [u8; 3]; u32, i32; u64, usize; u128, A16; [u8; 3], u8; [u8; 17], [u8; 5]; [u16; 3], [u32; 3]; Pad, (u32, u8); Pad2, u64; &'static u64, u64; A64, A64x3; char, u32; bool, u8; }
    cs! { 150, 1; A512, A1024; [u8; 300], A256x2; A4096, A1024; }
    c.finish();
}
