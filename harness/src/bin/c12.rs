use mon::el::*;
use mon::refs::*;
use mon::Ctx;
use std::rc::Rc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(4);
    macro_rules! s { ($($t:ty, $f:ty;)*) => {$(
        let n = c.n(400, 1);
        c.suite(concat!("refs/", stringify!($t), "/", stringify!($f)), n, |r, _| refs::<$t, $f>(r));
    )*} }
    s! { u64, i64; Gn8, Tr8; Gn16, Gn32; [u8; 8], usize; Pad, (u32, u8); &'static u64, Box<u64>; Rc<(u64, u64)>, Option<Box<u32>>;
         Tr8, Tr8b; TrW, Tr8; Tr24, Tr12; Tr3, [u8; 3]; u8, i8; u128, A16; A64, A64x3; String, Vec<u16>;
         TrA64, TrA512; TrBig, [u8; 300]; Tr4, u32; Pad2, [u64; 3]; A256x2, Tr64; }
    macro_rules! cs { ($($t:ty, $f:ty;)*) => {$(
        let n = c.n(400, 1);
        c.suite(concat!("copy/", stringify!($t), "/", stringify!($f)), n, |r, _| copy_refs::<$t, $f>(r));
    )*} }
    cs! { u64, i64; u8, i8; [u8; 8], usize; Pad, (u32, u8); Pad2, [u64; 3]; &'static u64, u64; u128, A16; A64, A64x3; [u8; 3], [u8; 5]; char, u32; f64, u64; A4096, A512; [u8; 17], [u8; 300]; Option<u16>, u32; bool, u8; }
    c.finish();
}
