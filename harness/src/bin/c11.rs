use mon::el::*;
use mon::values::*;
use mon::Ctx;
use std::rc::Rc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(4);
    macro_rules! s { ($($t:ty, $f:ty;)*) => {$(
        let n = c.n(1200, 1);
        c.suite(concat!("history/", stringify!($t), "/", stringify!($f)), n, |r, _| history::<$t, $f>(r));
    )*} }
    s! { u64, i64; Gn8, Tr8; Gn16, Gn32; usize, [u8; 8]; [u16; 4], [u32; 2]; Pad, (u32, u8); &'static u64, Box<u64>; Rc<(u64, u64)>, Option<Box<u32>>;
         Tr8, Tr8b; TrW, Tr8; Tr24, Tr12; Tr3, [u8; 3]; (), ZA; ZTr, ZA; ZA, Tr8; u8, u16; u128, A16; A64, A64x3; A4096, A8192; String, Vec<u16>;
         TrA64, TrA512; TrBig, [u8; 300]; Tr4, u32; Pad2, [u64; 3]; char, u32; A256x2, Tr64; bool, i8; }
    let n = c.n(60, 1);
    c.suite("sizes", n, |r, _| sizes(r));
    let n = c.n(400, 2);
    c.suite("collections", n, |r, _| collections(r));
    c.finish();
}
