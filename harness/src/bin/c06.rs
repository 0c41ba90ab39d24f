use mon::el::*;
use mon::panics::*;
use mon::Ctx;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    let mut nth = 0;
    macro_rules! s { ($a:expr, $m:expr; $($t:ty, $f:ty;)*) => {$(
        nth += 1;
        let n = c.n($a * OPS as u64, $m);
        c.suite(concat!("each/", stringify!($t)), n, |r, i| each::<$t, $f>(r, i, nth));
        let n = c.n($a * 80, $m / 3);
        c.suite(concat!("history/", stringify!($t)), n, |r, _| history::<$t, $f>(r));
        let n = c.n($a * 26, $m / 3);
        c.suite(concat!("refused/", stringify!($t)), n, |r, i| refused::<$t, $f>(r, i));
    )*} }
    s! { 24, 18; Tr4, u32; Tr8, Tr8b; TrW, String; Tr12, [u32; 3]; Tr24, String; TrA16, TrA64; TrA64, A64; Tr3, [u8; 3]; }
    s! { 6, 9; Tr64, Tr4; TrA512, A512; TrBig, TrW; }
    macro_rules! cs { ($a:expr, $m:expr; $($t:ty, $f:ty;)*) => {$(
        let n = c.n($a * 24, $m);
        c.suite(concat!("copies/", stringify!($t)), n, |r, i| copies::<$t, $f>(r, i));
    )*} }
    cs! { 40, 4; u8, i8; u16, [u8; 3]; u32, i32; u64, f64; [u8; 3], u8; [u16; 3], [u32; 3]; Pad2, u64; &'static u64, usize; A64, A64x3; A512, A1024; }
    c.finish();
}
