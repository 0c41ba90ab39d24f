use mon::el::*;
use mon::iters::*;
use mon::vt::*;
use mon::Ctx;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(2);
    macro_rules! dyns { ($v:ty, $n:expr, $m:expr; $($t:ty),*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!("iter/", stringify!($t)), n, |r, _| iter_dyn::<$t, $v>(r));
    )*} }
    macro_rules! copies { ($v:ty, $n:expr, $m:expr; $($t:ty),*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!("iterc/", stringify!($t)), n, |r, _| iter_copy::<$t, $v>(r));
    )*} }
    dyns! { AllVTable, 2500, 6; Tr4, Tr8, Tr12, Tr3, TrA64, String, u8, [u8; 3], [u64; 3], Pad2, A64x3, Tr24, Option<u16> }
    dyns! { FloatVTable, 1500, 5; f32, f64, Box<u64> }
    copies! { (), 2500, 5; u8, u16, u32, u64, u128, [u8; 3], [u8; 17], [u16; 3], Pad, Pad2, A64x3, &'static u64, bool, [u32; 3] }
    dyns! { AllVTable, 200, 2; TrA512, A4096, TrBig }
    copies! { (), 200, 2; A256x2, A1024, [u8; 300] }
    c.finish();
}
