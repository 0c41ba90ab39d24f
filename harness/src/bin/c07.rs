use mon::bounds::*;
use mon::el::*;
use mon::vt::*;
use mon::Ctx;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! dyns { ($v:ty, $n:expr, $m:expr; $($t:ty),*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!("bounds/", stringify!($t)), n, |r, i| bounds_dyn::<$t, $v>(r, if cfg!(miri) { i * 11 + 3 } else { i }));
    )*} }
    macro_rules! copies { ($v:ty, $n:expr, $m:expr; $($t:ty),*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!("boundsc/", stringify!($t)), n, |r, i| bounds_copy::<$t, $v>(r, if cfg!(miri) { i * 11 + 3 } else { i }));
    )*} }
    dyns! { AllVTable, 64, 3; Tr4, Tr8, Tr12, Tr3, TrA64, String, u8, [u8; 3], [u64; 3], Pad2, A64x3, Tr24, [u8; 5], Option<Box<u32>> }
    dyns! { FloatVTable, 64, 3; f32, f64 }
    copies! { (), 80, 3; u8, u16, u32, u64, u128, [u8; 3], [u8; 17], [u16; 3], Pad, Pad2, A64x3, A16, &'static u64, [u8; 300], A1024, [u32; 3] }
    c.finish();
}
