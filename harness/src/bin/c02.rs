use mon::copyw::*;
use mon::dynw::BALANCED;
use mon::big;
use mon::el::*;
use mon::vt::*;
use mon::Ctx;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(6);
    macro_rules! suites { ($v:ty, $n:expr, $m:expr; $($t:ty, $f:ty;)*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!("copy/", stringify!($v), "/", stringify!($t)), n, |r, _| copy_history::<$t, $f, $v>(r, &BALANCED));
    )*} }
    suites! { (), 1200, 1;
        u8, bool; u16, i16; u32, f32; u64, f64; u128, A16; bool, u8; char, u32; f64, u64;
        [u8; 3], [u8; 5]; [u8; 17], [u8; 3]; [u16; 3], [u8; 3]; [u32; 3], (u32, u8); [u64; 3], [i64; 3]; [u64; 9], u64; Pad, Pad2; (u32, u8), Pad;
        Option<u16>, u32; &'static u64, usize; A16, u128; A32, A64; A64x3, A64;
    }
    suites! { AllVTable, 1200, 1; i8, u8; i64, u64; [u32; 100], [u32; 3]; Pad2, [u64; 3]; &'static u64, u64; }
    suites! { (), 200, 1; [u8; 300], [u8; 17]; A128, A64; A256x2, A512; A512, A128; A1024, A4096; A4096, A8192; A8192, A1024; }
    suites! { FloatVTable, 500, 1; f32, u32; f64, u64; }
    // Very many elements.
    if !cfg!(miri) {
        c.nontrivial(2);
        macro_rules! many { ($n:literal, $w:literal, $f:ident; $($t:ty),*) => {$(
            let n = c.n($n, 0);
            c.suite(concat!($w, "/", stringify!($t)), n, |r, _| big::$f::<$t>(r));
        )*} }
        many! { 16, "many", long_copy; u8, u16, u32, u64, [u8; 3], [u64; 3] }
    }
    c.finish();
}
