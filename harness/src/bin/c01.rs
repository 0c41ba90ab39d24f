use mon::dynw::*;
use mon::big;
use mon::el::*;
use mon::vt::*;
use mon::Ctx;
use std::rc::Rc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(6);
    macro_rules! suites { ($v:ty, $n:expr, $m:expr; $($t:ty, $f:ty;)*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!("vec/", stringify!($t)), n, |r, _| history::<$t, $f, $v>(r, &BALANCED));
    )*} }
    suites! { AllVTable, 1200, 1;
        Tr4, u32; Tr8, u64; TrW, Tr8; Tr12, [u32; 3]; Tr24, [u64; 3]; Tr64, String; TrA16, u128; TrA64, TrA16; Tr3, [u8; 3];
        String, Vec<u16>; Vec<u16>, String; Box<u64>, usize; Option<Box<u32>>, Box<u64>; Rc<(u64, u64)>, Box<u64>;
        u8, bool; u16, i16; u32, char; u64, i64; u128, TrA16; bool, u8; char, u32;
        [u8; 3], Tr3; [u8; 17], [u8; 5]; [u16; 3], [u8; 3]; [i64; 3], [u64; 3]; Pad, Pad2; Pad2, Pad; (u32, u8), Pad;
        A16, u128; A32, A16; A64x3, A64; Gn8, u64; Gn16, Tr8; Gn32, TrA16;
    }
    suites! { AllVTable, 200, 1; TrA512, A512; TrBig, [u8; 300]; A256x2, A512; A1024, A4096; A4096, A8192; }
    suites! { FloatVTable, 600, 1; f32, u32; f64, u64; Tr8, f64; String, f64; }
    // Very many elements.
    if !cfg!(miri) {
        c.nontrivial(2);
        macro_rules! many { ($n:literal, $w:literal, $f:ident; $($t:ty),*) => {$(
            let n = c.n($n, 0);
            c.suite(concat!($w, "/", stringify!($t)), n, |r, _| big::$f::<$t>(r));
        )*} }
        many! { 16, "many", long_dyn; u8, u16, u32, [u64; 3], String, Box<u32> }
    }
    c.finish();
}
