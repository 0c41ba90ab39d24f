use mon::cmp::*;
use mon::big;
use mon::el::*;
use mon::vt::*;
use mon::Ctx;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! s { ($n:expr, $m:expr, $p:literal, $f:ident $(<$v:ty>)?; $($t:ty),*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!($p, "/", stringify!($t)), n, |r, _| s!(@ $f, $t $(, $v)?)(r));
    )*};
    (@ $f:ident, $t:ty, $v:ty) => { $f::<$t, $v> };
    (@ $f:ident, $t:ty) => { $f::<$t> };
    }
    macro_rules! cmp_all { ($($t:ty),*) => {$(
        let n = c.n(400, 1);
        c.suite(concat!("cmp/", stringify!($t)), n, |r, _| compare::<$t, AllVTable>(r));
        let n = c.n(600, 1);
        c.suite(concat!("hash/", stringify!($t)), n, |r, _| hashing::<$t>(r));
    )*} }
    macro_rules! cmp_float { ($($t:ty),*) => {$(
        let n = c.n(400, 1);
        c.suite(concat!("cmp/", stringify!($t)), n, |r, _| compare::<$t, FloatVTable>(r));
    )*} }
    cmp_all! { u8, i32, u64, i128, bool, char, String, &'static str, Vec<u8>, Option<Box<u8>>, (u8, u64), Pad, Enum, Ci, Always, Half, Tr4, Tr8, () }
    cmp_float! { f64, f32, [f32; 3], Asym, Never }
    let n = c.n(1500, 2);
    c.suite("mixed", n, |r, _| mixed(r));
    macro_rules! cp { ($($t:ty),*) => {$(
        let n = c.n(300, 1);
        c.suite(concat!("copy/", stringify!($t)), n, |r, _| copies::<$t>(r));
    )*} }
    cp! { u8, f64, f32, [f32; 3], Pad, i128, char, bool, &'static str }
    macro_rules! cph { ($($t:ty),*) => {$(
        let n = c.n(400, 1);
        c.suite(concat!("copyhash/", stringify!($t)), n, |r, _| copies_hash::<$t>(r));
    )*} }
    cph! { u8, Pad, i128, char, bool, &'static str, (u8, u64) }
    // Very many elements.
    if !cfg!(miri) {
        c.nontrivial(2);
        macro_rules! many { ($n:literal, $w:literal, $f:ident; $($t:ty),*) => {$(
            let n = c.n($n, 0);
            c.suite(concat!($w, "/", stringify!($t)), n, |r, _| big::$f::<$t>(r));
        )*} }
        many! { 16, "many", compared; u8, u16, u32, [u64; 3], String }
    }
    c.finish();
}
