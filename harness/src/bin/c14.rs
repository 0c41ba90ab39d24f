use mon::el::*;
use mon::tables::*;
use mon::Ctx;
use std::rc::Rc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! s { ($($t:ty),*) => {$(
        let n = c.n(800, 3);
        c.suite(concat!("vectors/", stringify!($t)), n, |r, _| vectors::<$t>(r));
        let n = c.n(600, 2);
        c.suite(concat!("views/", stringify!($t)), n, |r, _| views::<$t>(r));
        let n = c.n(400, 2);
        c.suite(concat!("values/", stringify!($t)), n, |r, _| values::<$t>(r));
    )*} }
    macro_rules! z { ($($t:ty),*) => {$(
        let n = c.n(500, 2);
        c.suite(concat!("values/", stringify!($t)), n, |r, _| values::<$t>(r));
    )*} }
    z! { (), ZTr }
    s! { Tr4, Tr8, Gn8, TrW, Tr24, TrA64, Tr3, TrBig, String, Rc<(u64, u64)>, Option<Box<u32>>, u64, u8, Pad2, [u8; 3] }
    macro_rules! cs { ($($t:ty),*) => {$(
        let n = c.n(1500, 3);
        c.suite(concat!("copies/", stringify!($t)), n, |r, _| copies::<$t>(r));
    )*} }
    cs! { u8, u64, [u8; 3], Pad, &'static u64, A64, u128, char }
    c.finish();
}
