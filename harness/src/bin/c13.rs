use mon::clones::*;
use mon::el::*;
use mon::Ctx;
use std::rc::Rc;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! s { ($($t:ty),*) => {$(
        let n = c.n(3000, 6);
        c.suite(concat!("clones/", stringify!($t)), n, |r, _| clones::<$t>(r));
        let n = c.n(200, 1);
        c.suite(concat!("repeats/", stringify!($t)), n, |r, _| repeats::<$t>(r));
    )*} }
    s! { Tr4, Tr8, Tr8b, TrW, Tr24, Tr64, TrA64, Tr3, TrBig, String, Vec<u16>, Rc<(u64, u64)>, Box<u64>, Option<Box<u32>>, u64, u8, A64, Pad2, [u8; 3], TrA512, Gn4, Gn8, Gn16, Gn32 }
    macro_rules! cs { ($($t:ty),*) => {$(
        let n = c.n(2000, 4);
        c.suite(concat!("copies/", stringify!($t)), n, |r, _| copies::<$t>(r));
    )*} }
    cs! { u8, u64, [u8; 3], Pad, Pad2, &'static u64, A64, A4096, u128, [u16; 3], char }
    c.finish();
}
