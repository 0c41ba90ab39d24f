use mon::dynw::*;
use mon::el::*;
use mon::own::*;
use mon::vt::*;
use mon::Ctx;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! own { ($($t:ty, $f:ty;)*) => {$(
        let n = c.n(OWN_CASES * 5 * 4, OWN_CASES);
        c.suite(concat!("own/", stringify!($t)), n, |r, i| directed::<$t, $f, AllVTable>(r, if cfg!(miri) { i * 5 + (i + i / 5) % 5 } else { i }));
    )*} }
    own! { Tr4, TrW; Tr8, Tr8b; TrW, Tr8; Tr12, Tr24; Tr24, Tr4; Tr64, Tr12; TrA16, Tr64; TrA64, TrA16; Tr3, Tr4; TrA512, Tr8; TrBig, TrA64; }
    c.nontrivial(6);
    const OWNING: Mix = Mix { construct: 8, add: 10, bulk: 12, access: 3, refs: 8, views: 3, values: 10, convert: 8, mismatch: 12, refuse: 1, steps: 28 };
    macro_rules! suites { ($($t:ty, $f:ty;)*) => {$(
        let n = c.n(1500, 1);
        c.suite(concat!("vec/", stringify!($t)), n, |r, _| history::<$t, $f, AllVTable>(r, &OWNING));
    )*} }
    suites! { Tr4, TrW; Tr8, Tr8b; TrW, Tr8; Tr24, Tr3; Tr3, Tr4; TrA64, String; String, Tr24; }
    c.finish();
}
