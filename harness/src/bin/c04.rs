use mon::copyw::*;
use mon::dynw::*;
use mon::el::*;
use mon::pairs::*;
use mon::vt::*;
use mon::Ctx;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    // All ordered pairs of types of one layout (and the types themselves).
    macro_rules! cross { ($v:ty; $($t:ty),*) => { cross!(@ $v; ($($t),*) ($($t),*)); };
        (@ $v:ty; ($($a:ty),*) $bs:tt) => { $( cross!(@@ $v; $a, $bs); )* };
        (@@ $v:ty; $a:ty, ($($b:ty),*)) => { $(
            let n = c.n(PAIR_CASES * 12, PAIR_CASES);
            c.suite(concat!("pair/", stringify!($a), "/", stringify!($b)), n, |r, i| pair::<$a, $b, $v>(r, i));
        )* };
    }
    cross! { AllVTable; u64, i64, usize, &'static u64, [u32; 2], Tr8 }
    cross! { AllVTable; u32, Tr4, char }
    cross! { AllVTable; String, Vec<u16>, [u64; 3], Tr24 }
    cross! { AllVTable; Box<u64>, Option<Box<u32>>, Tr8b }
    cross! { FloatVTable; f64, u64 }
    macro_rules! crossc { ($($t:ty),*) => { crossc!(@ ($($t),*) ($($t),*)); };
        (@ ($($a:ty),*) $bs:tt) => { $( crossc!(@@ $a, $bs); )* };
        (@@ $a:ty, ($($b:ty),*)) => { $(
            let n = c.n(7 * 16, 7);
            c.suite(concat!("pairc/", stringify!($a), "/", stringify!($b)), n, |r, i| pair_copy::<$a, $b>(r, i));
        )* };
    }
    crossc! { u64, i64, f64, &'static u64, [u8; 8] }
    crossc! { u32, f32, char }
    crossc! { u8, bool }
    crossc! { A16, u128 }
    // Types of no size at all.
    macro_rules! zero { ($($t:ty),*) => { zero!(@ ($($t),*) ($($t),*)); };
        (@ ($($a:ty),*) $bs:tt) => { $( zero!(@@ $a, $bs); )* };
        (@@ $a:ty, ($($b:ty),*)) => { $(
            let n = c.n(8, 1);
            c.suite(concat!("zero/", stringify!($a), "/", stringify!($b)), n, |r, _| pair_zero::<$a, $b, AllVTable>(r));
        )* };
    }
    zero! { (), ZA, ZTr }
    #[derive(Clone, Copy)]
    struct Z0;
    #[derive(Clone, Copy)]
    struct Z1;
    macro_rules! zeroc { ($($e:expr, $n:literal;)*) => { zeroc!(@ ($($e, $n;)*) ($($e, $n;)*)); };
        (@ ($($a:expr, $n:literal;)*) $bs:tt) => { $( zeroc!(@@ $a, $n, $bs); )* };
        (@@ $a:expr, $n:literal, ($($b:expr, $m:literal;)*)) => { $(
            let n = c.n(8, 1);
            c.suite(concat!("zeroc/", $n, "/", $m), n, |r, _| pair_zero_copy($a, $b, r));
        )* };
    }
    zeroc! { (), "unit"; Z0, "Z0"; Z1, "Z1"; [0u64; 0], "[u64; 0]"; [0u8; 0], "[u8; 0]"; std::marker::PhantomData::<u8>, "PhantomData<u8>"; std::marker::PhantomData::<u16>, "PhantomData<u16>"; ZA, "ZA"; }
    c.nontrivial(6);
    const MIX: Mix = Mix { construct: 3, add: 5, bulk: 5, access: 2, refs: 3, views: 2, values: 4, convert: 3, mismatch: 30, refuse: 0, steps: 20 };
    macro_rules! suites { ($($t:ty, $f:ty;)*) => {$(
        let n = c.n(1200, 1);
        c.suite(concat!("vec/", stringify!($t)), n, |r, _| history::<$t, $f, AllVTable>(r, &MIX));
    )*} }
    suites! { Tr8, Tr8b; Tr4, u32; String, Vec<u16>; }
    macro_rules! suitesc { ($($t:ty, $f:ty;)*) => {$(
        let n = c.n(1200, 1);
        c.suite(concat!("copy/", stringify!($t)), n, |r, _| copy_history::<$t, $f, ()>(r, &MIX));
    )*} }
    suitesc! { u64, i64; &'static u64, u64; [u64; 3], [i64; 3]; u32, f32; }
    c.finish();
}
