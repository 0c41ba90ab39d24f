//! Numeric conversion, dispatch and printing next to conversions worked out here.
use dync::traits::*;
use dync::*;
use mon::copyw::CEl;
use mon::el::*;
use mon::report::*;
use mon::vt::*;
use mon::*;
use num_traits::{NumCast, ToPrimitive, Zero};
use std::any::{Any, TypeId};
use std::fmt::{Debug, Display};

/// A number, exactly (all primitive integers fit; floats as they are).
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ex {
    I(i128),
    /// Above `i128::MAX`.
    Big(u128),
    F(f64),
}
use Ex::*;

trait Num: Copy + 'static + Display + Debug {
    const NAME: &'static str;
    fn ex(self) -> Ex;
    fn arb(r: &mut Rng) -> Self;
}
macro_rules! ints { ($($t:ty),*) => {$(
    impl Num for $t {
        const NAME: &'static str = stringify!($t);
        fn ex(self) -> Ex { match i128::try_from(self) { Ok(x) => I(x), Err(_) => Big(self as u128) } }
        fn arb(r: &mut Rng) -> Self {
            let b = [8u32, 16, 32, 64, 53, 24, 63, 7, 15, 31][r.below(10)].min(<$t>::BITS - 1);
            let near = ((1u128 << b) as $t).wrapping_add(r.below(5) as $t).wrapping_sub(2);
            match r.below(10) {
                0 => <$t>::MAX, 1 => <$t>::MIN, 2 => 0, 3 => 1, 4 => (0 as $t).wrapping_sub(1),
                5 | 6 => near, 7 => (0 as $t).wrapping_sub(near),
                _ => ((r.next() as u128) << 64 | r.next() as u128) as $t >> r.below(<$t>::BITS as usize),
            }
        }
    }
)*} }
ints! { u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize }
macro_rules! floats { ($($t:ty, $i:ty, $m:expr;)*) => {$(
    impl Num for $t {
        const NAME: &'static str = stringify!($t);
        fn ex(self) -> Ex { F(self as f64) }
        fn arb(r: &mut Rng) -> Self {
            let edge = [127., 128., 255., 256., 32767., 32768., 65535., 65536., 2147483647., 2147483648., 4294967295., 4294967296., 9223372036854775807., 9223372036854775808., 18446744073709551615., 18446744073709551616.];
            let e = edge[r.below(edge.len())] as $t;
            let s = if r.below(2) == 0 { 1. } else { -1. };
            match r.below(14) {
                0 => 0., 1 => -0., 2 => <$t>::NAN, 3 => <$t>::INFINITY * s, 4 => <$t>::MAX * s, 5 => <$t>::MIN_POSITIVE * s,
                6 => e * s, 7 => (e + 0.5) * s, 8 => (e - 0.5) * s,
                9 => <$t>::from_bits((e.to_bits() as $i).wrapping_add(r.below(3) as $i).wrapping_sub(1)) * s,
                10 => (r.below(1000) as $t / 8.) * s,
                11 => 0.999 * s,
                _ => <$t>::from_bits(r.next() as $i),
            }
        }
    }
)*} }
floats! { f32, u32, 24; f64, u64, 53; }

/// What a number converts to.
trait Target: Num + NumCast + Zero {
    /// Every result that is right.
    fn right(x: Ex) -> [Self; 2];
    fn same(self, o: Self) -> bool;
}
macro_rules! tints { ($($t:ty),*) => {$(
    impl Target for $t {
        fn right(x: Ex) -> [Self; 2] {
            let y = match x {
                I(x) => <$t>::try_from(x).unwrap_or(0),
                Big(x) => <$t>::try_from(x).unwrap_or(0),
                F(x) => {
                    let t = x.trunc();
                    // The limits as floats: the lower one is exact, the upper one is one more.
                    let (lo, hi) = (<$t>::MIN as f64, 2f64.powi((<$t>::BITS - (<$t>::MIN != 0) as u32) as i32));
                    if t >= lo && t < hi { t as $t } else { 0 }
                }
            };
            [y, y]
        }
        fn same(self, o: Self) -> bool { self == o }
    }
)*} }
tints! { u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize }
impl Target for f64 {
    fn right(x: Ex) -> [Self; 2] {
        let y = match x { I(x) => x as f64, Big(x) => x as f64, F(x) => x };
        [y, y]
    }
    fn same(self, o: Self) -> bool {
        self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan()
    }
}
impl Target for f32 {
    fn right(x: Ex) -> [Self; 2] {
        match x {
            I(x) => [x as f32; 2],
            Big(x) => [x as f32; 2],
            F(x) => {
                let y = x as f32;
                // Finite, but too large for the target: infinite or not representable.
                [y, if y.is_infinite() && x.is_finite() { 0. } else { y }]
            }
        }
    }
    fn same(self, o: Self) -> bool {
        self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan()
    }
}

/// A number type of the user.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Own(f64);
impl ToPrimitive for Own {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
impl NumCast for Own {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        let x = n.to_f64()?;
        if x < 0. { None } else { Some(Own(x)) }
    }
}
impl std::ops::Add for Own { type Output = Own; fn add(self, o: Own) -> Own { Own(self.0 + o.0) } }
impl Zero for Own {
    fn zero() -> Self { Own(0.) }
    fn is_zero(&self) -> bool { self.0 == 0. }
}
impl Display for Own { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "own {}", self.0) } }
impl Num for Own {
    const NAME: &'static str = "Own";
    fn ex(self) -> Ex { F(self.0) }
    fn arb(r: &mut Rng) -> Self { Own(f64::arb(r)) }
}
impl Target for Own {
    fn right(x: Ex) -> [Self; 2] {
        let y = f64::right(x)[0];
        [Own(if y < 0. { 0. } else { y }); 2]
    }
    fn same(self, o: Self) -> bool { f64::same(self.0, o.0) }
}

fn nums<S: Num>(r: &mut Rng) -> Vec<S> {
    let mut n = *r.of(&[0, 1, 2, 3, 5, 8, 13]);
    if !cfg!(miri) && r.below(50) == 0 {
        n = 50 + r.below(3000);
        if r.below(20) == 0 {
            n += 65536;
        }
    }
    (0..n).map(|_| S::arb(r)).collect()
}

/// The same elements in containers made in different ways.
fn make<S: Num, V: VTable<S> + Clone>(r: &mut Rng, s: &[S]) -> VecCopy<V> {
    match r.below(5) {
        0 => VecCopy::from(s.to_vec()),
        1 => VecCopy::from(s),
        2 => {
            let mut v = VecCopy::with_type::<S>();
            for x in s {
                v.push_as(*x);
            }
            v
        }
        3 if !s.is_empty() => s.iter().map(|x| CopyValueRef::<V>::new(x)).collect(),
        _ => {
            let mut v = VecCopy::with_capacity::<S>(s.len() + 3);
            v.extend(s.iter().map(|x| CopyValueRef::<V>::new(x)));
            v
        }
    }
}

fn converted<S: Num, T: Target>(s: &[S], got: &[T], what: &str) {
    same!(got.len(), s.len(), "{} of {} to {}: number of elements", what, S::NAME, T::NAME);
    for (i, (x, y)) in s.iter().zip(got).enumerate() {
        let want = T::right(x.ex());
        ensure!(y.same(want[0]) || y.same(want[1]), "{} of {} to {}: element {} is {} for {} (expected {})", what, S::NAME, T::NAME, i, y, x, want[0]);
    }
    add("numbers converted", s.len() as u64);
}

fn casts<S: Num, T: Target>(r: &mut Rng)
where
    (): VTable<S>,
    DropVTable: VTable<S>,
    AllF: VTable<S>,
{
    let s = nums::<S>(r);
    t!("{} to {}: {} of {:?}", S::NAME, T::NAME, s.len(), &s[..s.len().min(13)]);
    let v = make::<S, ()>(r, &s);
    converted::<S, T>(&s, &v.cast_into_vec::<T>(), "cast_into_vec of VecCopy");
    let v = make::<S, AllF>(r, &s);
    converted::<S, T>(&s, &v.cast_into_vec::<T>(), "cast_into_vec of VecCopy with a table");
    let d: VecDyn<DropVTable> = VecDyn::from(s.clone());
    converted::<S, T>(&s, &some!(d.cast_into_vec::<T>(), "cast_into_vec of VecDyn"), "cast_into_vec of VecDyn");
    let mut d: VecDyn<AllF> = VecDyn::with_type::<S>();
    for x in &s {
        some!(d.push_as(*x), "push_as");
    }
    let d2 = d.clone();
    converted::<S, T>(&s, &some!(d2.cast_into_vec::<T>(), "cast_into_vec of VecDyn"), "cast_into_vec of a cloned VecDyn");
    // Nothing happened to the source.
    same!(d.as_slice_as::<S>().map(|x| x.len()), Some(s.len()), "length of the source");
    for (x, y) in d.as_slice_as::<S>().unwrap().iter().zip(&s) {
        same!(format!("{:?}", x), format!("{:?}", y), "element of the source after the cast");
    }
}

/// Contents that are no numbers (or of a kind that is not dispatched).
fn not<S: CEl>(r: &mut Rng)
where
    AllVTable: VTable<S>,
{
    let n = r.below(5);
    let s: Vec<S> = (0..n).map(|_| S::mk(r.key())).collect();
    t!("{} x {}", std::any::type_name::<S>(), n);
    let v: VecCopy<()> = VecCopy::from(s.clone());
    same!(v.cast_into_vec::<u64>().len(), 0, "numbers in a vector of {}", std::any::type_name::<S>());
    same!(v.cast_into_vec::<f32>().len(), 0, "numbers in a vector of {}", std::any::type_name::<S>());
    same!(v.cast_into_vec::<u8>().len(), 0, "numbers in a vector of {}", std::any::type_name::<S>());
    let d: VecDyn<AllVTable> = VecDyn::from(s);
    ensure!(d.cast_into_vec::<u64>().is_none(), "numbers in a VecDyn of {}", std::any::type_name::<S>());
    ensure!(d.cast_into_vec::<f64>().is_none(), "numbers in a VecDyn of {}", std::any::type_name::<S>());
    ensure!(d.cast_into_vec::<i8>().is_none(), "numbers in a VecDyn of {}", std::any::type_name::<S>());
    dispatch::<S>(&v, None);
}
fn not_dyn<S: El>(r: &mut Rng)
where
    AllVTable: VTable<S>,
{
    let n = r.below(5);
    t!("{} x {}", std::any::type_name::<S>(), n);
    let d: VecDyn<AllVTable> = VecDyn::from((0..n).map(|_| S::mk(r.key())).collect::<Vec<S>>());
    ensure!(d.cast_into_vec::<u64>().is_none(), "numbers in a VecDyn of {}", std::any::type_name::<S>());
    ensure!(d.cast_into_vec::<f64>().is_none(), "numbers in a VecDyn of {}", std::any::type_name::<S>());
}

// Every form of the dispatch macro.
type Seen = Option<(TypeId, TypeId, usize, usize)>;
unsafe fn one<T: Any>(v: &VecCopy) -> Seen {
    Some((TypeId::of::<T>(), TypeId::of::<()>(), v.len(), 0))
}
unsafe fn two<T: Any>(v: &VecCopy, x: usize) -> Seen {
    Some((TypeId::of::<T>(), TypeId::of::<()>(), v.len(), x))
}
unsafe fn one_p<T: Any, P: Any>(v: &VecCopy) -> Seen {
    Some((TypeId::of::<T>(), TypeId::of::<P>(), v.len(), 0))
}
unsafe fn two_p<T: Any, P: Any>(v: &VecCopy, x: usize, y: usize) -> Seen {
    Some((TypeId::of::<T>(), TypeId::of::<P>(), v.len(), x * 10 + y))
}
trait Member {
    unsafe fn m<T: Any>(&self, x: usize) -> Seen;
    unsafe fn m0<T: Any>(&self) -> Seen;
    unsafe fn mp<T: Any, P: Any>(&self, x: usize) -> Seen;
}
impl Member for VecCopy {
    unsafe fn m<T: Any>(&self, x: usize) -> Seen { two::<T>(self, x) }
    unsafe fn m0<T: Any>(&self) -> Seen { one::<T>(self) }
    unsafe fn mp<T: Any, P: Any>(&self, x: usize) -> Seen { two_p::<T, P>(self, x, 0) }
}
impl Member for VecDyn<AllF> {
    unsafe fn m<T: Any>(&self, x: usize) -> Seen { Some((TypeId::of::<T>(), TypeId::of::<()>(), self.len(), x)) }
    unsafe fn m0<T: Any>(&self) -> Seen { self.m::<T>(0) }
    unsafe fn mp<T: Any, P: Any>(&self, x: usize) -> Seen { Some((TypeId::of::<T>(), TypeId::of::<P>(), self.len(), x)) }
}
unsafe fn dyn_two<T: Any>(v: &VecDyn<AllF>, x: usize) -> Seen { v.m::<T>(x) }

fn dispatch<S: Any>(v: &VecCopy, want: Option<TypeId>) {
    let n = v.len();
    type Q = u16;
    let unit = TypeId::of::<()>();
    let q = TypeId::of::<Q>();
    let name = std::any::type_name::<S>();
    let w = |p: TypeId, x: usize| want.map(|t| (t, p, n, x));
    same!(call_numeric_buffer_fn!(one::<_>(v) or { None }), w(unit, 0), "dispatch of {} to a function", name);
    same!(call_numeric_buffer_fn!(two::<_>(v, 7) or { None }), w(unit, 7), "dispatch of {} to a function with arguments", name);
    same!(call_numeric_buffer_fn!(one_p::<_, Q>(v) or { None }), w(q, 0), "dispatch of {} to a function with parameters", name);
    same!(call_numeric_buffer_fn!(two_p::<_, Q>(v, 3, 4) or { None }), w(q, 34), "dispatch of {} to a function with parameters and arguments", name);
    same!(call_numeric_buffer_fn!(v.m::<_>(5) or { None }), w(unit, 5), "dispatch of {} to a method", name);
    same!(call_numeric_buffer_fn!(v.m0::<_>() or { None }), w(unit, 0), "dispatch of {} to a method without arguments", name);
    same!(call_numeric_buffer_fn!(v.mp::<_, Q>(5) or { None }), w(q, 50), "dispatch of {} to a method with parameters", name);
    add("dispatches", 7);
}

fn dispatches<S: Num>(r: &mut Rng)
where
    (): VTable<S>,
    AllF: VTable<S>,
{
    let s = nums::<S>(r);
    t!("{}: {} of {:?}", S::NAME, s.len(), &s[..s.len().min(13)]);
    let v = make::<S, ()>(r, &s);
    dispatch::<S>(&v, Some(TypeId::of::<S>()));
    let d: VecDyn<AllF> = VecDyn::from(s.clone());
    let (unit, q) = (TypeId::of::<()>(), TypeId::of::<u8>());
    let t = TypeId::of::<S>();
    type Q = u8;
    same!(call_numeric_buffer_fn!(dyn_two::<_>(&d, 9) or { None }), Some((t, unit, s.len(), 9)), "dispatch of a VecDyn of {}", S::NAME);
    let e = &d;
    same!(call_numeric_buffer_fn!(e.m::<_>(9) or { None }), Some((t, unit, s.len(), 9)), "dispatch of a VecDyn of {} to a method", S::NAME);
    same!(call_numeric_buffer_fn!(e.mp::<_, Q>(9) or { None }), Some((t, q, s.len(), 9)), "dispatch of a VecDyn of {} to a method", S::NAME);
    // Printing.
    for v in [make::<S, ()>(r, &s), v.clone()] {
        let got = format!("{}", v);
        let words: Vec<&str> = got.split_whitespace().collect();
        let want: Vec<String> = s.iter().map(|x| format!("{}", x)).collect();
        same!(words, want, "printed vector of {}", S::NAME);
        same!(v.to_string(), got, "printed twice");
    }
    let v = make::<S, AllF>(r, &s);
    let words: Vec<String> = format!("{}", v).split_whitespace().map(|x| x.to_string()).collect();
    let want: Vec<String> = s.iter().map(|x| x.to_string()).collect();
    same!(words, want, "printed vector of {} with a table", S::NAME);
    add("numbers printed", 3 * s.len() as u64);
}

type AllF = FloatVTable;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(0);
    macro_rules! cross { ($($s:ty),*; $ts:tt) => { $( cross!(@ $s, $ts); )* };
        (@ $s:ty, ($($t:ty),*)) => { $(
            let n = c.n(300, 1);
            c.suite(concat!("cast/", stringify!($s), "/", stringify!($t)), n, |r, _| casts::<$s, $t>(r));
        )* };
    }
    cross! { u8, i8, u16, i16, u32, i32, u64, i64, f32, f64; (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, u128, i128, usize, isize, Own) }
    macro_rules! d { ($($s:ty),*) => { $(
        let n = c.n(600, 3);
        c.suite(concat!("dispatch/", stringify!($s)), n, |r, _| dispatches::<$s>(r));
    )* } }
    d! { u8, i8, u16, i16, u32, i32, u64, i64, f32, f64 }
    macro_rules! no { ($($s:ty),*) => { $(
        let n = c.n(60, 2);
        c.suite(concat!("not/", stringify!($s)), n, |r, _| not::<$s>(r));
    )* } }
    no! { bool, char, [u8; 3], Pad, &'static u64, [u64; 3], A16, (u32, u8), Option<u16>, u128 }
    macro_rules! nod { ($($s:ty),*) => { $(
        let n = c.n(60, 2);
        c.suite(concat!("not_dyn/", stringify!($s)), n, |r, _| not_dyn::<$s>(r));
    )* } }
    nod! { String, Tr4, Tr8, Box<u64> }
    c.finish();
}
