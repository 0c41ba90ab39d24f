//! Seeded histories over the part of dync that exists under every feature selection. Everything that can
//! be observed is written to a log; the logs of all configurations have to be the same.
//!
//! usage: configs SEED CASES [NAME#CASE]; prints "NAME#CASE HASH OPERATIONS REFUSALS" per history, or the
//! log of one history.
use dync::*;
use std::any::{Any, TypeId};
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// An index or count, mostly near `n`, sometimes absurd.
    fn pos(&mut self, n: usize, size: usize) -> usize {
        match self.below(12) {
            0 => n,
            1 => n + 1,
            2 => usize::MAX,
            3 => usize::MAX / 2 + 1,
            4 => (usize::MAX / size).saturating_add(1),
            5 => usize::MAX / size,
            _ => self.below(n + 1),
        }
    }
}

trait P: Copy + 'static {
    fn mk(k: u64) -> Self;
    fn show(&self) -> u64;
}
fn mix(k: u64) -> u64 {
    let mut r = Rng(k);
    r.next()
}
macro_rules! ints { ($($t:ty)*) => {$( impl P for $t { fn mk(k: u64) -> Self { k as $t } fn show(&self) -> u64 { *self as u64 } } )*} }
ints! { u8 i8 u16 i16 u32 i32 u64 i64 usize }
impl P for f64 {
    fn mk(k: u64) -> Self { f64::from_bits(k) }
    fn show(&self) -> u64 { self.to_bits() }
}
impl P for f32 {
    fn mk(k: u64) -> Self { f32::from_bits(k as u32) }
    fn show(&self) -> u64 { self.to_bits() as u64 }
}
impl P for u128 {
    fn mk(k: u64) -> Self { (k as u128) << 64 | mix(k) as u128 }
    fn show(&self) -> u64 { (*self >> 64) as u64 ^ *self as u64 }
}
impl P for bool {
    fn mk(k: u64) -> Self { k & 1 == 1 }
    fn show(&self) -> u64 { *self as u64 }
}
impl P for char {
    fn mk(k: u64) -> Self { char::from_u32((k % 0xd800) as u32).unwrap() }
    fn show(&self) -> u64 { *self as u64 }
}
impl<const N: usize> P for [u8; N] {
    fn mk(k: u64) -> Self { std::array::from_fn(|i| mix(k ^ i as u64) as u8) }
    fn show(&self) -> u64 { self.iter().fold(N as u64, |h, x| mix(h ^ *x as u64)) }
}
impl P for [u16; 3] {
    fn mk(k: u64) -> Self { [k as u16, (k >> 16) as u16, (k >> 32) as u16] }
    fn show(&self) -> u64 { self.iter().fold(3, |h, x| mix(h ^ *x as u64)) }
}
impl P for [i64; 3] {
    fn mk(k: u64) -> Self { [k as i64, mix(k) as i64, !k as i64] }
    fn show(&self) -> u64 { self.iter().fold(3, |h, x| mix(h ^ *x as u64)) }
}
impl P for &'static u64 {
    fn mk(k: u64) -> Self {
        static S: [u64; 8] = [3, 1, 4, 15, 92, 65, 35, 89];
        &S[k as usize % 8]
    }
    fn show(&self) -> u64 { **self }
}
/// With padding.
#[derive(Clone, Copy)]
#[repr(C)]
struct Pad(u8, u32, u16);
impl P for Pad {
    fn mk(k: u64) -> Self { Pad(k as u8, (k >> 8) as u32, (k >> 40) as u16) }
    fn show(&self) -> u64 { self.0 as u64 | (self.1 as u64) << 8 | (self.2 as u64) << 40 }
}
#[derive(Clone, Copy)]
#[repr(C, align(64))]
struct Al([u64; 3]);
impl P for Al {
    fn mk(k: u64) -> Self { Al([k, mix(k), !k]) }
    fn show(&self) -> u64 { self.0.iter().fold(3, |h, x| mix(h ^ *x)) }
}
impl P for Option<u16> {
    fn mk(k: u64) -> Self { if k % 3 == 0 { None } else { Some(k as u16) } }
    fn show(&self) -> u64 { self.map_or(1 << 40, |x| x as u64) }
}

struct Log {
    h: std::collections::hash_map::DefaultHasher,
    text: Option<String>,
    ops: usize,
    no: usize,
}
impl Log {
    fn put(&mut self, s: std::fmt::Arguments) {
        let s = s.to_string();
        s.hash(&mut self.h);
        if let Some(t) = &mut self.text {
            t.push_str(&s);
            t.push('\n');
        }
    }
}
macro_rules! l { ($l:expr, $($a:tt)*) => { $l.put(format_args!($($a)*)) } }

/// A table of the user, with an identity.
#[derive(Clone, PartialEq, Debug)]
struct Tab(String);
impl<T: Copy + Any> VTable<T> for Tab {
    fn build_vtable() -> Self { Tab(format!("{} {}", std::mem::size_of::<T>(), std::mem::align_of::<T>())) }
}
#[derive(Clone, Debug)]
struct Up(Tab);
impl From<Tab> for Up {
    fn from(t: Tab) -> Up { Up(t) }
}
#[derive(Clone, Debug)]
struct Unit2;
impl From<()> for Unit2 {
    fn from(_: ()) -> Unit2 { Unit2 }
}
trait Tables<T>: VTable<T> + Clone + 'static {
    type Up: From<Self> + Clone;
}
impl<T: Copy + Any> Tables<T> for Tab { type Up = Up; }
impl<T: Copy> Tables<T> for () { type Up = Unit2; }

/// None: refused by a panic.
fn go<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn shows<T: P>(s: &[T]) -> Vec<u64> {
    s.iter().map(|x| x.show()).collect()
}
fn mks<T: P>(r: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::mk(r.next())).collect()
}

fn meta<V>(l: &mut Log, what: &str, v: &CopyValueRef<V>) {
    l!(l, "{} {} {}", what, v.size(), v.value_alignment());
}

fn history<T: P, F: P, V: Tables<T> + Tables<F>>(r: &mut Rng, l: &mut Log, tab: impl Fn(&VecCopy<V>) -> String) {
    let k = if r.below(24) == 0 { 30 + r.below(400) } else { r.below(6) };
    let mut vs: Vec<VecCopy<V>> = vec![VecCopy::from(mks::<T>(r, k)), VecCopy::with_type::<T>()];
    let z = std::mem::size_of::<T>();
    let steps = 6 + r.below(24);
    for _ in 0..steps {
        l.ops += 1;
        if vs.len() > 5 {
            vs.truncate(3);
        }
        let a = r.below(vs.len());
        let b = (a + 1 + r.below(vs.len() - 1)) % vs.len();
        let foreign: bool = r.below(6) == 0;
        let n = vs[a].len();
        let how = r.below(66);
        let (i, j, m) = (r.pos(n, z), r.pos(n, z), r.below(7));
        let (key, key2) = (r.next(), r.next());
        let e = T::mk(key);
        let f = F::mk(key);
        let arr = mks::<T>(r, m);
        let farr = mks::<F>(r, m);
        l!(l, "op {} on {} ({}) {} {} {} {}", how, a, n, i, j, m, foreign);
        macro_rules! ask { ($x:expr) => {{
            let x = go(|| $x);
            if x.is_none() { l.no += 1; }
            l!(l, "  {:?}", x);
        }} }
        let v = &mut vs[a];
        match how {
            0 => ask!(if foreign { v.push_as(f).is_some() } else { v.push_as(e).is_some() }),
            1 => ask!(v.push(CopyValueRef::<V>::new(&e)).is_some()),
            2 => ask!(if std::mem::size_of::<F>() == z || foreign { v.push(CopyValueRef::<()>::new(&f)).is_some() } else { v.push(CopyValueRef::<()>::new(&e)).is_some() }),
            3 => ask!(if foreign { v.resize(m * 3, f).is_some() } else { v.resize(m * 3, e).is_some() }),
            4 => ask!(v.resize(usize::MAX - m, e).is_some()),
            5 => ask!(if foreign { v.fill(f).is_some() } else { v.fill(e).is_some() }),
            6 => ask!(v.clear()),
            7 => ask!(v.reserve(m)),
            8 => ask!(v.reserve(if foreign { usize::MAX - m } else { isize::MAX as usize / z + 1 + m })),
            9 => ask!(if foreign { v.copy_from_slice(&farr).is_some() } else { v.copy_from_slice(&arr).is_some() }),
            10 => {
                let s = mks::<T>(r, n);
                ask!(v.copy_from_slice(&s).is_some())
            }
            11 => ask!(v.rotate_left(i)),
            12 => ask!(v.rotate_right(i)),
            13 => ask!(if foreign { v.get_as::<F>(i).map(|x| x.show()) } else { v.get_as::<T>(i).map(|x| x.show()) }),
            14 => ask!(if foreign { v.get_ref_as::<F>(i).map(|x| x.show()) } else { v.get_ref_as::<T>(i).map(|x| x.show()) }),
            15 => ask!(if foreign { v.get_mut_as::<F>(i).map(|x| x.show()) } else { v.get_mut_as::<T>(i).map(|x| { *x = e; x.show() }) }),
            16 => ask!({ let x = v.get_ref(i); (x.size(), x.value_alignment(), x.is::<T>(), x.is::<F>(), x.value_type_id() == TypeId::of::<T>(), x.downcast::<T>().map(|x| x.show())) }),
            17 => ask!(v.get_ref(i).downcast::<F>().map(|x| x.show())),
            18 => ask!({ let x = v.get_mut(i); (x.size(), x.value_alignment(), x.is::<T>(), x.is::<F>(), x.downcast::<T>().map(|x| { *x = e; x.show() })) }),
            19 => ask!(v.get_mut(i).downcast::<F>().map(|x| x.show())),
            20 => ask!(v.get_mut(i).copy(CopyValueRef::new(&e)).is_some()),
            21 => ask!(v.get_mut(i).copy(CopyValueRef::new(&f)).is_some()),
            22 => {
                let mut x = e;
                ask!({ v.get_mut(i).swap(&mut CopyValueMut::new(&mut x)); });
                l!(l, "  {}", x.show());
            }
            23 => {
                let mut x = f;
                if std::mem::size_of::<F>() == z || foreign {
                    ask!({ v.get_mut(i).swap(&mut CopyValueMut::new(&mut x)); });
                }
                l!(l, "  {}", x.show());
            }
            24 => ask!(CopyValueRef::from(v.get_mut(i)).downcast::<T>().map(|x| x.show())),
            25 => ask!((v.iter_as::<T>().map(|x| x.map(|x| x.show()).collect::<Vec<_>>()), v.iter_as::<F>().map(|x| x.len()))),
            26 => ask!((v.iter_mut_as::<F>().map(|x| x.len()), v.iter_mut_as::<T>().map(|x| x.map(|x| { *x = e; }).count()))),
            27 => ask!(v.iter().rev_less()),
            28 => ask!({ let mut k = 0; for x in v.iter_mut() { if k % 2 == 0 { *x.downcast::<T>().unwrap() = T::mk(key ^ k); } k += 1; } k }),
            29 => ask!({ let mut o = arr.clone(); let ok = v.append_copy_to_vec(&mut o).is_some(); (ok, shows(&o)) }),
            30 => ask!({ let mut o = farr.clone(); let ok = v.append_copy_to_vec(&mut o).is_some(); (ok, shows(&o)) }),
            31 => ask!((v.copy_into_vec::<T>().map(|x| shows(&x)), v.copy_into_vec::<F>().map(|x| shows(&x)))),
            32 => ask!((v.check_ref::<T>().is_some(), v.check_ref::<F>().is_some(), v.check_mut::<T>().is_some(), v.check_mut::<F>().is_some())),
            33 => ask!((v.as_slice_as::<F>().map(|x| x.len()), v.as_mut_slice_as::<F>().map(|x| x.len()), v.as_mut_slice_as::<T>().map(|x| { x.reverse(); x.len() }))),
            34 => {
                let w = v.clone();
                vs.push(w);
            }
            35 => {
                let w = std::mem::replace(v, VecCopy::with_capacity::<T>(m));
                let x = go(|| if foreign { w.into_vec::<F>().map(|x| shows(&x)) } else { w.into_vec::<T>().map(|x| shows(&x)) });
                l!(l, "  {:?} {:?}", x, v.capacity() >= m);
            }
            36 => {
                let w = std::mem::replace(v, VecCopy::from(&arr[..]));
                let x = go(|| if foreign { w.check::<F>() } else { w.check::<T>() });
                l!(l, "  {:?}", x.as_ref().map(|x| x.is_some()));
                if let Some(Some(w)) = x {
                    vs.push(w);
                }
            }
            37 => {
                let w = std::mem::replace(v, VecCopy::from_slice(&arr));
                let o: Option<Vec<T>> = w.into();
                l!(l, "  {:?}", o.as_ref().map(|x| shows(x)));
                vs.push(VecCopy::from_vec(o.unwrap_or_default()));
            }
            38 => vs.push(VecCopy::with_size(m, e)),
            39 => ask!(VecCopy::<V>::with_capacity::<T>(if foreign { usize::MAX - m } else { isize::MAX as usize / z + 1 + m }).len()),
            40 => {
                let w = match m {
                    0 => go(|| VecCopy::with_type_from(&*v)),
                    1 => go(|| VecCopy::with_type_from(v.as_slice())),
                    2 => go(|| VecCopy::with_type_from(v.as_mut_slice())),
                    3 => go(|| VecCopy::with_type_from(v.get_ref(i))),
                    _ => go(|| VecCopy::with_type_from(CopyValueRef::new(&e))),
                };
                l!(l, "  {:?}", w.as_ref().map(|w| (w.len(), tab(w))));
                vs.extend(w);
            }
            41 => {
                let w = go(|| v.iter().skip(m).collect::<VecCopy<V>>());
                l!(l, "  {:?}", w.as_ref().map(|w| (w.len(), tab(w))));
                vs.extend(w);
            }
            42 => ask!(v.extend(arr.iter().map(|x| CopyValueRef::<V>::new(x)))),
            43 if std::mem::size_of::<F>() == z || foreign => ask!(v.extend(farr.iter().map(|x| CopyValueRef::<V>::new(x)))),
            44 | 45 => {
                let mut w = std::mem::replace(&mut vs[b], VecCopy::with_type::<T>());
                let x = go(|| vs[a].append(&mut w).is_some());
                l!(l, "  {:?} {}", x, w.len());
                vs[b] = w;
            }
            46 => {
                let mut w: VecCopy<V> = VecCopy::from(farr.clone());
                let x = go(|| vs[a].append(&mut w).is_some());
                l!(l, "  {:?} {} {}", x, w.len(), w.element_type_id() == TypeId::of::<F>());
            }
            47 => {
                let w = v.clone().upcast::<<V as Tables<T>>::Up>();
                l!(l, "  {} {:?}", w.len(), w.as_slice_as::<T>().map(shows));
                let w = w.upcast_with(|_| 7u8);
                l!(l, "  {} {:?}", w.len(), w.copy_into_vec::<T>().map(|x| shows(&x)));
            }
            48 => {
                let mut w = vs[b].clone();
                let x = go(|| w.clone_from(&vs[a]));
                l!(l, "  {:?}", x);
                vs[b] = w;
            }
            // Views.
            49 => ask!({ let s = v.as_slice(); (s.len(), s.is_empty(), s.element_size(), s.get(i).downcast::<T>().map(|x| x.show())) }),
            50 => ask!({ let s = v.as_slice(); let (p, q) = s.split_at(i); (p.as_slice::<T>().map(shows), q.as_slice::<T>().map(shows), p.as_slice::<F>().is_some()) }),
            51 => ask!({ let s = v.as_slice(); range(r, i, j, |g| match g { R::A(x) => s.subslice(x).as_slice::<T>().map(shows), R::B(x) => s.subslice(x).as_slice::<T>().map(shows), R::C(x) => s.subslice(x).as_slice::<T>().map(shows), R::D(x) => s.subslice(x).as_slice::<T>().map(shows), R::E(x) => s.subslice(x).as_slice::<T>().map(shows) }) }),
            52 => ask!({ let s = v.as_slice(); range(r, i, j, |g| match g { R::A(x) => s.into_subslice(x).as_slice::<T>().map(shows), R::B(x) => s.into_subslice(x).as_slice::<T>().map(shows), R::C(x) => s.into_subslice(x).as_slice::<T>().map(shows), R::D(x) => s.into_subslice(x).as_slice::<T>().map(shows), R::E(x) => s.into_subslice(x).as_slice::<T>().map(shows) }) }),
            53 => ask!({ let s = v.as_slice(); s.chunks_exact(m).map(|c| c.as_slice::<T>().map(shows)).collect::<Vec<_>>() }),
            54 => ask!({ let s = v.as_slice(); (s.iter().map(|x| x.downcast::<T>().map(|x| x.show())).collect::<Vec<_>>(), s.iter_as::<T>().map(|x| x.count()), s.iter_as::<F>().map(|x| x.count()), s.reborrow().into_iter().count(), s.get_as::<T>(i).map(|x| x.show())) }),
            55 => ask!({ let mut o = arr.clone(); let s = v.as_slice(); (s.append_copy_to_vec(&mut o).is_some(), s.copy_into_vec::<T>().map(|x| shows(&x)), s.copy_into_vec::<F>().is_some(), shows(&o), s.check::<F>().is_some()) }),
            56 => ask!({ let mut s = v.as_mut_slice(); s.swap(i, j); s.as_slice::<T>().map(|x| shows(x)) }),
            57 => ask!({ let mut s = v.as_mut_slice(); if foreign { s.rotate_left(i) } else { s.rotate_right(i) } }),
            58 => ask!({ let mut s = v.as_mut_slice(); let (mut p, mut q) = s.split_at(i); if let Some(x) = p.as_slice::<T>() { x.reverse() } (p.len(), q.as_slice::<T>().map(|x| shows(x))) }),
            59 => ask!({ let mut s = v.as_mut_slice(); for (k, mut c) in s.chunks_exact_mut(m).enumerate() { if k % 2 == 0 { c.as_slice::<T>().unwrap().reverse() } } s.chunks_exact(m).count() }),
            60 => ask!({ let mut s = v.as_mut_slice(); let ok = if foreign { s.copy_from_slice(&farr).is_some() } else { s.copy_from_slice(&arr).is_some() }; ok }),
            61 => ask!({ let mut s = v.as_mut_slice(); let x = range(r, i, j, |g| match g { R::A(x) => s.subslice_mut(x).len(), R::B(x) => s.subslice_mut(x).len(), R::C(x) => s.subslice_mut(x).len(), R::D(x) => s.subslice_mut(x).len(), R::E(x) => s.subslice_mut(x).len() }); (x, s.get_mut(i).downcast::<T>().map(|x| { *x = e; })) }),
            62 => ask!({ let mut s = v.as_mut_slice(); (s.get(i).downcast::<T>().map(|x| x.show()), s.get_as::<T>(i).map(|x| x.show()), s.get_as::<F>(i).is_some(), s.iter_as::<T>().map(|x| x.count()), s.iter().count(), s.reborrow().len(), s.reborrow_mut().into_iter().map(|x| x.downcast::<T>().map(|x| x.show())).collect::<Vec<_>>()) }),
            63 => {
                let mut own = arr.clone();
                ask!({ let mut s = SliceCopyMut::<V>::from_slice(&mut own); s.rotate_left(m / 2); let t: SliceCopy<V> = s.into(); v.extend(t.iter()); t.len() });
                l!(l, "  {:?}", shows(&own));
            }
            64 => ask!({ let s = SliceCopy::<V>::from(&arr[..]); let u = s.upcast::<<V as Tables<T>>::Up>(); (u.len(), u.element_size(), u.as_slice::<T>().map(shows), u.element_type_id() == TypeId::of::<T>()) }),
            65 => ask!({ let mut own = farr.clone(); let s = SliceCopyMut::<V>::from(&mut own[..]); let t = SliceCopy::from(&s); (t.len(), s.into_subslice(..m / 2).copy_into_vec::<F>().map(|x| shows(&x))) }),
            _ => {}
        }
        for v in &vs {
            l!(l, "  = {} {} {} {:?} {}", v.len(), v.is_empty(), v.capacity() >= v.len(), v.as_slice_as::<T>().map(shows), tab(v));
        }
    }
}

trait RevLess: Iterator {
    fn rev_less(self) -> (usize, (usize, Option<usize>), Option<usize>);
}
impl<'a, V: 'a, I: Iterator<Item = CopyValueRef<'a, V>>> RevLess for I {
    /// What an iterator says about itself, and a position.
    fn rev_less(mut self) -> (usize, (usize, Option<usize>), Option<usize>) {
        let h = self.size_hint();
        let x = self.nth(1).map(|x| x.size());
        (self.count(), h, x)
    }
}
enum R {
    A(std::ops::Range<usize>),
    B(std::ops::RangeFrom<usize>),
    C(std::ops::RangeTo<usize>),
    D(std::ops::RangeInclusive<usize>),
    E(std::ops::RangeToInclusive<usize>),
}
fn range<X>(r: &mut Rng, i: usize, j: usize, f: impl FnOnce(R) -> X) -> X {
    f(match r.below(5) {
        0 => R::A(i..j),
        1 => R::B(i..),
        2 => R::C(..j),
        3 => R::D(i..=j),
        _ => R::E(..=j),
    })
}

/// The dispatch macro exists everywhere.
fn dispatch<T: P, F: P>(r: &mut Rng, l: &mut Log) {
    unsafe fn name<X: Any>(v: &VecCopy, x: usize) -> String {
        format!("{} {} {:?} {}", std::any::type_name::<X>(), v.len(), v.as_slice_as::<X>().map(|x| x.len()), x)
    }
    unsafe fn name2<X: Any, Y: Any>(v: &VecCopy) -> String {
        format!("{} {} {}", std::any::type_name::<X>(), std::any::type_name::<Y>(), v.len())
    }
    trait M { unsafe fn m<X: Any>(&self) -> String; }
    impl M for VecCopy {
        unsafe fn m<X: Any>(&self) -> String { name::<X>(self, 0) }
    }
    let n = r.below(5);
    for v in [VecCopy::from(mks::<T>(r, n)), VecCopy::from(mks::<F>(r, n))] {
        let v: &VecCopy = &v;
        type Y = u8;
        l.ops += 3;
        l!(l, "{}", call_numeric_buffer_fn!(name::<_>(v, n) or { "none".to_string() }));
        l!(l, "{}", call_numeric_buffer_fn!(name2::<_, Y>(v) or { "none".to_string() }));
        l!(l, "{}", call_numeric_buffer_fn!(v.m::<_>() or { "none".to_string() }));
    }
}

#[cfg(feature = "numeric")]
fn numbers<T: P, F: P>(r: &mut Rng, l: &mut Log) {
    let n = if r.below(24) == 0 { 30 + r.below(400) } else { r.below(6) };
    l.ops += 1;
    let v = VecCopy::<()>::from(mks::<T>(r, n));
    l!(l, "{:?} {:?} {:?}", v.cast_into_vec::<u8>(), v.cast_into_vec::<i64>(), shows(&v.cast_into_vec::<f32>()));
    l!(l, "{}", v);
    let v = VecCopy::<Tab>::from(mks::<F>(r, n));
    l!(l, "{:?} {:?} {:?}", v.cast_into_vec::<i16>(), v.cast_into_vec::<u64>(), shows(&v.cast_into_vec::<f64>()));
    l!(l, "{}", v);
}

#[cfg(feature = "traits")]
mod dynamic {
    use super::*;
    use dync::traits::*;
    #[dync_trait(dync_crate_name = "dync")]
    pub trait All: Clone + PartialEq + std::fmt::Debug {}
    impl<T: Clone + PartialEq + std::fmt::Debug> All for T {}
    type V = AllVTable;
    /// Values that own something, and their look-alikes.
    pub fn history<T: Clone + PartialEq + std::fmt::Debug + 'static, F: Clone + PartialEq + std::fmt::Debug + 'static>(r: &mut Rng, l: &mut Log, mk: fn(u64) -> T, mf: fn(u64) -> F) {
        let mut vs: Vec<VecDyn<V>> = vec![VecDyn::with_type::<T>(), (0..if r.below(24) == 0 { 30 + r.below(400) } else { r.below(5) }).map(|_| mk(r.next())).collect::<Vec<T>>().into()];
        let z = std::mem::size_of::<T>();
        for _ in 0..6 + r.below(20) {
            l.ops += 1;
            let a = r.below(vs.len());
            let b = (a + 1) % vs.len();
            let n = vs[a].len();
            let how = r.below(30);
            let (i, j, m) = (r.pos(n, z), r.pos(n, z), r.below(6));
            let k = r.next();
            let (e, f) = (mk(k), mf(k));
            let foreign = r.below(5) == 0;
            l!(l, "op {} on {} ({}) {} {} {} {}", how, a, n, i, j, m, foreign);
            macro_rules! ask { ($x:expr) => {{
                let x = go(|| $x);
                if x.is_none() { l.no += 1; }
                l!(l, "  {:?}", x);
            }} }
            let v = &mut vs[a];
            match how {
                0 => ask!(if foreign { v.push_as(f).is_some() } else { v.push_as(e).is_some() }),
                1 => ask!(if foreign { v.push(BoxValue::<V>::new(f)).is_some() } else { v.push(BoxValue::<V>::new(e)).is_some() }),
                2 => ask!(v.push_cloned(ValueRef::new(&e)).is_some()),
                3 => ask!(v.push_cloned(ValueRef::new(&f)).is_some()),
                4 => ask!(if foreign { v.resize(m, f).is_some() } else { v.resize(m, e).is_some() }),
                5 => ask!(if foreign { v.fill(f).is_some() } else { v.fill(e).is_some() }),
                6 if r.below(3) == 0 => ask!(v.clear()),
                7 => ask!(v.rotate_left(i)),
                8 => ask!(v.rotate_right(i)),
                9 => ask!(v.get_ref_as::<T>(i).cloned()),
                10 => ask!(v.get_ref_as::<F>(i).cloned()),
                11 => ask!(format!("{:?}", v.get(i))),
                12 => ask!({ v.get_mut(i).assign(BoxValue::<V>::new(e)); }),
                13 => ask!({ v.get_mut(i).assign(BoxValue::<V>::new(f)); }),
                14 => ask!(v.get_mut(i).clone_from_other(ValueRef::new(&e)).is_ok()),
                15 => ask!(v.get_mut(i).clone_from_other(ValueRef::new(&f)).is_ok()),
                16 => ask!(v.get(i).clone_value().downcast::<T>().map(|x| *x)),
                17 => ask!((v.clone_into_vec::<T>(), v.clone_into_vec::<F>())),
                18 => ask!({ let w = v.clone(); w == *v }),
                19 => {
                    let w = vs[a].clone();
                    let x = go(|| w == vs[b]);
                    l!(l, "  {:?}", x);
                }
                20 => {
                    let mut w = std::mem::replace(&mut vs[b], VecDyn::with_type::<T>());
                    let x = go(|| vs[a].append(&mut w).is_some());
                    l!(l, "  {:?} {}", x, w.len());
                    vs[b] = w;
                }
                21 => ask!(v.as_mut_slice().swap(i, j)),
                22 => ask!({ let s = v.as_slice(); let (p, q) = s.split_at(i); (format!("{:?}", p), format!("{:?}", q)) }),
                23 => ask!({ let s = v.as_slice(); range(r, i, j, |g| match g { R::A(x) => format!("{:?}", s.subslice(x)), R::B(x) => format!("{:?}", s.subslice(x)), R::C(x) => format!("{:?}", s.subslice(x)), R::D(x) => format!("{:?}", s.subslice(x)), R::E(x) => format!("{:?}", s.subslice(x)) }) }),
                24 => ask!(v.as_slice().chunks_exact(m).map(|c| format!("{:?}", c)).collect::<Vec<_>>()),
                25 => ask!({ let mut s = v.as_mut_slice(); s.rotate_left(i); s.iter().map(|x| x.downcast::<T>().cloned()).collect::<Vec<_>>() }),
                26 => {
                    let w = std::mem::replace(v, VecDyn::with_type::<T>());
                    l!(l, "  {:?}", if foreign { w.into_vec::<F>().map(|x| x.len()) } else { w.into_vec::<T>().map(|x| x.len()) });
                }
                27 => ask!({ let x = BoxValue::<V>::new(e); let y = x.clone(); (x == y, x == BoxValue::<V>::new(f), x.size(), format!("{:?}", y)) }),
                28 => ask!({ let x = SmallValue::<V>::try_new(e); x.map(|x| (x == x.clone(), x.size(), format!("{:?}", x))) }),
                29 => ask!((v.is_empty(), v.element_size(), v.element_type_id() == TypeId::of::<T>(), v.iter_as::<T>().map(|x| x.count()), v.iter_as::<F>().is_some(), v.check_ref::<F>().is_some())),
                _ => {}
            }
            for v in &vs {
                l!(l, "  = {} {:?}", v.len(), v);
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let cases: u64 = a[2].parse().unwrap();
    let only = a.get(3);
    std::panic::set_hook(Box::new(|_| {}));
    let one = |name: &str, body: &dyn Fn(&mut Rng, &mut Log)| {
        for c in 0..cases {
            let id = format!("{}#{}", name, c);
            if only.map_or(false, |o| *o != id) {
                continue;
            }
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (name, c, seed).hash(&mut h);
            let mut r = Rng(h.finish());
            let mut l = Log { h: std::collections::hash_map::DefaultHasher::new(), text: only.map(|_| String::new()), ops: 0, no: 0 };
            eprintln!("CASE {}", id);
            body(&mut r, &mut l);
            if let Some(t) = &l.text {
                print!("{}", t);
            }
            println!("{} {:016x} {} {}", id, l.h.finish(), l.ops, l.no);
        }
    };
    macro_rules! h { ($($t:ty, $f:ty;)*) => {$(
        one(concat!("unit/", stringify!($t)), &|r, l| history::<$t, $f, ()>(r, l, |_| String::new()));
        one(concat!("table/", stringify!($t)), &|r, l| history::<$t, $f, Tab>(r, l, |v| {
            // The table travels along.
            format!("{:?}", v.clone().into_raw_parts().1.as_ref())
        }));
    )*} }
    h! { u8, i8; u16, [u8; 2]; u32, i32; u64, f64; u128, [u8; 16]; [u8; 3], [u16; 3]; [u8; 17], [u8; 5]; [u16; 3], u16; [i64; 3], [u8; 24]; Pad, [u8; 12]; &'static u64, usize; Al, u64;
         f32, u32; char, f32; bool, u8; Option<u16>, u32; [u8; 300], [u8; 17]; i16, u16; }
    macro_rules! d { ($($t:ty, $f:ty;)*) => {$(
        one(concat!("dispatch/", stringify!($t)), &|r, l| dispatch::<$t, $f>(r, l));
        #[cfg(feature = "numeric")]
        one(concat!("numbers/", stringify!($t)), &|r, l| numbers::<$t, $f>(r, l));
    )*} }
    d! { u8, u128; i8, bool; u16, usize; i16, char; u32, [u8; 3]; i32, Pad; u64, &'static u64; i64, Al; f32, Option<u16>; f64, u32; }
    #[cfg(feature = "traits")]
    {
        use dynamic::history;
        one("dyn/String", &|r, l| history(r, l, |k| format!("{:x}", k % 99), |k| vec![k as u16; (k % 3) as usize]));
        one("dyn/Vec<u16>", &|r, l| history(r, l, |k| vec![k as u16; (k % 3) as usize], |k| format!("{:x}", k % 99)));
        one("dyn/Box<u64>", &|r, l| history(r, l, |k| Box::new(k), |k| k));
        one("dyn/u64", &|r, l| history(r, l, |k| k % 3, |k| k as i64));
        one("dyn/[u8; 3]", &|r, l| history(r, l, |k| [k as u8, 1, 2], |k| k as u8));
        one("dyn/(u8, Box<u8>)", &|r, l| history(r, l, |k| (k as u8, Box::new(3u8)), |k| [k, k]));
        one("dyn/u128", &|r, l| history(r, l, |k| k as u128 * 3, |k| k as u32));
    }
    println!("END");
}
