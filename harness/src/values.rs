//! Owned erased values (boxed and word-sized): random histories of moves, clones, swaps, upcasts and
//! downcasts next to a model that knows each value's type, key and identity.
use crate::el::*;
use crate::ledger;
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};

/// What a value has to be.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Is {
    pub foreign: bool,
    pub key: u64,
    pub serial: u32,
}

pub fn is_of<T: El>(x: &T, foreign: bool) -> Is {
    Is { foreign, key: ledger::uncounted(|| x.key()), serial: x.serial() }
}

fn typed_is<T: El>(x: &T, is: &Is, what: &str) {
    same!(x.key(), is.key, "{}: value", what);
    same!(x.serial(), is.serial, "{}: identity of the value", what);
    same!(x as *const T as usize % align_of::<T>(), 0, "{}: alignment of the address", what);
}

macro_rules! describe {
    ($T:ty, $F:ty, $v:expr, $is:expr, $w:expr) => {{
        let (v, is) = (&$v, &$is);
        let (ty, sz, al) = if is.foreign { (TypeId::of::<$F>(), size_of::<$F>(), align_of::<$F>()) } else { (TypeId::of::<$T>(), size_of::<$T>(), align_of::<$T>()) };
        same!(v.value_type_id(), ty, "{}: value_type_id", $w);
        same!(v.size(), sz, "{}: size", $w);
        same!(v.value_alignment(), al, "{}: value_alignment", $w);
        same!(v.is::<$T>(), !is.foreign, "{}: is::<{}>", $w, <$T as El>::NAME);
        same!(v.is::<$F>(), is.foreign, "{}: is::<{}>", $w, <$F as El>::NAME);
        ensure!(!v.is::<Never>(), "{}: is::<another type>", $w);
    }};
}
pub struct Never;

macro_rules! look {
    ($T:ty, $F:ty, $v:expr, $is:expr, $w:expr) => {{
        describe!($T, $F, $v, $is, $w);
        let is = &$is;
        let rf = $v.as_ref();
        describe!($T, $F, rf, is, $w);
        if is.foreign {
            ensure!($v.as_ref().downcast::<$T>().is_none(), "{}: downcast to another type", $w);
            typed_is::<$F>(crate::some!(rf.downcast::<$F>(), "{}: downcast", $w), is, $w);
        } else {
            ensure!($v.as_ref().downcast::<$F>().is_none(), "{}: downcast to another type", $w);
            typed_is::<$T>(crate::some!(rf.downcast::<$T>(), "{}: downcast", $w), is, $w);
        }
    }};
}

fn end_box<T: El, F: El, V: HasDrop>(r: &mut Rng, b: BoxValue<V>, is: Is) {
    describe!(T, F, b, is, "boxed value");
    if r.chance(1, 6) {
        // With the wrong type: nothing comes back, the value is destroyed.
        let none = if is.foreign { b.downcast::<T>().is_none() } else { b.downcast::<F>().is_none() };
        ensure!(none, "boxed value: downcast to another type");
        ensure!(is.serial == 0 || !ledger::is_live(is.serial), "value not destroyed by a failed downcast");
        return;
    }
    if is.foreign {
        let x: Box<F> = crate::some!(b.downcast::<F>(), "boxed downcast");
        typed_is::<F>(&x, &is, "downcast of a boxed value");
    } else {
        let x: Box<T> = crate::some!(b.downcast::<T>(), "boxed downcast");
        typed_is::<T>(&x, &is, "downcast of a boxed value");
    }
}
fn end_small<T: El, F: El, V: HasDrop>(r: &mut Rng, b: SmallValue<V>, is: Is) {
    describe!(T, F, b, is, "small value");
    if r.chance(1, 6) {
        let none = if is.foreign { b.downcast::<T>().is_none() } else { b.downcast::<F>().is_none() };
        ensure!(none, "small value: downcast to another type");
        ensure!(is.serial == 0 || !ledger::is_live(is.serial), "value not destroyed by a failed downcast");
        return;
    }
    if is.foreign {
        let x: F = crate::some!(b.downcast::<F>(), "small downcast");
        typed_is::<F>(&x, &is, "downcast of a small value");
    } else {
        let x: T = crate::some!(b.downcast::<T>(), "small downcast");
        typed_is::<T>(&x, &is, "downcast of a small value");
    }
}

fn cloned_is<T: El, F: El>(bytes_of: Option<(u64, u32)>, is: &Is, before: [u64; ledger::NEV], what: &str) -> Is {
    let (key, serial) = match bytes_of {
        Some(x) => x,
        None => fail!("{}: clone has another type", what),
    };
    let tracked = if is.foreign { F::TRACKED } else { T::TRACKED };
    same!(key, is.key, "{}: value of the clone", what);
    if tracked {
        let mut b = before;
        b[ledger::Ev::Clone as usize] += 1;
        same!(ledger::counts(), b, "{}: element code run", what);
        ensure!(serial != is.serial, "{}: a duplicate instead of a clone", what);
        same!(ledger::parent(serial), is.serial, "{}: cloned from", what);
    }
    Is { key, serial, ..*is }
}

macro_rules! ident_of {
    ($T:ty, $F:ty, $v:expr, $is:expr) => {
        ledger::uncounted(|| if $is.foreign { $v.as_ref().downcast::<$F>().map(|x| (x.key(), x.serial())) } else { $v.as_ref().downcast::<$T>().map(|x| (x.key(), x.serial())) })
    };
}

/// One history.
pub fn history<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T> + VTable<F>,
{
    type V = AllVTable;
    let word = |n: usize| n == size_of::<usize>();
    let mut bs: Vec<(BoxValue<V>, Is)> = vec![];
    let mut ss: Vec<(SmallValue<V>, Is)> = vec![];
    let z0 = ztr_live();
    for _ in 0..if cfg!(miri) { 14 } else { 26 } {
        let op = r.below(18);
        t!("op{}", op);
        match op {
            0 | 1 => {
                let (k, foreign) = (r.key(), r.chance(1, 3));
                macro_rules! mk { ($X:ty) => {{
                    let x = <$X>::mk(k);
                    let is = is_of(&x, foreign);
                    let c = ledger::counts();
                    bs.push((BoxValue::new(x), is));
                    same!(ledger::counts(), c, "element code run by BoxValue::new");
                }} }
                if foreign { mk!(F) } else { mk!(T) }
            }
            2 | 3 => {
                let (k, foreign) = (r.key(), r.chance(1, 3));
                macro_rules! mk { ($X:ty) => {{
                    let x = <$X>::mk(k);
                    let is = is_of(&x, foreign);
                    let calls = crate::alloc::alloc_calls();
                    let w = word(size_of::<$X>());
                    if w && r.flip() {
                        ss.push((SmallValue::new(x), is));
                    } else if w || r.chance(3, 4) {
                        match SmallValue::<V>::try_new(x) {
                            Some(s) => {
                                ensure!(w, "SmallValue::try_new accepted a value of {} bytes", size_of::<$X>());
                                ss.push((s, is))
                            }
                            None => ensure!(!w, "SmallValue::try_new refused a value of one word"),
                        }
                    } else {
                        must_panic(format_args!("SmallValue::new of {} bytes", size_of::<$X>()), || SmallValue::<V>::new(x));
                        ensure!(is.serial == 0 || !ledger::is_live(is.serial), "refused value not destroyed");
                    }
                }} }
                if foreign { mk!(F) } else { mk!(T) }
            }
            4 if !bs.is_empty() => {
                let i = r.below(bs.len());
                let c = ledger::counts();
                let how = r.below(3);
                let n = match how {
                    0 => bs[i].0.clone(),
                    1 => bs[i].0.as_ref().clone_value(),
                    _ => bs[i].0.as_mut().clone_value(),
                };
                let is = cloned_is::<T, F>(ident_of!(T, F, n, bs[i].1), &bs[i].1, c, "clone of a boxed value");
                bs.push((n, is));
            }
            5 if !ss.is_empty() => {
                let i = r.below(ss.len());
                let c = ledger::counts();
                let n = match r.below(3) {
                    0 => ss[i].0.clone(),
                    1 => ss[i].0.as_ref().clone_small_value(),
                    _ => ss[i].0.as_mut().clone_small_value(),
                };
                let is = cloned_is::<T, F>(ident_of!(T, F, n, ss[i].1), &ss[i].1, c, "clone of a small value");
                ss.push((n, is));
            }
            6 => {
                // From one form to the other by cloning.
                if !ss.is_empty() && r.flip() {
                    let i = r.below(ss.len());
                    let c = ledger::counts();
                    let n = ss[i].0.as_ref().clone_value();
                    let is = cloned_is::<T, F>(ident_of!(T, F, n, ss[i].1), &ss[i].1, c, "boxed clone of a small value");
                    bs.push((n, is));
                } else if !bs.is_empty() {
                    let i = r.below(bs.len());
                    if word(bs[i].0.size()) {
                        let c = ledger::counts();
                        let n = bs[i].0.as_mut().clone_small_value();
                        let is = cloned_is::<T, F>(ident_of!(T, F, n, bs[i].1), &bs[i].1, c, "small clone of a boxed value");
                        ss.push((n, is));
                    } else if r.chance(1, if cfg!(miri) { 6 } else { 2 }) {
                        let l = ledger::live();
                        must_panic(format_args!("small clone of {} bytes", bs[i].0.size()), || bs[i].0.as_ref().clone_small_value());
                        same!(ledger::live(), l, "values alive after a refused small clone");
                    }
                }
            }
            7 if bs.len() > 1 => {
                // Moves of the wrapper.
                let (i, j) = (r.below(bs.len()), r.below(bs.len()));
                bs.swap(i, j);
                let k = r.below(bs.len());
                bs.rotate_left(k);
                let x = bs.remove(k);
                let x = Box::new(Some(x));
                let at = r.below(bs.len() + 1);
                bs.insert(at, x.unwrap());
            }
            8 if ss.len() > 1 => {
                let (i, j) = (r.below(ss.len()), r.below(ss.len()));
                ss.swap(i, j);
                let k = r.below(ss.len());
                ss.rotate_left(k);
                let x = std::rc::Rc::new(std::cell::RefCell::new(Some(ss.remove(k))));
                let y = x.borrow_mut().take().unwrap();
                ss.push(y);
            }
            9 if bs.len() > 1 => {
                // Contents exchanged through references.
                let (i, j) = (r.below(bs.len() - 1), bs.len() - 1);
                let same_type = bs[i].1.foreign == bs[j].1.foreign;
                let (a, b) = crate::dynw::two(&mut bs, i, j);
                let c = ledger::counts();
                a.0.as_mut().swap(&mut b.0.as_mut());
                same!(ledger::counts(), c, "element code run by swap");
                if same_type {
                    std::mem::swap(&mut a.1, &mut b.1);
                }
            }
            10 if ss.len() > 1 => {
                let (i, j) = (r.below(ss.len() - 1), ss.len() - 1);
                let same_type = ss[i].1.foreign == ss[j].1.foreign;
                let (a, b) = crate::dynw::two(&mut ss, i, j);
                a.0.as_mut().swap(&mut b.0.as_mut());
                if same_type {
                    std::mem::swap(&mut a.1, &mut b.1);
                }
            }
            11 if !ss.is_empty() && !bs.is_empty() => {
                let (i, j) = (r.below(ss.len()), r.below(bs.len()));
                let same_type = ss[i].1.foreign == bs[j].1.foreign;
                if r.flip() {
                    ss[i].0.as_mut().swap(&mut bs[j].0.as_mut());
                } else {
                    bs[j].0.as_mut().swap(&mut ss[i].0.as_mut());
                }
                if same_type {
                    std::mem::swap(&mut ss[i].1, &mut bs[j].1);
                }
            }
            12 if !bs.is_empty() => {
                // Narrowed and ended.
                let i = r.below(bs.len());
                let (b, is) = bs.swap_remove(i);
                let c = ledger::counts();
                match r.below(6) {
                    0 => {
                        let b = b.upcast::<DropVTable>();
                        same!(ledger::counts(), c, "element code run by upcast");
                        look!(T, F, b, is, "boxed value, DropVTable");
                        end_box::<T, F, _>(r, b, is);
                    }
                    1 => {
                        let b = b.upcast::<CloneVTable>();
                        let c = ledger::counts();
                        let n = b.clone();
                        let is2 = cloned_is::<T, F>(ident_of!(T, F, n, is), &is, c, "clone of an upcast value");
                        end_box::<T, F, _>(r, n, is2);
                        end_box::<T, F, _>(r, b.upcast::<CloneVTable>(), is);
                    }
                    2 => {
                        let b = b.upcast::<HashVTable>();
                        look!(T, F, b, is, "boxed value, HashVTable");
                        end_box::<T, F, _>(r, b, is);
                    }
                    3 => {
                        let b = b.upcast::<DebugVTable>();
                        look!(T, F, b, is, "boxed value, DebugVTable");
                        end_box::<T, F, _>(r, b, is);
                    }
                    4 => {
                        let b = b.upcast::<V>().upcast::<V>();
                        look!(T, F, b, is, "boxed value, same table");
                        bs.push((b, is));
                    }
                    _ => end_box::<T, F, _>(r, b, is),
                }
            }
            13 if !ss.is_empty() => {
                let i = r.below(ss.len());
                let (b, is) = ss.swap_remove(i);
                match r.below(5) {
                    0 => {
                        let b = b.upcast::<DropVTable>();
                        look!(T, F, b, is, "small value, DropVTable");
                        end_small::<T, F, _>(r, b, is);
                    }
                    1 => {
                        let b = b.upcast::<CloneVTable>();
                        let c = ledger::counts();
                        let n = b.clone();
                        let is2 = cloned_is::<T, F>(ident_of!(T, F, n, is), &is, c, "clone of an upcast value");
                        end_small::<T, F, _>(r, n, is2);
                        end_small::<T, F, _>(r, b, is);
                    }
                    2 => {
                        let b = b.upcast::<PartialEqVTable>();
                        ensure!(b == b, "upcast small value equals itself");
                        end_small::<T, F, _>(r, b, is);
                    }
                    3 => {
                        let b = b.upcast::<V>();
                        look!(T, F, b, is, "small value, same table");
                        ss.push((b, is));
                    }
                    _ => end_small::<T, F, _>(r, b, is),
                }
            }
            14 if !bs.is_empty() => {
                // Dropped, or taken apart.
                let i = r.below(bs.len());
                let (b, is) = bs.swap_remove(i);
                if r.flip() {
                    drop(b);
                    ensure!(is.serial == 0 || !ledger::is_live(is.serial), "dropped value not destroyed");
                } else {
                    describe!(T, F, b, is, "boxed value");
                    let (sz, at) = (b.size(), if is.foreign { b.as_ref().downcast::<F>().unwrap() as *const F as usize } else { b.as_ref().downcast::<T>().unwrap() as *const T as usize });
                    let (bytes, ty, al, vt) = b.into_raw_parts();
                    same!(bytes.len(), sz, "into_raw_parts: number of bytes");
                    same!(bytes.as_ptr() as usize, at, "into_raw_parts: place of the bytes");
                    let p = Box::into_raw(bytes);
                    if is.foreign {
                        same!((ty, al), (TypeId::of::<F>(), align_of::<F>()), "into_raw_parts: description");
                        let x = unsafe { Box::from_raw(p as *mut F) };
                        typed_is::<F>(&x, &is, "into_raw_parts");
                    } else {
                        same!((ty, al), (TypeId::of::<T>(), align_of::<T>()), "into_raw_parts: description");
                        let x = unsafe { Box::from_raw(p as *mut T) };
                        typed_is::<T>(&x, &is, "into_raw_parts");
                    }
                    drop(vt);
                }
            }
            15 if !ss.is_empty() => {
                let i = r.below(ss.len());
                let (b, is) = ss.swap_remove(i);
                if r.flip() {
                    drop(b);
                    ensure!(is.serial == 0 || !ledger::is_live(is.serial), "dropped value not destroyed");
                } else {
                    let (w, ty, al, _vt) = b.into_raw_parts();
                    if is.foreign {
                        same!((ty, al), (TypeId::of::<F>(), align_of::<F>()), "into_raw_parts: description");
                        typed_is::<F>(&unsafe { std::mem::transmute_copy::<_, F>(&w) }, &is, "into_raw_parts");
                    } else {
                        same!((ty, al), (TypeId::of::<T>(), align_of::<T>()), "into_raw_parts: description");
                        typed_is::<T>(&unsafe { std::mem::transmute_copy::<_, T>(&w) }, &is, "into_raw_parts");
                    }
                }
            }
            16 if !bs.is_empty() => {
                // Written in place.
                let i = r.below(bs.len());
                let (b, is) = &mut bs[i];
                let k = r.key();
                if is.foreign {
                    let x = F::mk(k);
                    *is = is_of(&x, true);
                    *crate::some!(b.as_mut().downcast::<F>(), "as_mut") = x;
                } else {
                    let x = T::mk(k);
                    *is = is_of(&x, false);
                    *crate::some!(b.as_mut().downcast::<T>(), "as_mut") = x;
                }
            }
            17 if !ss.is_empty() => {
                let i = r.below(ss.len());
                let (b, is) = &mut ss[i];
                let k = r.key();
                if is.foreign {
                    let x = F::mk(k);
                    *is = is_of(&x, true);
                    *crate::some!(b.as_mut().downcast::<F>(), "as_mut") = x;
                } else {
                    let x = T::mk(k);
                    *is = is_of(&x, false);
                    *crate::some!(b.as_mut().downcast::<T>(), "as_mut") = x;
                }
            }
            _ => {}
        }
        for (b, is) in &bs {
            look!(T, F, b, is, "boxed value");
        }
        for (b, is) in &ss {
            look!(T, F, b, is, "small value");
        }
    }
    for (b, is) in bs {
        end_box::<T, F, _>(r, b, is);
    }
    for (b, is) in ss {
        end_small::<T, F, _>(r, b, is);
    }
    same!(ztr_live(), z0, "zero-sized values alive at the end");
}

/// A value of exactly one word is accepted by the word-sized form, others are not; the boxed form
/// accepts everything. For copies of `N` bytes.
pub fn sizes(r: &mut Rng) {
    macro_rules! n { ($($n:literal)*) => {$( one::<[u8; $n]>(r, |r| std::array::from_fn(|_| r.next() as u8)); )*} }
    n!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 24 31 32 33 40 48 56 63 64 65 72 80 127 128 255 256 1000);
    macro_rules! w { ($($t:ty, $n:literal;)*) => {$( one::<[$t; $n]>(r, |r| std::array::from_fn(|_| r.next() as $t)); )*} }
    w!(u16, 0; u16, 1; u16, 2; u16, 3; u16, 4; u16, 5; u16, 8; u32, 0; u32, 1; u32, 2; u32, 3; u32, 4; u64, 0; u64, 1; u64, 2; u64, 8; u128, 0; u128, 1; usize, 1; i64, 1; f64, 1; f32, 2; f32, 1; f64, 2;);
    fn one<X: PartialEq + Clone + std::fmt::Debug + 'static>(r: &mut Rng, f: impl Fn(&mut Rng) -> X) {
        let x = f(r);
        t!("{}", size_of::<X>());
        let w = size_of::<X>() == size_of::<usize>();
        let s = SmallValue::<FloatVTable>::try_new(x.clone());
        same!(s.is_some(), w, "SmallValue::try_new of {} bytes aligned to {}", size_of::<X>(), align_of::<X>());
        if let Some(s) = s {
            ensure!(s.clone() == s, "clone of a small value equals it");
            same!(s.value_alignment(), align_of::<X>(), "alignment");
            same!(s.downcast::<X>(), Some(x.clone()), "value back");
            same!(SmallValue::<FloatVTable>::new(x.clone()).downcast::<X>(), Some(x.clone()), "value back");
        }
        let b = BoxValue::<FloatVTable>::new(x.clone());
        same!(b.size(), size_of::<X>(), "size");
        same!(b.value_alignment(), align_of::<X>(), "alignment");
        let c = b.clone();
        ensure!(c == b, "clone of a boxed value equals it");
        drop(b);
        same!(c.as_ref().downcast::<X>(), Some(&x), "value by reference");
        same!(c.downcast::<X>().map(|x| *x), Some(x), "value back");
    }
}

/// Values of many types in the collections of the standard library.
pub fn collections(r: &mut Rng) {
    use std::collections::*;
    type V = AllVTable;
    let n = r.range(1, 12);
    // The value is found under its number whatever is done to the collection.
    let mk = |k: u64| -> BoxValue<V> {
        match k % 5 {
            0 => BoxValue::new(k),
            1 => BoxValue::new(String::mk(k)),
            2 => BoxValue::new(Tr24::mk(k)),
            3 => BoxValue::new([k as u8; 3]),
            _ => BoxValue::new(A64::mk(k)),
        }
    };
    let check = |k: u64, b: BoxValue<V>| {
        let ok = match k % 5 {
            0 => b.downcast::<u64>().map_or(false, |x| *x == k),
            1 => b.downcast::<String>().map_or(false, |x| x.key() == k),
            2 => b.downcast::<Tr24>().map_or(false, |x| x.key() == k),
            3 => b.downcast::<[u8; 3]>().map_or(false, |x| *x == [k as u8; 3]),
            _ => b.downcast::<A64>().map_or(false, |x| x.key() == k),
        };
        ensure!(ok, "value {} changed in a collection", k);
    };
    let keys: Vec<u64> = (0..n as u64).map(|i| i + r.next() % 1000 * 64).collect();
    t!("{:?}", keys);
    let mut m: BTreeMap<u64, BoxValue<V>> = keys.iter().map(|k| (*k, mk(*k))).collect();
    let mut d: VecDeque<(u64, BoxValue<V>)> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
    d.rotate_left(r.below(d.len() + 1));
    let mut l: LinkedList<(u64, BoxValue<V>)> = d.drain(..).collect();
    let tail = l.split_off(r.below(l.len() + 1));
    let mut v: Vec<(u64, BoxValue<V>)> = l.into_iter().chain(tail).collect();
    v.sort_by_key(|x| x.0 ^ 0x55);
    if r.flip() {
        m.retain(|k, _| k % 2 == 0);
    }
    for (k, b) in v.into_iter().rev() {
        check(k, b);
    }
    let mut h: HashMap<BoxValue<V>, u64> = m.into_iter().map(|(k, v)| (v, k)).collect();
    let extra: Vec<_> = h.keys().cloned().collect();
    for e in extra {
        same!(h.get(&e).copied(), Some(h[&e]), "lookup by an equal key");
    }
    for (b, k) in h.drain() {
        check(k, b);
    }
}
