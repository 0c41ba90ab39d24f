//! Alignment: every element, every boxed value and every reference handed out lies at a multiple of
//! the alignment of its type, neighbours exactly one element size apart.
//!
//! The guarding allocator never aligns a block better than it was asked to.
use crate::copyw::{keys, normed, typed, CEl};
use crate::el::*;
use crate::report::*;
use crate::vt::*;
use crate::{fail, same, some, sub, t};
use dync::traits::*;
use dync::*;
use std::mem::{align_of, size_of};

/// An address handed out for an element at place `i` of storage starting at `base`.
fn spot<T>(p: *const T, base: usize, i: usize, what: &str) {
    let a = p as usize;
    same!(a % align_of::<T>(), 0, "{}: address {:#x} of element {} modulo the alignment {}", what, a, i, align_of::<T>());
    same!(a, base + i * size_of::<T>(), "{}: address of element {} (storage at {:#x}, element size {})", what, i, base, size_of::<T>());
}
/// An address of a single value.
fn lone<T: El>(p: *const T, key: u64, what: &str) {
    same!(p as usize % align_of::<T>(), 0, "{}: address {:#x} modulo the alignment {}", what, p as usize, align_of::<T>());
    same!(unsafe { &*p }.key(), T::norm(key), "{}: contents", what);
}
fn big<T>() -> bool {
    align_of::<T>() > 8192
}

macro_rules! mid {
    ($T:ty, $e:expr, $b:expr, $i:expr, $w:expr) => {{
        let e = $e;
        same!((e.size(), e.value_alignment()), (size_of::<$T>(), align_of::<$T>()), "{}: described (size, alignment)", $w);
        spot(some!(e.downcast::<$T>(), "downcast") as *const $T, $b, $i, $w);
    }};
}

macro_rules! look_ro {
    // An erased read-only view whose first element is at $b.
    ($T:ty, $s:expr, $b:expr, $n:expr, $r:expr, $w:expr, $as:ident) => {{
        let (s, b, n): (_, usize, usize) = (&$s, $b, $n);
        let k = some!(s.$as::<$T>(), "typed slice");
        same!((s.len(), k.len()), (n, n), "{}: length", $w);
        same!(k.as_ptr() as usize % align_of::<$T>(), 0, "{}: address of a typed slice modulo the alignment", $w);
        for i in 0..n {
            spot(&k[i], b, i, $w);
            mid!($T, s.get(i), b, i, concat!($w, ": get"));
            spot(some!(s.get_as::<$T>(i), "get_as") as *const $T, b, i, concat!($w, ": get_as"));
        }
        for (i, e) in s.iter().enumerate() {
            mid!($T, e, b, i, concat!($w, ": iter"));
        }
        for (i, e) in some!(s.iter_as::<$T>(), "iter_as").enumerate() {
            spot(e, b, i, concat!($w, ": iter_as"));
        }
        let m = $r.below(n + 1);
        let (x, y) = s.split_at(m);
        for (i, e) in x.into_iter().enumerate() {
            mid!($T, e, b, i, concat!($w, ": left half"));
        }
        for (i, e) in y.into_iter().enumerate() {
            mid!($T, e, b, m + i, concat!($w, ": right half"));
        }
        let (z, lo, hi) = sub!($r, n, s, subslice);
        same!(z.len(), hi - lo, "{}: length of a subslice", $w);
        for (i, e) in z.iter().enumerate() {
            mid!($T, e, b, lo + i, concat!($w, ": subslice"));
        }
        let c = $r.range(1, 4);
        for (j, z) in s.chunks_exact(c).enumerate() {
            for (i, e) in z.iter().enumerate() {
                mid!($T, e, b, j * c + i, concat!($w, ": chunk"));
            }
        }
    }};
}

macro_rules! look_mut {
    ($T:ty, $s:expr, $b:expr, $n:expr, $r:expr, $w:expr) => {{
        let (mut s, b, n): (_, usize, usize) = ($s, $b, $n);
        same!(some!(s.as_slice::<$T>(), "typed slice").as_ptr() as usize % align_of::<$T>(), 0, "{}: address of a typed slice modulo the alignment", $w);
        for i in 0..n {
            mid!($T, s.get(i), b, i, concat!($w, ": get"));
            mid!($T, s.get_mut(i), b, i, concat!($w, ": get_mut"));
            spot(some!(s.get_as::<$T>(i), "get_as") as *const $T, b, i, concat!($w, ": get_as"));
        }
        for (i, e) in s.iter().enumerate() {
            mid!($T, e, b, i, concat!($w, ": iter"));
        }
        for (i, e) in some!(s.iter_as::<$T>(), "iter_as").enumerate() {
            spot(e as *const $T, b, i, concat!($w, ": iter_as"));
        }
        let m = $r.below(n + 1);
        let (x, y) = s.split_at(m);
        for (i, e) in x.into_iter().enumerate() {
            mid!($T, e, b, i, concat!($w, ": left half"));
        }
        for (i, e) in y.into_iter().enumerate() {
            mid!($T, e, b, m + i, concat!($w, ": right half"));
        }
        let (z, lo, _) = sub!($r, n, s, subslice_mut);
        for (i, e) in z.into_iter().enumerate() {
            mid!($T, e, b, lo + i, concat!($w, ": subslice"));
        }
        let c = $r.range(1, 4);
        for (j, z) in s.chunks_exact_mut(c).enumerate() {
            for (i, e) in z.into_iter().enumerate() {
                mid!($T, e, b, j * c + i, concat!($w, ": chunk"));
            }
        }
        for (j, z) in s.chunks_exact(c).enumerate() {
            for (i, e) in z.iter().enumerate() {
                mid!($T, e, b, j * c + i, concat!($w, ": chunk"));
            }
        }
        let (z, lo, _) = sub!($r, n, s, into_subslice);
        for (i, e) in z.into_iter().enumerate() {
            mid!($T, e, b, lo + i, concat!($w, ": subslice"));
        }
    }};
}

fn look<T: El>(r: &mut Rng, v: &mut VecDyn<AllVTable>, k: &[u64], what: &str) {
    let n = k.len();
    same!((v.len(), v.element_size()), (n, size_of::<T>()), "{}: (length, element size)", what);
    let s = some!(v.as_slice_as::<T>(), "as_slice_as");
    let b = s.as_ptr() as usize;
    same!(b % align_of::<T>(), 0, "{}: address of the storage ({} elements) modulo the alignment {}", what, n, align_of::<T>());
    for (i, e) in s.iter().enumerate() {
        spot(e, b, i, what);
        same!(e.key(), T::norm(k[i]), "{}: element {}", what, i);
    }
    for i in 0..n {
        mid!(T, v.get(i), b, i, "get");
        mid!(T, v.get_mut(i), b, i, "get_mut");
        spot(some!(v.get_ref_as::<T>(i), "get_ref_as"), b, i, "get_ref_as");
        spot(some!(v.get_mut_as::<T>(i), "get_mut_as") as *const T, b, i, "get_mut_as");
        if cfg!(miri) && i > 3 {
            break;
        }
    }
    if cfg!(miri) && !r.chance(1, 3) {
        return;
    }
    for (i, e) in v.iter().enumerate() {
        mid!(T, e, b, i, "iter");
    }
    for (i, e) in v.iter_mut().enumerate() {
        mid!(T, e, b, i, "iter_mut");
    }
    for (i, e) in some!(v.iter_as::<T>(), "iter_as").enumerate() {
        spot(e, b, i, "iter_as");
    }
    for (i, e) in some!(v.iter_mut_as::<T>(), "iter_mut_as").enumerate() {
        spot(e as *const T, b, i, "iter_mut_as");
    }
    match r.below(3) {
        0 => look_ro!(T, v.as_slice(), b, n, r, "view", as_slice),
        1 => look_mut!(T, v.as_mut_slice(), b, n, r, "mutable view"),
        _ => {
            let s = v.as_slice();
            let (z, lo, hi) = sub!(r, n, s, into_subslice);
            look_ro!(T, z, b + lo * size_of::<T>(), hi - lo, r, "part", as_slice);
        }
    }
}

pub fn elements<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    type V = AllVTable;
    let most = if big::<T>() {
        5
    } else if !cfg!(miri) && r.below(40) == 0 {
        600
    } else {
        14
    };
    let n = r.below(most / 2);
    let mut k = keys(r, n);
    let make = r.below(7);
    t!("make{} n{}", make, n);
    let mut v: VecDyn<V> = match make {
        0 => {
            k.clear();
            VecDyn::with_type::<T>()
        }
        1 => {
            k.clear();
            VecDyn::with_capacity::<T>(n)
        }
        2 => typed::<T>(&k).into(),
        3 => VecDyn::from_slice(&typed::<T>(&k)),
        4 => {
            k = vec![r.key(); n];
            VecDyn::with_size(n, T::mk(*k.first().unwrap_or(&0)))
        }
        5 => {
            k.clear();
            let w: VecDyn<V> = typed::<T>(&[1]).into();
            VecDyn::with_type_from(&w)
        }
        _ => {
            k.clear();
            let x = T::mk(3);
            match r.below(3) {
                0 => VecDyn::with_type_from(ValueRef::<V>::new(&x)),
                1 => VecDyn::with_type_from(Slice::<V>::from_slice(&[T::mk(1), T::mk(2)][..])),
                _ => VecDyn::with_type_from(BoxValue::<V>::new(x).as_mut()),
            }
        }
    };
    look::<T>(r, &mut v, &k, "made");
    for _ in 0..r.range(2, 8) {
        let x = r.key();
        let how = r.below(18);
        let n = k.len();
        let more = most.saturating_sub(n);
        t!("op{}", how);
        match how {
            0 | 1 => {
                some!(v.push_as(T::mk(x)), "push_as");
                k.push(x);
            }
            2 => {
                let b = BoxValue::<V>::new(T::mk(x));
                lone(some!(b.as_ref().downcast::<T>(), "downcast") as *const T, x, "boxed value");
                some!(v.push(b), "push");
                k.push(x);
            }
            3 => {
                let y = T::mk(x);
                some!(v.push_cloned(ValueRef::new(&y)), "push_cloned");
                k.push(x);
            }
            4 | 5 => {
                let m = r.below(more + 1);
                let kk = keys(r, m);
                let mut w: VecDyn<V> = typed::<T>(&kk).into();
                some!(v.append(&mut w), "append");
                k.extend(kk);
                look::<T>(r, &mut w, &[], "emptied by append");
                if r.flip() {
                    some!(w.push_as(T::mk(x)), "push_as");
                    look::<T>(r, &mut w, &[x], "refilled");
                }
            }
            6 => {
                let m = r.below(most + 1);
                some!(v.resize(m, T::mk(x)), "resize");
                k.resize(m, x);
            }
            7 => {
                v.clear();
                k.clear();
            }
            8 if !big::<T>() => {
                let m = r.below(n + 1);
                match r.below(4) {
                    0 => {
                        v.rotate_left(m);
                        k.rotate_left(m);
                    }
                    1 => {
                        v.rotate_right(m);
                        k.rotate_right(m);
                    }
                    2 => {
                        v.as_mut_slice().rotate_left(m);
                        k.rotate_left(m);
                    }
                    _ => {
                        v.as_mut_slice().rotate_right(m);
                        k.rotate_right(m);
                    }
                }
            }
            9 => v = v.clone(),
            10 => {
                let mut w = v.clone();
                look::<T>(r, &mut w, &k, "clone");
                some!(w.push_as(T::mk(x)), "push_as");
                let mut k2 = k.clone();
                k2.push(x);
                look::<T>(r, &mut w, &k2, "grown clone");
            }
            11 => {
                let mut w = VecDyn::<V>::with_type_from(&v);
                look::<T>(r, &mut w, &[], "made from a description");
                for i in 0..r.below(4) {
                    some!(w.push_as(T::mk(i as u64)), "push_as");
                    look::<T>(r, &mut w, &[0, 1, 2, 3][..=i], "grown from a description");
                }
            }
            12 => {
                let w = some!(v.into_vec::<T>(), "into_vec");
                same!(w.as_ptr() as usize % align_of::<T>(), 0, "turned back: address modulo the alignment");
                same!(w.iter().map(|e| e.key()).collect::<Vec<_>>(), normed::<T>(&k), "turned back");
                v = w.into();
            }
            13 => {
                let d = into_dyn![VecDyn<dyn HasDrop>](v);
                v = from_dyn![VecDyn<dyn HasDrop as AllVTable>](d);
            }
            14 if n > 0 => {
                let i = r.below(n);
                let b = if r.flip() { v.get(i).clone_value() } else { v.get_mut(i).clone_value() };
                lone(some!(b.as_ref().downcast::<T>(), "downcast") as *const T, k[i], "cloned value");
                let c = b.clone();
                lone(some!(c.as_ref().downcast::<T>(), "downcast") as *const T, k[i], "clone of a boxed value");
                lone(&*some!(b.downcast::<T>(), "downcast"), k[i], "unboxed value");
                some!(v.push(c), "push");
                k.push(k[i]);
            }
            15 if n > 0 => {
                let (i, j) = (r.below(n), r.below(n));
                v.as_mut_slice().swap(i, j);
                k.swap(i, j);
                let mut b = BoxValue::<V>::new(T::mk(x));
                if r.flip() {
                    v.get_mut(i).swap(&mut b.as_mut());
                    lone(some!(b.as_ref().downcast::<T>(), "downcast") as *const T, k[i], "swapped value");
                    k[i] = x;
                } else {
                    v.get_mut(i).assign(b);
                    k[i] = x;
                }
            }
            16 => {
                let mut w: VecDyn<V> = typed::<T>(&[5]).into();
                w.clone_from(&v);
                look::<T>(r, &mut w, &k, "clone_from");
            }
            _ => {
                let w = some!(v.clone_into_vec::<T>(), "clone_into_vec");
                look_ro!(T, Slice::<V>::from_slice(&w), w.as_ptr() as usize, n, r, "view of a typed slice", as_slice);
                let mut w = w;
                let b = w.as_ptr() as usize;
                look_mut!(T, SliceMut::<V>::from_slice(&mut w), b, n, r, "mutable view of a typed slice");
            }
        }
        look::<T>(r, &mut v, &k, "after a change");
    }
}

/// Boxed and small values, and references.
pub fn values<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
    PCVTable: VTable<T>,
{
    let (x, y) = (r.key(), r.key());
    macro_rules! at { ($e:expr, $k:expr, $w:expr) => { match $e { e => {
        same!(e.value_alignment(), align_of::<T>(), "{}: described alignment", $w);
        lone(some!(e.downcast::<T>(), "downcast") as *const T, $k, $w);
    } } } }
    macro_rules! go { ($V:ty) => {{
        let mut b = BoxValue::<$V>::new(T::mk(x));
        at!(b.as_ref(), x, "boxed value");
        at!(b.as_mut(), x, "boxed value");
        at!(ValueRef::from(&b), x, "boxed value");
        let mut c = b.clone();
        at!(c.as_ref(), x, "clone of a boxed value");
        at!(c.as_ref().clone_value().as_ref(), x, "cloned value");
        at!(c.as_mut().clone_value().as_ref(), x, "cloned value");
        let mut o = T::mk(y);
        at!(ValueRef::<$V>::new(&o), y, "reference");
        at!(ValueRef::<$V>::new(&o).clone_value().as_ref(), y, "cloned value");
        {
            let mut m = ValueMut::<$V>::new(&mut o);
            at!(m.reborrow(), y, "reference");
            at!(m.reborrow_mut(), y, "reference");
            at!(m.clone_value().as_ref(), y, "cloned value");
            at!(m.upcast_mut::<DropVTable>(), y, "reference");
            if r.flip() {
                if m.clone_from_other(c.as_ref()).is_err() {
                    fail!("clone_from_other refused the right type")
                }
            } else {
                m.assign(c.as_ref().clone_value());
            }
            at!(m, x, "reference");
        }
        let b = b.upcast::<DropVTable>();
        at!(b.as_ref(), x, "boxed value");
        lone(&*some!(b.downcast::<T>(), "downcast"), x, "unboxed value");
        let v: VecDyn<$V> = vec![T::mk(y)].into();
        let mut n: VecDyn<$V> = VecDyn::with_type_from(v.get(0));
        drop(v);
        some!(n.push(c), "push");
        at!(n.get(0), x, "pushed value");
        at!(n.get_mut(0).clone_value().as_ref(), x, "cloned value");
        // Values that fit a word.
        if let Some(mut s) = SmallValue::<$V>::try_new(T::mk(y)) {
            count("word-sized values");
            at!(s.as_ref(), y, "small value");
            at!(s.as_mut(), y, "small value");
            at!(s.clone().as_ref(), y, "clone of a small value");
            at!(s.as_ref().clone_value().as_ref(), y, "boxed clone of a small value");
            at!(n.get(0).clone_small_value().as_ref(), x, "small clone");
            // At any address.
            let w: Vec<SmallValue<$V>> = (0..4).map(|_| s.clone()).collect();
            for s in &w {
                at!(s.as_ref(), y, "small value in a vector");
            }
            at!(s.upcast::<DropVTable>().as_ref(), y, "small value");
        }
    }} }
    if r.flip() {
        t!("all");
        go!(AllVTable)
    } else {
        t!("narrower");
        go!(PCVTable)
    }
}

fn look_copy<T: CEl>(r: &mut Rng, v: &mut VecCopy, k: &[u64], what: &str) {
    let n = k.len();
    same!(v.len(), n, "{}: length", what);
    let s = some!(v.as_slice_as::<T>(), "as_slice_as");
    let b = s.as_ptr() as usize;
    same!(b % align_of::<T>(), 0, "{}: address of the storage ({} elements) modulo the alignment {}", what, n, align_of::<T>());
    for (i, e) in s.iter().enumerate() {
        spot(e, b, i, what);
        same!(e.key(), T::norm(k[i]), "{}: element {}", what, i);
    }
    for i in 0..n {
        mid!(T, v.get_ref(i), b, i, "get_ref");
        mid!(T, v.get_mut(i), b, i, "get_mut");
        spot(some!(v.get_ref_as::<T>(i), "get_ref_as"), b, i, "get_ref_as");
        spot(some!(v.get_mut_as::<T>(i), "get_mut_as") as *const T, b, i, "get_mut_as");
        if cfg!(miri) && i > 3 {
            break;
        }
    }
    if cfg!(miri) && !r.chance(1, 3) {
        return;
    }
    for (i, e) in v.iter().enumerate() {
        mid!(T, e, b, i, "iter");
    }
    for (i, e) in v.iter_mut().enumerate() {
        mid!(T, e, b, i, "iter_mut");
    }
    for (i, e) in some!(v.iter_as::<T>(), "iter_as").enumerate() {
        spot(e, b, i, "iter_as");
    }
    for (i, e) in some!(v.iter_mut_as::<T>(), "iter_mut_as").enumerate() {
        spot(e as *const T, b, i, "iter_mut_as");
    }
    match r.below(3) {
        0 => look_ro!(T, v.as_slice(), b, n, r, "view", as_slice),
        1 => look_mut!(T, v.as_mut_slice(), b, n, r, "mutable view"),
        _ => {
            let s = v.as_slice();
            let (z, lo, hi) = sub!(r, n, s, into_subslice);
            look_ro!(T, z, b + lo * size_of::<T>(), hi - lo, r, "part", as_slice);
        }
    }
}

pub fn copies<T: CEl>(r: &mut Rng) {
    let most = if big::<T>() {
        5
    } else if !cfg!(miri) && r.below(40) == 0 {
        600
    } else {
        14
    };
    let n = r.below(most / 2);
    let mut k = keys(r, n);
    let make = r.below(8);
    t!("make{} n{}", make, n);
    let mut v: VecCopy = match make {
        0 => {
            k.clear();
            VecCopy::with_type::<T>()
        }
        1 => {
            k.clear();
            VecCopy::with_capacity::<T>(n)
        }
        2 => typed::<T>(&k).into(),
        3 => VecCopy::from_slice(&typed::<T>(&k)),
        4 => {
            k = vec![r.key(); n];
            VecCopy::with_size(n, T::mk(*k.first().unwrap_or(&0)))
        }
        5 => {
            k.clear();
            let w: VecCopy = typed::<T>(&[1]).into();
            VecCopy::with_type_from(&w)
        }
        6 => {
            let w = typed::<T>(&k);
            match r.below(4) {
                0 if n > 0 => SliceCopy::from_slice(&w).iter().collect(),
                1 if n > 0 => {
                    let _ = may_panic(|| lying(r, w.iter()).map(|e| CopyValueRef::<()>::new(e)).collect::<VecCopy>().iter_as::<T>().unwrap().map(|e| e.key()).sum::<u64>());
                    hinted(r, w.iter()).map(|e| CopyValueRef::<()>::new(e)).collect()
                }
                2 => {
                    let mut v: VecCopy = VecCopy::with_capacity::<T>(r.below(4));
                    let _ = may_panic(|| v.extend(lying(r, w.iter()).map(|e| CopyValueRef::<()>::new(e))));
                    v.iter_as::<T>().unwrap().for_each(|e| {
                        e.key();
                    });
                    v.clear();
                    v.extend(hinted(r, w.iter()).map(|e| CopyValueRef::<()>::new(e)));
                    v
                }
                _ => {
                    let mut v: VecCopy = VecCopy::with_type::<T>();
                    v.extend(SliceCopy::from_slice(&w).iter());
                    v
                }
            }
        }
        _ => {
            k.clear();
            let x = T::mk(3);
            match r.below(3) {
                0 => VecCopy::with_type_from(CopyValueRef::<()>::new(&x)),
                1 => VecCopy::with_type_from(SliceCopy::<()>::from_slice(&[T::mk(1), T::mk(2)][..])),
                _ => VecCopy::with_type_from(SliceCopyMut::<()>::from_slice(&mut [T::mk(1), T::mk(2)][..])),
            }
        }
    };
    look_copy::<T>(r, &mut v, &k, "made");
    for _ in 0..r.range(2, 8) {
        let x = r.key();
        let how = r.below(17);
        let n = k.len();
        let more = most.saturating_sub(n);
        t!("op{}", how);
        match how {
            0 | 1 => {
                some!(v.push_as(T::mk(x)), "push_as");
                k.push(x);
            }
            2 => {
                let y = T::mk(x);
                some!(v.push(CopyValueRef::<()>::new(&y)), "push");
                k.push(x);
            }
            3 => {
                v.reserve(r.below(more + 2));
            }
            4 | 5 => {
                let m = r.below(more + 1);
                let kk = keys(r, m);
                let mut w: VecCopy = typed::<T>(&kk).into();
                some!(v.append(&mut w), "append");
                k.extend(kk);
                look_copy::<T>(r, &mut w, &[], "emptied by append");
                if r.flip() {
                    some!(w.push_as(T::mk(x)), "push_as");
                    look_copy::<T>(r, &mut w, &[x], "refilled");
                }
            }
            6 => {
                let m = r.below(most + 1);
                some!(v.resize(m, T::mk(x)), "resize");
                k.resize(m, x);
            }
            7 => {
                v.clear();
                k.clear();
            }
            8 if !big::<T>() => {
                let m = r.below(n + 1);
                match r.below(4) {
                    0 => {
                        v.rotate_left(m);
                        k.rotate_left(m);
                    }
                    1 => {
                        v.rotate_right(m);
                        k.rotate_right(m);
                    }
                    2 => {
                        v.as_mut_slice().rotate_left(m);
                        k.rotate_left(m);
                    }
                    _ => {
                        v.as_mut_slice().rotate_right(m);
                        k.rotate_right(m);
                    }
                }
            }
            9 => v = v.clone(),
            10 => {
                let mut w = v.clone();
                look_copy::<T>(r, &mut w, &k, "clone");
                some!(w.push_as(T::mk(x)), "push_as");
                let mut k2 = k.clone();
                k2.push(x);
                look_copy::<T>(r, &mut w, &k2, "grown clone");
            }
            11 => {
                let mut w = VecCopy::<()>::with_type_from(&v);
                look_copy::<T>(r, &mut w, &[], "made from a description");
                for i in 0..r.below(4) {
                    some!(w.push_as(T::mk(i as u64)), "push_as");
                    look_copy::<T>(r, &mut w, &[0, 1, 2, 3][..=i], "grown from a description");
                }
            }
            12 => {
                let w = some!(v.into_vec::<T>(), "into_vec");
                same!(w.as_ptr() as usize % align_of::<T>(), 0, "turned back: address modulo the alignment");
                same!(w.iter().map(|e| e.key()).collect::<Vec<_>>(), normed::<T>(&k), "turned back");
                v = w.into();
            }
            13 => {
                let kk = keys(r, n);
                some!(v.copy_from_slice(&typed::<T>(&kk)), "copy_from_slice");
                k = kk;
            }
            14 => {
                let (data, vt) = v.into_raw_parts();
                v = unsafe { VecCopy::from_raw_parts(data, vt) };
            }
            15 => {
                let mut w: VecCopy = VecCopy::from_slice(&[5u16, 6, 7]);
                w.clone_from(&v);
                look_copy::<T>(r, &mut w, &k, "clone_from");
            }
            _ => {
                let mut w = some!(v.copy_into_vec::<T>(), "copy_into_vec");
                look_ro!(T, SliceCopy::<()>::from_slice(&w), w.as_ptr() as usize, n, r, "view of a typed slice", as_slice);
                let b = w.as_ptr() as usize;
                look_mut!(T, SliceCopyMut::<()>::from_slice(&mut w), b, n, r, "mutable view of a typed slice");
            }
        }
        look_copy::<T>(r, &mut v, &k, "after a change");
    }
}
