//! Positions, ranges and counts, in range and out of range, against typed slices and vectors: an
//! operation is refused (by a panic) exactly when its typed counterpart is, and a refused one
//! changes nothing.
use crate::copyw::CEl;
use crate::el::El;
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::mem::size_of;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn typed<T: El>(k: &[u64]) -> Vec<T> {
    k.iter().map(|k| T::mk(*k)).collect()
}
fn keys_of<T: El>(s: &[T]) -> Vec<u64> {
    s.iter().map(|e| e.key()).collect()
}

/// Interesting indices for a container of `n` elements of `s` bytes.
pub fn indices(n: usize, s: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n + 2).collect();
    v.extend([2 * n + 1, n * s, n * s + 1, s, s + 1]);
    for sh in [8, 16, 31, 32, 33, 48, 62, 63] {
        let b = 1usize << sh.min(usize::BITS - 1);
        v.extend([b - 1, b, b + 1, b + n]);
    }
    v.extend([usize::MAX, usize::MAX - 1, usize::MAX - n, (usize::MAX).wrapping_sub(s - 1)]);
    for m in [usize::MAX, isize::MAX as usize] {
        v.extend([m / s, m / s + (s > 1) as usize, (m / s).saturating_add(2), m / s - 1]);
    }
    // Indices whose byte offset, computed modulo 2^64, falls inside the contents.
    let tz = s.trailing_zeros();
    let odd = s >> tz;
    let mut inv: usize = 1;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2usize.wrapping_sub(odd.wrapping_mul(inv)));
    }
    for j in 0..n.min(3) * odd + 1 {
        // i * s == (j << tz) modulo 2^64
        let i = inv.wrapping_mul(j);
        v.push(i);
        if tz > 0 {
            v.push((i & ((1usize << (usize::BITS - tz)) - 1)) | 1usize << (usize::BITS - tz));
            v.push(i ^ (1usize << (usize::BITS - 1)));
        }
        if j > 40 {
            break;
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Compare one operation: `typed` and `erased` both produce keys or panic.
fn agree(what: std::fmt::Arguments, typed: impl FnOnce() -> Vec<u64>, erased: impl FnOnce() -> Vec<u64>) -> bool {
    observe();
    let want = catch_unwind(AssertUnwindSafe(typed)).ok();
    let got = catch_unwind(AssertUnwindSafe(erased)).ok();
    match (&want, &got) {
        (None, None) => {
            count("refused_like_typed");
            return false;
        }
        (Some(a), Some(b)) => {
            count("accepted_like_typed");
            if a != b {
                fail!("{}: got elements {:x?}, expected {:x?}", what, &b[..b.len().min(9)], &a[..a.len().min(9)]);
            }
        }
        (None, Some(b)) => fail!("{}: accepted (giving {} elements) instead of being refused", what, b.len()),
        (Some(_), None) => {
            let p = crate::alloc::paused(last_panic);
            fail!("{}: refused although it is in range ({})", what, p)
        }
    }
    true
}

macro_rules! ranges {
    ($i:expr, $j:expr, $f:ident) => {{
        let (i, j): (usize, usize) = ($i, $j);
        $f!("a..b", i..j);
        $f!("..b", ..j);
        $f!("a..", i..);
        $f!("a..=b", i..=j);
        $f!("..=b", ..=j);
        if i == j {
            $f!("..", ..);
            $f!("exhausted a..=b", {
                let mut r = i..=i;
                r.next();
                r
            });
        }
    }};
}

/// Shared operations of all views (read only).
macro_rules! ro_ops {
    ($name:ident, $S:ident, $tr:ident) => {
        fn $name<T: $tr, V: Sized>(v: &$S<V>, m: &[T], i: usize, j: usize, full: bool)
        where
            V: $name::Req,
        {
            let n = m.len();
            let w = stringify!($S);
            let one = |e: &T| vec![e.key()];
            if full {
                agree(format_args!("{}::get({}) of {}", w, i, n), || one(&m[i]), || one(v.get(i).downcast::<T>().unwrap()));
                agree(format_args!("{}::get_as({}) of {}", w, i, n), || one(&m[i]), || one(v.get_as::<T>(i).unwrap()));
                agree(
                    format_args!("{}::split_at({}) of {}", w, i, n),
                    || {
                        let (a, b) = m.split_at(i);
                        let mut r = keys_of(a);
                        r.push(!0);
                        r.extend(keys_of(b));
                        r
                    },
                    || {
                        let (a, b) = v.split_at(i);
                        let mut r = keys_of(a.as_slice::<T>().unwrap());
                        r.push(!0);
                        r.extend(keys_of(b.as_slice::<T>().unwrap()));
                        r
                    },
                );
                agree(
                    format_args!("{}::chunks_exact({}) of {}", w, i, n),
                    || m.chunks_exact(i).flat_map(|c| keys_of(c)).collect(),
                    || v.chunks_exact(i).flat_map(|c| keys_of(c.as_slice::<T>().unwrap())).collect(),
                );
                agree(format_args!("{}::iter().nth({}) of {}", w, i, n), || m.iter().nth(i).map_or(vec![], one), || v.iter().nth(i).map_or(vec![], |e| one(e.downcast::<T>().unwrap())));
            }
            macro_rules! f { ($k:expr, $r:expr) => {
                agree(format_args!("{}::subslice {} with a={} b={} of {}", w, $k, i, j, n), || keys_of(&m[$r]), || keys_of(v.subslice($r).as_slice::<T>().unwrap()));
                agree(format_args!("{}::into_subslice {} with a={} b={} of {}", w, $k, i, j, n), || keys_of(&m[$r]), || keys_of(v.reborrow().into_subslice($r).as_slice::<T>().unwrap()));
            } }
            ranges!(i, j, f);
        }
    };
}
mod dyn_ro {
    pub trait Req: dync::traits::HasDrop + dync::traits::HasClone + Clone + 'static {}
    impl<V: dync::traits::HasDrop + dync::traits::HasClone + Clone + 'static> Req for V {}
}
mod copy_ro {
    pub trait Req: Clone + 'static {}
    impl<V: Clone + 'static> Req for V {}
}
ro_ops!(dyn_ro, Slice, El);
ro_ops!(copy_ro, SliceCopy, CEl);

macro_rules! mut_ops {
    ($name:ident, $ro:ident, $S:ident, $tr:ident) => {
        /// Returns after applying what was accepted to the model as well.
        fn $name<T: $tr, V: Sized>(v: &mut $S<V>, m: &mut Vec<T>, i: usize, j: usize, full: bool)
        where
            V: $ro::Req,
        {
            let n = m.len();
            let w = stringify!($S);
            let one = |e: &T| vec![e.key()];
            if full {
                agree(format_args!("{}::get({}) of {}", w, i, n), || one(&m[i]), || one(v.get(i).downcast::<T>().unwrap()));
                agree(format_args!("{}::get_mut({}) of {}", w, i, n), || one(&m[i]), || one(v.get_mut(i).downcast::<T>().unwrap()));
                agree(format_args!("{}::get_as({}) of {}", w, i, n), || one(&m[i]), || one(v.get_as::<T>(i).unwrap()));
                agree(
                    format_args!("{}::split_at({}) of {}", w, i, n),
                    || keys_of(m.split_at(i).1),
                    || {
                        let (mut a, mut b) = v.split_at(i);
                        same!(a.as_slice::<T>().unwrap().len() + b.len(), n, "split");
                        keys_of(b.as_slice::<T>().unwrap())
                    },
                );
                agree(
                    format_args!("{}::chunks_exact({}) of {}", w, i, n),
                    || m.chunks_exact(i).flat_map(|c| keys_of(c)).collect(),
                    || v.chunks_exact(i).flat_map(|c| keys_of(c.as_slice::<T>().unwrap())).collect(),
                );
                agree(
                    format_args!("{}::chunks_exact_mut({}) of {}", w, i, n),
                    || m.chunks_exact(i).flat_map(|c| keys_of(c)).collect(),
                    || v.chunks_exact_mut(i).flat_map(|mut c| keys_of(c.as_slice::<T>().unwrap())).collect(),
                );
                agree(
                    format_args!("{}::rotate_left({}) of {}", w, i, n),
                    || { m.rotate_left(i); vec![] },
                    || { v.rotate_left(i); vec![] },
                );
                agree(
                    format_args!("{}::rotate_right({}) of {}", w, i, n),
                    || { m.rotate_right(i); vec![] },
                    || { v.rotate_right(i); vec![] },
                );
            }
            agree(format_args!("{}::swap({}, {}) of {}", w, i, j, n), || { m.swap(i, j); vec![] }, || { v.swap(i, j); vec![] });
            macro_rules! f { ($k:expr, $r:expr) => {
                agree(format_args!("{}::subslice {} with a={} b={} of {}", w, $k, i, j, n), || keys_of(&m[$r]), || keys_of(v.subslice($r).as_slice::<T>().unwrap()));
                agree(format_args!("{}::subslice_mut {} with a={} b={} of {}", w, $k, i, j, n), || keys_of(&m[$r]), || keys_of(v.subslice_mut($r).as_slice::<T>().unwrap()));
                agree(format_args!("{}::into_subslice {} with a={} b={} of {}", w, $k, i, j, n), || keys_of(&m[$r]), || keys_of(v.reborrow_mut().into_subslice($r).as_slice::<T>().unwrap()));
            } }
            ranges!(i, j, f);
            let s = v.as_slice::<T>().unwrap();
            same!(s.len(), m.len(), "{}: length after the calls", w);
            for x in 0..n { same!(s[x].key(), m[x].key(), "{}: element {} after the calls with {} {}", w, x, i, j); }
        }
    };
}
mut_ops!(dyn_mut, dyn_ro, SliceMut, El);
mut_ops!(copy_mut, copy_ro, SliceCopyMut, CEl);

const SIZES: [usize; 8] = [0, 1, 2, 3, 5, 8, 4, 17];

fn pairs(r: &mut Rng, ix: &[usize], n: usize, k: usize) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = ix.iter().map(|i| (*i, *i)).collect();
    for a in 0..=(n + 1).min(4) {
        for b in 0..=n + 1 {
            v.push((a, b));
        }
    }
    for _ in 0..k {
        // One in range, one not, or both random.
        let a = if r.flip() { r.below(n + 2) } else { ix[r.below(ix.len())] };
        let b = if r.flip() { r.below(n + 2) } else { ix[r.below(ix.len())] };
        v.push((a, b));
    }
    v
}

fn capacities(s: usize) -> Vec<usize> {
    // All of these exceed isize::MAX bytes.
    let m = isize::MAX as usize / s;
    let mut v = vec![usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, m.saturating_add(1)];
    let tz = s.trailing_zeros();
    if tz > 0 {
        v.extend([1usize << (usize::BITS - tz), (1usize << (usize::BITS - tz)) + 1, (1usize << (usize::BITS - tz)) + 5]);
    }
    if s > 2 {
        v.extend([usize::MAX / s + 1, usize::MAX / s + 2, usize::MAX / s, usize::MAX / 3 + 1]);
    }
    v.retain(|c| *c > m);
    v
}

fn reset<T: El>(keys: &[u64]) -> Vec<T> {
    typed(keys)
}

pub fn bounds_dyn<T: El + MaybeHash, V: Vt + VTable<T> + dyn_ro::Req>(r: &mut Rng, case: u64) {
    let n = match SIZES[case as usize % SIZES.len()] {
        17 if !cfg!(miri) => [17, 64, 100, 257][r.below(4)],
        n => n,
    };
    let keys: Vec<u64> = (0..n).map(|_| r.key()).collect();
    let s = size_of::<T>();
    let ix = indices(n, s);
    let kind = case as usize / SIZES.len() % 4;
    t!("{} n={} kind {} seed {:x}", T::NAME, n, kind, r.key());
    let mut m: Vec<T> = reset(&keys);
    let mut v: VecDyn<V> = if r.flip() {
        let mut t = Vec::with_capacity(n + 3);
        t.extend(typed::<T>(&keys));
        t.into()
    } else {
        typed::<T>(&keys).into()
    };
    let step = if cfg!(miri) { 31 } else { 1 };
    match kind {
        0 => {
            let one = |e: &T| vec![e.key()];
            for i in ix.iter().copied().step_by(step) {
                agree(format_args!("VecDyn::get({}) of {}", i, n), || one(&m[i]), || one(v.get(i).downcast::<T>().unwrap()));
                agree(format_args!("VecDyn::get_mut({}) of {}", i, n), || one(&m[i]), || one(v.get_mut(i).downcast::<T>().unwrap()));
                agree(format_args!("VecDyn::get_ref_as({}) of {}", i, n), || one(&m[i]), || one(v.get_ref_as::<T>(i).unwrap()));
                agree(format_args!("VecDyn::get_mut_as({}) of {}", i, n), || one(&m[i]), || one(v.get_mut_as::<T>(i).unwrap()));
                agree(format_args!("VecDyn::rotate_left({}) of {}", i, n), || { m.rotate_left(i); vec![] }, || { v.rotate_left(i); vec![] });
                agree(format_args!("VecDyn::rotate_right({}) of {}", i, n), || { m.rotate_right(i); vec![] }, || { v.rotate_right(i); vec![] });
                same!(v.len(), n, "length after the calls");
                let t = v.as_slice_as::<T>().unwrap();
                for x in 0..n {
                    same!(t[x].key(), m[x].key(), "VecDyn: element {} after the calls with {}", x, i);
                }
            }
            for l in [0, 1, n.saturating_sub(1), n + 1, n + 7, 2 * n] {
                let src: Vec<T> = (0..l).map(|x| T::mk(x as u64)).collect();
                agree(
                    format_args!("VecDyn view clone_from_slice of {} elements into {}", l, n),
                    || { m.clone_from_slice(&src); vec![] },
                    || { v.as_mut_slice().clone_from_slice(&src).unwrap(); vec![] },
                );
            }
            for c in capacities(s) {
                must_panic(format_args!("VecDyn::with_capacity({}) of size {}", c, s), || VecDyn::<V>::with_capacity::<T>(c));
                must_panic(format_args!("VecDyn::with_size({}) of size {}", c, s), || VecDyn::<V>::with_size::<T>(c, T::mk(1)));
                must_panic(format_args!("VecDyn::resize({}) of size {}", c, s), || v.resize(c, T::mk(2)).is_some());
                same!(v.len(), n, "length after a refused resize({})", c);
                let t = v.as_slice_as::<T>().unwrap();
                for x in 0..n {
                    same!(t[x].key(), m[x].key(), "VecDyn: element {} after a refused resize", x);
                }
                v.push_as(T::mk(3)).unwrap();
                v.resize(n, T::mk(4)).unwrap();
            }
        }
        1 => {
            for (i, j) in pairs(r, &ix, n, 40).into_iter().step_by(step * 3) {
                dyn_ro::<T, V>(&v.as_slice(), &m, i, j, i == j);
            }
            let t = typed::<T>(&keys);
            for (i, j) in pairs(r, &ix, n, 10).into_iter().step_by(step * 5) {
                dyn_ro::<T, V>(&Slice::from_slice(&t), &m, i, j, i == j);
            }
        }
        2 => {
            let mut s = v.as_mut_slice();
            for (i, j) in pairs(r, &ix, n, 60).into_iter().step_by(step * 2) {
                dyn_mut::<T, V>(&mut s, &mut m, i, j, i == j);
            }
        }
        _ => {
            // A window of a larger storage: what lies around it must not be reachable.
            let lo = r.below(n + 1);
            let hi = r.range(lo, n);
            let ix = indices(hi - lo, s);
            for (i, j) in pairs(r, &ix, hi - lo, 30).into_iter().step_by(step * 3) {
                dyn_ro::<T, V>(&v.as_slice().subslice(lo..hi), &m[lo..hi], i, j, i == j);
            }
            let mut mid: Vec<T> = typed(&keys[lo..hi]);
            let mut s = v.as_mut_slice();
            let mut s = s.subslice_mut(lo..hi);
            for (i, j) in pairs(r, &ix, hi - lo, 30).into_iter().step_by(step * 3) {
                dyn_mut::<T, V>(&mut s, &mut mid, i, j, i == j);
            }
            let t = v.as_slice_as::<T>().unwrap();
            for x in 0..n {
                let want = if (lo..hi).contains(&x) { mid[x - lo].key() } else { T::norm(keys[x]) };
                same!(t[x].key(), want, "VecDyn: element {} outside or inside of the window {}..{}", x, lo, hi);
            }
        }
    }
}

pub fn bounds_copy<T: CEl + MaybeHash, V: Clone + 'static + VTable<T> + copy_ro::Req>(r: &mut Rng, case: u64) {
    let n = match SIZES[case as usize % SIZES.len()] {
        17 if !cfg!(miri) => [17, 64, 100, 257][r.below(4)],
        n => n,
    };
    let keys: Vec<u64> = (0..n).map(|_| r.key()).collect();
    let s = size_of::<T>();
    let ix = indices(n, s);
    let kind = case as usize / SIZES.len() % 5;
    t!("copy {} n={} kind {} seed {:x}", T::NAME, n, kind, r.key());
    let mut m: Vec<T> = reset(&keys);
    let mut v: VecCopy<V> = if r.flip() {
        let mut t = Vec::with_capacity(n + 3);
        t.extend(typed::<T>(&keys));
        t.into()
    } else {
        typed::<T>(&keys).into()
    };
    let step = if cfg!(miri) { 31 } else { 1 };
    match kind {
        0 => {
            let one = |e: &T| vec![e.key()];
            for i in ix.iter().copied().step_by(step) {
                agree(format_args!("VecCopy::get_ref({}) of {}", i, n), || one(&m[i]), || one(v.get_ref(i).downcast::<T>().unwrap()));
                agree(format_args!("VecCopy::get_mut({}) of {}", i, n), || one(&m[i]), || one(v.get_mut(i).downcast::<T>().unwrap()));
                agree(format_args!("VecCopy::get_as({}) of {}", i, n), || one(&m[i]), || one(&v.get_as::<T>(i).unwrap()));
                agree(format_args!("VecCopy::get_ref_as({}) of {}", i, n), || one(&m[i]), || one(v.get_ref_as::<T>(i).unwrap()));
                agree(format_args!("VecCopy::get_mut_as({}) of {}", i, n), || one(&m[i]), || one(v.get_mut_as::<T>(i).unwrap()));
                agree(format_args!("VecCopy::rotate_left({}) of {}", i, n), || { m.rotate_left(i); vec![] }, || { v.rotate_left(i); vec![] });
                agree(format_args!("VecCopy::rotate_right({}) of {}", i, n), || { m.rotate_right(i); vec![] }, || { v.rotate_right(i); vec![] });
                same!(v.len(), n, "length after the calls");
                let t = v.as_slice_as::<T>().unwrap();
                for x in 0..n {
                    same!(t[x].key(), m[x].key(), "VecCopy: element {} after the calls with {}", x, i);
                }
            }
            for l in [0, 1, n.saturating_sub(1), n + 1, n + 7, 2 * n] {
                let src: Vec<T> = (0..l).map(|x| T::mk(x as u64)).collect();
                agree(
                    format_args!("VecCopy view copy_from_slice of {} elements into {}", l, n),
                    || { m.copy_from_slice(&src); vec![] },
                    || { v.as_mut_slice().copy_from_slice(&src).unwrap(); vec![] },
                );
            }
            let t = v.as_slice_as::<T>().unwrap();
            for x in 0..n {
                same!(t[x].key(), m[x].key(), "VecCopy: element {} after copy_from_slice", x);
            }
        }
        4 => {
            for c in capacities(s) {
                must_panic(format_args!("VecCopy::with_capacity({}) of size {}", c, s), || VecCopy::<V>::with_capacity::<T>(c));
                must_panic(format_args!("VecCopy::with_size({}) of size {}", c, s), || VecCopy::<V>::with_size::<T>(c, T::mk(1)));
                must_panic(format_args!("VecCopy::resize({}) of size {}", c, s), || v.resize(c, T::mk(2)).is_some());
                if c <= usize::MAX - n && n > 0 || c > v.capacity() - n {
                    must_panic(format_args!("VecCopy::reserve({}) of size {}", c, s), || v.reserve(c));
                }
                same!(v.len(), n, "length after a refused resize({})", c);
                let t = v.as_slice_as::<T>().unwrap();
                for x in 0..n {
                    same!(t[x].key(), m[x].key(), "VecCopy: element {} after a refused resize", x);
                }
                v.push_as(T::mk(3)).unwrap();
                v.resize(n, T::mk(4)).unwrap();
            }
            // The element info kept by the parts taken out of the vector.
            let (raw, vt) = v.into_raw_parts();
            for i in ix.iter().copied().step_by(step) {
                agree(
                    format_args!("get_bytes({}) of {} elements of size {}", i, n, s),
                    || vec![&m[i] as *const T as u64 - m.as_ptr() as u64, s as u64],
                    || {
                        let base = raw.byte_chunks().next().map_or(0, |c| c.as_ptr() as u64);
                        let b = raw.get_bytes(i);
                        vec![b.as_ptr() as u64 - base, b.len() as u64]
                    },
                );
            }
            same!(raw.byte_chunks().count(), n, "number of byte chunks");
            drop(unsafe { VecCopy::<V>::from_raw_parts(raw, vt) });
        }
        1 => {
            for (i, j) in pairs(r, &ix, n, 40).into_iter().step_by(step * 3) {
                copy_ro::<T, V>(&v.as_slice(), &m, i, j, i == j);
            }
            let t = typed::<T>(&keys);
            for (i, j) in pairs(r, &ix, n, 10).into_iter().step_by(step * 5) {
                copy_ro::<T, V>(&SliceCopy::from_slice(&t), &m, i, j, i == j);
            }
        }
        2 => {
            let mut s = v.as_mut_slice();
            for (i, j) in pairs(r, &ix, n, 60).into_iter().step_by(step * 2) {
                copy_mut::<T, V>(&mut s, &mut m, i, j, i == j);
            }
        }
        _ => {
            let lo = r.below(n + 1);
            let hi = r.range(lo, n);
            let ix = indices(hi - lo, s);
            for (i, j) in pairs(r, &ix, hi - lo, 30).into_iter().step_by(step * 3) {
                copy_ro::<T, V>(&v.as_slice().subslice(lo..hi), &m[lo..hi], i, j, i == j);
            }
            let mut mid: Vec<T> = typed(&keys[lo..hi]);
            let mut s = v.as_mut_slice();
            let mut s = s.subslice_mut(lo..hi);
            for (i, j) in pairs(r, &ix, hi - lo, 30).into_iter().step_by(step * 3) {
                copy_mut::<T, V>(&mut s, &mut mid, i, j, i == j);
            }
            let t = v.as_slice_as::<T>().unwrap();
            for x in 0..n {
                let want = if (lo..hi).contains(&x) { mid[x - lo].key() } else { T::norm(keys[x]) };
                same!(t[x].key(), want, "VecCopy: element {} outside or inside of the window {}..{}", x, lo, hi);
            }
        }
    }
}
