//! Iteration: every way of iterating, driven by random scripts of iterator calls next to the same
//! calls on the indices; yielded references are identified by address, held, and written to.
use crate::copyw::CEl;
use crate::el::El;
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};

/// Drive `it` and an iterator over the indices `0..n` by the same script.
pub fn drive<I: Iterator>(r: &mut Rng, what: &str, it: I, n: usize, mut id: impl FnMut(I::Item) -> usize) {
    let mut it = it;
    let mut ix = 0..n;
    t!("{} n={}", what, n);
    macro_rules! hint { () => {{
        let (lo, hi) = it.size_hint();
        let left = ix.len();
        ensure!(lo <= left && hi.map_or(true, |h| left <= h), "{}: size_hint {:?} with {} elements left", what, it.size_hint(), left);
    }} }
    // Once at the end, there is nothing more to yield.
    macro_rules! over { () => {{
        same!(it.size_hint().0, 0, "{}: lower size_hint at the end", what);
        same!(it.next().map(&mut id), None, "{}: next() after the end", what);
        same!(it.nth(r.below(3)).map(&mut id), None, "{}: nth() after the end", what);
        same!(it.count(), 0, "{}: elements after the end", what);
    }} }
    hint!();
    loop {
        let k = match r.below(6) { 0..=3 => r.below(3), 4 => r.below(n + 2), _ => n };
        let op = r.below(20);
        match op {
            0..=7 => {
                let (a, b) = (it.next().map(&mut id), ix.next());
                same!(a, b, "{}: next()", what);
                if b.is_none() { over!(); break }
            }
            8 | 9 => {
                t!("nth({})", k);
                let (a, b) = (it.nth(k).map(&mut id), ix.nth(k));
                same!(a, b, "{}: nth({})", what, k);
                if b.is_none() { over!(); break }
            }
            10 => hint!(),
            11 => {
                t!("take({})", k);
                let a: Vec<usize> = it.by_ref().take(k).map(&mut id).collect();
                same!(a, ix.by_ref().take(k).collect::<Vec<_>>(), "{}: take({})", what, k);
                if ix.is_empty() && k > 0 { hint!() }
            }
            12 => {
                t!("skip({})", k);
                same!(it.skip(k).map(&mut id).collect::<Vec<_>>(), ix.skip(k).collect::<Vec<_>>(), "{}: skip({})", what, k);
                break;
            }
            13 => {
                t!("step_by({})", k + 1);
                same!(it.step_by(k + 1).map(&mut id).collect::<Vec<_>>(), ix.step_by(k + 1).collect::<Vec<_>>(), "{}: step_by({})", what, k + 1);
                break;
            }
            14 => {
                t!("last");
                same!(it.last().map(&mut id), ix.last(), "{}: last()", what);
                break;
            }
            15 => {
                t!("count");
                same!(it.count(), ix.count(), "{}: count()", what);
                break;
            }
            16 => {
                t!("fold");
                let mut v = vec![];
                it.for_each(|e| v.push(id(e)));
                same!(v, ix.collect::<Vec<_>>(), "{}: for_each()", what);
                break;
            }
            17 => {
                t!("find");
                let mut seen = vec![];
                let a = it.by_ref().map(&mut id).inspect(|i| seen.push(*i)).find(|i| *i >= k);
                let mut seenm = vec![];
                let b = ix.by_ref().inspect(|i| seenm.push(*i)).find(|i| *i >= k);
                same!(a, b, "{}: find", what);
                same!(seen, seenm, "{}: elements visited by find", what);
                if b.is_none() { over!(); break }
            }
            18 => {
                t!("collect");
                same!(it.map(&mut id).collect::<Vec<_>>(), ix.collect::<Vec<_>>(), "{}: collect()", what);
                break;
            }
            _ => {
                t!("drop");
                break;
            }
        }
    }
    count("iterations_driven");
}

/// Identity of a yielded erased reference; gives the typed reference and the index by its address.
macro_rules! ident {
    ($T:ty, $base:expr, $n:expr, $w:expr) => {
        |e| {
            let e = e;
            same!(e.value_type_id(), TypeId::of::<$T>(), "{}: type of a yielded reference", $w);
            same!(e.size(), size_of::<$T>(), "{}: size of a yielded reference", $w);
            same!(e.value_alignment(), align_of::<$T>(), "{}: alignment of a yielded reference", $w);
            ensure!(e.is::<$T>(), "{}: is() of a yielded reference", $w);
            let p = some!(e.downcast::<$T>(), "{}: downcast of a yielded reference", $w);
            locate(p as *const $T as usize, $base, size_of::<$T>(), $n, $w)
        }
    };
}
fn locate(a: usize, base: usize, s: usize, n: usize, w: &str) -> usize {
    ensure!(a >= base && (a - base) % s == 0 && (a - base) / s < n, "{}: yielded reference at offset {} of {} elements of size {}", w, a.wrapping_sub(base) as isize, n, s);
    (a - base) / s
}

/// Write through held references in random order.
fn scribble<T: El>(r: &mut Rng, mut held: Vec<(usize, &mut T)>, m: &mut [u64], w: &str) {
    for (i, p) in held.iter() {
        same!(p.key(), T::norm(m[*i]), "{}: element {} through a held reference", w, i);
    }
    while !held.is_empty() {
        let (i, p) = held.swap_remove(r.below(held.len()));
        if r.flip() {
            let k = r.key();
            *p = T::mk(k);
            m[i] = k;
        }
    }
}

fn compare<T: El>(s: &[T], m: &[u64], w: &str) {
    same!(s.len(), m.len(), "{}: length", w);
    for (i, e) in s.iter().enumerate() {
        same!(e.key(), T::norm(m[i]), "{}: element {} afterwards", w, i);
    }
}

pub fn iter_dyn<T: El + MaybeHash, V: Vt + VTable<T>>(r: &mut Rng) {
    let n = r.size();
    let mut m: Vec<u64> = (0..n).map(|_| r.key()).collect();
    let mut src: Vec<T> = Vec::with_capacity(n + r.below(4));
    src.extend(m.iter().map(|k| T::mk(*k)));
    let mut v: VecDyn<V> = src.into();
    let base = v.as_slice_as::<T>().unwrap().as_ptr() as usize;
    let (lo, hi) = { let a = r.below(n + 1); (a, r.range(a, n)) };
    for _ in 0..r.range(1, 3) {
        let mut held: Vec<(usize, &mut T)> = vec![];
        let sb = base + lo * size_of::<T>();
        let sn = hi - lo;
        let mut off = 0;
        macro_rules! mu { ($w:expr, $it:expr, $b:expr, $n:expr) => {
            drive(r, $w, $it, $n, |e| {
                same!(e.value_type_id(), TypeId::of::<T>(), "{}: type of a yielded reference", $w);
                same!(e.size(), size_of::<T>(), "{}: size of a yielded reference", $w);
                same!(e.value_alignment(), align_of::<T>(), "{}: alignment of a yielded reference", $w);
                let p = some!(e.downcast::<T>(), "{}: downcast", $w);
                let i = locate(p as *const T as usize, $b, size_of::<T>(), $n, $w);
                held.push((i + ($b - base) / size_of::<T>(), p));
                i
            })
        } }
        macro_rules! mt { ($w:expr, $it:expr, $b:expr, $n:expr) => {
            drive(r, $w, $it, $n, |p: &mut T| {
                let i = locate(p as *const T as usize, $b, size_of::<T>(), $n, $w);
                held.push((i + ($b - base) / size_of::<T>(), p));
                i
            })
        } }
        macro_rules! tt { ($w:expr, $it:expr, $b:expr, $n:expr) => { drive(r, $w, $it, $n, |p: &T| locate(p as *const T as usize, $b, size_of::<T>(), $n, $w)) } }
        let mut sm;
        match r.below(15) {
            0 => drive(r, "VecDyn::iter", v.iter(), n, ident!(T, base, n, "VecDyn::iter")),
            1 => tt!("VecDyn::iter_as", some!(v.iter_as::<T>(), "iter_as"), base, n),
            2 => mu!("VecDyn::iter_mut", v.iter_mut(), base, n),
            3 => mt!("VecDyn::iter_mut_as", some!(v.iter_mut_as::<T>(), "iter_mut_as"), base, n),
            4 => drive(r, "Slice::iter", v.as_slice().subslice(lo..hi).iter(), sn, ident!(T, sb, sn, "Slice::iter")),
            5 => drive(r, "Slice::into_iter", v.as_slice().into_subslice(lo..hi).into_iter(), sn, ident!(T, sb, sn, "Slice::into_iter")),
            6 => tt!("Slice::iter_as", some!(v.as_slice().subslice(lo..hi).iter_as::<T>(), "iter_as"), sb, sn),
            7 => { sm = v.as_mut_slice().into_subslice(lo..hi); mu!("SliceMut::iter", sm.iter(), sb, sn) }
            8 => mu!("SliceMut::into_iter", v.as_mut_slice().into_subslice(lo..hi).into_iter(), sb, sn),
            9 => { sm = v.as_mut_slice().into_subslice(lo..hi); mt!("SliceMut::iter_as", some!(sm.iter_as::<T>(), "iter_as"), sb, sn) }
            10 => {
                let k = r.range(1, n + 1);
                let whole = n / k * k;
                off = k;
                let w = "Slice::chunks_exact";
                drive(r, w, v.as_slice().chunks_exact(k), n / k, |c| {
                    same!(c.len(), k, "{}: length of a chunk", w);
                    let p = c.as_slice::<T>().unwrap().as_ptr() as usize;
                    locate(p, base, size_of::<T>() * k, n / k, w)
                });
                let _ = whole;
            }
            11 => {
                let k = r.range(1, n + 1);
                let w = "SliceMut::chunks_exact_mut";
                sm = v.as_mut_slice();
                let mut ms = vec![];
                drive(r, w, sm.chunks_exact_mut(k), n / k, |mut c| {
                    same!(c.len(), k, "{}: length of a chunk", w);
                    let p = c.as_slice::<T>().unwrap().as_ptr() as usize;
                    let i = locate(p, base, size_of::<T>() * k, n / k, w);
                    ms.push((i, c));
                    i
                });
                for (i, mut c) in ms {
                    for (j, p) in c.as_slice::<T>().unwrap().iter_mut().enumerate() {
                        same!(p.key(), T::norm(m[i * k + j]), "{}: element of a held chunk", w);
                        if r.flip() { let x = r.key(); *p = T::mk(x); m[i * k + j] = x; }
                    }
                }
            }
            12 => {
                // Two iterations at the same time, by clones of the view.
                let a = v.as_slice();
                let b = a.clone();
                t!("zip");
                for (i, (x, y)) in a.iter().zip(b.into_iter()).enumerate() {
                    let (x, y) = (some!(x.downcast::<T>(), "zip"), some!(y.downcast::<T>(), "zip"));
                    ensure!(x as *const T == y as *const T, "two iterations differ at element {}", i);
                    off = i + 1;
                }
                same!(off, n, "number of elements of two iterations");
            }
            13 => {
                // Exchange elements through the references of one iteration.
                t!("swap held");
                let mut refs: Vec<_> = v.iter_mut().enumerate().collect();
                same!(refs.len(), n, "number of references");
                for _ in 0..3 {
                    if n < 2 { break }
                    let (i, j) = (r.below(n), r.below(n));
                    if i == j { continue }
                    let (x, y) = crate::dynw::two(&mut refs, i, j);
                    x.1.swap(&mut y.1);
                    m.swap(i, j);
                }
                for (i, e) in refs {
                    same!(e.downcast::<T>().unwrap().key(), T::norm(m[i]), "element {} through its reference after swaps", i);
                }
            }
            _ => {
                // Assign and clone through the references of one iteration.
                t!("assign held");
                let k = r.key();
                let fresh = T::mk(k);
                let refs: Vec<_> = v.iter_mut().enumerate().collect();
                for (i, mut e) in refs.into_iter().rev() {
                    match r.below(3) {
                        0 => { e.assign(BoxValue::<V>::new(T::mk(k ^ i as u64))); m[i] = k ^ i as u64; }
                        1 => { e.clone_from_other(ValueRef::new(&fresh)).unwrap(); m[i] = k; }
                        _ => {}
                    }
                }
            }
        }
        scribble(r, held, &mut m, "held");
        compare(v.as_slice_as::<T>().unwrap(), &m, "VecDyn");
    }
}

pub fn iter_copy<T: CEl, V: Clone + 'static + VTable<T>>(r: &mut Rng) {
    let n = r.size();
    let mut m: Vec<u64> = (0..n).map(|_| r.key()).collect();
    let mut src: Vec<T> = Vec::with_capacity(n + r.below(4));
    src.extend(m.iter().map(|k| T::mk(*k)));
    let mut v: VecCopy<V> = src.into();
    let base = v.as_slice_as::<T>().unwrap().as_ptr() as usize;
    let (lo, hi) = { let a = r.below(n + 1); (a, r.range(a, n)) };
    for _ in 0..r.range(1, 3) {
        let mut held: Vec<(usize, &mut T)> = vec![];
        let sb = base + lo * size_of::<T>();
        let sn = hi - lo;
        macro_rules! mu { ($w:expr, $it:expr, $b:expr, $n:expr) => {
            drive(r, $w, $it, $n, |e| {
                same!(e.value_type_id(), TypeId::of::<T>(), "{}: type of a yielded reference", $w);
                same!(e.size(), size_of::<T>(), "{}: size of a yielded reference", $w);
                same!(e.value_alignment(), align_of::<T>(), "{}: alignment of a yielded reference", $w);
                let p = some!(e.downcast::<T>(), "{}: downcast", $w);
                let i = locate(p as *const T as usize, $b, size_of::<T>(), $n, $w);
                held.push((i + ($b - base) / size_of::<T>(), p));
                i
            })
        } }
        macro_rules! mt { ($w:expr, $it:expr, $b:expr, $n:expr) => {
            drive(r, $w, $it, $n, |p: &mut T| {
                let i = locate(p as *const T as usize, $b, size_of::<T>(), $n, $w);
                held.push((i + ($b - base) / size_of::<T>(), p));
                i
            })
        } }
        macro_rules! tt { ($w:expr, $it:expr, $b:expr, $n:expr) => { drive(r, $w, $it, $n, |p: &T| locate(p as *const T as usize, $b, size_of::<T>(), $n, $w)) } }
        let mut sm;
        match r.below(15) {
            0 => drive(r, "VecCopy::iter", v.iter(), n, ident!(T, base, n, "VecCopy::iter")),
            1 => tt!("VecCopy::iter_as", some!(v.iter_as::<T>(), "iter_as"), base, n),
            2 => mu!("VecCopy::iter_mut", v.iter_mut(), base, n),
            3 => mt!("VecCopy::iter_mut_as", some!(v.iter_mut_as::<T>(), "iter_mut_as"), base, n),
            4 => drive(r, "SliceCopy::iter", v.as_slice().subslice(lo..hi).iter(), sn, ident!(T, sb, sn, "SliceCopy::iter")),
            5 => drive(r, "SliceCopy::into_iter", v.as_slice().into_subslice(lo..hi).into_iter(), sn, ident!(T, sb, sn, "SliceCopy::into_iter")),
            6 => tt!("SliceCopy::iter_as", some!(v.as_slice().subslice(lo..hi).iter_as::<T>(), "iter_as"), sb, sn),
            7 => { sm = v.as_mut_slice().into_subslice(lo..hi); mu!("SliceCopyMut::iter", sm.iter(), sb, sn) }
            8 => mu!("SliceCopyMut::into_iter", v.as_mut_slice().into_subslice(lo..hi).into_iter(), sb, sn),
            9 => { sm = v.as_mut_slice().into_subslice(lo..hi); mt!("SliceCopyMut::iter_as", some!(sm.iter_as::<T>(), "iter_as"), sb, sn) }
            10 => {
                let k = r.range(1, n + 1);
                let w = "SliceCopy::chunks_exact";
                drive(r, w, v.as_slice().chunks_exact(k), n / k, |c| {
                    same!(c.len(), k, "{}: length of a chunk", w);
                    locate(c.as_slice::<T>().unwrap().as_ptr() as usize, base, size_of::<T>() * k, n / k, w)
                });
            }
            11 => {
                let k = r.range(1, n + 1);
                let w = "SliceCopyMut::chunks_exact_mut";
                sm = v.as_mut_slice();
                let mut ms = vec![];
                drive(r, w, sm.chunks_exact_mut(k), n / k, |mut c| {
                    same!(c.len(), k, "{}: length of a chunk", w);
                    let i = locate(c.as_slice::<T>().unwrap().as_ptr() as usize, base, size_of::<T>() * k, n / k, w);
                    ms.push((i, c));
                    i
                });
                for (i, mut c) in ms {
                    for (j, p) in c.as_slice::<T>().unwrap().iter_mut().enumerate() {
                        same!(p.key(), T::norm(m[i * k + j]), "{}: element of a held chunk", w);
                        if r.flip() { let x = r.key(); *p = T::mk(x); m[i * k + j] = x; }
                    }
                }
            }
            12 => {
                t!("swap held");
                let mut refs: Vec<_> = v.iter_mut().enumerate().collect();
                same!(refs.len(), n, "number of references");
                for _ in 0..3 {
                    if n < 2 { break }
                    let (i, j) = (r.below(n), r.below(n));
                    if i == j { continue }
                    let (x, y) = crate::dynw::two(&mut refs, i, j);
                    x.1.swap(&mut y.1);
                    m.swap(i, j);
                }
                for (i, e) in refs {
                    same!(e.downcast::<T>().unwrap().key(), T::norm(m[i]), "element {} through its reference after swaps", i);
                }
            }
            13 => {
                t!("copy held");
                let k = r.key();
                let fresh = T::mk(k);
                let refs: Vec<_> = v.iter_mut().enumerate().collect();
                for (i, e) in refs.into_iter().rev() {
                    if r.flip() {
                        let e = some!(e.copy(CopyValueRef::new(&fresh)), "copy");
                        same!(e.downcast::<T>().unwrap().key(), T::norm(k), "copied element");
                        m[i] = k;
                    }
                }
            }
            _ => {
                // Bytes.
                let (raw, vt) = v.into_raw_parts();
                let w = "byte_chunks";
                drive(r, w, raw.byte_chunks(), n, |c| {
                    same!(c.len(), size_of::<T>(), "{}: length of a chunk", w);
                    locate(c.as_ptr() as usize, base, size_of::<T>(), n, w)
                });
                let mut raw = raw;
                let w = "byte_chunks_mut";
                drive(r, w, unsafe { raw.byte_chunks_mut() }, n, |c| {
                    same!(c.len(), size_of::<T>(), "{}: length of a chunk", w);
                    locate(c.as_ptr() as usize, base, size_of::<T>(), n, w)
                });
                v = unsafe { VecCopy::from_raw_parts(raw, vt) };
            }
        }
        scribble(r, held, &mut m, "held");
        compare(v.as_slice_as::<T>().unwrap(), &m, "VecCopy");
    }
}
