//! Allocations: conversions reuse them, requested capacity is there, growth is amortized.
//!
//! The guarding allocator (and Miri) moves a block on every reallocation, so that an unchanged
//! address of the elements means that there was none.
use crate::copyw::{keys, keys_of, normed, same_elems, typed, CEl};
use crate::el::*;
use crate::ledger;
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::any::{Any, TypeId};

fn ids<T: El>(s: &[T]) -> Vec<(u32, u64)> {
    ledger::uncounted(|| s.iter().map(|x| (x.generation().unwrap_or(x.serial()), x.key())).collect())
}

fn at<T: El>(v: &VecDyn<impl HasDrop>) -> usize {
    some!(v.as_slice_as::<T>(), "as_slice_as").as_ptr() as usize
}
fn at_copy<T: CEl, V>(v: &VecCopy<V>) -> usize {
    some!(v.as_slice_as::<T>(), "as_slice_as").as_ptr() as usize
}

/// Typed vectors through erased ones and back: same allocation, no element code.
pub fn round<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
    CloneVTable: VTable<T>,
    DropVTable: VTable<T>,
{
    let n = r.size();
    let spare = *r.of(&[0, 0, 1, 2, 7, 30]);
    let mut v: Vec<T> = Vec::with_capacity(n + spare);
    v.extend(keys(r, n).into_iter().map(T::mk));
    let mut want = ids(&v);
    let (ptr, cap) = (v.as_ptr() as usize, v.capacity());
    let trips = r.range(1, 4);
    let mut counts = ledger::counts();
    for _ in 0..trips {
        let how = r.below(9);
        t!("round{} n{} cap{}", how, v.len(), cap);
        let empty = v.capacity() == 0;
        v = match how {
            0 => some!(VecDyn::<AllVTable>::from_vec(v).into_vec::<T>(), "into_vec"),
            1 => some!(Option::<Vec<T>>::from(VecDyn::<AllVTable>::from(v)), "Option::from"),
            2 => some!(VecDyn::<AllVTable>::from(v).upcast::<CloneVTable>().into_vec::<T>(), "into_vec"),
            3 => some!(some!(VecDyn::<DropVTable>::from(v).check::<T>(), "check").into_vec::<T>(), "into_vec"),
            4 => {
                let d = into_dyn![VecDyn<dyn HasDrop>](VecDyn::<AllVTable>::from(v));
                some!(from_dyn![VecDyn<dyn HasDrop as AllVTable>](d).into_vec::<T>(), "into_vec")
            }
            5 => {
                let d = VecDyn::<AllVTable>::from(v);
                let (data, vt) = d.into_raw_parts();
                some!(unsafe { VecDyn::<AllVTable>::from_raw_parts(data, vt) }.into_vec::<T>(), "into_vec")
            }
            6 => {
                // With some use that does not need to grow.
                let mut d = VecDyn::<AllVTable>::from(v);
                let k = r.below(d.len() + 1);
                d.rotate_left(k);
                want.rotate_left(k);
                some!(some!(d.check_mut::<T>(), "check_mut").as_mut_slice_as::<T>(), "as_mut_slice_as").reverse();
                want.reverse();
                if d.len() > 1 {
                    d.as_mut_slice().swap(0, 1);
                    want.swap(0, 1);
                }
                some!(d.into_vec::<T>(), "into_vec")
            }
            7 => {
                // A clone that comes and goes changes nothing.
                let d = VecDyn::<CloneVTable>::from(v);
                drop(d.clone());
                counts = ledger::counts();
                some!(d.into_vec::<T>(), "into_vec")
            }
            _ => {
                let d = VecDyn::<DropVTable>::from(v);
                drop(VecDyn::<DropVTable>::with_type_from(&d));
                some!(d.into_vec::<T>(), "into_vec")
            }
        };
        if !empty || v.len() > 0 {
            same!(v.as_ptr() as usize, ptr, "address of the elements after a round trip ({} elements, capacity {})", v.len(), cap);
            same!(v.capacity(), cap, "capacity after a round trip of {} elements", v.len());
        }
        if empty {
            // Nothing to reuse; whatever capacity there is now has to be used from here on.
            same!(v.len(), 0, "length");
            break;
        }
        same!(ids(&v), want.clone(), "elements (identity, key) after a round trip");
        if T::TRACKED {
            same!(ledger::counts(), counts, "element code run by a round trip");
        }
    }
    // Still a working vector.
    v.push(T::mk(3));
    drop(v);
}

pub fn round_copy<T: CEl>(r: &mut Rng) {
    let n = r.size();
    let spare = *r.of(&[0, 0, 1, 2, 7, 30]);
    let k = keys(r, n);
    let mut v: Vec<T> = Vec::with_capacity(n + spare);
    v.extend(k.iter().map(|k| T::mk(*k)));
    let mut m = k;
    for _ in 0..r.range(1, 4) {
        let (ptr, cap) = (v.as_ptr() as usize, v.capacity());
        let how = r.below(6);
        t!("round{} n{} cap{}", how, v.len(), cap);
        v = match how {
            0 => some!(VecCopy::<()>::from_vec(v).into_vec::<T>(), "into_vec"),
            1 => some!(Option::<Vec<T>>::from(VecCopy::<()>::from(v)), "Option::from"),
            2 => {
                let d = VecCopy::<()>::from(v);
                if cap > 0 {
                    same!(d.capacity(), cap, "capacity()");
                }
                let (data, vt) = d.into_raw_parts();
                some!(unsafe { VecCopy::<()>::from_raw_parts(data, vt) }.into_vec::<T>(), "into_vec")
            }
            3 => some!(some!(VecCopy::<()>::from(v).check::<T>(), "check").into_vec::<T>(), "into_vec"),
            4 => {
                let mut d = VecCopy::<()>::from(v);
                let x = r.below(d.len() + 1);
                d.rotate_right(x);
                m.rotate_right(x);
                d.reserve(0);
                d.reserve(cap - d.len());
                some!(d.into_vec::<T>(), "into_vec")
            }
            _ => {
                let d = VecCopy::<()>::from(v);
                drop(d.clone());
                let d = into_dyn![VecCopy<dyn Any>](d);
                some!(d.into_vec::<T>(), "into_vec")
            }
        };
        if cap > 0 {
            same!(v.as_ptr() as usize, ptr, "address of the elements after a round trip ({} elements, capacity {})", v.len(), cap);
            same!(v.capacity(), cap, "capacity after a round trip of {} elements", v.len());
        }
        same_elems(&v, &m, "round trip");
    }
}

/// A vector with room for `room` more elements: they fit without a reallocation.
pub fn room<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    type V = AllVTable;
    let n = match r.below(40) {
        0 if !cfg!(miri) => r.range(41, 1200),
        0..=9 => r.range(10, 40),
        _ => r.range(0, 9),
    };
    let have;
    let make = r.below(5);
    t!("make{} n{}", make, n);
    let mut k: Vec<u64> = Vec::new();
    let mut v: VecDyn<V> = match make {
        0 => {
            have = n;
            VecDyn::with_capacity::<T>(n)
        }
        1 => {
            let mut w = Vec::with_capacity(n + 2);
            k = keys(r, n.min(2));
            w.extend(k.iter().map(|k| T::mk(*k)));
            have = w.capacity();
            w.into()
        }
        2 => {
            // Elements that were there before.
            k = keys(r, n);
            let mut w: VecDyn<V> = typed::<T>(&k).into();
            have = if n == 0 { 0 } else { n };
            if r.flip() {
                w.clear();
                k.clear();
            } else {
                let m = r.below(n + 1);
                some!(w.resize(m, T::mk(0)), "resize");
                k.truncate(m);
            }
            w
        }
        3 => {
            // Through a wider table, then narrowed again.
            have = n;
            let w = VecDyn::<V>::with_capacity::<T>(n);
            let d = into_dyn![VecDyn<dyn HasDrop>](w);
            from_dyn![VecDyn<dyn HasDrop as AllVTable>](d)
        }
        _ => {
            let w: VecDyn<V> = VecDyn::with_capacity::<T>(n);
            let w = some!(w.into_vec::<T>(), "into_vec");
            ensure!(w.capacity() >= n, "capacity {} of a vector made with capacity {}", w.capacity(), n);
            have = w.capacity();
            w.into()
        }
    };
    same!(v.element_type_id(), TypeId::of::<T>(), "element type");
    let ptr = at::<T>(&v);
    let check = |v: &VecDyn<V>, w: &str| {
        same!(at::<T>(v), ptr, "{}: address of the elements, {} of {} used", w, v.len(), have);
    };
    for round in 0..r.range(1, 3) {
        while k.len() < have {
            let x = r.key();
            let left = have - k.len();
            let how = r.below(7);
            t!("add{}", how);
            match how {
                0 | 1 => {
                    some!(v.push_as(T::mk(x)), "push_as");
                    k.push(x);
                    check(&v, "push_as");
                }
                2 => {
                    some!(v.push(BoxValue::<V>::new(T::mk(x))), "push");
                    k.push(x);
                    check(&v, "push");
                }
                3 => {
                    let y = T::mk(x);
                    some!(v.push_cloned(ValueRef::new(&y)), "push_cloned");
                    k.push(x);
                    check(&v, "push_cloned");
                }
                4 => {
                    let m = r.range(0, left.min(5));
                    let kk = keys(r, m);
                    let mut w: VecDyn<V> = typed::<T>(&kk).into();
                    some!(v.append(&mut w), "append");
                    k.extend(kk);
                    check(&v, "append");
                    same!(w.len(), 0, "length of the appended vector");
                    same!(w.element_type_id(), TypeId::of::<T>(), "type of the appended vector");
                }
                5 => {
                    let m = r.range(0, left.min(6));
                    some!(v.resize(k.len() + m, T::mk(x)), "resize");
                    for _ in 0..m {
                        k.push(x);
                    }
                    check(&v, "resize");
                }
                _ => {
                    // Less first; near the end only, where there is much to do.
                    let m = k.len() - r.below(k.len().min(10) + 1);
                    some!(v.resize(m, T::mk(x)), "resize");
                    k.truncate(m);
                    check(&v, "shrink");
                    some!(v.push_as(T::mk(x)), "push_as");
                    k.push(x);
                    check(&v, "push_as");
                }
            }
        }
        same!(keys_of(some!(v.as_slice_as::<T>(), "as_slice_as")), normed::<T>(&k), "elements of a full vector");
        if round == 0 {
            match r.below(3) {
                0 => {
                    v.clear();
                    k.clear();
                    check(&v, "clear");
                }
                1 => {
                    let m = r.below(k.len() + 1);
                    some!(v.resize(m, T::mk(1)), "resize");
                    k.truncate(m);
                    check(&v, "shrink");
                }
                _ => {}
            }
        }
    }
    let w = some!(v.into_vec::<T>(), "into_vec");
    if have > 0 {
        same!(w.as_ptr() as usize, ptr, "address of the elements, turned back");
        ensure!(w.capacity() >= have, "capacity {} turned back, had {}", w.capacity(), have);
    }
    same!(keys_of(&w), normed::<T>(&k), "elements turned back");
}

pub fn room_copy<T: CEl>(r: &mut Rng) {
    let n = match r.below(40) {
        0 if !cfg!(miri) => r.range(41, 1200),
        0..=9 => r.range(10, 40),
        _ => r.range(0, 9),
    };
    let make = r.below(4);
    t!("make{} n{}", make, n);
    let mut k: Vec<u64> = Vec::new();
    let mut v: VecCopy = match make {
        0 => VecCopy::with_capacity::<T>(n),
        1 => {
            let mut w = Vec::with_capacity(n + 2);
            k = keys(r, n.min(2));
            w.extend(k.iter().map(|k| T::mk(*k)));
            w.into()
        }
        2 => {
            k = keys(r, n);
            VecCopy::from_slice(&typed::<T>(&k))
        }
        _ => VecCopy::with_type::<T>(),
    };
    if make < 2 {
        ensure!(v.capacity() >= n, "capacity {} of a vector made with capacity {}", v.capacity(), n);
    }
    for _ in 0..r.range(1, 4) {
        let add = *r.of(&[0, 1, 2, 3, 9, 33]);
        let (c0, l0) = (v.capacity(), v.len());
        let before = at_copy::<T, _>(&v);
        v.reserve(add);
        t!("reserve{}", add);
        same!(v.len(), l0, "length after reserve");
        ensure!(v.capacity() >= l0 + add, "capacity {} after reserving {} on top of {}", v.capacity(), add, l0);
        if c0 >= l0 + add {
            same!((v.capacity(), at_copy::<T, _>(&v)), (c0, before), "(capacity, address) after reserving what is there");
        }
        let (cap, ptr) = (v.capacity(), at_copy::<T, _>(&v));
        let check = |v: &VecCopy, w: &str| {
            same!((v.capacity(), at_copy::<T, _>(v)), (cap, ptr), "{}: (capacity, address), {} used", w, v.len());
        };
        let full = l0 + add;
        while k.len() < full {
            let x = r.key();
            let left = full - k.len();
            let e = T::mk(x);
            let how = r.below(7);
            t!("add{}", how);
            match how {
                0 => {
                    some!(v.push_as(e), "push_as");
                    k.push(x);
                    check(&v, "push_as");
                }
                1 => {
                    some!(v.push(CopyValueRef::<()>::new(&e)), "push");
                    k.push(x);
                    check(&v, "push");
                }
                2 => {
                    let m = r.range(0, left.min(5));
                    let kk = keys(r, m);
                    let mut w: VecCopy = typed::<T>(&kk).into();
                    some!(v.append(&mut w), "append");
                    k.extend(kk);
                    check(&v, "append");
                    same!((w.len(), w.element_type_id()), (0, TypeId::of::<T>()), "the appended vector");
                }
                3 => {
                    let m = r.range(0, left.min(5));
                    let kk = keys(r, m);
                    let w: VecCopy = typed::<T>(&kk).into();
                    v.extend(w.iter());
                    k.extend(kk);
                    check(&v, "extend");
                }
                4 => {
                    let m = r.range(0, left.min(6));
                    some!(v.resize(k.len() + m, e), "resize");
                    for _ in 0..m {
                        k.push(x);
                    }
                    check(&v, "resize");
                }
                5 => {
                    let m = k.len() - r.below(k.len().min(10) + 1);
                    some!(v.resize(m, e), "resize");
                    k.truncate(m);
                    check(&v, "shrink");
                    some!(v.push_as(e), "push_as");
                    k.push(x);
                }
                _ => {
                    some!(v.fill(e), "fill");
                    k.iter_mut().for_each(|k| *k = x);
                    check(&v, "fill");
                    some!(v.push_as(e), "push_as");
                    k.push(x);
                }
            }
        }
        same_elems(some!(v.as_slice_as::<T>(), "as_slice_as"), &k, "elements");
        match r.below(4) {
            0 => {
                v.clear();
                k.clear();
                check(&v, "clear");
            }
            1 => {
                let m = r.below(k.len() + 1);
                some!(v.resize(m, T::mk(1)), "resize");
                k.truncate(m);
                check(&v, "shrink");
            }
            _ => {}
        }
    }
    let (cap, ptr) = (v.capacity(), at_copy::<T, _>(&v));
    let w = some!(v.into_vec::<T>(), "into_vec");
    same!((w.capacity(), w.as_ptr() as usize), (cap, ptr), "(capacity, address) turned back");
    same_elems(&w, &k, "turned back");
}

/// Append moves everything and leaves a usable empty vector of the same type.
pub fn appends<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    type V = AllVTable;
    let (n, m) = (r.size(), r.size());
    let (ka, kb) = (keys(r, n), keys(r, m));
    let mut a: VecDyn<V> = typed::<T>(&ka).into();
    let mut b: VecDyn<V> = typed::<T>(&kb).into();
    let (mut ia, mut ib) = (ids(some!(a.as_slice_as::<T>(), "as_slice_as")), ids(some!(b.as_slice_as::<T>(), "as_slice_as")));
    for _ in 0..r.range(1, 4) {
        let c0 = ledger::counts();
        let way = r.flip();
        t!("append{} {} {}", way as u8, ia.len(), ib.len());
        let (x, y, ix, iy) = if way { (&mut a, &mut b, &mut ia, &mut ib) } else { (&mut b, &mut a, &mut ib, &mut ia) };
        some!(x.append(y), "append");
        ix.append(iy);
        if T::TRACKED {
            same!(ledger::counts(), c0, "element code run by append");
        }
        same!(ids(some!(x.as_slice_as::<T>(), "as_slice_as")), ix.clone(), "target of append (identity, key)");
        same!((y.len(), y.is_empty(), y.element_type_id(), y.element_size()), (0, true, TypeId::of::<T>(), std::mem::size_of::<T>()), "source of append");
        ensure!(y.iter().next().is_none(), "the emptied vector yields an element");
        // Use the emptied vector again.
        for _ in 0..r.below(4) {
            let e = T::mk(r.key());
            let id = ids(std::slice::from_ref(&e))[0];
            if r.flip() {
                some!(y.push_as(e), "push_as to the emptied vector");
            } else {
                some!(y.push(BoxValue::<V>::new(e)), "push to the emptied vector");
            }
            iy.push(id);
        }
        if iy.is_empty() && r.chance(1, 4) {
            drop(y.clone());
        }
        same!(ids(some!(y.as_slice_as::<T>(), "as_slice_as")), iy.clone(), "refilled source of append");
    }
    match r.below(3) {
        0 => drop(a),
        1 => drop(b),
        _ => {
            let a = some!(a.into_vec::<T>(), "into_vec");
            let b = some!(b.into_vec::<T>(), "into_vec");
            same!((ids(&a), ids(&b)), (ia, ib), "turned back");
        }
    }
}

/// Adding `n` elements one at a time moves them O(log n) times.
pub fn growth<T: El + MaybeHash>(r: &mut Rng, n: usize)
where
    AllVTable: VTable<T>,
{
    type V = AllVTable;
    let make = r.below(4);
    let how = r.below(5);
    t!("growth n{} make{} how{}", n, make, how);
    let mut v: VecDyn<V> = match make {
        0 => VecDyn::with_type::<T>(),
        1 => Vec::<T>::new().into(),
        2 => {
            let w: VecDyn<V> = vec![T::mk(1)].into();
            VecDyn::with_type_from(&w)
        }
        _ => {
            let mut w: VecDyn<V> = vec![T::mk(1)].into();
            w.clear();
            w
        }
    };
    let one = T::mk(7);
    let mut other: VecDyn<V> = VecDyn::with_type::<T>();
    let mut ptr = at::<T>(&v);
    let mut moves = 0u32;
    for i in 0..n {
        match if how == 4 { r.below(4) } else { how } {
            0 => {
                some!(v.push_as(T::mk(i as u64)), "push_as");
            }
            1 => {
                some!(v.push(BoxValue::<V>::new(T::mk(i as u64))), "push");
            }
            2 => {
                some!(v.push_cloned(ValueRef::new(&one)), "push_cloned");
            }
            _ => {
                some!(other.push_as(T::mk(i as u64)), "push_as");
                some!(v.append(&mut other), "append");
            }
        }
        let p = at::<T>(&v);
        if p != ptr {
            moves += 1;
            ptr = p;
        }
    }
    same!(v.len(), n, "length");
    let log = usize::BITS - n.leading_zeros();
    add("reallocations seen", moves as u64);
    // A growth factor of 1.5 or more.
    ensure!(moves <= 2 * log + 6, "{} reallocations for {} elements added one by one", moves, n);
}

pub fn growth_copy<T: CEl>(r: &mut Rng, n: usize) {
    let make = r.below(4);
    let how = r.below(6);
    t!("growth n{} make{} how{}", n, make, how);
    let mut v: VecCopy = match make {
        0 => VecCopy::with_type::<T>(),
        1 => Vec::<T>::new().into(),
        2 => VecCopy::with_type_from(&VecCopy::<()>::with_type::<T>()),
        _ => VecCopy::from_slice(&[T::mk(1)][..0]),
    };
    let one = T::mk(7);
    let mut other: VecCopy = VecCopy::with_type::<T>();
    let mut ptr = at_copy::<T, _>(&v);
    let mut moves = 0u32;
    for i in 0..n {
        match if how == 5 { r.below(5) } else { how } {
            0 => {
                some!(v.push_as(one), "push_as");
            }
            1 => {
                some!(v.push(CopyValueRef::<()>::new(&one)), "push");
            }
            2 => {
                some!(other.push_as(one), "push_as");
                some!(v.append(&mut other), "append");
            }
            3 => v.extend(Some(CopyValueRef::new(&one))),
            _ => {
                some!(v.resize(i + 1, one), "resize");
            }
        }
        let p = at_copy::<T, _>(&v);
        if p != ptr {
            moves += 1;
            ptr = p;
        }
    }
    same!(v.len(), n, "length");
    let log = usize::BITS - n.leading_zeros();
    add("reallocations seen", moves as u64);
    ensure!(moves <= 2 * log + 6, "{} reallocations for {} elements added one by one", moves, n);
}
