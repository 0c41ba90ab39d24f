//! Clones: element-wise lineage (who was cloned from whom), own storage, independence.
use crate::copyw::{keys, keys_of, normed, same_elems, typed, CEl};
use crate::el::*;
use crate::ledger::{self, Ev};
use crate::report::*;
use crate::values::is_of;
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::mem::size_of;

/// (serial, key) of each element, without running counted element code.
fn ids<T: El>(s: &[T]) -> Vec<(u32, u64)> {
    ledger::uncounted(|| s.iter().map(|x| (x.generation().unwrap_or(x.serial()), x.key())).collect())
}

/// `new` must be clones of `old`, element by element, each made by one call of the element's clone.
fn lineage<T: El>(old: &[(u32, u64)], new: &[T], before: [u64; ledger::NEV], what: &str) {
    let n = ids(new);
    same!(n.len(), old.len(), "{}: number of clones", what);
    for (i, ((os, ok), (ns, nk))) in old.iter().zip(&n).enumerate() {
        same!(nk, ok, "{}: value of clone {} of {}", what, i, n.len());
        if T::TRACKED {
            same!(ledger::parent(*ns), *os, "{}: original of clone {}", what, i);
        } else if new[i].generation().is_some() {
            same!(*ns, *os + 1, "{}: generation of clone {}", what, i);
        }
    }
    if T::TRACKED {
        let mut b = before;
        b[Ev::Clone as usize] += n.len() as u64;
        same!(ledger::counts(), b, "{}: element code run (made, cloned, cloned in place, dropped, eq, hash, fmt) for {} elements", what, n.len());
    }
}

/// The two typed slices share no byte.
fn disjoint<T: El>(a: &[T], b: &[T], what: &str) {
    if size_of::<T>() == 0 || a.is_empty() || b.is_empty() {
        return;
    }
    let (x, y) = (a.as_ptr() as usize, b.as_ptr() as usize);
    let (xe, ye) = (x + std::mem::size_of_val(a), y + std::mem::size_of_val(b));
    ensure!(xe <= y || ye <= x, "{}: clone shares storage with the original", what);
}

fn same_ids<T: El>(s: &[T], m: &[(u32, u64)], what: &str) {
    same!(ids(s), m.to_vec(), "{}: (identity, key) of the elements", what);
}

/// Modify `a` at random; returns its new contents.
fn modify<T: El>(r: &mut Rng, v: &mut VecDyn<AllVTable>)
where
    AllVTable: VTable<T>,
{
    for _ in 0..r.range(1, 4) {
        let n = v.len();
        match r.below(10) {
            0 => v.clear(),
            1 => {
                some!(v.push_as(T::mk(r.key())), "push_as");
            }
            2 => {
                let m = r.below(2 * n + 3);
                some!(v.resize(m, T::mk(r.key())), "resize");
            }
            3 => v.rotate_left(r.below(n + 1)),
            4 if n > 0 => *some!(v.get_mut_as::<T>(r.below(n)), "get_mut_as") = T::mk(r.key()),
            5 if n > 0 => v.get_mut(r.below(n)).assign(BoxValue::new(T::mk(r.key()))),
            6 => {
                some!(v.fill(T::mk(r.key())), "fill");
            }
            7 => some!(v.as_mut_slice_as::<T>(), "as_mut_slice_as").reverse(),
            8 if n > 0 => {
                let b = BoxValue::<AllVTable>::new(T::mk(r.key()));
                let _ = v.get_mut(r.below(n)).clone_from_other(&b);
            }
            _ => {
                let mut w: VecDyn<AllVTable> = vec![T::mk(r.key()), T::mk(r.key())].into();
                some!(v.append(&mut w), "append");
            }
        }
    }
}

pub fn clones<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    type V = AllVTable;
    let k = {
        let n = r.size();
        keys(r, n)
    };
    let n = k.len();
    let mut src: Vec<T> = Vec::with_capacity(n + r.below(3));
    src.extend(k.iter().map(|k| T::mk(*k)));
    let old = ids(&src);
    let op = r.below(22);
    t!("op{} n{} {}", op, n, k.first().copied().unwrap_or(0));
    // Clones into an erased vector: checked against the original, then both used independently.
    macro_rules! vecs { ($a:expr, $b:expr, $w:expr) => {{
        let (mut a, mut b): (VecDyn<V>, VecDyn<V>) = ($a, $b);
        let ai = ids(some!(a.as_slice_as::<T>(), "as_slice_as"));
        disjoint(some!(a.as_slice_as::<T>(), "as_slice_as"), some!(b.as_slice_as::<T>(), "as_slice_as"), $w);
        match r.below(5) {
            0 => {
                drop(a);
                same!(keys_of(some!(b.as_slice_as::<T>(), "as_slice_as")), normed::<T>(&k), "{}: clone after the original is gone", $w);
                modify::<T>(r, &mut b);
            }
            1 => {
                drop(b);
                same_ids(some!(a.as_slice_as::<T>(), "as_slice_as"), &ai, "original after the clone is gone");
                modify::<T>(r, &mut a);
            }
            2 => {
                let bi = ids(some!(b.as_slice_as::<T>(), "as_slice_as"));
                modify::<T>(r, &mut a);
                same_ids(some!(b.as_slice_as::<T>(), "as_slice_as"), &bi, "clone after changing the original");
                let v = some!(a.into_vec::<T>(), "into_vec");
                drop(v);
                same_ids(some!(b.as_slice_as::<T>(), "as_slice_as"), &bi, "clone after dropping the original");
            }
            3 => {
                modify::<T>(r, &mut b);
                same_ids(some!(a.as_slice_as::<T>(), "as_slice_as"), &ai, "original after changing the clone");
                let v = some!(b.into_vec::<T>(), "into_vec");
                drop(v);
                same_ids(some!(a.as_slice_as::<T>(), "as_slice_as"), &ai, "original after dropping the clone");
                modify::<T>(r, &mut a);
            }
            _ => {
                // Clones of clones, side by side.
                let bi = ids(some!(b.as_slice_as::<T>(), "as_slice_as"));
                let c0 = ledger::counts();
                let mut c = b.clone();
                lineage(&bi, some!(c.as_slice_as::<T>(), "as_slice_as"), c0, "clone of a clone");
                modify::<T>(r, &mut b);
                let ci = ids(some!(c.as_slice_as::<T>(), "as_slice_as"));
                modify::<T>(r, &mut a);
                same_ids(some!(c.as_slice_as::<T>(), "as_slice_as"), &ci, "clone of a clone");
                some!(c.append(&mut a), "append");
                drop(b);
                same_ids(&some!(c.as_slice_as::<T>(), "as_slice_as")[..ci.len()], &ci, "clone of a clone, appended to");
            }
        }
    }} }
    let c0;
    match op {
        0 | 1 => {
            let a: VecDyn<V> = src.into();
            c0 = ledger::counts();
            let b = a.clone();
            lineage(&old, some!(b.as_slice_as::<T>(), "as_slice_as"), c0, "clone");
            same_ids(some!(a.as_slice_as::<T>(), "as_slice_as"), &old, "original of a clone");
            same!((b.len(), b.element_type_id(), b.element_size()), (n, std::any::TypeId::of::<T>(), size_of::<T>()), "clone: description");
            if op == 0 { vecs!(a, b, "clone") } else { vecs!(b.clone(), a, "clone of a clone, original") }
        }
        2 => {
            // With spare capacity, after growth and shrinking.
            let mut a: VecDyn<V> = src.into();
            for _ in 0..9 {
                some!(a.push_as(T::mk(1)), "push_as");
            }
            some!(a.resize(n, T::mk(0)), "resize");
            c0 = ledger::counts();
            let b = a.clone();
            lineage(&old, some!(b.as_slice_as::<T>(), "as_slice_as"), c0, "clone with spare capacity");
            vecs!(a, b, "clone with spare capacity")
        }
        3 => {
            c0 = ledger::counts();
            let b = VecDyn::<V>::from_slice(&src);
            lineage(&old, some!(b.as_slice_as::<T>(), "as_slice_as"), c0, "from_slice");
            same_ids(&src, &old, "source of from_slice");
            vecs!(src.into(), b, "from_slice")
        }
        4 => {
            c0 = ledger::counts();
            let b: VecDyn<V> = VecDyn::from(&src[..]);
            lineage(&old, some!(b.as_slice_as::<T>(), "as_slice_as"), c0, "From<&[T]>");
            vecs!(src.into(), b, "From<&[T]>")
        }
        5 => {
            let a: VecDyn<V> = src.into();
            c0 = ledger::counts();
            let b = some!(a.clone_into_vec::<T>(), "clone_into_vec");
            lineage(&old, &b, c0, "clone_into_vec");
            vecs!(a, b.into(), "clone_into_vec")
        }
        6 => {
            let a: VecDyn<V> = src.into();
            let mut out: Vec<T> = typed(&[5, 6]);
            let had = ids(&out);
            c0 = ledger::counts();
            some!(a.append_cloned_to_vec(&mut out), "append_cloned_to_vec");
            lineage(&old, &out[2..], c0, "append_cloned_to_vec");
            same_ids(&out[..2], &had, "append_cloned_to_vec: elements that were there");
            let b: Vec<T> = out.drain(2..).collect();
            vecs!(a, b.into(), "append_cloned_to_vec")
        }
        7 | 8 => {
            let mut a: VecDyn<V> = src.into();
            c0 = ledger::counts();
            let b = if op == 7 { some!(a.as_slice().clone_into_vec::<T>(), "clone_into_vec") } else { some!(a.as_mut_slice().clone_into_vec::<T>(), "clone_into_vec") };
            lineage(&old, &b, c0, "clone_into_vec of a view");
            vecs!(a, b.into(), "clone_into_vec of a view")
        }
        9 | 10 => {
            let mut a: VecDyn<V> = src.into();
            let mut out: Vec<T> = typed(&[5]);
            c0 = ledger::counts();
            if op == 9 {
                some!(a.as_slice().append_clone_to_vec(&mut out), "append_clone_to_vec");
            } else {
                some!(a.as_mut_slice().append_clone_to_vec(&mut out), "append_clone_to_vec");
            }
            lineage(&old, &out[1..], c0, "append_clone_to_vec of a view");
            drop(out.remove(0));
            vecs!(a, out.into(), "append_clone_to_vec of a view")
        }
        11 => {
            // Part of a view.
            let a: VecDyn<V> = src.into();
            let (x, y) = (r.below(n + 1), r.below(n + 1));
            let (x, y) = (x.min(y), x.max(y));
            c0 = ledger::counts();
            let b = some!(a.as_slice().into_subslice(x..y).clone_into_vec::<T>(), "clone_into_vec");
            lineage(&old[x..y], &b, c0, "clone_into_vec of a part");
            same_ids(some!(a.as_slice_as::<T>(), "as_slice_as"), &old, "original");
        }
        12 => {
            // Element by element.
            let a: VecDyn<V> = src.into();
            let mut b: VecDyn<V> = VecDyn::with_type_from(&a);
            c0 = ledger::counts();
            for e in a.iter() {
                some!(b.push_cloned(e), "push_cloned");
            }
            lineage(&old, some!(b.as_slice_as::<T>(), "as_slice_as"), c0, "push_cloned");
            vecs!(a, b, "push_cloned")
        }
        13 => {
            let a: VecDyn<V> = src.into();
            c0 = ledger::counts();
            let vals: Vec<BoxValue<V>> = a.iter().map(|e| e.clone_value()).collect();
            let c1 = ledger::counts();
            let mut b: VecDyn<V> = VecDyn::with_type_from(&a);
            for v in vals {
                some!(b.push(v), "push");
            }
            same!(ledger::counts(), c1, "element code run by moving clones into a vector");
            lineage(&old, some!(b.as_slice_as::<T>(), "as_slice_as"), c0, "clone_value");
            vecs!(a, b, "clone_value")
        }
        14 => {
            let mut a: VecDyn<V> = src.into();
            c0 = ledger::counts();
            let vals: Vec<BoxValue<V>> = a.iter_mut().map(|e| e.clone_value()).collect();
            let b: Vec<T> = vals.into_iter().map(|v| *some!(v.downcast::<T>(), "downcast")).collect();
            lineage(&old, &b, c0, "clone_value of a mutable reference");
            vecs!(a, b.into(), "clone_value of a mutable reference")
        }
        15 if size_of::<T>() == std::mem::size_of::<usize>() => {
            let mut a: VecDyn<V> = src.into();
            c0 = ledger::counts();
            let vals: Vec<SmallValue<V>> = if r.flip() { a.iter().map(|e| e.clone_small_value()).collect() } else { a.iter_mut().map(|e| e.clone_small_value()).collect() };
            let b: Vec<T> = vals.into_iter().map(|v| some!(v.downcast::<T>(), "downcast")).collect();
            lineage(&old, &b, c0, "clone_small_value");
            vecs!(a, b.into(), "clone_small_value")
        }
        16 => {
            // Values.
            let vals: Vec<BoxValue<V>> = src.into_iter().map(BoxValue::new).collect();
            c0 = ledger::counts();
            let cl: Vec<BoxValue<V>> = vals.clone();
            if r.flip() {
                drop(vals);
                let b: Vec<T> = cl.into_iter().map(|v| *some!(v.downcast::<T>(), "downcast")).collect();
                same!(keys_of(&b), normed::<T>(&k), "clones of values");
            } else {
                for (x, y) in vals.iter().zip(&cl) {
                    let (x, y) = (some!(x.as_ref().downcast::<T>(), "downcast"), some!(y.as_ref().downcast::<T>(), "downcast"));
                    disjoint(std::slice::from_ref(x), std::slice::from_ref(y), "clone of a value");
                }
                let b: Vec<T> = cl.into_iter().map(|v| *some!(v.downcast::<T>(), "downcast")).collect();
                lineage(&old, &b, c0, "clone of a value");
                drop(b);
                let a: Vec<T> = vals.into_iter().map(|v| *some!(v.downcast::<T>(), "downcast")).collect();
                same_ids(&a, &old, "original values");
            }
        }
        17 if size_of::<T>() == std::mem::size_of::<usize>() => {
            let vals: Vec<SmallValue<V>> = src.into_iter().map(SmallValue::new).collect();
            c0 = ledger::counts();
            let cl: Vec<SmallValue<V>> = vals.clone();
            if r.flip() {
                drop(vals);
                let b: Vec<T> = cl.into_iter().map(|v| some!(v.downcast::<T>(), "downcast")).collect();
                same!(keys_of(&b), normed::<T>(&k), "clones of values");
            } else {
                let b: Vec<T> = cl.into_iter().map(|v| some!(v.downcast::<T>(), "downcast")).collect();
                lineage(&old, &b, c0, "clone of a small value");
                drop(b);
                let a: Vec<T> = vals.into_iter().map(|v| some!(v.downcast::<T>(), "downcast")).collect();
                same_ids(&a, &old, "original values");
            }
        }
        18 => {
            // Into existing elements: each destination takes over the value of its source.
            let mut a: VecDyn<V> = typed::<T>(&keys(r, n + 2)).into();
            let ai = ids(some!(a.as_slice_as::<T>(), "as_slice_as"));
            c0 = ledger::counts();
            some!(a.as_mut_slice().subslice_mut(1..n + 1).clone_from_slice(&src), "clone_from_slice");
            let c1 = ledger::counts();
            let now = ids(some!(a.as_slice_as::<T>(), "as_slice_as"));
            same!((now[0], now[n + 1]), (ai[0], ai[n + 1]), "clone_from_slice: elements beside");
            for i in 0..n {
                same!(now[i + 1].1, old[i].1, "clone_from_slice: value {}", i);
                if src[i].generation().is_some() {
                    same!(now[i + 1].0, old[i].0 + 1, "clone_from_slice: generation of clone {}", i);
                }
            }
            if T::TRACKED {
                let made = c1[Ev::Clone as usize] - c0[Ev::Clone as usize] + c1[Ev::CloneFrom as usize] - c0[Ev::CloneFrom as usize];
                same!(made, n as u64, "clone_from_slice: calls of clone or clone_from");
            }
            same_ids(&src, &old, "source of clone_from_slice");
            drop(src);
            drop(a);
        }
        19 => {
            // In place, by reference.
            if n > 0 {
                let mut a: VecDyn<V> = typed::<T>(&keys(r, n)).into();
                let b: VecDyn<V> = src.into();
                c0 = ledger::counts();
                for (mut x, y) in a.iter_mut().zip(b.iter()) {
                    ensure!(x.clone_from_other(y).is_ok(), "clone_from_other refused the same type");
                }
                let c1 = ledger::counts();
                if T::TRACKED {
                    let mut e = c0;
                    e[Ev::CloneFrom as usize] += n as u64;
                    same!(c1, e, "clone_from_other: element code run");
                }
                same!(keys_of(some!(a.as_slice_as::<T>(), "as_slice_as")), normed::<T>(&k), "clone_from_other");
                let (x, y) = (some!(a.as_slice_as::<T>(), "as_slice_as"), some!(b.as_slice_as::<T>(), "as_slice_as"));
                for i in 0..n {
                    same!(x[i].generation(), y[i].generation().map(|g| g + 1), "clone_from_other: generation of clone {}", i);
                }
                same_ids(some!(b.as_slice_as::<T>(), "as_slice_as"), &old, "source of clone_from_other");
                vecs!(b, a, "clone_from_other");
            }
        }
        20 => {
            // Through narrowed tables.
            let a: VecDyn<V> = src.into();
            let a = a.upcast::<CloneVTable>();
            c0 = ledger::counts();
            let b = a.clone();
            lineage(&old, some!(b.as_slice_as::<T>(), "as_slice_as"), c0, "clone with CloneVTable");
            disjoint(some!(a.as_slice_as::<T>(), "as_slice_as"), some!(b.as_slice_as::<T>(), "as_slice_as"), "clone with CloneVTable");
            drop(a);
            let mut b2 = b.clone();
            drop(b);
            same!(keys_of(some!(b2.as_slice_as::<T>(), "as_slice_as")), normed::<T>(&k), "clone of a clone");
            some!(b2.push_as(T::mk(4)), "push_as");
        }
        _ => {
            // Cloning over an existing vector.
            let a: VecDyn<V> = src.into();
            let mut b: VecDyn<V> = { let m = r.below(5); typed::<T>(&keys(r, m)).into() };
            let bi = ids(some!(b.as_slice_as::<T>(), "as_slice_as"));
            b.clone_from(&a);
            same!(keys_of(some!(b.as_slice_as::<T>(), "as_slice_as")), normed::<T>(&k), "clone_from");
            same_ids(some!(a.as_slice_as::<T>(), "as_slice_as"), &old, "source of clone_from");
            if T::TRACKED {
                for (i, x) in ids(some!(b.as_slice_as::<T>(), "as_slice_as")).iter().enumerate() {
                    ensure!(ledger::parent(x.0) == old[i].0 || bi.iter().any(|y| y.0 == x.0), "clone_from: element {} is neither a clone nor reused", i);
                }
                same!(ledger::live(), 2 * n as u64, "elements alive after clone_from");
            }
            vecs!(a, b, "clone_from")
        }
    }
}

/// Copies of plain data.
pub fn copies<T: CEl>(r: &mut Rng) {
    let n = r.size();
    let k = keys(r, n);
    let mut a: VecCopy = typed::<T>(&k).into();
    if r.flip() {
        a.reserve(r.below(9));
    }
    let op = r.below(9);
    t!("op{} n{} {}", op, n, k.first().copied().unwrap_or(0));
    let mut b: VecCopy = match op {
        0 | 1 => a.clone(),
        2 => some!(a.copy_into_vec::<T>(), "copy_into_vec").into(),
        3 => some!(a.as_slice().copy_into_vec::<T>(), "copy_into_vec").into(),
        4 => some!(a.as_mut_slice().copy_into_vec::<T>(), "copy_into_vec").into(),
        5 => VecCopy::from_slice(some!(a.as_slice_as::<T>(), "as_slice_as")),
        6 => VecCopy::from(some!(a.as_slice_as::<T>(), "as_slice_as")),
        7 => {
            let mut b: VecCopy = typed::<T>(&[1, 2, 3]).into();
            b.clone_from(&a);
            b
        }
        _ if n > 0 => a.iter().collect(),
        _ => a.clone(),
    };
    disjoint(some!(a.as_slice_as::<T>(), "as_slice_as"), some!(b.as_slice_as::<T>(), "as_slice_as"), "copy");
    same_elems(some!(b.as_slice_as::<T>(), "as_slice_as"), &k, "copy");
    same!((b.len(), b.element_type_id()), (n, std::any::TypeId::of::<T>()), "copy: description");
    let change = |r: &mut Rng, v: &mut VecCopy| {
        for _ in 0..r.range(1, 4) {
            let n = v.len();
            match r.below(8) {
                0 => v.clear(),
                1 => {
                    some!(v.push_as(T::mk(r.key())), "push_as");
                }
                2 => {
                    let m = r.below(2 * n + 3);
                    some!(v.resize(m, T::mk(r.key())), "resize");
                }
                3 => v.rotate_right(r.below(n + 1)),
                4 if n > 0 => *some!(v.get_mut_as::<T>(r.below(n)), "get_mut_as") = T::mk(r.key()),
                5 if n > 0 => {
                    let x = T::mk(r.key());
                    ensure!(v.get_mut(r.below(n)).copy(CopyValueRef::new(&x)).is_some(), "copy refused the same type");
                }
                6 => {
                    some!(v.fill(T::mk(r.key())), "fill");
                }
                _ => {
                    let mut w: VecCopy = typed::<T>(&[3, 4]).into();
                    some!(v.append(&mut w), "append");
                }
            }
        }
    };
    match r.below(4) {
        0 => {
            drop(a);
            same_elems(some!(b.as_slice_as::<T>(), "as_slice_as"), &k, "copy after the original is gone");
            change(r, &mut b);
        }
        1 => {
            drop(b);
            same_elems(some!(a.as_slice_as::<T>(), "as_slice_as"), &k, "original after the copy is gone");
            change(r, &mut a);
        }
        2 => {
            change(r, &mut a);
            same_elems(some!(b.as_slice_as::<T>(), "as_slice_as"), &k, "copy after changing the original");
            drop(a);
            same_elems(some!(b.as_slice_as::<T>(), "as_slice_as"), &k, "copy after the original is gone");
        }
        _ => {
            change(r, &mut b);
            same_elems(some!(a.as_slice_as::<T>(), "as_slice_as"), &k, "original after changing the copy");
            let c = a.clone();
            drop(a);
            drop(b);
            same_elems(some!(c.as_slice_as::<T>(), "as_slice_as"), &k, "second copy");
        }
    }
}

/// The number of clones made by operations that repeat one value: never more than needed.
pub fn repeats<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    type V = AllVTable;
    let n = if r.below(20) == 0 { r.size() } else { r.below(9) };
    let x = T::mk(r.key());
    let is = is_of(&x, false);
    let op = r.below(3);
    t!("op{} n{}", op, n);
    let v: VecDyn<V>;
    let c0 = ledger::counts();
    let (start, added) = match op {
        0 => {
            v = VecDyn::with_size(n, x);
            (0, n)
        }
        1 => {
            let mut w: VecDyn<V> = typed::<T>(&[1, 2]).into();
            some!(w.resize(n + 2, x), "resize");
            v = w;
            (2, n)
        }
        _ => {
            let mut w: VecDyn<V> = typed::<T>(&keys(r, n)).into();
            some!(w.fill(x), "fill");
            v = w;
            (0, n)
        }
    };
    let s = some!(v.as_slice_as::<T>(), "as_slice_as");
    same!(s.len(), start + added, "number of elements");
    if T::TRACKED {
        let c = ledger::counts();
        let made = c[Ev::Clone as usize] - c0[Ev::Clone as usize] + c[Ev::CloneFrom as usize] - c0[Ev::CloneFrom as usize];
        ensure!(made <= added as u64, "{} clones made for {} elements", made, added);
        let live = ledger::live();
        same!(live, s.len() as u64, "elements alive");
    }
    for e in &s[start..] {
        same!(e.key(), is.key, "repeated value");
    }
}
