//! Type confusion: contents of type `A` accessed as `B`, for pairs of identical layout.
use crate::copyw::{keys, keys_of, normed, same_elems, typed, CEl};
use crate::dynw::verify_vec;
use crate::el::El;
use crate::ledger;
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;

/// The access is possible exactly if the types are the same.
macro_rules! iff { ($same:expr, $e:expr, $w:expr) => {{ let got = $e; ensure!(got == $same, "{}: {} as {}: {}", $w, A::NAME, B::NAME, if got { "accepted although the types differ" } else { "refused although the types are the same" }) }} }

pub const PAIR_CASES: u64 = 11;

pub fn pair<A: El + MaybeHash, B: El + MaybeHash, V: Vt + VTable<A> + VTable<B>>(r: &mut Rng, case: u64) {
    let eq = TypeId::of::<A>() == TypeId::of::<B>();
    let n = r.range(1, 5);
    let mut m = keys(r, n);
    let mut v: VecDyn<V> = typed::<A>(&m).into();
    let k = r.key();
    let e = r.below(n);
    t!("pair{} {} as {} n={}", case % PAIR_CASES, A::NAME, B::NAME, n);
    match case % PAIR_CASES {
        0 => {
            iff!(eq, v.get_ref_as::<B>(e).is_some(), "get_ref_as");
            iff!(eq, v.get_mut_as::<B>(e).is_some(), "get_mut_as");
            iff!(eq, v.get(e).downcast::<B>().is_some(), "ValueRef::downcast");
            iff!(eq, v.get_mut(e).downcast::<B>().is_some(), "ValueMut::downcast");
            iff!(eq, v.get(e).is::<B>(), "ValueRef::is");
            iff!(eq, v.get_mut(e).is::<B>(), "ValueMut::is");
            iff!(eq, v.iter_as::<B>().is_some(), "iter_as");
            iff!(eq, v.iter_mut_as::<B>().is_some(), "iter_mut_as");
            iff!(eq, v.as_slice_as::<B>().is_some(), "as_slice_as");
            iff!(eq, v.as_mut_slice_as::<B>().is_some(), "as_mut_slice_as");
            iff!(eq, v.check_ref::<B>().is_some(), "check_ref");
            iff!(eq, v.check_mut::<B>().is_some(), "check_mut");
            iff!(eq, v.element_type_id() == TypeId::of::<B>(), "element_type_id");
            iff!(eq, v.iter().all(|x| x.is::<B>()) && v.iter().any(|x| x.is::<B>()), "is of iterated references");
            iff!(eq, v.iter_mut().all(|x| x.downcast::<B>().is_some()), "downcast of iterated references");
        }
        1 => {
            let s = v.as_slice();
            iff!(eq, s.as_slice::<B>().is_some(), "Slice::as_slice");
            iff!(eq, s.iter_as::<B>().is_some(), "Slice::iter_as");
            iff!(eq, s.get_as::<B>(e).is_some(), "Slice::get_as");
            iff!(eq, s.check::<B>().is_some(), "Slice::check");
            iff!(eq, s.get(e).downcast::<B>().is_some(), "Slice::get");
            iff!(eq, s.clone_into_vec::<B>().is_some(), "Slice::clone_into_vec");
            let mut out: Vec<B> = vec![];
            iff!(eq, s.append_clone_to_vec::<B>(&mut out).is_some(), "Slice::append_clone_to_vec");
            same!(out.len(), if eq { n } else { 0 }, "append_clone_to_vec");
            iff!(eq, s.element_type_id() == TypeId::of::<B>(), "Slice::element_type_id");
            iff!(eq, s.chunks_exact(1).all(|c| c.check::<B>().is_some()), "chunks");
            iff!(eq, s.split_at(e).1.as_slice::<B>().is_some(), "split");
            iff!(eq, s.subslice(e..).as_slice::<B>().is_some(), "subslice");
        }
        2 => {
            let mut s = v.as_mut_slice();
            iff!(eq, s.as_slice::<B>().is_some(), "SliceMut::as_slice");
            iff!(eq, s.iter_as::<B>().is_some(), "SliceMut::iter_as");
            iff!(eq, s.get_as::<B>(e).is_some(), "SliceMut::get_as");
            iff!(eq, s.check::<B>().is_some(), "SliceMut::check");
            iff!(eq, s.get(e).downcast::<B>().is_some(), "SliceMut::get");
            iff!(eq, s.get_mut(e).downcast::<B>().is_some(), "SliceMut::get_mut");
            iff!(eq, s.reborrow().as_slice::<B>().is_some(), "SliceMut::reborrow");
            let mut out: Vec<B> = vec![];
            iff!(eq, s.append_clone_to_vec::<B>(&mut out).is_some(), "SliceMut::append_clone_to_vec");
            same!(out.len(), if eq { n } else { 0 }, "append_clone_to_vec");
            let bk = keys(r, n);
            iff!(eq, s.clone_from_slice::<B>(&typed::<B>(&bk)).is_some(), "SliceMut::clone_from_slice");
            iff!(eq, s.clone_into_vec::<B>().is_some(), "SliceMut::clone_into_vec");
            if eq {
                m = bk;
            }
        }
        3 => {
            iff!(eq, v.push_as(B::mk(k)).is_some(), "push_as");
            iff!(eq, v.push(BoxValue::<V>::new(B::mk(k))).is_some(), "push");
            iff!(eq, v.push(BoxValue::<DropVTable>::new(B::mk(k))).is_some(), "push");
            let x = B::mk(k);
            iff!(eq, v.push_cloned(ValueRef::new(&x)).is_some(), "push_cloned");
            if eq {
                m.extend([k; 4]);
            }
        }
        4 => {
            let l = r.size();
            iff!(eq, v.resize(l, B::mk(k)).is_some(), "resize");
            if eq {
                m.resize(l, k);
            }
            iff!(eq, v.fill(B::mk(k)).is_some(), "fill");
            if eq {
                m.fill(k);
            }
        }
        5 => {
            iff!(eq, v.clone_into_vec::<B>().is_some(), "clone_into_vec");
            let mut out: Vec<B> = vec![];
            iff!(eq, v.append_cloned_to_vec::<B>(&mut out).is_some(), "append_cloned_to_vec");
            same!(out.len(), if eq { n } else { 0 }, "append_cloned_to_vec");
            iff!(eq, v.clone().into_vec::<B>().is_some(), "into_vec");
            iff!(eq, v.clone().check::<B>().is_some(), "check");
            let o: Option<Vec<B>> = v.clone().into();
            iff!(eq, o.is_some(), "Option::from");
        }
        6 => {
            let bk = keys(r, 2);
            let mut w: VecDyn<V> = typed::<B>(&bk).into();
            iff!(eq, v.append(&mut w).is_some(), "append");
            if eq {
                m.extend(bk);
                verify_vec::<B, V>(&mut w, &[], 0, "appended vector");
            } else {
                verify_vec::<B, V>(&mut w, &bk, 0, "vector of another type");
                let mut empty: VecDyn<V> = VecDyn::with_type::<B>();
                iff!(eq, v.append(&mut empty).is_some(), "append of an empty vector");
                iff!(eq, empty.append(&mut v).is_some(), "append to an empty vector");
            }
        }
        7 => {
            // Assigning and swapping through references.
            let bk = keys(r, 2);
            let mut w: VecDyn<V> = typed::<B>(&bk).into();
            v.get_mut(e).assign(BoxValue::<V>::new(B::mk(k)));
            if eq {
                m[e] = k;
            }
            v.get_mut(e).swap(&mut w.get_mut(1));
            let got1 = if eq { std::mem::replace(&mut m[e], bk[1]) } else { bk[1] };
            verify_vec::<B, V>(&mut w, &[bk[0], got1], 1, "other operand of a swap");
            iff!(eq, v.get_mut(e).clone_from_other(w.get(0)).is_ok(), "clone_from_other");
            if eq {
                m[e] = bk[0];
            }
            let mut x = B::mk(k);
            v.get_mut(e).swap(&mut ValueMut::new(&mut x));
            if eq {
                same!(x.key(), B::norm(bk[0]), "swapped out");
                m[e] = k;
            } else {
                same!(x.key(), B::norm(k), "not swapped");
            }
            if std::mem::size_of::<B>() == std::mem::size_of::<usize>() {
                v.get_mut(e).assign(SmallValue::<V>::new(B::mk(bk[0])));
                if eq {
                    m[e] = bk[0];
                }
            }
        }
        8 => {
            let b = BoxValue::<V>::new(A::mk(k));
            iff!(eq, b.is::<B>(), "BoxValue::is");
            iff!(eq, b.as_ref().downcast::<B>().is_some(), "BoxValue::as_ref");
            iff!(eq, b.value_type_id() == TypeId::of::<B>(), "BoxValue::value_type_id");
            let mut c = b.clone();
            iff!(eq, c.as_mut().downcast::<B>().is_some(), "BoxValue::as_mut");
            iff!(eq, b.downcast::<B>().is_some(), "BoxValue::downcast");
            if std::mem::size_of::<A>() == std::mem::size_of::<usize>() {
                let b = SmallValue::<V>::new(A::mk(k));
                iff!(eq, b.is::<B>(), "SmallValue::is");
                let mut c = b.clone();
                iff!(eq, c.as_mut().downcast::<B>().is_some(), "SmallValue::as_mut");
                iff!(eq, b.downcast::<B>().is_some(), "SmallValue::downcast");
            }
            iff!(eq, v.get(e).clone_value().downcast::<B>().is_some(), "clone_value");
            if std::mem::size_of::<A>() == std::mem::size_of::<usize>() {
                iff!(eq, v.get(e).clone_small_value().downcast::<B>().is_some(), "clone_small_value");
            }
        }
        9 => {
            // Comparisons.
            let bk: Vec<u64> = m.clone();
            let w: VecDyn<V> = typed::<B>(&bk).into();
            let refl = typed::<A>(&m) == typed::<A>(&m);
            iff!(eq && refl, v == w, "equality of vectors");
            iff!(eq && refl, v.as_slice() == w.as_slice(), "equality of views");
            let (mut v2, mut w2) = (v.clone(), w.clone());
            iff!(eq && refl, v2.as_mut_slice() == w2.as_mut_slice(), "equality of mutable views");
            iff!(eq && refl, v.get(e) == w.get(e), "equality of references");
            iff!(eq && refl, v2.get_mut(e) == w2.get_mut(e), "equality of mutable references");
            iff!(eq && refl, BoxValue::<V>::new(A::mk(k)) == BoxValue::<V>::new(B::mk(k)), "equality of values");
        }
        _ => {
            // With a dynamically dispatched table.
            let mut d = into_dyn![VecDyn<dyn HasDrop>](v);
            iff!(eq, d.get_ref_as::<B>(e).is_some(), "dyn get_ref_as");
            iff!(eq, d.push_as(B::mk(k)).is_some(), "dyn push_as");
            iff!(eq, d.push(BoxValue::<V>::new(B::mk(k))).is_some(), "dyn push");
            if eq {
                m.extend([k; 2]);
            }
            iff!(eq, d.as_slice().as_slice::<B>().is_some(), "dyn view as_slice");
            iff!(eq, d.get_mut(e).downcast::<B>().is_some(), "dyn get_mut");
            let mut w = into_dyn![VecDyn<dyn HasDrop>](VecDyn::<V>::from(typed::<B>(&[k])));
            d.get_mut(e).swap(&mut w.get_mut(0));
            let old = if eq { std::mem::replace(&mut m[e], k) } else { k };
            same!(w.get_ref_as::<B>(0).unwrap().key(), B::norm(old), "other operand of a dyn swap");
            iff!(eq, d.append(&mut w).is_some(), "dyn append");
            if eq {
                m.push(old);
            } else {
                same!(w.len(), 1, "length after a refused append");
            }
            v = from_dyn![VecDyn<dyn HasDrop as V>](d);
        }
    }
    for p in 0..2 {
        verify_vec::<A, V>(&mut v, &m, p * 5 + case as usize, "vector after the access");
    }
}

pub fn pair_copy<A: CEl, B: CEl>(r: &mut Rng, case: u64) {
    type V = ();
    let eq = TypeId::of::<A>() == TypeId::of::<B>();
    let ssz = std::mem::size_of::<A>() == std::mem::size_of::<B>();
    let n = r.range(1, 5);
    let mut m = keys(r, n);
    let mut v: VecCopy<V> = typed::<A>(&m).into();
    let k = r.key();
    let e = r.below(n);
    t!("pair_copy{} {} as {} n={}", case % 7, A::NAME, B::NAME, n);
    match case % 7 {
        0 => {
            iff!(eq, v.get_ref_as::<B>(e).is_some(), "get_ref_as");
            iff!(eq, v.get_mut_as::<B>(e).is_some(), "get_mut_as");
            iff!(eq, v.get_as::<B>(e).is_some(), "get_as");
            iff!(eq, v.get_ref(e).downcast::<B>().is_some(), "CopyValueRef::downcast");
            iff!(eq, v.get_mut(e).downcast::<B>().is_some(), "CopyValueMut::downcast");
            iff!(eq, v.get_ref(e).is::<B>(), "CopyValueRef::is");
            iff!(eq, v.get_mut(e).is::<B>(), "CopyValueMut::is");
            iff!(eq, v.iter_as::<B>().is_some(), "iter_as");
            iff!(eq, v.iter_mut_as::<B>().is_some(), "iter_mut_as");
            iff!(eq, v.as_slice_as::<B>().is_some(), "as_slice_as");
            iff!(eq, v.as_mut_slice_as::<B>().is_some(), "as_mut_slice_as");
            iff!(eq, v.check_ref::<B>().is_some(), "check_ref");
            iff!(eq, v.check_mut::<B>().is_some(), "check_mut");
            iff!(eq, v.iter().all(|x| x.is::<B>()), "is of iterated references");
            iff!(eq, v.iter_mut().all(|x| x.downcast::<B>().is_some()), "downcast of iterated references");
        }
        1 => {
            let s = v.as_slice();
            iff!(eq, s.as_slice::<B>().is_some(), "SliceCopy::as_slice");
            iff!(eq, s.iter_as::<B>().is_some(), "SliceCopy::iter_as");
            iff!(eq, s.get_as::<B>(e).is_some(), "SliceCopy::get_as");
            iff!(eq, s.check::<B>().is_some(), "SliceCopy::check");
            iff!(eq, s.get(e).downcast::<B>().is_some(), "SliceCopy::get");
            iff!(eq, s.copy_into_vec::<B>().is_some(), "SliceCopy::copy_into_vec");
            let mut out: Vec<B> = vec![];
            iff!(eq, s.append_copy_to_vec::<B>(&mut out).is_some(), "SliceCopy::append_copy_to_vec");
            same!(out.len(), if eq { n } else { 0 }, "append_copy_to_vec");
        }
        2 => {
            let mut s = v.as_mut_slice();
            iff!(eq, s.as_slice::<B>().is_some(), "SliceCopyMut::as_slice");
            iff!(eq, s.iter_as::<B>().is_some(), "SliceCopyMut::iter_as");
            iff!(eq, s.get_as::<B>(e).is_some(), "SliceCopyMut::get_as");
            iff!(eq, s.check::<B>().is_some(), "SliceCopyMut::check");
            iff!(eq, s.get(e).downcast::<B>().is_some(), "SliceCopyMut::get");
            iff!(eq, s.get_mut(e).downcast::<B>().is_some(), "SliceCopyMut::get_mut");
            let mut out: Vec<B> = vec![];
            iff!(eq, s.append_copy_to_vec::<B>(&mut out).is_some(), "SliceCopyMut::append_copy_to_vec");
            same!(out.len(), if eq { n } else { 0 }, "append_copy_to_vec");
            let bk = keys(r, n);
            iff!(eq, s.copy_from_slice::<B>(&typed::<B>(&bk)).is_some(), "SliceCopyMut::copy_from_slice");
            iff!(eq, s.copy_into_vec::<B>().is_some(), "SliceCopyMut::copy_into_vec");
            if eq {
                m = bk;
            }
        }
        3 => {
            iff!(eq, v.push_as(B::mk(k)).is_some(), "push_as");
            if ssz {
                let x = B::mk(k);
                iff!(eq, v.push(CopyValueRef::<V>::new(&x)).is_some(), "push");
            } else {
                let x = B::mk(k);
                may_panic(|| v.push(CopyValueRef::<V>::new(&x)).is_some()).map(|s| iff!(eq, s, "push"));
            }
            if eq {
                m.extend([k; 2]);
            }
            let x = B::mk(k);
            let got = may_panic(|| v.extend(std::iter::once(CopyValueRef::new(&x)))).is_some();
            iff!(eq, got, "extend");
            if eq {
                m.push(k);
            }
        }
        4 => {
            let l = r.size();
            iff!(eq, v.resize(l, B::mk(k)).is_some(), "resize");
            if eq {
                m.resize(l, k);
            }
            iff!(eq, v.fill(B::mk(k)).is_some(), "fill");
            if eq {
                m.fill(k);
            }
            let bk = keys(r, m.len());
            iff!(eq, v.copy_from_slice(&typed::<B>(&bk)).is_some(), "copy_from_slice");
            if eq {
                m = bk;
            }
        }
        5 => {
            iff!(eq, v.copy_into_vec::<B>().is_some(), "copy_into_vec");
            let mut out: Vec<B> = vec![];
            iff!(eq, v.append_copy_to_vec::<B>(&mut out).is_some(), "append_copy_to_vec");
            same!(out.len(), if eq { n } else { 0 }, "append_copy_to_vec");
            iff!(eq, v.clone().into_vec::<B>().is_some(), "into_vec");
            iff!(eq, v.clone().check::<B>().is_some(), "check");
            let o: Option<Vec<B>> = v.clone().into();
            iff!(eq, o.is_some(), "Option::from");
            let bk = keys(r, 2);
            let mut w: VecCopy<V> = typed::<B>(&bk).into();
            iff!(eq, v.append(&mut w).is_some(), "append");
            if eq {
                m.extend(bk);
                same!(w.len(), 0, "appended vector");
            } else {
                same_elems(w.as_slice_as::<B>().unwrap(), &bk, "vector of another type");
            }
        }
        _ => {
            let bk = keys(r, 2);
            let mut w: VecCopy<V> = typed::<B>(&bk).into();
            v.get_mut(e).swap(&mut w.get_mut(1));
            let old = if eq { std::mem::replace(&mut m[e], bk[1]) } else { bk[1] };
            same_elems(w.as_slice_as::<B>().unwrap(), &[bk[0], old], "other operand of a swap");
            iff!(eq, v.get_mut(e).copy(w.get_ref(0)).is_some(), "copy");
            if eq {
                m[e] = bk[0];
            }
            // Mixed types in one collection.
            let x = A::mk(k);
            let y = B::mk(k);
            let refs = [CopyValueRef::<V>::new(&x), CopyValueRef::new(&x), CopyValueRef::new(&y)];
            let got = may_panic(|| refs.into_iter().collect::<VecCopy<V>>());
            iff!(eq, got.is_some(), "collecting mixed types");
        }
    }
    crate::copyw::verify_copy::<A, V>(&mut v, &m, case as usize * 5 + n, "vector after the access");
    let _ = (keys_of::<A>, normed::<A>, ledger::live);
}

/// The same for types whose values occupy nothing.
pub fn pair_zero<A: El + MaybeHash, B: El + MaybeHash, V: Vt + VTable<A> + VTable<B>>(r: &mut Rng) {
    let eq = TypeId::of::<A>() == TypeId::of::<B>();
    let k = r.key();
    t!("zero {} as {}", A::NAME, B::NAME);
    let (mut a, mut b) = (A::mk(k), B::mk(k));
    iff!(eq, ValueRef::<V>::new(&a).is::<B>(), "ValueRef::is");
    iff!(eq, ValueRef::<V>::new(&a).downcast::<B>().is_some(), "ValueRef::downcast");
    iff!(eq, ValueMut::<V>::new(&mut a).is::<B>(), "ValueMut::is");
    iff!(eq, ValueMut::<V>::new(&mut a).downcast::<B>().is_some(), "ValueMut::downcast");
    iff!(eq, ValueRef::<V>::new(&a).value_type_id() == TypeId::of::<B>(), "ValueRef::value_type_id");
    iff!(eq, ValueRef::<V>::new(&a) == ValueRef::<V>::new(&b), "equality of references");
    iff!(eq, ValueMut::<V>::new(&mut a).clone_from_other(ValueRef::<V>::new(&b)).is_ok(), "clone_from_other");
    let x = BoxValue::<V>::new(A::mk(k));
    iff!(eq, x.is::<B>(), "BoxValue::is");
    iff!(eq, x.value_type_id() == TypeId::of::<B>(), "BoxValue::value_type_id");
    iff!(eq, x.as_ref().downcast::<B>().is_some(), "BoxValue::as_ref");
    iff!(eq, x == BoxValue::<V>::new(B::mk(k)), "equality of values");
    let mut y = x.clone();
    iff!(eq, y.as_mut().downcast::<B>().is_some(), "BoxValue::as_mut");
    iff!(eq, y.downcast::<B>().is_some(), "BoxValue::downcast");
    iff!(eq, x.downcast::<B>().is_some(), "BoxValue::downcast");
    iff!(eq, ValueRef::<V>::new(&a).clone_value().downcast::<B>().is_some(), "clone_value");
    // No effect to be seen but the calls into the elements' code.
    ValueMut::<V>::new(&mut a).swap(&mut ValueMut::new(&mut b));
    ValueMut::<V>::new(&mut a).assign(BoxValue::<V>::new(B::mk(k)));
    count("pairs_of_empty_types");
}
pub fn pair_zero_copy<A: CopyElem, B: CopyElem>(mut a: A, mut b: B, r: &mut Rng) {
    let eq = TypeId::of::<A>() == TypeId::of::<B>();
    let what = r.below(3);
    t!("zero{} {} as {}", what, std::any::type_name::<A>(), std::any::type_name::<B>());
    macro_rules! iff { ($got:expr, $w:expr) => {{ let got = $got; ensure!(got == eq, "{}: {} as {}: {}", $w, std::any::type_name::<A>(), std::any::type_name::<B>(), if got { "accepted although the types differ" } else { "refused although the types are the same" }) }} }
    iff!(CopyValueRef::<()>::new(&a).is::<B>(), "CopyValueRef::is");
    iff!(CopyValueRef::<()>::new(&a).downcast::<B>().is_some(), "CopyValueRef::downcast");
    iff!(CopyValueMut::<()>::new(&mut a).is::<B>(), "CopyValueMut::is");
    iff!(CopyValueMut::<()>::new(&mut a).downcast::<B>().is_some(), "CopyValueMut::downcast");
    iff!(CopyValueMut::<()>::new(&mut a).copy(CopyValueRef::new(&b)).is_some(), "CopyValueMut::copy");
    CopyValueMut::<()>::new(&mut a).swap(&mut CopyValueMut::new(&mut b));
    count("pairs_of_empty_types");
}
