//! Type descriptions: always those of the elements held, unchanged by every operation, and good for
//! making working empty vectors that do not depend on where the description came from.
use crate::copyw::{keys, normed, typed, CEl};
use crate::el::*;
use crate::report::*;
use crate::tables::{typed_of, Caps};
use crate::vt::*;
use crate::{ensure, fail, same, some, sub, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};

struct Never;

macro_rules! is_value {
    ($T:ty, $F:ty, $v:expr, $w:expr) => {{
        let v = &$v;
        same!((v.value_type_id(), v.size(), v.value_alignment()), (TypeId::of::<$T>(), size_of::<$T>(), align_of::<$T>()), "{}: (type, size, alignment)", $w);
        same!((v.is::<$T>(), v.is::<$F>(), v.is::<Never>()), (true, false, false), "{}: is (own type, look-alike, another)", $w);
    }};
}
macro_rules! is_view {
    ($T:ty, $F:ty, $v:expr, $n:expr, $w:expr) => {{
        let (v, n): (_, usize) = ($v, $n);
        same!((v.element_type_id(), v.len(), v.is_empty()), (TypeId::of::<$T>(), n, n == 0), "{}: (element type, length, empty)", $w);
    }};
}
macro_rules! is_mview {
    ($T:ty, $F:ty, $v:expr, $n:expr, $w:expr) => {{
        let v = $v;
        is_view!($T, $F, &*v, $n, $w);
        same!((v.check::<$T>().is_some(), v.check::<$F>().is_some(), v.check::<Never>().is_some()), (true, false, false), "{}: check (own type, look-alike, another)", $w);
    }};
}

macro_rules! look {
    ($name:ident, $look_ref:ident, $mview_size:ident, $Vec:ident, $as:ident, [$($el:tt)*], [$($vb:tt)*]) => {
        /// Everything that describes the elements of a vector.
        fn $name<T: $($el)*, F: $($el)*, V: $($vb)*>(r: &mut Rng, v: &mut $Vec<V>, n: usize, what: &'static str) {
            is_view!(T, F, &*v, n, what);
            same!($look_ref(v), size_of::<T>(), "{}: element size", what);
            same!((v.check_ref::<T>().is_some(), v.check_ref::<F>().is_some()), (true, false), "{}: check_ref (own type, look-alike)", what);
            same!((v.check_mut::<T>().is_some(), v.check_mut::<F>().is_some()), (true, false), "{}: check_mut (own type, look-alike)", what);
            same!((v.as_slice_as::<T>().map(|s| s.len()), v.as_slice_as::<F>().map(|s| s.len())), (Some(n), None), "{}: as_slice_as (own type, look-alike)", what);
            same!(v.iter().count(), n, "{}: elements iterated", what);
            for e in v.iter() {
                is_value!(T, F, e, what);
            }
            let s = v.as_slice();
            is_view!(T, F, &s, n, what);
            same!((s.check::<T>().is_some(), s.check::<F>().is_some()), (true, false), "{}: check of a view (own type, look-alike)", what);
            same!(s.element_size(), size_of::<T>(), "{}: element size of a view", what);
            is_view!(T, F, s.reborrow(), n, what);
            let (z, a, b) = sub!(r, n, s, subslice);
            is_view!(T, F, &z, b - a, what);
            let m = r.below(n + 1);
            let (x, y) = s.split_at(m);
            is_view!(T, F, x, m, what);
            is_view!(T, F, y, n - m, what);
            let c = r.range(1, 3);
            for x in s.chunks_exact(c) {
                is_view!(T, F, x, c, what);
            }
            if n > 0 {
                is_value!(T, F, s.get(r.below(n)), what);
            }
            let mut s = v.as_mut_slice();
            is_mview!(T, F, &mut s, n, what);
            same!($mview_size(&mut s), size_of::<T>(), "{}: element size of a mutable view", what);
            is_view!(T, F, s.reborrow(), n, what);
            is_mview!(T, F, &mut s.reborrow_mut(), n, what);
            let (mut z, a, b) = sub!(r, n, s, subslice_mut);
            is_mview!(T, F, &mut z, b - a, what);
            let (mut x, y) = s.split_at(m);
            is_mview!(T, F, &mut x, m, what);
            is_view!(T, F, y, n - m, what);
            for x in s.chunks_exact_mut(c) {
                is_view!(T, F, x, c, what);
            }
            if n > 0 {
                let i = r.below(n);
                is_value!(T, F, s.get(i), what);
                is_value!(T, F, s.get_mut(i), what);
                is_value!(T, F, v.get_mut(i), what);
            }
            for e in v.iter_mut() {
                is_value!(T, F, e, what);
            }
        }
    };
}
fn dyn_size<V: HasDrop>(v: &VecDyn<V>) -> usize {
    same!(v.as_slice().element_size(), v.element_size(), "element size of a view");
    v.element_size()
}
fn copy_size<V>(v: &VecCopy<V>) -> usize {
    v.as_slice().element_size()
}
fn dyn_mview_size<V: HasDrop>(v: &mut SliceMut<V>) -> usize {
    v.element_size()
}
fn copy_mview_size<V>(v: &mut SliceCopyMut<V>) -> usize {
    v.reborrow().element_size()
}
look!(look_dyn, dyn_size, dyn_mview_size, VecDyn, as_slice_as, [El], [HasDrop + 'static + VTable<T> + VTable<F>]);
look!(look_copy, copy_size, copy_mview_size, VecCopy, as_slice_as, [CEl], [Clone + 'static + VTable<T> + VTable<F>]);

/// Values of another size are refused by a panic.
fn refuse_push<F: CEl, V: VTable<F>>(v: &mut VecCopy<V>, f: &F, what: &str) {
    if copy_size(v) == size_of::<F>() {
        ensure!(v.push(CopyValueRef::<V>::new(f)).is_none(), "{}: push accepted a look-alike", what);
    } else if !cfg!(miri) {
        let pushed = may_panic(|| v.push(CopyValueRef::<V>::new(f)).is_some());
        ensure!(pushed != Some(true), "{}: push accepted a look-alike", what);
    }
}

/// The description of one vector through a history that includes refused operations.
pub fn stays<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng)
where
    HVTable: VTable<T> + VTable<F>,
    PCDVTable: VTable<T> + VTable<F>,
{
    type V = HVTable;
    let mut n = r.size();
    let k = keys(r, n);
    let mut v: VecDyn<V> = typed::<T>(&k).into();
    look_dyn::<T, F, V>(r, &mut v, n, "made");
    for _ in 0..r.range(1, if cfg!(miri) { 3 } else { 10 }) {
        let x = r.key();
        let how = r.below(24);
        t!("op{}", how);
        match how {
            0 => {
                some!(v.push_as(T::mk(x)), "push_as");
                n += 1;
            }
            1 => ensure!(v.push_as(F::mk(x)).is_none(), "push_as accepted a look-alike"),
            2 => {
                some!(v.push(BoxValue::<V>::new(T::mk(x))), "push");
                n += 1;
            }
            3 => ensure!(v.push(BoxValue::<V>::new(F::mk(x))).is_none(), "push accepted a look-alike"),
            4 => {
                let y = T::mk(x);
                some!(v.push_cloned(ValueRef::new(&y)), "push_cloned");
                n += 1;
            }
            5 => {
                let y = F::mk(x);
                ensure!(v.push_cloned(ValueRef::new(&y)).is_none(), "push_cloned accepted a look-alike");
            }
            6 => {
                let m = r.size();
                some!(v.resize(m, T::mk(x)), "resize");
                n = m;
            }
            7 => {
                let m = r.size();
                ensure!(v.resize(m, F::mk(x)).is_none(), "resize accepted a look-alike");
            }
            8 => {
                v.clear();
                n = 0;
            }
            9 => {
                let m = r.size();
                let mut w: VecDyn<V> = typed::<T>(&keys(r, m)).into();
                some!(v.append(&mut w), "append");
                n += m;
                look_dyn::<T, F, V>(r, &mut w, 0, "emptied by append");
            }
            10 => {
                let m = r.size();
                let mut w: VecDyn<V> = typed::<F>(&keys(r, m)).into();
                ensure!(v.append(&mut w).is_none(), "append accepted a look-alike");
                look_dyn::<F, T, V>(r, &mut w, m, "refused by append");
            }
            11 => {
                let m = r.below(n + 1);
                if r.flip() {
                    v.rotate_left(m);
                } else {
                    v.rotate_right(m);
                }
            }
            12 => v = v.clone(),
            13 => {
                let mut w: VecDyn<V> = typed::<F>(&[1, 2]).into();
                w.clone_from(&v);
                look_dyn::<T, F, V>(r, &mut w, n, "clone_from of a look-alike");
            }
            14 => v = some!(v.check::<T>(), "check"),
            15 => v = some!(v.into_vec::<T>(), "into_vec").into(),
            16 => {
                let d = into_dyn![VecDyn<dyn HasDrop>](v);
                same!((d.element_type_id(), d.element_size(), d.len()), (TypeId::of::<T>(), size_of::<T>(), n), "dynamic table: (type, size, length)");
                same!((d.check_ref::<T>().is_some(), d.check_ref::<F>().is_some()), (true, false), "dynamic table: check_ref");
                v = from_dyn![VecDyn<dyn HasDrop as HVTable>](d);
            }
            17 => {
                let (data, vt) = v.into_raw_parts();
                v = unsafe { VecDyn::from_raw_parts(data, vt) };
            }
            18 => {
                let mut w = v.clone().upcast::<PCDVTable>();
                look_dyn::<T, F, PCDVTable>(r, &mut w, n, "narrowed");
            }
            19 => {
                some!(v.fill(T::mk(x)), "fill");
                ensure!(v.fill(F::mk(x)).is_none(), "fill accepted a look-alike");
            }
            20 => {
                // Swapped as a whole, then taken out.
                let mut w: VecDyn<V> = typed::<F>(&[4]).into();
                std::mem::swap(&mut v, &mut w);
                look_dyn::<F, T, V>(r, &mut v, 1, "swapped vector");
                v = w;
            }
            21 if n > 0 => {
                let i = r.below(n);
                let mut b = BoxValue::<V>::new(T::mk(x));
                is_value!(T, F, b, "boxed value");
                v.get_mut(i).swap(&mut b.as_mut());
                is_value!(T, F, b, "swapped boxed value");
                v.get_mut(i).assign(b);
                let c = v.get(i).clone_value();
                is_value!(T, F, c, "cloned value");
                is_value!(T, F, c.as_ref(), "cloned value");
                is_value!(T, F, c.clone(), "clone of a boxed value");
                is_value!(T, F, c.as_ref().upcast::<PCDVTable>(), "narrowed reference");
                is_value!(T, F, c.upcast::<PCDVTable>(), "narrowed value");
                let mut m = v.get_mut(i);
                is_value!(T, F, m.reborrow(), "reborrowed");
                is_value!(T, F, m.reborrow_mut(), "reborrowed");
                is_value!(T, F, m.upcast_mut::<PCDVTable>(), "narrowed reference");
                let y = F::mk(x);
                ensure!(m.clone_from_other(ValueRef::new(&y)).is_err(), "clone_from_other accepted a look-alike");
                is_value!(T, F, m, "after a refused assignment");
                is_value!(T, F, ValueRef::from(m), "reference");
            }
            22 => {
                if let Some(mut b) = SmallValue::<V>::try_new(T::mk(x)) {
                    is_value!(T, F, b, "small value");
                    is_value!(T, F, b.as_mut(), "small value");
                    is_value!(T, F, b.clone(), "clone of a small value");
                    is_value!(T, F, b.as_ref().clone_value(), "boxed clone of a small value");
                    is_value!(T, F, b.as_ref().clone_small_value(), "clone of a small value");
                    some!(v.push(b.as_ref().clone_value()), "push");
                    n += 1;
                    is_value!(T, F, b.upcast::<PCDVTable>(), "narrowed small value");
                }
            }
            _ => {
                let w = typed::<T>(&[1, 2, 3]);
                let m = r.below(4);
                let s = Slice::<V>::from_slice(&w[..m]);
                is_view!(T, F, &s, m, "view of a typed slice");
                same!((s.check::<T>().is_some(), s.check::<F>().is_some(), s.element_size()), (true, false, size_of::<T>()), "view of a typed slice");
                is_view!(T, F, s.into_subslice(..0), 0, "empty view");
                let mut w = w;
                is_mview!(T, F, &mut SliceMut::<V>::from_slice(&mut w[..m]), m, "view of a typed slice");
            }
        }
        look_dyn::<T, F, V>(r, &mut v, n, "after a change");
    }
    ensure!(v.into_vec::<F>().is_none(), "into_vec accepted a look-alike");
}

pub fn stays_copy<T: CEl, F: CEl>(r: &mut Rng) {
    type V = ();
    let mut n = r.size();
    let k = keys(r, n);
    let mut v: VecCopy<V> = typed::<T>(&k).into();
    look_copy::<T, F, V>(r, &mut v, n, "made");
    for _ in 0..r.range(1, if cfg!(miri) { 3 } else { 10 }) {
        let x = r.key();
        let how = r.below(19);
        t!("op{}", how);
        match how {
            0 => {
                some!(v.push_as(T::mk(x)), "push_as");
                n += 1;
            }
            1 => ensure!(v.push_as(F::mk(x)).is_none(), "push_as accepted a look-alike"),
            2 => {
                let y = T::mk(x);
                some!(v.push(CopyValueRef::<V>::new(&y)), "push");
                n += 1;
            }
            3 => {
                let y = F::mk(x);
                refuse_push::<F, V>(&mut v, &y, "push");
            }
            4 => {
                let m = r.size();
                some!(v.resize(m, T::mk(x)), "resize");
                n = m;
            }
            5 => {
                let m = r.size();
                ensure!(v.resize(m, F::mk(x)).is_none(), "resize accepted a look-alike");
            }
            6 => {
                v.clear();
                n = 0;
            }
            7 => {
                let m = r.size();
                let mut w: VecCopy<V> = typed::<T>(&keys(r, m)).into();
                some!(v.append(&mut w), "append");
                n += m;
                look_copy::<T, F, V>(r, &mut w, 0, "emptied by append");
            }
            8 => {
                let m = r.size();
                let mut w: VecCopy<V> = typed::<F>(&keys(r, m)).into();
                ensure!(v.append(&mut w).is_none(), "append accepted a look-alike");
                look_copy::<F, T, V>(r, &mut w, m, "refused by append");
            }
            9 => {
                let m = r.below(n + 1);
                if r.flip() {
                    v.rotate_left(m);
                } else {
                    v.rotate_right(m);
                }
            }
            10 => v = v.clone(),
            11 => {
                let mut w: VecCopy<V> = typed::<F>(&[1, 2]).into();
                w.clone_from(&v);
                look_copy::<T, F, V>(r, &mut w, n, "clone_from of a look-alike");
            }
            12 => v = some!(some!(v.check::<T>(), "check").into_vec::<T>(), "into_vec").into(),
            13 => v.reserve(r.below(20)),
            14 => {
                some!(v.fill(T::mk(x)), "fill");
                ensure!(v.fill(F::mk(x)).is_none(), "fill accepted a look-alike");
            }
            15 => {
                let w = typed::<T>(&[1, 2, 3]);
                let m = r.below(4);
                v.extend(SliceCopy::<V>::from_slice(&w[..m]).iter());
                n += m;
            }
            16 if n > 0 => {
                let i = r.below(n);
                let mut y = T::mk(x);
                let z = T::mk(x);
                {
                    let mut m = CopyValueMut::<V>::new(&mut y);
                    is_value!(T, F, m, "reference");
                    v.get_mut(i).swap(&mut m);
                    is_value!(T, F, m, "swapped reference");
                    is_value!(T, F, some!(m.copy(CopyValueRef::new(&z)), "copy"), "copied to");
                }
                is_value!(T, F, CopyValueRef::from(v.get_mut(i)), "reference");
                let f = F::mk(x);
                ensure!(v.get_mut(i).copy(CopyValueRef::new(&f)).is_none(), "copy accepted a look-alike");
            }
            17 if n > 0 => {
                let mut w: VecCopy<V> = v.iter().collect();
                look_copy::<T, F, V>(r, &mut w, n, "collected");
            }
            _ => {
                let mut w = typed::<T>(&[1, 2, 3]);
                let m = r.below(4);
                let s = SliceCopy::<V>::from_slice(&w[..m]);
                is_view!(T, F, &s, m, "view of a typed slice");
                same!((s.check::<T>().is_some(), s.check::<F>().is_some(), s.element_size()), (true, false, size_of::<T>()), "view of a typed slice");
                is_mview!(T, F, &mut SliceCopyMut::<V>::from_slice(&mut w[..m]), m, "view of a typed slice");
            }
        }
        look_copy::<T, F, V>(r, &mut v, n, "after a change");
    }
    ensure!(v.into_vec::<F>().is_none(), "into_vec accepted a look-alike");
}

/// Is this a working empty vector of `T`, with all the capabilities of its table?
fn works<T: El + MaybeHash, F: El, V>(r: &mut Rng, mut w: VecDyn<V>, what: &str)
where
    V: Caps + Clone + VTable<T> + VTable<F>,
{
    for round in 0..2 {
        same!((w.len(), w.is_empty(), w.element_type_id(), w.element_size()), (0, true, TypeId::of::<T>(), size_of::<T>()), "{}: (length, empty, type, size)", what);
        same!(w.as_slice_as::<T>().map(|s| s.as_ptr() as usize % align_of::<T>()), Some(0), "{}: alignment of the storage", what);
        ensure!(w.as_slice_as::<F>().is_none() && w.check_ref::<F>().is_none(), "{}: accepted as a look-alike", what);
        ensure!(w.iter().next().is_none() && w.iter_mut().next().is_none(), "{}: yields an element", what);
        ensure!(w.push_as(F::mk(1)).is_none(), "{}: push_as accepted a look-alike", what);
        ensure!(w.push(BoxValue::<V>::new(F::mk(1))).is_none(), "{}: push accepted a look-alike", what);
        let mut f: VecDyn<V> = typed::<F>(&[1, 2]).into();
        ensure!(w.append(&mut f).is_none() && f.len() == 2, "{}: append accepted a look-alike", what);
        same!((w.len(), w.element_type_id()), (0, TypeId::of::<T>()), "{}: (length, type) after refusals", what);
        if let Some(c) = V::vclone(&w) {
            same!((c.len(), c.element_type_id()), (0, TypeId::of::<T>()), "{}: clone (length, type)", what);
        }
        let n = r.size();
        let k = keys(r, n);
        for x in &k {
            match r.below(3) {
                0 => {
                    some!(w.push_as(T::mk(*x)), "push_as");
                }
                1 => {
                    some!(w.push(BoxValue::<V>::new(T::mk(*x))), "push");
                }
                _ => {
                    let mut o: VecDyn<V> = typed::<T>(&[*x]).into();
                    some!(w.append(&mut o), "append");
                }
            }
        }
        let ty: Vec<T> = typed(&k);
        let o = typed_of(&ty);
        same!(some!(w.as_slice_as::<T>(), "as_slice_as").iter().map(|x| x.key()).collect::<Vec<_>>(), normed::<T>(&k), "{}: elements", what);
        if let Some(c) = V::vclone(&w) {
            same!(some!(c.as_slice_as::<T>(), "as_slice_as").iter().map(|x| x.key()).collect::<Vec<_>>(), normed::<T>(&k), "{}: elements of a clone", what);
            drop(c);
        }
        let x: VecDyn<V> = ty.into();
        if let Some(eq) = V::veq(&w, &x) {
            ensure!(eq, "{}: not equal to a vector with the same elements", what);
        }
        if let Some(h) = V::vhash(&w) {
            if let Some(ho) = &o.hash {
                same!(&h, ho, "{}: hash", what);
            }
        }
        if let Some(f) = V::vfmt(&w) {
            same!(&f, &o.fmt, "{}: debug format", what);
        }
        if n > 0 {
            let b = w.get(0);
            is_value!(T, F, b, what);
            if let Some(b) = V::rclone(&b) {
                is_value!(T, F, b, what);
            }
            w.rotate_left(1);
        }
        if round == 0 {
            // A description of a vector made from a description.
            w = match r.below(3) {
                0 if n > 0 => VecDyn::with_type_from(w.get(n - 1)),
                1 => {
                    w.clear();
                    VecDyn::with_type_from(w.as_mut_slice())
                }
                _ => VecDyn::with_type_from(&w),
            };
        }
    }
    ensure!(w.into_vec::<T>().is_some(), "{}: into_vec", what);
}

/// Vectors made from every kind of description with table `V`.
pub fn made<T: El + MaybeHash, F: El, V>(r: &mut Rng, table: &str)
where
    V: Caps + Clone + VTable<T> + VTable<F>,
{
    let n = r.size();
    let k = keys(r, n);
    let how = r.below(24);
    t!("{} from {} of {}", table, how, n);
    let mut v: VecDyn<V> = typed::<T>(&k).into();
    let mut one = T::mk(5);
    let mut arr = typed::<T>(&[1, 2, 3]);
    let mut b = BoxValue::<V>::new(T::mk(6));
    let m = r.below(n + 1);
    let w: VecDyn<V> = match how {
        0 => VecDyn::with_type_from(&v),
        1 => {
            v.clear();
            VecDyn::with_type_from(&v)
        }
        2 => {
            let mut u: VecDyn<V> = VecDyn::with_type::<T>();
            some!(u.append(&mut v), "append");
            VecDyn::with_type_from(&v)
        }
        3 => VecDyn::with_type_from(v.as_slice()),
        4 => VecDyn::with_type_from(v.as_mut_slice()),
        5 => VecDyn::with_type_from(v.as_slice().into_subslice(m..)),
        6 => VecDyn::with_type_from(v.as_slice().into_subslice(m..m)),
        7 => VecDyn::with_type_from(v.as_mut_slice().split_at(m).1),
        8 => VecDyn::with_type_from(v.as_slice().reborrow()),
        9 if n > 0 => VecDyn::with_type_from(v.get(r.below(n))),
        10 if n > 0 => VecDyn::with_type_from(v.get_mut(r.below(n))),
        11 if n > 0 => VecDyn::with_type_from(some!(v.iter().last(), "iter")),
        12 if n > 0 => VecDyn::with_type_from(some!(v.iter_mut().next(), "iter_mut")),
        13 => VecDyn::with_type_from(ValueRef::<V>::new(&one)),
        14 => VecDyn::with_type_from(ValueMut::<V>::new(&mut one)),
        15 => VecDyn::with_type_from(b.as_ref()),
        16 => VecDyn::with_type_from(b.as_mut()),
        17 => VecDyn::with_type_from(b.as_ref().reborrow()),
        18 => match SmallValue::<V>::try_new(T::mk(8)) {
            Some(mut s) => {
                count("descriptions of word-sized values");
                if r.flip() {
                    VecDyn::with_type_from(s.as_ref())
                } else {
                    VecDyn::with_type_from(s.as_mut())
                }
            }
            None => VecDyn::with_type_from(b.as_mut().reborrow_mut()),
        },
        19 => VecDyn::with_type_from(Slice::<V>::from_slice(&arr)),
        20 => VecDyn::with_type_from(SliceMut::<V>::from_slice(&mut arr[..m % 3])),
        21 => {
            let d: Meta<VTableRef<V>> = Meta::from(&v);
            let e: Meta<VTableRef<V>> = Meta::from(v.as_slice());
            ensure!(d.elem == e.elem, "descriptions of a vector and its view differ");
            let d2 = d.clone();
            same!(d2.elem.num_bytes(), size_of::<T>(), "described size");
            let other: VecDyn<V> = VecDyn::with_type::<T>();
            let alike: VecDyn<V> = VecDyn::with_type::<F>();
            same!(d2.elem == Meta::from(&other).elem, true, "described type");
            same!(d2.elem == Meta::from(&alike).elem, false, "described as a look-alike");
            drop(d);
            drop(e);
            VecDyn::with_type_from(d2)
        }
        22 => {
            let (_, elem, vt) = v.as_slice().into_raw_parts();
            VecDyn::with_type_from(Meta { elem, vtable: vt })
        }
        _ => {
            let u = VecDyn::<V>::with_type_from(&v);
            VecDyn::with_type_from(u.as_slice())
        }
    };
    // The source goes away, and its memory is used for something else.
    drop((v, one, arr, b));
    let junk: Vec<Vec<u8>> = (0..4).map(|i| vec![0xEE; 8 << i]).collect();
    works::<T, F, V>(r, w, table);
    drop(junk);
}

/// With a table that was narrowed before.
pub fn made_narrow<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T> + VTable<F>,
    HVTable: VTable<T> + VTable<F>,
{
    macro_rules! go { ($V:ty, $U:ty) => {{
        let n = r.size();
        let k = keys(r, n);
        let how = r.below(8);
        t!("{} to {} from {} of {}", stringify!($V), stringify!($U), how, n);
        let mut v: VecDyn<$V> = typed::<T>(&k).into();
        let w: VecDyn<$U> = match how {
            0 => {
                let u = v.upcast::<$U>();
                VecDyn::with_type_from(&u)
            }
            1 => VecDyn::with_type_from(v.as_slice().upcast::<$U>()),
            2 => VecDyn::with_type_from(v.as_mut_slice().upcast::<$U>()),
            3 if n > 0 => VecDyn::with_type_from(v.get(0).upcast::<$U>()),
            4 if n > 0 => VecDyn::with_type_from(v.get_mut(n - 1).upcast::<$U>()),
            5 if n > 0 => VecDyn::with_type_from(v.get(0).upcast_ref::<$U>()),
            6 => VecDyn::with_type_from(BoxValue::<$V>::new(T::mk(1)).upcast::<$U>().as_ref()),
            _ => VecDyn::with_type_from(BoxValue::<$V>::new(T::mk(1)).as_mut().upcast_mut::<$U>()),
        };
        works_up::<T, F, $U>(r, w, stringify!($U));
    }} }
    match r.below(7) {
        0 => go!(AllVTable, CloneVTable),
        1 => go!(AllVTable, PartialEqVTable),
        2 => go!(AllVTable, DebugVTable),
        3 => go!(AllVTable, DropVTable),
        4 => go!(HVTable, PCDVTable),
        5 => go!(HVTable, PCVTable),
        _ => go!(HVTable, PVTable),
    }
}
fn works_up<T: El + MaybeHash, F: El, V>(r: &mut Rng, w: VecDyn<V>, what: &str)
where
    V: Caps + Clone + VTable<T> + VTable<F>,
{
    works::<T, F, V>(r, w, what)
}

fn works_copy<T: CEl, F: CEl, V>(r: &mut Rng, mut w: VecCopy<V>, what: &str)
where
    V: Clone + 'static + VTable<T> + VTable<F>,
{
    for round in 0..2 {
        same!((w.len(), w.is_empty(), w.element_type_id(), copy_size(&w)), (0, true, TypeId::of::<T>(), size_of::<T>()), "{}: (length, empty, type, size)", what);
        same!(w.as_slice_as::<T>().map(|s| s.as_ptr() as usize % align_of::<T>()), Some(0), "{}: alignment of the storage", what);
        ensure!(w.as_slice_as::<F>().is_none() && w.check_ref::<F>().is_none(), "{}: accepted as a look-alike", what);
        ensure!(w.iter().next().is_none() && w.iter_mut().next().is_none(), "{}: yields an element", what);
        ensure!(w.push_as(F::mk(1)).is_none(), "{}: push_as accepted a look-alike", what);
        let f = F::mk(1);
        refuse_push::<F, V>(&mut w, &f, what);
        let mut f: VecCopy<V> = typed::<F>(&[1, 2]).into();
        ensure!(w.append(&mut f).is_none() && f.len() == 2, "{}: append accepted a look-alike", what);
        same!((w.len(), w.element_type_id()), (0, TypeId::of::<T>()), "{}: (length, type) after refusals", what);
        let n = r.size();
        let k = keys(r, n);
        let c = w.clone();
        same!((c.len(), c.element_type_id()), (0, TypeId::of::<T>()), "{}: clone (length, type)", what);
        if r.chance(1, 3) {
            w = c;
        }
        for x in &k {
            let y = T::mk(*x);
            match r.below(4) {
                0 => {
                    some!(w.push_as(y), "push_as");
                }
                1 => {
                    some!(w.push(CopyValueRef::<V>::new(&y)), "push");
                }
                2 => w.extend(Some(CopyValueRef::<V>::new(&y))),
                _ => {
                    let mut o: VecCopy<V> = typed::<T>(&[*x]).into();
                    some!(w.append(&mut o), "append");
                }
            }
        }
        same!(some!(w.as_slice_as::<T>(), "as_slice_as").iter().map(|x| x.key()).collect::<Vec<_>>(), normed::<T>(&k), "{}: elements", what);
        if n > 0 {
            is_value!(T, F, w.get_ref(0), what);
            w.rotate_left(1);
        }
        if round == 0 {
            w = match r.below(3) {
                0 if n > 0 => VecCopy::with_type_from(w.get_ref(n - 1)),
                1 => {
                    w.clear();
                    VecCopy::with_type_from(w.as_mut_slice())
                }
                _ => VecCopy::with_type_from(&w),
            };
        }
    }
    ensure!(w.into_vec::<T>().is_some(), "{}: into_vec", what);
}

/// Vectors of plain data from every kind of description.
pub fn made_copy<T: CEl, F: CEl, V>(r: &mut Rng, table: &str)
where
    V: Clone + 'static + VTable<T> + VTable<F>,
{
    let n = r.size();
    let k = keys(r, n);
    let how = r.below(15);
    t!("{} from {} of {}", table, how, n);
    let mut v: VecCopy<V> = typed::<T>(&k).into();
    let mut one = T::mk(5);
    let mut arr = typed::<T>(&[1, 2, 3]);
    let m = r.below(n + 1);
    let w: VecCopy<V> = match how {
        0 => VecCopy::with_type_from(&v),
        1 => {
            v.clear();
            VecCopy::with_type_from(&v)
        }
        2 => VecCopy::with_type_from(v.as_slice()),
        3 => VecCopy::with_type_from(v.as_mut_slice()),
        4 => VecCopy::with_type_from(v.as_slice().into_subslice(m..)),
        5 => VecCopy::with_type_from(v.as_slice().into_subslice(m..m)),
        6 => VecCopy::with_type_from(v.as_mut_slice().split_at(m).1),
        7 if n > 0 => VecCopy::with_type_from(v.get_ref(r.below(n))),
        8 if n > 0 => VecCopy::with_type_from(CopyValueRef::from(v.get_mut(r.below(n)))),
        9 if n > 0 => VecCopy::with_type_from(some!(v.iter().last(), "iter")),
        10 => VecCopy::with_type_from(CopyValueRef::<V>::new(&one)),
        11 => VecCopy::with_type_from(CopyValueRef::from(CopyValueMut::<V>::new(&mut one))),
        12 => VecCopy::with_type_from(SliceCopy::<V>::from_slice(&arr)),
        13 => VecCopy::with_type_from(SliceCopyMut::<V>::from_slice(&mut arr[..m % 3])),
        _ => {
            let d: Meta<VTableRef<V>> = Meta::from(&v);
            let e = d.clone();
            drop(d);
            let (same, alike) = (VecCopy::<V>::with_type::<T>(), VecCopy::<V>::with_type::<F>());
            same!((e.elem.num_bytes(), e.elem == Meta::from(&same).elem, e.elem == Meta::from(&alike).elem), (size_of::<T>(), true, false), "description");
            VecCopy::with_type_from(e)
        }
    };
    drop((v, arr));
    let junk: Vec<Vec<u8>> = (0..4).map(|i| vec![0xEE; 8 << i]).collect();
    works_copy::<T, F, V>(r, w, table);
    drop(junk);
}

/// From descriptions of plain data to vectors with a full table.
pub fn made_mixed<T: CEl + MaybeHash, F: CEl + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T> + VTable<F>,
{
    type V = AllVTable;
    let n = r.size();
    let k = keys(r, n);
    let how = r.below(8);
    t!("mixed from {} of {}", how, n);
    let mut v: VecCopy<V> = typed::<T>(&k).into();
    let one = T::mk(5);
    match how {
        0 => works::<T, F, V>(r, VecDyn::with_type_from(&v), "from VecCopy"),
        1 => works::<T, F, V>(r, VecDyn::with_type_from(v.as_slice()), "from SliceCopy"),
        2 => works::<T, F, V>(r, VecDyn::with_type_from(v.as_mut_slice()), "from SliceCopyMut"),
        3 => works::<T, F, V>(r, VecDyn::with_type_from(CopyValueRef::<V>::new(&one)), "from CopyValueRef"),
        4 => {
            let x = ValueRef::from(CopyValueRef::<V>::new(&one));
            let w: VecDyn<(DropFn, V)> = VecDyn::with_type_from(x);
            works::<T, F, (DropFn, V)>(r, w, "from a converted CopyValueRef");
        }
        5 => {
            let mut two = T::mk(7);
            let x = ValueMut::from(CopyValueMut::<V>::new(&mut two));
            let w: VecDyn<(DropFn, V)> = VecDyn::with_type_from(x);
            works::<T, F, (DropFn, V)>(r, w, "from a converted CopyValueMut");
        }
        6 => {
            let w: VecDyn<V> = typed::<T>(&k).into();
            works_copy::<T, F, V>(r, VecCopy::with_type_from(&w), "from VecDyn");
        }
        _ => {
            let w: VecDyn<V> = typed::<T>(&[1]).into();
            works_copy::<T, F, V>(r, VecCopy::with_type_from(w.get(0)), "from ValueRef");
        }
    }
}
