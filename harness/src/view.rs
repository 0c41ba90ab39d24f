//! Views: random chains of view operations against windows of a typed model. A view has to be
//! exactly the window: same addresses, same elements, same order; writes change the window only.
use crate::copyw::CEl;
use crate::el::El;
use crate::report::*;
use crate::{ensure, fail, same, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};

#[macro_export]
macro_rules! some { ($e:expr, $($w:tt)*) => { match $e { Some(x) => x, None => $crate::fail!("{} refused the right type", format_args!($($w)*)) } } }

/// A random valid range of `0..n`, of a random kind: evaluates `$s.$m(range)`.
#[macro_export]
macro_rules! sub {
    ($r:expr, $n:expr, $s:expr, $m:ident) => {{
        let n: usize = $n;
        let a = $r.below(n + 1);
        let b = $r.range(a, n);
        let k = $r.below(9);
        t!("{}[{}..{} kind {}]", stringify!($m), a, b, k);
        match k {
            0 => ($s.$m(a..b), a, b),
            1 => ($s.$m(..b), 0, b),
            2 => ($s.$m(a..), a, n),
            3 => ($s.$m(..), 0, n),
            4 if b > a => ($s.$m(a..=b - 1), a, b),
            5 if b > 0 => ($s.$m(..=b - 1), 0, b),
            6 if a > 0 => ($s.$m(a..=a - 1), a, a),
            7 if a < n => {
                // Iterated to its end: empty, past its last index.
                let mut x = a..=a;
                x.next();
                ($s.$m(x), a + 1, a + 1)
            }
            _ => ($s.$m(a..b), a, b),
        }
    }};
}

/// The elements of a typed slice, and where it is.
pub fn window<T: El>(s: &[T], base: usize, lo: usize, keys: &[u64], what: &str) {
    same!(s.len(), keys.len(), "{}: number of elements", what);
    if !s.is_empty() {
        same!(s.as_ptr() as usize, base + lo * size_of::<T>(), "{}: address of the view (base {:#x}, offset {})", what, base, lo);
    }
    for (i, e) in s.iter().enumerate() {
        same!(e.key(), T::norm(keys[i]), "{}: element {} of {}", what, i, s.len());
    }
}

macro_rules! identity {
    ($T:ty, $e:expr, $base:expr, $at:expr, $key:expr, $w:expr) => {{
        let e = $e;
        same!(e.value_type_id(), TypeId::of::<$T>(), "{}: type of element {}", $w, $at);
        same!(e.size(), size_of::<$T>(), "{}: size of element {}", $w, $at);
        same!(e.value_alignment(), align_of::<$T>(), "{}: alignment of element {}", $w, $at);
        let p = some!(e.downcast::<$T>(), "{}: downcast of element {}", $w, $at);
        same!(&*p as *const $T as usize, $base + $at * size_of::<$T>(), "{}: address of element {}", $w, $at);
        same!(p.key(), <$T>::norm($key), "{}: element {}", $w, $at);
        p
    }};
}

macro_rules! ro_view {
    ($name:ident, $S:ident, $El:ident, [$($vb:tt)*], $U:ty, $into_vec:ident, $append:ident) => {
        pub fn $name<T: $El, V: $($vb)*>(r: &mut Rng, d: usize, s: $S<'_, V>, base: usize, lo: usize, keys: &[u64])
        where $U: From<V>
        {
            let w = concat!(stringify!($S), " view");
            let n = keys.len();
            same!(s.len(), n, "{}: len()", w);
            same!(s.is_empty(), n == 0, "{}: is_empty()", w);
            same!(s.element_type_id(), TypeId::of::<T>(), "{}: type", w);
            same!(s.element_size(), size_of::<T>(), "{}: element size", w);
            window(some!(s.as_slice::<T>(), "{}: as_slice", w), base, lo, keys, w);
            count(concat!(stringify!($S), "_views"));
            match r.below(5) {
                0 => {
                    let all: Vec<_> = s.iter().collect();
                    same!(all.len(), n, "{}: iter() count", w);
                    for (i, e) in all.into_iter().enumerate() { identity!(T, e, base + lo * size_of::<T>(), i, keys[i], w); }
                }
                1 => for i in 0..n { identity!(T, s.get(i), base + lo * size_of::<T>(), i, keys[i], w); },
                2 => for i in 0..n {
                    let e = some!(s.get_as::<T>(i), "get_as");
                    same!(e as *const T as usize, base + (lo + i) * size_of::<T>(), "{}: get_as address {}", w, i);
                },
                3 => {
                    let c = some!(s.$into_vec::<T>(), stringify!($into_vec));
                    same!(c.len(), n, "{}: typed copy", w);
                    for i in 0..n { same!(c[i].key(), T::norm(keys[i]), "{}: typed copy element {}", w, i); }
                }
                _ => {
                    let mut c = vec![T::mk(1), T::mk(2)];
                    some!(s.$append::<T>(&mut c), stringify!($append));
                    same!(c.len(), n + 2, "{}: appended typed copy", w);
                    same!((c[0].key(), c[1].key()), (T::norm(1), T::norm(2)), "{}: elements before the appended ones", w);
                    for i in 0..n { same!(c[i + 2].key(), T::norm(keys[i]), "{}: appended typed copy element {}", w, i); }
                }
            }
            if d == 0 { return; }
            match r.below(10) {
                0 => { t!("reborrow"); $name::<T, V>(r, d - 1, s.reborrow(), base, lo, keys) }
                1 | 2 => { let (x, a, b) = sub!(r, n, s, subslice); $name::<T, V>(r, d - 1, x, base, lo + a, &keys[a..b]) }
                3 => { let (x, a, b) = sub!(r, n, s, into_subslice); $name::<T, V>(r, d - 1, x, base, lo + a, &keys[a..b]) }
                4 => {
                    let m = r.below(n + 1);
                    t!("split_at({})", m);
                    let (x, y) = s.split_at(m);
                    if r.flip() {
                        $name::<T, V>(r, d - 1, y, base, lo + m, &keys[m..]);
                        $name::<T, V>(r, d - 1, x, base, lo, &keys[..m]);
                    } else {
                        $name::<T, V>(r, d - 1, x, base, lo, &keys[..m]);
                        $name::<T, V>(r, d - 1, y, base, lo + m, &keys[m..]);
                    }
                }
                5 => {
                    let k = r.range(1, n + 1);
                    t!("chunks_exact({})", k);
                    let c: Vec<_> = s.chunks_exact(k).collect();
                    same!(c.len(), n / k, "{}: number of chunks of {}", w, k);
                    for (i, x) in c.into_iter().enumerate() {
                        let d = if r.chance(1, 3) { d - 1 } else { 0 };
                        $name::<T, V>(r, d, x, base, lo + i * k, &keys[i * k..(i + 1) * k]);
                    }
                }
                6 => { t!("clone"); let x = s.clone(); drop(s); $name::<T, V>(r, d - 1, x, base, lo, keys) }
                7 => { t!("upcast"); $name::<T, $U>(r, d - 1, s.upcast::<$U>(), base, lo, keys) }
                8 => {
                    t!("into_iter");
                    let all: Vec<_> = s.into_iter().collect();
                    same!(all.len(), n, "{}: into_iter() count", w);
                    for (i, e) in all.into_iter().enumerate() { identity!(T, e, base + lo * size_of::<T>(), i, keys[i], w); }
                }
                _ => {
                    t!("iter_as");
                    let x = some!(s.iter_as::<T>(), "iter_as");
                    window(x.as_slice(), base, lo, keys, w);
                }
            }
        }
    };
}

macro_rules! mut_view {
    ($name:ident, $ro:ident, $S:ident, $R:ident, $El:ident, [$($vb:tt)*], $U:ty, $into_vec:ident, $append:ident, $assign:ident) => {
        pub fn $name<T: $El, V: $($vb)* + VTable<T>>(r: &mut Rng, d: usize, s: $S<'_, V>, base: usize, lo: usize, keys: &mut [u64])
        where $U: From<V> + VTable<T>
        {
            let mut s = s;
            let w = concat!(stringify!($S), " view");
            let n = keys.len();
            let sz = size_of::<T>();
            for _ in 0..r.range(1, 3) {
                same!(s.len(), n, "{}: len()", w);
                same!(s.is_empty(), n == 0, "{}: is_empty()", w);
                same!(s.element_type_id(), TypeId::of::<T>(), "{}: type", w);
                window(some!(s.as_slice::<T>(), "{}: as_slice", w), base, lo, keys, w);
                count(concat!(stringify!($S), "_views"));
                let op = r.below(if d == 0 { 10 } else { 24 });
                match op {
                    0 if n > 0 => {
                        let (i, j) = (r.below(n), r.below(n));
                        t!("swap({},{})", i, j);
                        s.swap(i, j);
                        keys.swap(i, j);
                    }
                    1 => { let k = r.below(n + 1); t!("rotate_left({})", k); s.rotate_left(k); keys.rotate_left(k); }
                    2 => { let k = r.below(n + 1); t!("rotate_right({})", k); s.rotate_right(k); keys.rotate_right(k); }
                    3 if n > 0 => {
                        let (i, k) = (r.below(n), r.key());
                        t!("get_mut({})", i);
                        let p = identity!(T, s.get_mut(i), base + lo * sz, i, keys[i], w);
                        *p = T::mk(k);
                        keys[i] = k;
                    }
                    4 => {
                        t!("iter");
                        let mut all: Vec<_> = s.iter().collect();
                        same!(all.len(), n, "{}: iter() count", w);
                        let mut ps: Vec<_> = vec![];
                        for (i, e) in all.drain(..).enumerate() { ps.push((i, identity!(T, e, base + lo * sz, i, keys[i], w))); }
                        // All the references are held; write in another order.
                        if r.flip() { ps.reverse(); }
                        for (i, p) in ps { if r.flip() { let k = r.key(); *p = T::mk(k); keys[i] = k; } }
                    }
                    5 => {
                        let ks: Vec<u64> = (0..n).map(|_| r.key()).collect();
                        let src: Vec<T> = ks.iter().map(|k| T::mk(*k)).collect();
                        t!(stringify!($assign));
                        let _ = some!(s.$assign::<T>(&src), stringify!($assign));
                        keys.copy_from_slice(&ks);
                    }
                    6 if n > 0 => {
                        let (i, k) = (r.below(n), r.key());
                        t!("get_as({})", i);
                        let p = some!(s.get_as::<T>(i), "get_as");
                        same!(p as *const T as usize, base + (lo + i) * sz, "{}: get_as address {}", w, i);
                        *p = T::mk(k);
                        keys[i] = k;
                    }
                    7 => {
                        t!("iter_as");
                        for (i, p) in some!(s.iter_as::<T>(), "iter_as").enumerate() {
                            same!(p as *const T as usize, base + (lo + i) * sz, "{}: iter_as address {}", w, i);
                            if r.flip() { let k = r.key(); *p = T::mk(k); keys[i] = k; }
                        }
                    }
                    8 if n > 1 => {
                        let m = r.range(1, n - 1);
                        let (i, j) = (r.below(m), r.range(m, n - 1));
                        t!("swap by references ({},{}) split at {}", i, j, m);
                        let (mut x, mut y) = s.split_at(m);
                        same!((x.len(), y.len()), (m, n - m), "{}: split at {}", w, m);
                        if r.flip() { x.get_mut(i).swap(&mut y.get_mut(j - m)); } else { y.get_mut(j - m).swap(&mut x.get_mut(i)); }
                        keys.swap(i, j);
                    }
                    9 => {
                        let mut c = vec![];
                        some!(s.$append::<T>(&mut c), stringify!($append));
                        same!(c.len(), n, "{}: typed copy", w);
                        for i in 0..n { same!(c[i].key(), T::norm(keys[i]), "{}: typed copy element {}", w, i); }
                    }
                    10 | 11 => { let (x, a, b) = sub!(r, n, s, subslice_mut); $name::<T, V>(r, d - 1, x, base, lo + a, &mut keys[a..b]) }
                    12 | 13 => {
                        let m = r.below(n + 1);
                        t!("split_at({})", m);
                        let (x, y) = s.split_at(m);
                        let (kx, ky) = keys.split_at_mut(m);
                        if r.flip() {
                            $name::<T, V>(r, d - 1, y, base, lo + m, ky);
                            $name::<T, V>(r, d - 1, x, base, lo, kx);
                        } else {
                            $name::<T, V>(r, d - 1, x, base, lo, kx);
                            $name::<T, V>(r, d - 1, y, base, lo + m, ky);
                        }
                    }
                    14 => {
                        let k = r.range(1, n + 1);
                        t!("chunks_exact_mut({})", k);
                        let c: Vec<_> = s.chunks_exact_mut(k).collect();
                        same!(c.len(), n / k, "{}: number of chunks of {}", w, k);
                        for (i, x) in c.into_iter().enumerate() {
                            let d = if r.chance(1, 3) { d - 1 } else { 0 };
                            $name::<T, V>(r, d, x, base, lo + i * k, &mut keys[i * k..(i + 1) * k]);
                        }
                    }
                    15 => { t!("reborrow_mut"); $name::<T, V>(r, d - 1, s.reborrow_mut(), base, lo, keys) }
                    16 => { t!("reborrow"); $ro::<T, V>(r, d - 1, s.reborrow(), base, lo, keys) }
                    17 => { let (x, a, b) = sub!(r, n, s, subslice); $ro::<T, V>(r, d - 1, x, base, lo + a, &keys[a..b]) }
                    18 => {
                        let k = r.range(1, n + 1);
                        t!("chunks_exact({})", k);
                        let c: Vec<_> = s.chunks_exact(k).collect();
                        same!(c.len(), n / k, "{}: number of chunks of {}", w, k);
                        for (i, x) in c.into_iter().enumerate() { $ro::<T, V>(r, 0, x, base, lo + i * k, &keys[i * k..(i + 1) * k]); }
                    }
                    19 => { t!("from &mut view"); $ro::<T, V>(r, d - 1, $R::from(&s), base, lo, keys) }
                    20 => {
                        t!("typed and back");
                        let x: $S<V> = some!(s.as_slice::<T>(), "as_slice").into();
                        $name::<T, V>(r, d - 1, x, base, lo, keys)
                    }
                    21 => { let (x, a, b) = sub!(r, n, s, into_subslice); return $name::<T, V>(r, d - 1, x, base, lo + a, &mut keys[a..b]) }
                    22 => match r.below(3) {
                        0 => { t!("upcast"); return $name::<T, $U>(r, d - 1, s.upcast::<$U>(), base, lo, keys) }
                        1 => { t!("into shared"); return $ro::<T, V>(r, d - 1, $R::from(s), base, lo, keys) }
                        _ => {
                            t!(stringify!($into_vec));
                            let c = some!(s.$into_vec::<T>(), stringify!($into_vec));
                            same!(c.len(), n, "{}: typed copy", w);
                            for i in 0..n { same!(c[i].key(), T::norm(keys[i]), "{}: typed copy element {}", w, i); }
                            return;
                        }
                    },
                    23 => {
                        t!("into_iter");
                        let mut ps: Vec<_> = vec![];
                        for (i, e) in s.into_iter().enumerate() {
                            if i >= n { fail!("{}: into_iter() yields too many", w) }
                            ps.push((i, identity!(T, e, base + lo * sz, i, keys[i], w)));
                        }
                        same!(ps.len(), n, "{}: into_iter() count", w);
                        if r.flip() { ps.reverse(); }
                        for (i, p) in ps { if r.flip() { let k = r.key(); *p = T::mk(k); keys[i] = k; } }
                        return;
                    }
                    _ => { for i in 0..n { identity!(T, s.get(i), base + lo * sz, i, keys[i], w); } }
                }
            }
        }
    };
}

ro_view!(ro_dyn, Slice, El, [HasDrop + HasClone + Clone], CloneVTable, clone_into_vec, append_clone_to_vec);
ro_view!(ro_copy, SliceCopy, CEl, [Clone + 'static], (), copy_into_vec, append_copy_to_vec);
mut_view!(mut_dyn, ro_dyn, SliceMut, Slice, El, [HasDrop + HasClone + Clone], CloneVTable, clone_into_vec, append_clone_to_vec, clone_from_slice);
mut_view!(mut_copy, ro_copy, SliceCopyMut, SliceCopy, CEl, [Clone + 'static], (), copy_into_vec, append_copy_to_vec, copy_from_slice);

fn fill<T: El>(keys: &[u64], spare: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(keys.len() + spare);
    v.extend(keys.iter().map(|k| T::mk(*k)));
    v
}

/// A chain of views over a vector or typed storage, elements behind `V`.
pub fn views_dyn<T: El, V>(r: &mut Rng)
where
    V: HasDrop + HasClone + Clone + VTable<T>,
    CloneVTable: From<V> + VTable<T>,
{
    let n = r.size();
    let mut keys: Vec<u64> = (0..n).map(|_| r.key()).collect();
    let d = r.range(1, 6);
    let src = r.below(7);
    t!("{} elements, source {}, depth {}", n, src, d);
    let spare = r.below(4);
    if src < 4 {
        let mut v = VecDyn::<V>::from_vec(fill::<T>(&keys, spare));
        for _ in 0..r.range(1, 3) {
            let base = v.as_slice_as::<T>().unwrap().as_ptr() as usize;
            match src {
                0 => ro_dyn::<T, V>(r, d, v.as_slice(), base, 0, &keys),
                1 => mut_dyn::<T, V>(r, d, v.as_mut_slice(), base, 0, &mut keys),
                2 => mut_dyn::<T, V>(r, d, v.as_mut_slice_as::<T>().unwrap().into(), base, 0, &mut keys),
                _ => ro_dyn::<T, V>(r, d, Slice::from(v.as_mut_slice()), base, 0, &keys),
            }
            window(some!(v.as_slice_as::<T>(), "as_slice_as"), base, 0, &keys, "storage after view operations");
            same!(v.len(), n, "vector length after view operations");
        }
    } else {
        let mut v = fill::<T>(&keys, spare);
        let base = v.as_ptr() as usize;
        match src {
            4 => ro_dyn::<T, V>(r, d, v.as_slice().into(), base, 0, &keys),
            5 => mut_dyn::<T, V>(r, d, SliceMut::from_slice(&mut v), base, 0, &mut keys),
            _ => ro_dyn::<T, V>(r, d, Slice::from_slice(&v), base, 0, &keys),
        }
        window(&v, base, 0, &keys, "typed storage after view operations");
    }
}

pub fn views_copy<T: CEl, V>(r: &mut Rng)
where
    V: Clone + 'static + VTable<T>,
    (): From<V>,
{
    let n = r.size();
    let mut keys: Vec<u64> = (0..n).map(|_| r.key()).collect();
    let d = r.range(1, 6);
    let src = r.below(7);
    t!("{} elements, source {}, depth {}", n, src, d);
    let spare = r.below(4);
    if src < 4 {
        let mut v = VecCopy::<V>::from_vec(fill::<T>(&keys, spare));
        for _ in 0..r.range(1, 3) {
            let base = v.as_slice_as::<T>().unwrap().as_ptr() as usize;
            match src {
                0 => ro_copy::<T, V>(r, d, v.as_slice(), base, 0, &keys),
                1 => mut_copy::<T, V>(r, d, v.as_mut_slice(), base, 0, &mut keys),
                2 => mut_copy::<T, V>(r, d, v.as_mut_slice_as::<T>().unwrap().into(), base, 0, &mut keys),
                _ => ro_copy::<T, V>(r, d, SliceCopy::from(v.as_mut_slice()), base, 0, &keys),
            }
            window(some!(v.as_slice_as::<T>(), "as_slice_as"), base, 0, &keys, "storage after view operations");
            same!(v.len(), n, "vector length after view operations");
        }
    } else {
        let mut v = fill::<T>(&keys, spare);
        let base = v.as_ptr() as usize;
        match src {
            4 => ro_copy::<T, V>(r, d, v.as_slice().into(), base, 0, &keys),
            5 => mut_copy::<T, V>(r, d, SliceCopyMut::from_slice(&mut v), base, 0, &mut keys),
            _ => ro_copy::<T, V>(r, d, SliceCopy::from_slice(&v), base, 0, &keys),
        }
        window(&v, base, 0, &keys, "typed storage after view operations");
    }
}
