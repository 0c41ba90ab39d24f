//! Vectors of very many elements: nothing depends on the number of them.
use crate::report::*;
use crate::vt::*;
use crate::{ensure, same, some, t};
use dync::traits::*;
use dync::*;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Many: Clone + PartialEq + Eq + Hash + Debug + 'static {
    fn at(i: u64) -> Self;
}
macro_rules! many { ($($t:ty: $i:ident => $e:expr;)*) => { $(impl Many for $t { fn at($i: u64) -> Self { $e } })* } }
many! {
    u8: i => (i ^ (i >> 8) ^ (i >> 16)) as u8;
    u16: i => (i ^ (i >> 16)) as u16;
    u32: i => i as u32;
    u64: i => i | i << 40;
    [u8; 3]: i => [i as u8, (i >> 8) as u8, (i >> 16) as u8];
    [u64; 3]: i => [i, !i, i << 32];
    String: i => format!("{:x}", i);
    Box<u32>: i => Box::new(i as u32);
}

/// Lengths next to powers of two, and in between.
fn length(r: &mut Rng) -> usize {
    let p = 1usize << r.range(8, 18);
    match r.below(3) {
        0 => p + r.below(5) - 2,
        1 => p + r.below(p),
        _ => p,
    }
}
fn typed<T: Many>(from: u64, n: usize) -> Vec<T> {
    (from..from + n as u64).map(T::at).collect()
}
fn are<T: Many>(got: &[T], want: &[T], what: &str) {
    same!(got.len(), want.len(), "{}: length", what);
    if let Some(i) = (0..want.len()).find(|&i| got[i] != want[i]) {
        same!(&got[i], &want[i], "{}: element {} of {}", what, i, want.len());
    }
    count("long_vectors_compared");
}

macro_rules! contents { ($v:expr, $T:ty) => { some!($v.as_slice_as::<$T>(), "as_slice_as") } }

/// Histories of a few operations on a long vector.
macro_rules! history { ($name:ident, $Vec:ty, $($bound:tt)*) => {
    pub fn $name<T: Many + $($bound)*>(r: &mut Rng) where AllVTable: VTable<T> {
        let n = length(r);
        t!("n{}", n);
        let mut m: Vec<T> = typed(1, n);
        let how = r.below(4);
        t!("make{}", how);
        let mut v: $Vec = match how {
            0 => m.clone().into(),
            1 => <$Vec>::from_slice(&m),
            2 => {
                m = vec![T::at(5); n];
                <$Vec>::with_size(n, T::at(5))
            }
            _ => {
                let mut v = <$Vec>::with_capacity::<T>(n);
                let at = contents!(v, T).as_ptr();
                for x in &m {
                    some!(v.push_as(x.clone()), "push_as");
                }
                same!(contents!(v, T).as_ptr(), at, "address after filling up a capacity of {}", n);
                v
            }
        };
        are(contents!(v, T), &m, "made");
        for _ in 0..r.range(2, 5) {
            let op = r.below(12);
            t!("op{}", op);
            match op {
                0 => {
                    let k = if r.flip() { r.below(m.len() + 1) } else { m.len() + length(r) };
                    some!(v.resize(k, T::at(9)), "resize");
                    m.resize(k, T::at(9));
                }
                1 => {
                    let mut w: Vec<T> = typed(7, length(r));
                    let mut e: $Vec = w.clone().into();
                    some!(v.append(&mut e), "append");
                    same!(e.len(), 0, "elements left behind by append");
                    m.append(&mut w);
                }
                2 => {
                    let k = r.below(m.len() + 1);
                    if r.flip() { v.rotate_left(k); m.rotate_left(k) } else { v.rotate_right(k); m.rotate_right(k) }
                }
                3 => {
                    some!(v.fill(T::at(3)), "fill");
                    m.fill(T::at(3));
                    if let Some(x) = m.last_mut() {
                        *x = T::at(4);
                        *some!(v.get_mut_as::<T>(v.len() - 1), "get_mut_as") = T::at(4);
                    }
                }
                4 => {
                    let w = v.clone();
                    are(contents!(w, T), &m, "clone");
                    v = w;
                }
                5 => {
                    let w = some!(v.into_vec::<T>(), "into_vec");
                    are(&w, &m, "into_vec");
                    v = w.into();
                }
                6 if m.len() > 1 => {
                    let (i, j) = (r.below(m.len()), r.below(m.len()));
                    v.as_mut_slice().swap(i, j);
                    m.swap(i, j);
                }
                7 => {
                    // Cut in two, each part a window of its own.
                    let k = r.below(m.len() + 1);
                    let s = v.as_slice();
                    let (a, b) = s.split_at(k);
                    same!((a.len(), b.len()), (k, m.len() - k), "lengths of the parts");
                    are(some!(a.as_slice::<T>(), "as_slice"), &m[..k], "first part");
                    are(some!(b.as_slice::<T>(), "as_slice"), &m[k..], "second part");
                    let e = k + r.below(m.len() - k + 1);
                    are(some!(s.subslice(k..e).as_slice::<T>(), "as_slice"), &m[k..e], "window");
                    are(some!(s.reborrow().into_subslice(k..).as_slice::<T>(), "as_slice"), &m[k..], "open window");
                }
                8 => {
                    let k = r.range(1, (m.len() / 2).max(1));
                    let s = v.as_slice();
                    let mut c = m.chunks_exact(k);
                    let mut seen = 0;
                    for x in s.chunks_exact(k) {
                        are(some!(x.as_slice::<T>(), "as_slice"), some!(c.next(), "a chunk"), "chunk");
                        seen += 1;
                    }
                    same!(seen, m.len() / k, "chunks");
                }
                9 => {
                    same!(v.iter().count(), m.len(), "erased references");
                    for (i, x) in v.iter().enumerate().step_by(r.range(1, 50)) {
                        ensure!(x.downcast::<T>() == Some(&m[i]), "erased reference {} of {}", i, m.len());
                    }
                    ensure!(some!(v.iter_as::<T>(), "iter_as").eq(m.iter()), "typed references");
                }
                10 => {
                    v.clear();
                    m.clear();
                }
                _ => {
                    // Everything through erased mutable references.
                    let n = m.len();
                    for (i, x) in v.iter_mut().enumerate() {
                        if i % 1009 == n % 1009 {
                            *some!(x.downcast::<T>(), "downcast") = T::at(i as u64 + 77);
                            m[i] = T::at(i as u64 + 77);
                        }
                    }
                }
            }
            are(contents!(v, T), &m, "vector");
        }
    }
} }
history!(long_dyn, VecDyn<AllVTable>, );
history!(long_copy, VecCopy, CopyElem);

/// Comparison and hashes of long vectors: every element counts.
pub fn compared<T: Many>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    let n = length(r);
    t!("n{}", n);
    let m: Vec<T> = typed(1, n);
    let v: VecDyn<AllVTable> = m.clone().into();
    let mut o: Vec<T> = m.clone();
    let w: VecDyn<AllVTable> = o.clone().into();
    ensure!(v == w, "equal vectors of {} elements differ", n);
    ensure!(v.as_slice() == w.as_slice(), "equal views of {} elements differ", n);
    same!(rec_of(&v), rec_of(&w), "hashes of equal vectors of {} elements", n);
    let i = match r.below(3) { 0 => 0, 1 => n - 1, _ => r.below(n) };
    t!("i{}", i);
    o[i] = if m[i] == T::at(3) { T::at(4) } else { T::at(3) };
    let w: VecDyn<AllVTable> = o.clone().into();
    ensure!(v != w, "vectors of {} elements that differ in element {} are equal", n, i);
    ensure!(v.as_slice() != w.as_slice(), "views of {} elements that differ in element {} are equal", n, i);
    ensure!(rec_of(&v) != rec_of(&w), "the hash of {} elements is without element {}", n, i);
    same!(format!("{:?}", w), format!("{:?}", VecDyn::<AllVTable>::from(o.clone())), "text");
    let s: VecDyn<AllVTable> = o[..n - 1].to_vec().into();
    ensure!(s != w && w != s, "vectors of {} and {} elements are equal", n - 1, n);
    // The text shows all elements.
    let (a, b) = (format!("{:?}", w.as_slice()), format!("{:?}", o));
    same!(a.len() >= b.len(), true, "length of the text of {} elements", n);
    count("long_vectors_compared");
}

/// Room for many elements, and growth one by one.
pub fn room_copy<T: Many + CopyElem>(r: &mut Rng) {
    let (n, k) = (length(r), length(r));
    t!("n{} k{}", n, k);
    let mut v: VecCopy = VecCopy::with_capacity::<T>(n);
    ensure!(v.capacity() >= n, "capacity {} of a vector made with capacity {}", v.capacity(), n);
    v.reserve(k);
    ensure!(v.capacity() >= k, "capacity {} after reserving {}", v.capacity(), k);
    let at = contents!(v, T).as_ptr();
    let most = v.capacity();
    let m: Vec<T> = typed(2, most + 2000);
    let (mut moved, mut last) = (0, at);
    for (i, x) in m.iter().enumerate() {
        if r.below(2) == 0 {
            some!(v.push_as(*x), "push_as");
        } else {
            some!(v.push(CopyValueRef::<()>::new(x)), "push");
        }
        let p = contents!(v, T).as_ptr();
        if p != last {
            ensure!(i >= most, "reallocation on element {} with room for {}", i, most);
            moved += 1;
            last = p;
        }
    }
    ensure!(moved <= 12, "{} reallocations for 2000 elements on top of {}", moved, most);
    are(contents!(v, T), &m, "vector filled up");
    let (cap, p) = (v.capacity(), last);
    v.clear();
    same!((v.capacity(), contents!(v, T).as_ptr()), (cap, p), "(capacity, address) after clear");
    let w = some!(v.into_vec::<T>(), "into_vec");
    same!((w.capacity(), w.as_ptr()), (cap, p), "(capacity, address) turned back");
    count("long_growths");
}

pub fn room_dyn<T: Many>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    let n = length(r);
    t!("n{}", n);
    let mut v: VecDyn<AllVTable> = VecDyn::with_capacity::<T>(n);
    let first = contents!(v, T).as_ptr();
    let m: Vec<T> = typed(2, n + 2000);
    let (mut moved, mut last) = (0, first);
    for (i, x) in m.iter().enumerate() {
        match r.below(3) {
            0 => drop(some!(v.push_as(x.clone()), "push_as")),
            1 => drop(some!(v.push(BoxValue::<AllVTable>::new(x.clone())), "push")),
            _ => drop(some!(v.push_cloned(ValueRef::new(x)), "push_cloned")),
        }
        let p = contents!(v, T).as_ptr();
        if p != last {
            ensure!(i >= n, "reallocation on element {} with room for {}", i, n);
            moved += 1;
            last = p;
        }
    }
    ensure!(moved <= 24, "{} reallocations for 2000 elements on top of {}", moved, n);
    are(contents!(v, T), &m, "vector filled up");
    let w = some!(v.into_vec::<T>(), "into_vec");
    same!(w.as_ptr(), last, "address turned back");
    are(&w, &m, "into_vec");
    count("long_growths");
}
