//! Elements so large that none of them ever passes through the stack: every power of two an
//! alignment can be.
use crate::report::*;
use crate::{ensure, same, some, t};
use dync::traits::*;
use dync::*;
use std::mem::{align_of, size_of};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static DROPS: AtomicU64 = AtomicU64::new(0);

pub trait Huge: 'static {
    fn word(&self) -> u64;
    fn set(&mut self, k: u64);
}
macro_rules! huge { ($($name:ident $copy:ident $al:literal;)*) => {$(
    #[repr(C, align($al))]
    pub struct $name([u64; 1]);
    impl Huge for $name {
        fn word(&self) -> u64 { self.0[0] }
        fn set(&mut self, k: u64) { self.0[0] = k }
    }
    impl Drop for $name {
        fn drop(&mut self) {
            DROPS.fetch_add(self.0[0], Relaxed);
            self.0[0] = 0;
        }
    }
    #[derive(Clone, Copy)]
    #[repr(C, align($al))]
    pub struct $copy([u64; 1]);
    impl Huge for $copy {
        fn word(&self) -> u64 { self.0[0] }
        fn set(&mut self, k: u64) { self.0[0] = k }
    }
)*} }
huge! {
    D17 C17 131072; D18 C18 262144; D19 C19 524288; D20 C20 1048576; D21 C21 2097152; D22 C22 4194304; D23 C23 8388608;
    D24 C24 16777216; D25 C25 33554432; D26 C26 67108864; D27 C27 134217728;
    D13 C13 8192; D14 C14 16384; D15 C15 32768; D16 C16 65536;
}

/// A vector whose elements come into being where they are.
fn vec<T: Huge>(k: &[u64], spare: usize) -> Vec<T> {
    let mut v: Vec<T> = Vec::with_capacity(k.len() + spare);
    for (i, k) in k.iter().enumerate() {
        unsafe {
            let p = v.as_mut_ptr().add(i);
            (p as *mut u64).write(*k);
            v.set_len(i + 1);
        }
    }
    v
}
fn are<T: Huge>(s: &[T], k: &[u64], what: &str) {
    same!(s.len(), k.len(), "{}: elements", what);
    same!(s.as_ptr() as usize % align_of::<T>(), 0, "{}: address modulo the alignment", what);
    for (x, k) in s.iter().zip(k) {
        same!(x.word(), *k, "{}: contents", what);
    }
}

pub fn owned<T: Huge>(r: &mut Rng)
where
    DropVTable: VTable<T>,
{
    let mut k: Vec<u64> = (0..if size_of::<T>() > 1 << 24 { 1 } else { r.range(1, 3) }).map(|_| r.range(1, 1000) as u64).collect();
    t!("{} elements of alignment {}", k.len(), align_of::<T>());
    DROPS.store(0, Relaxed);
    let mut v: VecDyn<DropVTable> = vec::<T>(&k, 0).into();
    are(some!(v.as_slice_as::<T>(), "as_slice_as"), &k, "VecDyn");
    let e = v.get(0);
    same!((e.size(), e.value_alignment()), (size_of::<T>(), align_of::<T>()), "(size, alignment) of an element");
    some!(v.get_mut_as::<T>(0), "get_mut_as").set(7);
    k[0] = 7;
    same!(DROPS.load(Relaxed), 0, "elements destroyed");
    let mut w: VecDyn<DropVTable> = vec::<T>(&[11], 0).into();
    ensure!(v.append(&mut w).is_some(), "append refused the right type");
    k.push(11);
    are(some!(v.as_slice_as::<T>(), "as_slice_as"), &k, "VecDyn appended to");
    // Rotation may be refused for want of stack.
    if may_panic(|| v.rotate_left(1)).is_some() {
        k.rotate_left(1);
    }
    are(some!(v.as_slice_as::<T>(), "as_slice_as"), &k, "VecDyn rotated");
    if r.flip() {
        let x = some!(v.into_vec::<T>(), "into_vec");
        same!(DROPS.load(Relaxed), 0, "elements destroyed by a conversion");
        are(&x, &k, "into_vec");
        v = x.into();
    }
    let sum: u64 = k.iter().sum();
    if r.flip() {
        v.clear();
        same!(DROPS.load(Relaxed), sum, "elements destroyed by clear");
        v.append(&mut vec::<T>(&[3], 1).into());
        drop(v);
        same!(DROPS.load(Relaxed), sum + 3, "elements destroyed");
    } else {
        drop(v);
        same!(DROPS.load(Relaxed), sum, "elements destroyed");
    }
    drop(w);
    count("huge_elements");
}

pub fn copied<T: Huge + Copy>(r: &mut Rng) {
    let mut k: Vec<u64> = (0..if size_of::<T>() > 1 << 24 { 1 } else { r.range(1, 3) }).map(|_| r.range(1, 1000) as u64).collect();
    t!("{} elements of alignment {}", k.len(), align_of::<T>());
    let mut v: VecCopy = VecCopy::from_vec(vec::<T>(&k, r.below(2)));
    are(some!(v.as_slice_as::<T>(), "as_slice_as"), &k, "VecCopy");
    v.reserve(2);
    are(some!(v.as_slice_as::<T>(), "as_slice_as"), &k, "VecCopy with more room");
    let c = v.clone();
    are(some!(c.as_slice_as::<T>(), "as_slice_as"), &k, "cloned VecCopy");
    ensure!(v.push(c.get_ref(0)).is_some(), "push refused the right type");
    k.push(k[0]);
    drop(c);
    are(some!(v.as_slice_as::<T>(), "as_slice_as"), &k, "VecCopy pushed to");
    let mut w: VecCopy = VecCopy::with_capacity::<T>(1);
    w.extend(v.iter().skip(1));
    are(some!(w.as_slice_as::<T>(), "as_slice_as"), &k[1..], "extended VecCopy");
    ensure!(v.append(&mut w).is_some(), "append refused the right type");
    k.extend_from_within(1..);
    if may_panic(|| v.rotate_right(1)).is_some() {
        k.rotate_right(1);
    }
    let x = some!(v.into_vec::<T>(), "into_vec");
    are(&x, &k, "into_vec");
    count("huge_elements");
}
