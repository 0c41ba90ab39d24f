//! Changing the capability table: narrowing, dynamic tables, taking apart and reassembling. The contents
//! must stay where and what they are, and the remaining capabilities must still be the element's own.
use crate::copyw::{keys, keys_of, typed, CEl};
use crate::el::*;
use crate::ledger::{self, Ev};
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::any::{Any, TypeId};
use std::mem::{align_of, size_of, MaybeUninit};

type Counts = [u64; ledger::NEV];

/// The capabilities of a table, where it has them.
pub trait Caps: HasDrop + 'static {
    fn vclone(_: &VecDyn<Self>) -> Option<VecDyn<Self>> { None }
    fn vresize<'a>(_: &'a mut VecDyn<Self>, _: usize, _: BoxValue<AllVTable>) -> Option<bool> { None }
    fn veq(_: &VecDyn<Self>, _: &VecDyn<Self>) -> Option<bool> { None }
    fn vhash(_: &VecDyn<Self>) -> Option<Vec<u8>> { None }
    fn vfmt(_: &VecDyn<Self>) -> Option<String> { None }
    fn seq(_: &Slice<Self>, _: &Slice<Self>) -> Option<bool> { None }
    fn sfmt(_: &Slice<Self>) -> Option<String> { None }
    fn meq(_: &SliceMut<Self>, _: &SliceMut<Self>) -> Option<bool> { None }
    fn mfmt(_: &SliceMut<Self>) -> Option<String> { None }
    fn rclone(_: &ValueRef<Self>) -> Option<BoxValue<Self>> { None }
    fn req(_: &ValueRef<Self>, _: &ValueRef<Self>) -> Option<bool> { None }
    fn rhash(_: &ValueRef<Self>) -> Option<Vec<u8>> { None }
    fn rfmt(_: &ValueRef<Self>) -> Option<String> { None }
    fn beq(_: &BoxValue<Self>, _: &BoxValue<Self>) -> Option<bool> { None }
    fn bclone(_: &BoxValue<Self>) -> Option<BoxValue<Self>> { None }
    fn bhash(_: &BoxValue<Self>) -> Option<Vec<u8>> { None }
    fn bfmt(_: &BoxValue<Self>) -> Option<String> { None }
    fn weq(_: &SmallValue<Self>, _: &SmallValue<Self>) -> Option<bool> { None }
    fn wclone(_: &SmallValue<Self>) -> Option<SmallValue<Self>> { None }
    fn whash(_: &SmallValue<Self>) -> Option<Vec<u8>> { None }
    fn wfmt(_: &SmallValue<Self>) -> Option<String> { None }
    fn clone_from_other(_: &mut ValueMut<Self>, _: &ValueRef<Self>) -> Option<bool> { None }
}
macro_rules! caps {
    (@one clone) => {
        fn vclone(v: &VecDyn<Self>) -> Option<VecDyn<Self>> { Some(v.clone()) }
        fn rclone(v: &ValueRef<Self>) -> Option<BoxValue<Self>> { Some(v.clone_value()) }
        fn bclone(v: &BoxValue<Self>) -> Option<BoxValue<Self>> { Some(v.clone()) }
        fn wclone(v: &SmallValue<Self>) -> Option<SmallValue<Self>> { Some(v.clone()) }
        fn clone_from_other(a: &mut ValueMut<Self>, b: &ValueRef<Self>) -> Option<bool> { Some(a.clone_from_other(b.reborrow()).is_ok()) }
    };
    (@one eq) => {
        fn veq(a: &VecDyn<Self>, b: &VecDyn<Self>) -> Option<bool> { Some(a == b) }
        fn seq(a: &Slice<Self>, b: &Slice<Self>) -> Option<bool> { Some(a == b) }
        fn meq(a: &SliceMut<Self>, b: &SliceMut<Self>) -> Option<bool> { Some(a == b) }
        fn req(a: &ValueRef<Self>, b: &ValueRef<Self>) -> Option<bool> { Some(a == b) }
        fn beq(a: &BoxValue<Self>, b: &BoxValue<Self>) -> Option<bool> { Some(a == b) }
        fn weq(a: &SmallValue<Self>, b: &SmallValue<Self>) -> Option<bool> { Some(a == b) }
    };
    (@one hash) => {
        fn vhash(v: &VecDyn<Self>) -> Option<Vec<u8>> { Some(rec_of(v)) }
        fn rhash(v: &ValueRef<Self>) -> Option<Vec<u8>> { Some(rec_of(v)) }
        fn bhash(v: &BoxValue<Self>) -> Option<Vec<u8>> { Some(rec_of(v)) }
        fn whash(v: &SmallValue<Self>) -> Option<Vec<u8>> { Some(rec_of(v)) }
    };
    (@one fmt) => {
        fn vfmt(v: &VecDyn<Self>) -> Option<String> { Some(format!("{:?}", v)) }
        fn sfmt(v: &Slice<Self>) -> Option<String> { Some(format!("{:?}", v)) }
        fn mfmt(v: &SliceMut<Self>) -> Option<String> { Some(format!("{:?}", v)) }
        fn rfmt(v: &ValueRef<Self>) -> Option<String> { Some(format!("{:?}", v)) }
        fn bfmt(v: &BoxValue<Self>) -> Option<String> { Some(format!("{:?}", v)) }
        fn wfmt(v: &SmallValue<Self>) -> Option<String> { Some(format!("{:?}", v)) }
    };
    ($($V:ty: [$($c:ident)*];)*) => {$( impl Caps for $V { $( caps!(@one $c); )* } )*};
}
caps! {
    AllVTable: [clone eq hash fmt];
    FloatVTable: [clone eq fmt];
    HVTable: [clone eq hash fmt];
    PCDVTable: [clone eq fmt];
    PCVTable: [clone eq];
    PVTable: [eq];
    DropVTable: [];
    CloneVTable: [clone];
    PartialEqVTable: [eq];
    EqVTable: [eq];
    HashVTable: [hash];
    DebugVTable: [fmt];
    (DropFn, AllVTable): [clone eq hash fmt];
    (DropFn, DebugVTable): [fmt];
    (DropFn, HashVTable): [hash];
    dyn HasDrop: [];
    dyn HasAll: [eq hash fmt];
    dyn HasH: [eq hash fmt];
    dyn HasPCD: [eq fmt];
    dyn HasPC: [eq];
    dyn HasFloat: [eq fmt];
}

pub fn ids<T: El>(s: &[T]) -> Vec<(u32, u64)> {
    ledger::uncounted(|| s.iter().map(|x| (x.serial(), x.key())).collect())
}
fn kv(m: &[(u32, u64)]) -> Vec<u64> {
    m.iter().map(|x| x.1).collect()
}

/// Exactly `n` runs of `e` more than before, and no other element code.
fn ran<T: El>(c0: Counts, e: Ev, n: usize, what: &str) {
    if T::TRACKED {
        let mut w = c0;
        w[e as usize] += n as u64;
        same!(ledger::counts(), w, "{}: element code run (made, cloned, cloned in place, dropped, eq, hash, fmt) for {} elements", what, n);
    }
}

/// Everything that a typed slice of these elements prints and hashes.
pub struct Typed {
    pub fmt: String,
    each_fmt: Vec<String>,
    pub hash: Option<Vec<u8>>,
    each_hash: Vec<Option<Vec<u8>>>,
}
pub fn typed_of<T: El + MaybeHash>(s: &[T]) -> Typed {
    ledger::uncounted(|| Typed {
        fmt: format!("{:?}", s),
        each_fmt: s.iter().map(|x| format!("{:?}", x)).collect(),
        hash: s.iter().map(|x| x.typed_hash()).collect::<Option<Vec<_>>>().map(|v| v.concat()),
        each_hash: s.iter().map(|x| x.typed_hash()).collect(),
    })
}
fn reflexive<T: El>(s: &[T]) -> bool {
    ledger::uncounted(|| s.iter().all(|x| x == x))
}

/// Every capability of references.
fn try_ref<T: El + MaybeHash, V: Caps + ?Sized>(e: &ValueRef<V>, x: (u32, u64), w: &str) {
    same!(e.value_type_id(), TypeId::of::<T>(), "{}: type of an element", w);
    same!((e.size(), e.value_alignment()), (size_of::<T>(), align_of::<T>()), "{}: size and alignment of an element", w);
    let p = some!(e.reborrow().downcast::<T>(), "{}: downcast", w);
    same!((p.serial(), ledger::uncounted(|| p.key())), x, "{}: element", w);
    let ty = typed_of(std::slice::from_ref(p));
    let c = ledger::counts();
    if let Some(q) = V::req(e, &e.reborrow()) {
        same!(q, reflexive(std::slice::from_ref(p)), "{}: equality of an element with itself", w);
        ran::<T>(c, Ev::Eq, 1, "equality of elements");
    }
    let c = ledger::counts();
    if let Some(s) = V::rfmt(e) {
        same!(s, ty.each_fmt[0], "{}: formatting an element", w);
        ran::<T>(c, Ev::Fmt, 1, "formatting an element");
    }
    let c = ledger::counts();
    if let Some(h) = V::rhash(e) {
        same!(Some(h), ty.each_hash[0], "{}: hashing an element", w);
        ran::<T>(c, Ev::Hash, 1, "hashing an element");
    }
    let c = ledger::counts();
    if let Some(b) = V::rclone(e) {
        ran::<T>(c, Ev::Clone, 1, "cloning an element");
        let b = *some!(b.downcast::<T>(), "{}: downcast of a clone", w);
        same!(ledger::uncounted(|| b.key()), x.1, "{}: clone of an element", w);
        if T::TRACKED {
            same!(ledger::parent(b.serial()), x.0, "{}: original of a clone", w);
        }
        let c = ledger::counts();
        drop(b);
        ran::<T>(c, Ev::Drop, 1, "dropping a clone");
    }
}

/// Every capability of vectors. Leaves the vector as it is.
fn try_vec<T: El + MaybeHash, V: Caps + ?Sized>(v: &VecDyn<V>, m: &[(u32, u64)], w: &str) {
    let n = m.len();
    same!(v.len(), n, "{}: number of elements", w);
    same!(v.element_type_id(), TypeId::of::<T>(), "{}: element type", w);
    same!(v.element_size(), size_of::<T>(), "{}: element size", w);
    let s = some!(v.as_slice_as::<T>(), "{}: as_slice_as", w);
    same!(ids(s), m.to_vec(), "{}: (identity, key) of the elements", w);
    let ty = typed_of(s);
    let c = ledger::counts();
    if let Some(q) = V::veq(v, v) {
        same!(q, reflexive(s), "{}: equality of a vector with itself", w);
        if q {
            ran::<T>(c, Ev::Eq, n, "equality of vectors");
        }
    }
    let c = ledger::counts();
    if let Some(x) = V::vfmt(v) {
        same!(x, ty.fmt, "{}: formatting a vector", w);
        ran::<T>(c, Ev::Fmt, n, "formatting a vector");
    }
    let c = ledger::counts();
    if let Some(h) = V::vhash(v) {
        let want = ty.hash.clone().unwrap_or_default();
        ensure!(h.starts_with(&want) || h.ends_with(&want), "{}: hashing a vector fed {:?} instead of {:?}", w, h, want);
        ran::<T>(c, Ev::Hash, n, "hashing a vector");
    }
    let c = ledger::counts();
    if let Some(b) = V::vclone(v) {
        ran::<T>(c, Ev::Clone, n, "cloning a vector");
        let bs = some!(b.as_slice_as::<T>(), "{}: as_slice_as of a clone", w);
        let bi = ids(bs);
        same!(kv(&bi), kv(m), "{}: clone of a vector", w);
        if T::TRACKED {
            same!(bi.iter().map(|x| ledger::parent(x.0)).collect::<Vec<_>>(), m.iter().map(|x| x.0).collect::<Vec<_>>(), "{}: originals of the clones", w);
        }
        if let Some(q) = V::veq(v, &b) {
            same!(q, ledger::uncounted(|| s == some!(b.as_slice_as::<T>(), "as_slice_as")), "{}: equality with a clone", w);
        }
        let c = ledger::counts();
        drop(b);
        ran::<T>(c, Ev::Drop, n, "dropping a clone of a vector");
    }
    // Some elements, and the whole as a view.
    let picks = [0, n / 2, n.saturating_sub(1)];
    for (j, i) in picks.iter().enumerate() {
        if *i < n && (j == 0 || *i != picks[j - 1]) && (!cfg!(miri) || j == 1) {
            try_ref::<T, V>(&v.get(*i), m[*i], w);
        }
    }
    try_slice::<T, V>(&v.as_slice(), s.as_ptr() as usize, m, w);
}

fn try_slice<T: El + MaybeHash, V: Caps + ?Sized>(v: &Slice<V>, base: usize, m: &[(u32, u64)], w: &str) {
    let n = m.len();
    same!(v.len(), n, "{}: number of elements of a view", w);
    same!(v.element_type_id(), TypeId::of::<T>(), "{}: element type of a view", w);
    let s = some!(v.as_slice::<T>(), "{}: as_slice", w);
    if n > 0 {
        same!(s.as_ptr() as usize, base, "{}: storage of a view", w);
    }
    same!(ids(s), m.to_vec(), "{}: (identity, key) of the elements of a view", w);
    let ty = typed_of(s);
    let c = ledger::counts();
    if let Some(q) = V::seq(v, v) {
        same!(q, reflexive(s), "{}: equality of a view with itself", w);
        if q {
            ran::<T>(c, Ev::Eq, n, "equality of views");
        }
    }
    let c = ledger::counts();
    if let Some(x) = V::sfmt(v) {
        same!(x, ty.fmt, "{}: formatting a view", w);
        ran::<T>(c, Ev::Fmt, n, "formatting a view");
    }
    let mut seen = 0;
    for (e, x) in v.iter().zip(m) {
        if cfg!(miri) && seen > 1 {
            break;
        }
        try_ref::<T, V>(&e, *x, w);
        seen += 1;
    }
}

fn try_mut<T: El + MaybeHash, V: Caps + ?Sized>(r: &mut Rng, v: &mut SliceMut<V>, base: usize, m: &mut [(u32, u64)], w: &str)
where
    AllVTable: VTable<T>,
{
    let n = m.len();
    same!(v.len(), n, "{}: number of elements of a mutable view", w);
    let c = ledger::counts();
    if let Some(x) = V::mfmt(v) {
        ran::<T>(c, Ev::Fmt, n, "formatting a mutable view");
        same!(x, typed_of(some!(v.as_slice::<T>(), "as_slice")).fmt, "{}: formatting a mutable view", w);
    }
    let c = ledger::counts();
    if let Some(q) = V::meq(v, v) {
        if q {
            ran::<T>(c, Ev::Eq, n, "equality of mutable views");
        }
        same!(q, reflexive(some!(v.as_slice::<T>(), "as_slice")), "{}: equality of a mutable view with itself", w);
    }
    {
        let s = some!(v.as_slice::<T>(), "{}: as_slice", w);
        same!(ids(s), m.to_vec(), "{}: (identity, key) of the elements of a mutable view", w);
        if n > 0 {
            same!(s.as_ptr() as usize, base, "{}: storage of a mutable view", w);
        }
    }
    if n > 1 {
        let (i, j) = (r.below(n), r.below(n));
        v.swap(i, j);
        m.swap(i, j);
        let k = r.below(n + 1);
        v.rotate_left(k);
        m.rotate_left(k);
        {
            let (mut a, mut b) = v.split_at(1);
            a.get_mut(0).swap(&mut b.get_mut(0));
        }
        m.swap(0, 1);
    }
    if n > 0 {
        let i = r.below(n);
        try_ref::<T, V>(&v.get(i), m[i], w);
        let x = T::mk(r.key());
        let id = (x.serial(), ledger::uncounted(|| x.key()));
        let c = ledger::counts();
        *some!(v.get_mut(i).downcast::<T>(), "{}: downcast", w) = x;
        ran::<T>(c, Ev::Drop, 1, "overwriting an element");
        m[i] = id;
        // In place, from another element.
        if n > 1 {
            let (mut a, b) = v.split_at(1);
            let c = ledger::counts();
            let a0 = m[0];
            if let Some(ok) = V::clone_from_other(&mut a.get_mut(0), &b.get(0)) {
                ensure!(ok, "{}: clone_from_other refused the same type", w);
                ran::<T>(c, Ev::CloneFrom, 1, "clone_from_other");
                m[0] = ids(some!(a.as_slice::<T>(), "as_slice"))[0];
                same!(m[0].1, m[1].1, "{}: clone_from_other (was {:?})", w, a0);
            }
        }
    }
    same!(ids(some!(v.as_slice::<T>(), "as_slice")), m.to_vec(), "{}: elements after changes through a mutable view", w);
}

/// Changes that need no capability but destruction.
fn change<T: El + MaybeHash, V: Caps + ?Sized>(r: &mut Rng, v: &mut VecDyn<V>, m: &mut Vec<(u32, u64)>, w: &str)
where
    AllVTable: VTable<T>,
{
    for _ in 0..r.range(1, 4) {
        let n = m.len();
        match r.below(9) {
            0 => {
                let x = T::mk(r.key());
                m.push(ids(std::slice::from_ref(&x))[0]);
                some!(v.push_as(x), "{}: push_as", w);
            }
            1 => {
                // Growth.
                for i in 0..r.below(12) {
                    let x = T::mk(i as u64);
                    m.push(ids(std::slice::from_ref(&x))[0]);
                    some!(v.push_as(x), "{}: push_as", w);
                }
            }
            2 => {
                let k = r.below(n + 1);
                v.rotate_right(k);
                m.rotate_right(k);
            }
            3 if n > 0 => {
                let i = r.below(n);
                let x = T::mk(r.key());
                let id = ids(std::slice::from_ref(&x))[0];
                let c = ledger::counts();
                *some!(v.get_mut_as::<T>(i), "{}: get_mut_as", w) = x;
                ran::<T>(c, Ev::Drop, 1, "overwriting an element");
                m[i] = id;
            }
            4 if r.chance(1, 3) => {
                let c = ledger::counts();
                v.clear();
                ran::<T>(c, Ev::Drop, n, "clear");
                m.clear();
            }
            5 => {
                // A value of another type is still refused.
                ensure!(v.push_as(Other(7)).is_none(), "{}: push_as of another type", w);
                ensure!(v.as_slice_as::<Other>().is_none(), "{}: as_slice_as of another type", w);
            }
            6 => {
                let base = some!(v.as_slice_as::<T>(), "as_slice_as").as_ptr() as usize;
                let a = r.below(n + 1);
                let b = r.range(a, n);
                let mut s = v.as_mut_slice().into_subslice(a..b);
                try_mut::<T, V>(r, &mut s, base + a * size_of::<T>(), &mut m[a..b], w);
            }
            7 => {
                for (mut e, x) in v.iter_mut().zip(m.iter_mut()) {
                    if r.chance(1, 4) {
                        let y = T::mk(r.key());
                        let id = ids(std::slice::from_ref(&y))[0];
                        *some!(e.reborrow_mut().downcast::<T>(), "{}: downcast", w) = y;
                        *x = id;
                    }
                }
            }
            _ => {}
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Other(u32);

/// The last use of a vector.
fn end_vec<T: El + MaybeHash, V: Caps + ?Sized>(r: &mut Rng, v: VecDyn<V>, m: &[(u32, u64)], w: &str) {
    if r.flip() {
        let c = ledger::counts();
        drop(v);
        ran::<T>(c, Ev::Drop, m.len(), "dropping a vector");
        if T::TRACKED {
            ensure!(m.iter().all(|x| !ledger::is_live(x.0)), "{}: element alive after its vector", w);
        }
    } else {
        let p = some!(v.as_slice_as::<T>(), "as_slice_as").as_ptr();
        let c = ledger::counts();
        let t = some!(v.into_vec::<T>(), "{}: into_vec", w);
        ran::<T>(c, Ev::Drop, 0, "into_vec");
        same!(ids(&t), m.to_vec(), "{}: into_vec", w);
        if !t.is_empty() {
            same!(t.as_ptr(), p, "{}: storage of into_vec", w);
        }
    }
}

macro_rules! stay {
    ($T:ty, $v:ident, $e:expr, $m:expr, $w:expr) => {{
        let before = (some!($v.as_slice_as::<$T>(), "as_slice_as").as_ptr(), ledger::counts(), $v.len());
        let u = $e;
        same!(ledger::counts(), before.1, "{}: element code run", $w);
        same!((some!(u.as_slice_as::<$T>(), "{}: as_slice_as", $w).as_ptr(), u.len()), (before.0, before.2), "{}: storage and length", $w);
        u
    }};
}

/// Random sequences of table changes of vectors, with use in between.
pub fn vectors<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
    HVTable: VTable<T>,
    (DropFn, AllVTable): VTable<T>,
    (DropFn, DebugVTable): VTable<T>,
{
    let n = r.size();
    let k = keys(r, n);
    let mut src: Vec<T> = Vec::with_capacity(n + r.below(4));
    src.extend(k.iter().map(|k| T::mk(*k)));
    let mut m = ids(&src);
    macro_rules! using { ($v:ident, $V:ty) => {{
        let w = stringify!($V);
        if r.chance(3, 4) {
            try_vec::<T, $V>(&$v, &m, w);
        }
        if r.flip() {
            change::<T, $V>(r, &mut $v, &mut m, w);
            if r.flip() {
                try_vec::<T, $V>(&$v, &m, w);
            }
        }
    }} }
    macro_rules! up { ($v:ident, $V:ty) => {{
        let mut u: VecDyn<$V> = stay!(T, $v, $v.upcast::<$V>(), m, concat!("upcast to ", stringify!($V)));
        using!(u, $V);
        u
    }} }
    macro_rules! end { ($v:ident, $V:ty) => { end_vec::<T, $V>(r, $v, &m, stringify!($V)) } }
    let op = r.below(23);
    t!("op{} n{} {}", op, n, k.first().copied().unwrap_or(0));
    match op {
        0 => { let v: VecDyn<AllVTable> = src.into(); let v = up!(v, DropVTable); let v = up!(v, DropVTable); end!(v, DropVTable) }
        1 => { let v: VecDyn<AllVTable> = src.into(); let v = up!(v, CloneVTable); end!(v, CloneVTable) }
        2 => { let v: VecDyn<AllVTable> = src.into(); let v = up!(v, PartialEqVTable); end!(v, PartialEqVTable) }
        3 => { let v: VecDyn<AllVTable> = src.into(); let v = up!(v, EqVTable); end!(v, EqVTable) }
        4 => { let v: VecDyn<AllVTable> = src.into(); let v = up!(v, HashVTable); end!(v, HashVTable) }
        5 => { let v: VecDyn<AllVTable> = src.into(); let v = up!(v, DebugVTable); end!(v, DebugVTable) }
        6 => { let v: VecDyn<AllVTable> = src.into(); let v = up!(v, AllVTable); let v = up!(v, DebugVTable); end!(v, DebugVTable) }
        7 => {
            let v: VecDyn<HVTable> = src.into();
            let v = up!(v, PCDVTable);
            let v = up!(v, PCVTable);
            let v = up!(v, PVTable);
            let v = up!(v, DropVTable);
            end!(v, DropVTable)
        }
        8 => { let v: VecDyn<HVTable> = src.into(); let v = up!(v, PCVTable); let v = up!(v, CloneVTable); end!(v, CloneVTable) }
        9 => { let v: VecDyn<HVTable> = src.into(); let v = up!(v, PVTable); let v = up!(v, PartialEqVTable); end!(v, PartialEqVTable) }
        10 => { let v: VecDyn<HVTable> = src.into(); let v = up!(v, PCDVTable); let v = up!(v, DebugVTable); end!(v, DebugVTable) }
        11 => { let v: VecDyn<HVTable> = src.into(); if r.flip() { let v = up!(v, HashVTable); end!(v, HashVTable) } else { let v = up!(v, EqVTable); end!(v, EqVTable) } }
        12 => { let v: VecDyn<HVTable> = src.into(); let v = up!(v, PCDVTable); let v = up!(v, CloneVTable); end!(v, CloneVTable) }
        // Dynamic tables, and back.
        13 => {
            let v: VecDyn<AllVTable> = src.into();
            let mut d = stay!(T, v, into_dyn![VecDyn<dyn HasAll>](v), m, "into_dyn to HasAll");
            using!(d, dyn HasAll);
            if r.flip() { end!(d, dyn HasAll) } else {
                let mut v = stay!(T, d, from_dyn![VecDyn<dyn HasAll as AllVTable>](d), m, "from_dyn of HasAll");
                using!(v, AllVTable);
                let v = up!(v, DebugVTable);
                end!(v, DebugVTable)
            }
        }
        14 => {
            let v: VecDyn<HVTable> = src.into();
            let mut d = stay!(T, v, into_dyn![VecDyn<dyn HasH>](v), m, "into_dyn to HasH");
            using!(d, dyn HasH);
            let mut v = stay!(T, d, from_dyn![VecDyn<dyn HasH as HVTable>](d), m, "from_dyn of HasH");
            using!(v, HVTable);
            let v = up!(v, PCDVTable);
            let mut d = stay!(T, v, into_dyn![VecDyn<dyn HasPCD>](v), m, "into_dyn to HasPCD");
            using!(d, dyn HasPCD);
            end!(d, dyn HasPCD)
        }
        15 => {
            // The dynamic table of something more general.
            let v: VecDyn<HVTable> = src.into();
            let mut d = stay!(T, v, into_dyn![VecDyn<dyn HasDrop>](v), m, "into_dyn to HasDrop");
            using!(d, dyn HasDrop);
            let mut v = stay!(T, d, from_dyn![VecDyn<dyn HasDrop as HVTable>](d), m, "from_dyn of HasDrop");
            using!(v, HVTable);
            let v = up!(v, PCVTable);
            let mut d = stay!(T, v, into_dyn![VecDyn<dyn HasPC>](v), m, "into_dyn to HasPC");
            using!(d, dyn HasPC);
            end!(d, dyn HasPC)
        }
        16 => {
            // With another table than the one inside: refused, and the contents are gone.
            let v: VecDyn<AllVTable> = src.into();
            if r.flip() {
                let d = into_dyn![VecDyn<dyn HasDrop>](v);
                must_panic(format_args!("from_dyn to another table"), move || from_dyn![VecDyn<dyn HasDrop as HVTable>](d));
            } else {
                let v: VecDyn<FloatVTable> = some!(v.into_vec::<T>(), "into_vec").into();
                let d = into_dyn![VecDyn<dyn HasFloat>](v);
                drop(d);
            }
            if T::TRACKED {
                same!(ledger::live(), 0, "elements alive after a refused from_dyn");
            }
        }
        // Taking apart.
        17 | 18 => {
            let v: VecDyn<AllVTable> = src.into();
            let mut v = stay!(T, v, { let (d, vt) = v.into_raw_parts(); unsafe { VecDyn::from_raw_parts(d, vt) } }, m, "into_raw_parts and from_raw_parts");
            using!(v, AllVTable);
            let v = up!(v, CloneVTable);
            let mut v = stay!(T, v, { let (d, vt) = v.into_raw_parts(); unsafe { VecDyn::from_raw_parts(d, vt) } }, m, "into_raw_parts and from_raw_parts");
            using!(v, CloneVTable);
            let d = into_dyn![VecDyn<dyn HasDrop>](v);
            let mut v = stay!(T, d, { let (d, vt) = d.into_raw_parts(); unsafe { VecDyn::from_raw_parts(d, vt) } }, m, "into_raw_parts and from_raw_parts");
            using!(v, dyn HasDrop);
            end!(v, dyn HasDrop)
        }
        19 => {
            // A table with the drop function in front.
            let mut v: VecDyn<(DropFn, AllVTable)> = src.into();
            using!(v, (DropFn, AllVTable));
            let mut d = stay!(T, v, into_dyn![VecDyn<dyn HasDrop>](v), m, "into_dyn to HasDrop");
            using!(d, dyn HasDrop);
            end!(d, dyn HasDrop)
        }
        20 => { let mut v: VecDyn<(DropFn, DebugVTable)> = src.into(); using!(v, (DropFn, DebugVTable)); end!(v, (DropFn, DebugVTable)) }
        21 => {
            // Copies of a table are as good as the original.
            let v: VecDyn<HVTable> = src.into();
            let vt = *v.vtable();
            let (d, old) = v.into_raw_parts();
            drop(old);
            let mut v: VecDyn<PCDVTable> = unsafe { VecDyn::from_raw_parts(d, Box::new(vt.into())) };
            using!(v, PCDVTable);
            end!(v, PCDVTable)
        }
        _ => { let mut v: VecDyn<AllVTable> = src.into(); using!(v, AllVTable); end!(v, AllVTable) }
    }
}

/// Views.
pub fn views<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
    HVTable: VTable<T>,
{
    let n = r.size();
    let k = keys(r, n);
    let src: Vec<T> = k.iter().map(|k| T::mk(*k)).collect();
    let mut m = ids(&src);
    let op = r.below(16);
    t!("op{} n{} {}", op, n, k.first().copied().unwrap_or(0));
    let base = src.as_ptr() as usize;
    let from_typed = r.flip();
    let a = r.below(n + 1);
    let b = r.range(a, n);
    let base = base + a * size_of::<T>();
    let mut src = src;
    let mut v: VecDyn<AllVTable> = VecDyn::with_type::<T>();
    let mut h: VecDyn<HVTable> = VecDyn::with_type::<T>();
    if from_typed {
    } else if op >= 10 || op == 4 || op == 5 {
        h = std::mem::take(&mut src).into();
    } else {
        v = std::mem::take(&mut src).into();
    }
    macro_rules! ro { ($s:expr, $V:ty, $w:expr) => {{
        let c = ledger::counts();
        let s: Slice<$V> = $s;
        same!(ledger::counts(), c, "{}: element code run", $w);
        try_slice::<T, $V>(&s, base, &m[a..b], $w);
    }} }
    macro_rules! mu { ($s:expr, $V:ty, $w:expr) => {{
        let c = ledger::counts();
        let mut s: SliceMut<$V> = $s;
        same!(ledger::counts(), c, "{}: element code run", $w);
        try_mut::<T, $V>(r, &mut s, base, &mut m[a..b], $w);
        try_slice::<T, $V>(&s.reborrow(), base, &m[a..b], $w);
    }} }
    macro_rules! s { () => { if from_typed { Slice::<AllVTable>::from_slice(&src).into_subslice(a..b) } else { v.as_slice().into_subslice(a..b) } } }
    macro_rules! hs { () => { if from_typed { Slice::<HVTable>::from_slice(&src).into_subslice(a..b) } else { h.as_slice().into_subslice(a..b) } } }
    macro_rules! ms { () => { if from_typed { SliceMut::<AllVTable>::from_slice(&mut src).into_subslice(a..b) } else { v.as_mut_slice().into_subslice(a..b) } } }
    macro_rules! mhs { () => { if from_typed { SliceMut::<HVTable>::from_slice(&mut src).into_subslice(a..b) } else { h.as_mut_slice().into_subslice(a..b) } } }
    match op {
        0 => { ro!(s!().upcast(), DropVTable, "upcast view"); ro!(s!().upcast(), CloneVTable, "upcast view") }
        1 => { ro!(s!().upcast(), PartialEqVTable, "upcast view"); ro!(s!().upcast(), HashVTable, "upcast view") }
        2 => { ro!(s!().upcast(), DebugVTable, "upcast view"); ro!(s!().upcast(), EqVTable, "upcast view") }
        3 => {
            ro!(into_dyn![Slice<dyn HasAll>](s!()), dyn HasAll, "into_dyn view");
            ro!(from_dyn![Slice<dyn HasAll as AllVTable>](into_dyn![Slice<dyn HasAll>](s!())), AllVTable, "from_dyn view");
            ro!(into_dyn![Slice<dyn HasDrop>](s!().upcast::<CloneVTable>()), dyn HasDrop, "into_dyn view");
        }
        4 => { ro!(hs!().upcast::<PCDVTable>().upcast(), PCVTable, "upcast view"); ro!(hs!().upcast::<PCDVTable>().upcast::<PVTable>().upcast(), PartialEqVTable, "upcast view") }
        5 => {
            ro!(into_dyn![Slice<dyn HasPCD>](hs!().upcast::<PCDVTable>()), dyn HasPCD, "into_dyn view");
            ro!(from_dyn![Slice<dyn HasH as HVTable>](into_dyn![Slice<dyn HasH>](hs!())).upcast(), HashVTable, "from_dyn view");
        }
        6 => {
            ro!({ let (d, e, t) = s!().into_raw_parts(); unsafe { Slice::from_raw_parts(d, e, t) } }, AllVTable, "reassembled view");
            ro!({ let (d, e, t) = s!().upcast::<HashVTable>().into_raw_parts(); unsafe { Slice::from_raw_parts(d, e, t) } }, HashVTable, "reassembled view");
            mu!({ let (d, e, t) = ms!().into_raw_parts(); unsafe { SliceMut::from_raw_parts(d, e, t) } }, AllVTable, "reassembled mutable view");
        }
        7 => { mu!(ms!().upcast(), DropVTable, "upcast mutable view"); mu!(ms!().upcast(), CloneVTable, "upcast mutable view") }
        8 => { mu!(ms!().upcast(), PartialEqVTable, "upcast mutable view"); mu!(ms!().upcast(), DebugVTable, "upcast mutable view"); mu!(ms!().upcast(), EqVTable, "upcast mutable view") }
        9 => {
            mu!(into_dyn![SliceMut<dyn HasAll>](ms!()), dyn HasAll, "into_dyn mutable view");
            mu!(from_dyn![SliceMut<dyn HasAll as AllVTable>](into_dyn![SliceMut<dyn HasAll>](ms!())), AllVTable, "from_dyn mutable view");
        }
        10 => { mu!(mhs!().upcast::<PCDVTable>().upcast::<PCVTable>().upcast(), PVTable, "upcast mutable view"); mu!(mhs!().upcast(), HashVTable, "upcast mutable view") }
        11 => {
            mu!(into_dyn![SliceMut<dyn HasPCD>](mhs!().upcast::<PCDVTable>()), dyn HasPCD, "into_dyn mutable view");
            ro!(Slice::from(into_dyn![SliceMut<dyn HasH>](mhs!())), dyn HasH, "into_dyn mutable view as a view");
        }
        12 => {
            // Reborrowed first: by reference to a table.
            let mut s = mhs!();
            mu!(s.reborrow_mut().upcast(), PCDVTable, "upcast reborrowed view");
            mu!(into_dyn![SliceMut<dyn HasH>](s.reborrow_mut()), dyn HasH, "into_dyn reborrowed view");
            mu!(from_dyn![SliceMut<dyn HasH as HVTable>](into_dyn![SliceMut<dyn HasH>](s.reborrow_mut())), HVTable, "from_dyn reborrowed view");
            ro!(s.reborrow().upcast(), HashVTable, "upcast reborrowed view");
            ro!(s.upcast::<PCVTable>().into(), PCVTable, "upcast mutable view as a view");
        }
        13 => {
            let s = hs!();
            ro!(s.reborrow().upcast(), EqVTable, "upcast reborrowed view");
            ro!(from_dyn![Slice<dyn HasDrop as HVTable>](into_dyn![Slice<dyn HasDrop>](s.reborrow())), HVTable, "from_dyn reborrowed view");
            must_panic(format_args!("from_dyn of a view to another table"), || { let _ = from_dyn![Slice<dyn HasDrop as AllVTable>](into_dyn![Slice<dyn HasDrop>](s.reborrow())); });
        }
        14 => {
            // References.
            for i in a..b {
                let e = h.is_empty().then(|| ValueRef::<HVTable>::new(&src[i])).unwrap_or_else(|| h.get(i));
                let c = ledger::counts();
                let u = e.upcast_ref::<PCDVTable>();
                same!(ledger::counts(), c, "upcast_ref: element code run");
                try_ref::<T, PCDVTable>(&u, m[i], "upcast_ref");
                try_ref::<T, PVTable>(&u.upcast_ref::<PVTable>(), m[i], "upcast_ref twice");
                let u = u.upcast::<CloneVTable>();
                try_ref::<T, CloneVTable>(&u, m[i], "upcast reference");
                same!(some!(u.downcast::<T>(), "downcast") as *const T as usize, base + (i - a) * size_of::<T>(), "address of an upcast reference");
                try_ref::<T, HashVTable>(&e.upcast::<HashVTable>(), m[i], "upcast reference");
                if cfg!(miri) && i > a { break; }
            }
        }
        _ => {
            for i in a..b {
                let mut e = if h.is_empty() { ValueMut::<HVTable>::new(&mut src[i]) } else { h.get_mut(i) };
                let c = ledger::counts();
                let mut u = e.upcast_mut::<PCDVTable>();
                same!(ledger::counts(), c, "upcast_mut: element code run");
                try_ref::<T, PCDVTable>(&u.reborrow(), m[i], "upcast_mut");
                try_ref::<T, PVTable>(&u.upcast_mut::<PVTable>().reborrow(), m[i], "upcast_mut twice");
                let mut y = T::mk(r.key());
                let id = ids(std::slice::from_ref(&y))[0];
                {
                    let mut o = ValueMut::<PCDVTable>::new(&mut y);
                    u.swap(&mut o);
                }
                same!(ids(std::slice::from_ref(&y))[0], m[i], "swap through an upcast reference");
                m[i] = id;
                let x = T::mk(r.key());
                let id = ids(std::slice::from_ref(&x))[0];
                let c = ledger::counts();
                u.assign(BoxValue::<PCDVTable>::new(x));
                ran::<T>(c, Ev::Drop, 1, "assign through an upcast reference");
                m[i] = id;
                let u = e.upcast::<EqVTable>();
                try_ref::<T, EqVTable>(&u.reborrow(), m[i], "upcast mutable reference");
                let p = some!(u.downcast::<T>(), "downcast");
                same!(p as *mut T as usize, base + (i - a) * size_of::<T>(), "address of an upcast reference");
                if cfg!(miri) && i > a { break; }
            }
        }
    }
    let v = if from_typed { src.into() } else if v.is_empty() { some!(h.into_vec::<T>(), "into_vec") } else { some!(v.into_vec::<T>(), "into_vec") };
    same!(ids(&v), m, "elements in the end");
}

/// Owned values.
pub fn values<T: El + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
    HVTable: VTable<T>,
{
    let x = T::mk(r.key());
    let id = ids(std::slice::from_ref(&x))[0];
    let op = r.below(14);
    t!("op{} {}", op, id.1);
    macro_rules! boxed { ($b:expr, $V:ty, $w:expr) => {{
        let c = ledger::counts();
        let b: BoxValue<$V> = $b;
        same!(ledger::counts(), c, "{}: element code run", $w);
        try_ref::<T, $V>(&b.as_ref(), id, $w);
        let ty = typed_of(std::slice::from_ref(some!(b.as_ref().downcast::<T>(), "downcast")));
        let c = ledger::counts();
        if let Some(q) = <$V as Caps>::beq(&b, &b) {
            ran::<T>(c, Ev::Eq, 1, "equality of values");
            same!(q, reflexive(std::slice::from_ref(some!(b.as_ref().downcast::<T>(), "downcast"))), "{}: equality of a value with itself", $w);
        }
        let c = ledger::counts();
        if let Some(s) = <$V as Caps>::bfmt(&b) {
            ran::<T>(c, Ev::Fmt, 1, "formatting a value");
            same!(s, ty.each_fmt[0], "{}: formatting a value", $w);
        }
        if let Some(h) = <$V as Caps>::bhash(&b) {
            same!(Some(h), ty.each_hash[0], "{}: hashing a value", $w);
        }
        let c = ledger::counts();
        if let Some(y) = <$V as Caps>::bclone(&b) {
            ran::<T>(c, Ev::Clone, 1, "cloning a value");
            let c = ledger::counts();
            drop(y);
            ran::<T>(c, Ev::Drop, 1, "dropping a clone");
        }
        b
    }} }
    macro_rules! small { ($b:expr, $V:ty, $w:expr) => {{
        let c = ledger::counts();
        let b: SmallValue<$V> = $b;
        same!(ledger::counts(), c, "{}: element code run", $w);
        try_ref::<T, $V>(&b.as_ref(), id, $w);
        let ty = typed_of(std::slice::from_ref(some!(b.as_ref().downcast::<T>(), "downcast")));
        if let Some(q) = <$V as Caps>::weq(&b, &b) {
            same!(q, reflexive(std::slice::from_ref(some!(b.as_ref().downcast::<T>(), "downcast"))), "{}: equality of a value with itself", $w);
        }
        if let Some(s) = <$V as Caps>::wfmt(&b) {
            same!(s, ty.each_fmt[0], "{}: formatting a value", $w);
        }
        if let Some(h) = <$V as Caps>::whash(&b) {
            same!(Some(h), ty.each_hash[0], "{}: hashing a value", $w);
        }
        let c = ledger::counts();
        if let Some(y) = <$V as Caps>::wclone(&b) {
            ran::<T>(c, Ev::Clone, 1, "cloning a value");
            let c = ledger::counts();
            drop(y);
            ran::<T>(c, Ev::Drop, 1, "dropping a clone");
        }
        b
    }} }
    macro_rules! endb { ($b:expr) => {{
        let b = $b;
        let c = ledger::counts();
        if r.flip() {
            drop(b);
            ran::<T>(c, Ev::Drop, 1, "dropping a value");
        } else {
            let y = some!(b.downcast::<T>(), "downcast");
            ran::<T>(c, Ev::Drop, 0, "downcast");
            same!(ids(std::slice::from_ref(&*y))[0], id, "value taken out");
            same!(&*y as *const T as usize % align_of::<T>(), 0, "alignment of a value taken out");
        }
    }} }
    macro_rules! ends { ($b:expr) => {{
        let b = $b;
        let c = ledger::counts();
        if r.flip() {
            drop(b);
            ran::<T>(c, Ev::Drop, 1, "dropping a value");
        } else {
            let y: T = some!(b.downcast::<T>(), "downcast");
            ran::<T>(c, Ev::Drop, 0, "downcast");
            same!(ids(std::slice::from_ref(&y))[0], id, "value taken out");
        }
    }} }
    match op {
        0 => { let b = boxed!(BoxValue::new(x), AllVTable, "value"); endb!(boxed!(b.upcast(), DropVTable, "upcast value")) }
        1 => { let b = boxed!(BoxValue::new(x), AllVTable, "value"); endb!(boxed!(b.upcast(), CloneVTable, "upcast value")) }
        2 => { let b = boxed!(BoxValue::new(x), AllVTable, "value"); endb!(boxed!(b.upcast::<EqVTable>(), EqVTable, "upcast value")) }
        3 => { let b = boxed!(BoxValue::new(x), AllVTable, "value"); endb!(boxed!(b.upcast(), DebugVTable, "upcast value")) }
        4 => {
            let b = boxed!(BoxValue::new(x), HVTable, "value");
            let b = boxed!(b.upcast(), PCDVTable, "upcast value");
            let b = boxed!(b.upcast(), PCVTable, "upcast value");
            let b = boxed!(b.upcast(), PVTable, "upcast value");
            endb!(b)
        }
        5 => { let b = boxed!(BoxValue::new(x), HVTable, "value"); endb!(boxed!(b.upcast(), HashVTable, "upcast value")) }
        6 if size_of::<T>() > 0 => {
            // Through a vector of the narrower table.
            let b = boxed!(BoxValue::<HVTable>::new(x).upcast::<PCDVTable>(), PCDVTable, "upcast value");
            let mut v: VecDyn<PCDVTable> = VecDyn::with_type::<T>();
            let c = ledger::counts();
            some!(v.push(b), "push");
            ran::<T>(c, Ev::Drop, 0, "push of an upcast value");
            try_vec::<T, PCDVTable>(&v, &[id], "vector with an upcast value");
            let v = v.upcast::<PCVTable>();
            end_vec::<T, PCVTable>(r, v, &[id], "vector with an upcast value");
        }
        7 => {
            // Apart.
            let b = boxed!(BoxValue::new(x), AllVTable, "value");
            let c = ledger::counts();
            let (bytes, ty, al, _vt) = b.into_raw_parts();
            same!(ledger::counts(), c, "into_raw_parts: element code run");
            same!((ty, al, bytes.len()), (TypeId::of::<T>(), align_of::<T>(), size_of::<T>()), "into_raw_parts: type, alignment and size");
            let p = Box::into_raw(bytes) as *mut MaybeUninit<u8> as *mut T;
            same!(p as usize % align_of::<T>(), 0, "into_raw_parts: alignment of the address");
            let y = unsafe { Box::from_raw(p) };
            same!(ids(std::slice::from_ref(&*y))[0], id, "value taken apart");
        }
        8 | 9 | 10 | 11 if size_of::<T>() == size_of::<usize>() => {
            let b = small!(SmallValue::new(x), HVTable, "small value");
            match op {
                8 => { let b = small!(b.upcast(), PCDVTable, "upcast small value"); ends!(small!(b.upcast(), PVTable, "upcast small value")) }
                9 => ends!(small!(b.upcast(), CloneVTable, "upcast small value")),
                10 => { let b = small!(b.upcast(), PCVTable, "upcast small value"); ends!(small!(b.upcast(), DropVTable, "upcast small value")) }
                _ => {
                    let (w, ty, al, _vt) = b.into_raw_parts();
                    same!((ty, al), (TypeId::of::<T>(), align_of::<T>()), "into_raw_parts: type and alignment");
                    let y: T = unsafe { std::mem::transmute_copy(&w) };
                    same!(ids(std::slice::from_ref(&y))[0], id, "small value taken apart");
                }
            }
        }
        12 if size_of::<T>() > 0 => {
            // Assigned through narrowed references.
            let mut v: VecDyn<AllVTable> = vec![T::mk(1), x, T::mk(3)].into();
            let y = T::mk(r.key());
            let yi = ids(std::slice::from_ref(&y))[0];
            {
                let mut e = v.get_mut(1);
                let mut u = e.upcast_mut::<HashVTable>();
                let c = ledger::counts();
                u.assign(BoxValue::<AllVTable>::new(y).upcast::<HashVTable>());
                ran::<T>(c, Ev::Drop, 1, "assign of an upcast value");
            }
            if T::TRACKED {
                ensure!(!ledger::is_live(id.0), "previous value alive");
            }
            same!(ids(some!(v.as_slice_as::<T>(), "as_slice_as"))[1], yi, "assigned value");
            same!(kv(&ids(some!(v.as_slice_as::<T>(), "as_slice_as"))), vec![T::norm(1), yi.1, T::norm(3)], "elements after an assignment");
        }
        _ => {
            let e = ValueRef::<HVTable>::new(&x);
            try_ref::<T, HVTable>(&e, id, "reference");
            let c = e.clone_value();
            let c = c.upcast::<PCDVTable>();
            let d = c.clone();
            ensure!(c == d || !reflexive(std::slice::from_ref(&x)), "clone of an upcast clone differs");
            drop(c);
            let y = some!(d.downcast::<T>(), "downcast");
            same!(y.key(), id.1, "clone of an upcast clone");
        }
    }
}

type Unit = ();
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tag(pub u32);
impl<T: Copy> VTable<T> for Tag {
    fn build_vtable() -> Tag {
        Tag(size_of::<T>() as u32)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tag2(pub u64);
impl From<Tag> for Tag2 {
    fn from(t: Tag) -> Tag2 {
        Tag2(t.0 as u64 + 1)
    }
}
trait TagLike: Any {
    fn tag(&self) -> u64;
    fn as_any(&self) -> &dyn Any;
}
impl TagLike for Tag {
    fn tag(&self) -> u64 {
        self.0 as u64
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

/// Plain data with any table.
pub fn copies<T: CEl + MaybeHash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    let n = r.size();
    let k = keys(r, n);
    let src: Vec<T> = typed(&k);
    let p = src.as_ptr() as usize;
    let op = r.below(15);
    t!("op{} n{} {}", op, n, k.first().copied().unwrap_or(0));
    let sz = size_of::<T>() as u32;
    macro_rules! is { ($v:expr, $w:expr) => {{
        let s = some!($v.as_slice_as::<T>(), "{}: as_slice_as", $w);
        same!(keys_of(s), crate::copyw::normed::<T>(&k), "{}: elements", $w);
        same!(($v.len(), $v.element_type_id()), (n, TypeId::of::<T>()), "{}: description", $w);
        if n > 0 { same!(s.as_ptr() as usize, p, "{}: storage", $w); }
    }} }
    macro_rules! isr { ($v:expr, $w:expr) => {{
        let s = some!($v.as_slice::<T>(), "{}: as_slice", $w);
        if n > 0 { same!(s.as_ptr() as usize, p, "{}: storage", $w); }
        same!(keys_of(s), crate::copyw::normed::<T>(&k), "{}: elements", $w);
        same!(($v.len(), $v.element_type_id()), (n, TypeId::of::<T>()), "{}: description", $w);
    }} }
    macro_rules! isv { ($v:expr, $w:expr) => {{ let mut v = $v; isr!(v, $w); }} }
    // Still usable.
    macro_rules! grow { ($v:expr) => {{
        let mut v = $v;
        for i in 0..r.below(9) {
            some!(v.push_as(T::mk(i as u64)), "push_as");
        }
        if v.len() > 1 {
            v.rotate_left(1);
            v.rotate_right(1);
        }
        ensure!(v.push_as(7i128).is_none() || TypeId::of::<T>() == TypeId::of::<i128>(), "push_as of another type");
        let s = some!(v.as_slice_as::<T>(), "as_slice_as");
        same!(keys_of(&s[..n]), crate::copyw::normed::<T>(&k), "elements after growth");
        let l = v.len();
        let t = some!(v.into_vec::<T>(), "into_vec");
        same!(t.len(), l, "into_vec");
    }} }
    match op {
        0 => { let v: VecCopy<Tag> = src.into(); let v = v.upcast::<Tag2>(); is!(v, "upcast"); let (d, t) = v.into_raw_parts(); same!(*t, Tag2(sz as u64 + 1), "table after upcast"); let v = unsafe { VecCopy::from_raw_parts(d, t) }; is!(v, "reassembled"); grow!(v) }
        1 => {
            let v: VecCopy<Tag> = src.into();
            let (mut calls, mut got) = (0, None);
            let v = v.upcast_with(|t| { calls += 1; got = Some(t); (t, "x") });
            same!((calls, got), (1, Some(Tag(sz))), "upcast_with: calls");
            is!(v, "upcast_with");
            let (d, t) = v.into_raw_parts();
            same!(*t, (Tag(sz), "x"), "table after upcast_with");
            grow!(unsafe { VecCopy::from_raw_parts(d, t) })
        }
        2 => {
            let v: VecCopy<AllVTable> = src.into();
            let v = v.upcast::<DebugVTable>();
            is!(v, "upcast");
            grow!(v)
        }
        3 => {
            let v: VecCopy<Tag> = src.into();
            let mut d = into_dyn![VecCopy<dyn Any>](v);
            is!(d, "into_dyn");
            if n > 0 {
                some!(d.push_as(T::mk(1)), "push_as");
                let v = from_dyn![VecCopy<dyn Any as Tag>](d);
                same!(v.len(), n + 1, "length");
                let mut v = v;
                v.as_mut_slice().rotate_left(0);
                some!(v.resize(n, T::mk(0)), "resize");
                grow!(v)
            } else {
                grow!(from_dyn![VecCopy<dyn Any as Tag>](d))
            }
        }
        4 => {
            let v: VecCopy<Tag> = src.into();
            let d = into_dyn![VecCopy<dyn Any>](v);
            must_panic(format_args!("from_dyn to another table"), move || from_dyn![VecCopy<dyn Any as Unit>](d));
        }
        5 => {
            let v: VecCopy = src.into();
            let d = into_dyn![VecCopy<dyn Any>](v);
            is!(d, "into_dyn");
            let v: VecCopy = from_dyn![VecCopy<dyn Any as Unit>](d);
            is!(v, "from_dyn");
            grow!(v)
        }
        6 => {
            let v: VecCopy<Tag> = src.into();
            isv!(v.as_slice().upcast::<Tag2>(), "upcast view");
            isv!(into_dyn![SliceCopy<dyn Any>](v.as_slice()), "into_dyn view");
            let s = into_dyn![SliceCopy<dyn TagLike>](v.as_slice());
            isr!(s, "into_dyn view");
            let (d, e, t) = s.into_raw_parts();
            same!(t.tag(), sz as u64, "table of a dynamic view");
            isv!(unsafe { SliceCopy::<dyn TagLike>::from_raw_parts(d, e, t) }, "reassembled view");
            isv!(from_dyn![SliceCopy<dyn Any as Tag>](into_dyn![SliceCopy<dyn Any>](v.as_slice())), "from_dyn view");
            grow!(v)
        }
        7 => {
            let mut v: VecCopy<Tag> = src.into();
            isv!(v.as_mut_slice().upcast::<Tag2>(), "upcast mutable view");
            isv!(into_dyn![SliceCopyMut<dyn Any>](v.as_mut_slice()), "into_dyn mutable view");
            let s = into_dyn![SliceCopyMut<dyn TagLike>](v.as_mut_slice());
            let (d, e, t) = s.into_raw_parts();
            same!(t.tag(), sz as u64, "table of a dynamic view");
            isv!(unsafe { SliceCopyMut::<dyn TagLike>::from_raw_parts(d, e, t) }, "reassembled mutable view");
            let mut s = from_dyn![SliceCopyMut<dyn Any as Tag>](into_dyn![SliceCopyMut<dyn Any>](v.as_mut_slice()));
            if n > 1 {
                s.swap(0, n - 1);
                s.swap(0, n - 1);
            }
            isv!(s, "from_dyn mutable view");
            grow!(v)
        }
        8 => {
            let s = SliceCopy::<AllVTable>::from_slice(&src);
            isr!(s, "view");
            let s = s.upcast::<HashVTable>();
            isr!(s, "upcast view");
            isv!(s.upcast::<HashVTable>(), "upcast view");
        }
        9 => {
            let mut src = src;
            let s = SliceCopyMut::<AllVTable>::from_slice(&mut src);
            let mut s = s.upcast::<CloneVTable>();
            isr!(s, "upcast mutable view");
            isv!(SliceCopy::from(s), "upcast mutable view as a view");
        }
        10 | 11 => {
            // References.
            let mut v: VecCopy<Tag> = src.into();
            for i in 0..n {
                {
                    let e = v.get_ref(i);
                    let u = e.upcast_ref::<Tag2>();
                    same!((u.value_type_id(), u.size(), u.value_alignment()), (TypeId::of::<T>(), size_of::<T>(), align_of::<T>()), "upcast_ref: description");
                    let x = some!(u.downcast::<T>(), "downcast");
                    same!((x as *const T as usize, x.key()), (p + i * size_of::<T>(), T::norm(k[i])), "upcast_ref: place and value");
                    let x = some!(e.upcast::<Tag2>().downcast::<T>(), "downcast");
                    same!((x as *const T as usize, x.key()), (p + i * size_of::<T>(), T::norm(k[i])), "upcast: place and value");
                }
                let mut e = v.get_mut(i);
                let u = e.upcast::<Tag2>();
                let y = T::mk(1);
                let u = some!(u.copy(CopyValueRef::<Tag>::new(&y).upcast::<Tag2>()), "copy");
                let x = some!(u.downcast::<T>(), "downcast");
                same!((x as *mut T as usize, x.key()), (p + i * size_of::<T>(), T::norm(1)), "upcast mutable reference: place and value");
                *x = T::mk(k[i]);
            }
            is!(v, "vector after writing through upcast references");
            grow!(v)
        }
        12 => {
            // References with a drop function.
            let mut v: VecCopy<CloneVTable> = src.into();
            for i in 0..n {
                let e: ValueRef<(DropFn, CloneVTable)> = v.get_ref(i).into();
                same!((e.value_type_id(), e.size(), e.value_alignment()), (TypeId::of::<T>(), size_of::<T>(), align_of::<T>()), "with a drop function: description");
                let c = e.clone_value();
                same!(some!(e.downcast::<T>(), "downcast") as *const T as usize, p + i * size_of::<T>(), "with a drop function: place");
                same!(some!(c.downcast::<T>(), "downcast").key(), T::norm(k[i]), "with a drop function: clone");
                let e: ValueMut<(DropFn, CloneVTable)> = v.get_mut(i).into();
                let x = some!(e.downcast::<T>(), "downcast");
                same!((x as *mut T as usize, x.key()), (p + i * size_of::<T>(), T::norm(k[i])), "mutable with a drop function: place and value");
            }
            is!(v, "vector");
        }
        13 => {
            let mut v: VecCopy<(DropFn, AllVTable)> = src.into();
            is!(v, "vector");
            for i in 0..n {
                let y = T::mk(k[i]);
                let e: ValueRef<(DropFn, (DropFn, AllVTable))> = v.get_ref(i).into();
                same!(format!("{:?}", e), format!("{:?}", y), "formatting");
                same!(Some(rec_of(&e)), y.typed_hash(), "hashing");
                let mut e: ValueMut<(DropFn, (DropFn, AllVTable))> = v.get_mut(i).into();
                e.assign(BoxValue::new(T::mk(k[i])));
                if cfg!(miri) && i > 1 { break; }
            }
            is!(v, "vector");
            grow!(v)
        }
        _ => {
            let v: VecCopy<Tag> = src.into();
            let c = v.clone();
            drop(v);
            let c = into_dyn![VecCopy<dyn TagLike>](c);
            same!(keys_of(some!(c.as_slice_as::<T>(), "as_slice_as")), crate::copyw::normed::<T>(&k), "clone");
            let (d, t) = c.into_raw_parts();
            same!(t.as_any().downcast_ref::<Tag>().copied(), Some(Tag(sz)), "table of a clone");
            drop(unsafe { VecCopy::<dyn TagLike>::from_raw_parts(d, t) });
        }
    }
}
