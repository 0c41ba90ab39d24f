//! Equality, hashing and formatting next to the element type's own.
use crate::el::{El, Pad, Tr4, Tr8};
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Formatter};
use std::hash::{Hash, Hasher};
use std::mem::size_of;

/// Records every call to the hasher with its kind.
#[derive(Default, Clone, PartialEq, Eq)]
pub struct Feed(pub Vec<u8>);
macro_rules! feed { ($($f:ident $t:ty = $k:literal),*) => { $(fn $f(&mut self, x: $t) { self.0.push($k); self.0.extend_from_slice(&x.to_ne_bytes()); })* } }
impl Hasher for Feed {
    fn finish(&self) -> u64 {
        self.0.iter().fold(7, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(0);
        self.0.extend_from_slice(b);
        self.0.push(255);
    }
    feed! { write_u8 u8 = 1, write_u16 u16 = 2, write_u32 u32 = 3, write_u64 u64 = 4, write_u128 u128 = 5, write_usize usize = 6,
    write_i8 i8 = 7, write_i16 i16 = 8, write_i32 i32 = 9, write_i64 i64 = 10, write_i128 i128 = 11, write_isize isize = 12 }
}
pub fn feed_of<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut f = Feed::default();
    t.hash(&mut f);
    f.0
}
fn std_hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut f = DefaultHasher::new();
    t.hash(&mut f);
    f.finish()
}

/// A type whose values come from a small domain.
pub trait Gen: Sized + Clone + PartialEq + Debug + 'static {
    fn gen(r: &mut Rng) -> Self;
}
macro_rules! gen { ($($t:ty: |$r:ident| $e:expr;)*) => { $(impl Gen for $t { fn gen($r: &mut Rng) -> Self { $e } })* } }

/// Equal regardless of the case.
#[derive(Clone)]
pub struct Ci(pub String);
impl PartialEq for Ci {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for Ci {}
impl Hash for Ci {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.to_ascii_lowercase().hash(h);
        h.write_u16(77);
    }
}
impl Debug for Ci {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        let alt = f.alternate();
        f.debug_struct("Ci").field("text", &self.0).field("alternate", &alt).finish()
    }
}
/// Asymmetric comparison.
#[derive(Clone)]
pub struct Asym(pub u8);
impl PartialEq for Asym {
    fn eq(&self, o: &Self) -> bool {
        self.0 <= o.0
    }
}
impl Debug for Asym {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "w{:?}p{:?}{}{}{}{:?}", f.width(), f.precision(), f.sign_plus(), f.sign_minus(), f.sign_aware_zero_pad(), f.fill())
    }
}
/// Irreflexive.
#[derive(Clone, Debug)]
pub struct Never(pub u64);
impl PartialEq for Never {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
/// All equal, although the bytes differ.
#[derive(Clone, Debug)]
pub struct Always(pub u64, pub u16);
impl PartialEq for Always {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for Always {}
impl Hash for Always {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write(b"always")
    }
}
/// One word, compared by one half.
#[derive(Clone, Debug)]
#[repr(C)]
pub struct Half(pub u32, pub u32);
impl PartialEq for Half {
    fn eq(&self, o: &Self) -> bool {
        self.1 == o.1
    }
}
impl Eq for Half {}
impl Hash for Half {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.1.hash(h)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Enum {
    A,
    B(u8),
    C { x: String },
}
const FL: [f64; 8] = [0.0, -0.0, f64::NAN, 1.5, f64::INFINITY, -1.5e300, f64::MIN_POSITIVE, -2.0];
gen! {
    u8: |r| r.below(3) as u8;
    i32: |r| r.below(4) as i32 - 2;
    u64: |r| r.below(3) as u64 * 1_000_000_007;
    i128: |r| r.below(3) as i128 - 1;
    bool: |r| r.flip();
    char: |r| ['a', 'b', '\n', '\u{1F600}'][r.below(4)];
    f64: |r| FL[r.below(8)];
    f32: |r| FL[r.below(8)] as f32;
    [f32; 3]: |r| [0, 1, 2].map(|_| FL[r.below(4)] as f32);
    String: |r| ["", "a", "ab", "A", "x\"y"][r.below(5)].to_string();
    &'static str: |r| ["", "a", "ab", "A"][r.below(4)];
    Vec<u8>: |r| (0..r.below(3)).map(|_| r.below(2) as u8).collect();
    Option<Box<u8>>: |r| if r.flip() { None } else { Some(Box::new(r.below(3) as u8)) };
    (u8, u64): |r| (r.below(2) as u8, r.below(2) as u64);
    Pad: |r| Pad(r.below(2) as u8, r.below(2) as u32);
    Enum: |r| match r.below(4) { 0 | 1 => Enum::A, 2 => Enum::B(r.below(2) as u8), _ => Enum::C { x: String::gen(r) } };
    Ci: |r| Ci(["", "a", "A", "b", "B", "ab", "aB"][r.below(7)].to_string());
    Asym: |r| Asym(r.below(3) as u8);
    Never: |r| Never(r.below(2) as u64);
    Always: |r| Always(r.next(), r.next() as u16);
    Half: |r| Half(r.next() as u32, r.below(2) as u32);
    Tr4: |r| Tr4::mk(r.below(3) as u64);
    Tr8: |r| Tr8::mk(r.below(3) as u64);
    (): |_r| ();
}

/// Every way of formatting, applied to two things.
macro_rules! formats {
    ($a:expr, $b:expr, $w:expr) => { if cfg!(miri) {
        formats!(@ $a, $b, $w; "{:#5?}");
    } else {
        formats!(@ $a, $b, $w; "{:?}" "{:#?}" "{:4?}" "{:#9?}" "{:<7?}" "{:>7?}" "{:^9?}" "{:*^9?}" "{:07?}" "{:+?}" "{:.2?}" "{:+09.3?}" "{:x?}" "{:X?}" "{:#x?}" "{:#06X?}" "{:-?}");
    } };
    (@ $a:expr, $b:expr, $w:expr; $($f:literal)*) => {{ $(
        same!(format!($f, $a), format!($f, $b), "{} formatted with {}", $w, $f);
    )* }};
}

/// Mostly few, sometimes hundreds of elements.
fn many(r: &mut Rng) -> usize {
    if cfg!(miri) {
        r.below(4)
    } else if r.below(24) == 0 {
        r.below(300)
    } else {
        r.below(6)
    }
}

fn vary<T: Gen>(r: &mut Rng, xs: &[T]) -> Vec<T> {
    let mut v = xs.to_vec();
    let how = r.below(8);
    t!("vary{}", how);
    match how {
        0 => {}
        1 => v.truncate(r.below(xs.len() + 1)),
        2 => v.push(T::gen(r)),
        3 if xs.len() > 0 => {
            let i = r.below(xs.len());
            v[i] = T::gen(r)
        }
        4 => v.reverse(),
        5 if xs.len() > 0 => {
            let i = xs.len() - 1;
            v[i] = T::gen(r)
        }
        6 if xs.len() > 0 => v[0] = T::gen(r),
        _ => v = (0..r.below(5)).map(|_| T::gen(r)).collect(),
    }
    v
}

pub trait Vp<T>: HasDrop + HasPartialEq + HasDebug + HasClone + Clone + VTable<T> + 'static {}
impl<T, V: HasDrop + HasPartialEq + HasDebug + HasClone + Clone + VTable<T> + 'static> Vp<T> for V {}

/// Comparison and formatting.
pub fn compare<T: Gen, V: Vp<T> + Into<CloneVTable>>(r: &mut Rng)
where
    PartialEqVTable: VTable<T>,
    DebugVTable: VTable<T>,
    CloneVTable: From<V>,
{
    let zst = size_of::<T>() == 0;
    let n = if zst { 0 } else { many(r) };
    let xs: Vec<T> = (0..n).map(|_| T::gen(r)).collect();
    let ys = if zst { vec![] } else { vary(r, &xs) };
    t!("{:?} against {:?}", xs, ys);
    let want = xs == ys;
    let want_rev = ys == xs;
    count(if want { "equal_pairs" } else { "unequal_pairs" });
    if !zst {
        let (mut a, mut b): (VecDyn<V>, VecDyn<V>) = (xs.clone().into(), ys.clone().into());
        same!(a == b, want, "VecDyn ==");
        same!(b == a, want_rev, "VecDyn == reversed");
        same!(a != b, !want, "VecDyn !=");
        same!(a == a, xs == xs, "VecDyn == itself");
        same!(a != a, xs != xs, "VecDyn != itself");
        same!(a.as_slice() == a.as_slice(), xs == xs, "Slice == itself");
        for (i, x) in xs.iter().enumerate() {
            same!(a.get(i) == a.get(i), x == x, "ValueRef == of element {} with itself", i);
            same!(a.as_slice().get(i) == a.get(i), x == x, "ValueRef == of element {} with itself through a view", i);
        }
        {
            // Overlapping windows of one vector.
            let (l, h) = (r.below(xs.len() + 1), r.below(xs.len() + 1));
            let k = xs.len() - l.max(h);
            same!(a.as_slice().subslice(l..l + k) == a.as_slice().subslice(h..h + k), xs[l..l + k] == xs[h..h + k], "Slice == of overlapping windows");
        }
        same!(a.as_slice() == b.as_slice(), want, "Slice ==");
        same!(a.as_slice() != b.as_slice(), !want, "Slice !=");
        same!(a.as_mut_slice() == b.as_mut_slice(), want, "SliceMut ==");
        let (la, lb) = (r.below(xs.len() + 1), r.below(ys.len() + 1));
        let (ha, hb) = (r.range(la, xs.len()), r.range(lb, ys.len()));
        same!(a.as_slice().subslice(la..ha) == b.as_slice().subslice(lb..hb), xs[la..ha] == ys[lb..hb], "Slice == of {}..{} and {}..{}", la, ha, lb, hb);
        same!(b.as_mut_slice().subslice_mut(lb..hb) == a.as_mut_slice().subslice_mut(la..ha), ys[lb..hb] == xs[la..ha], "SliceMut == of windows");
        same!(Slice::<V>::from_slice(&xs) == b.as_slice(), want, "typed Slice ==");
        same!(VecDyn::<PartialEqVTable>::from(xs.clone()) == VecDyn::from(ys.clone()), want, "VecDyn<PartialEqVTable> ==");
        for (i, x) in xs.iter().enumerate().rev().take(16) {
            for (j, y) in ys.iter().enumerate().rev().take(16) {
                let e = x == y;
                same!(a.get(i) == b.get(j), e, "ValueRef == of elements {} and {}", i, j);
                same!(a.get(i) != b.get(j), !e, "ValueRef !=");
                same!(a.get_mut(i) == b.get_mut(j), e, "ValueMut ==");
            }
        }
        // Formatting.
        formats!(a, xs, "VecDyn");
        formats!(a.as_slice().subslice(la..ha), &xs[la..ha], "Slice");
        formats!(b.as_mut_slice().subslice_mut(lb..hb), &ys[lb..hb], "SliceMut");
        formats!(VecDyn::<DebugVTable>::from(xs.clone()), xs, "VecDyn<DebugVTable>");
        if n > 0 {
            let i = r.below(n);
            formats!(a.get(i), xs[i], "ValueRef");
            formats!(a.get_mut(i), xs[i], "ValueMut");
        }
    }
    // Values.
    let (x, y) = (T::gen(r), T::gen(r));
    let y = if r.flip() { x.clone() } else { y };
    let e = x == y;
    let (a, b) = (BoxValue::<V>::new(x.clone()), BoxValue::<V>::new(y.clone()));
    same!(a == b, e, "BoxValue ==");
    same!(b == a, y == x, "BoxValue == reversed");
    same!(a != b, !e, "BoxValue !=");
    same!(a == a, x == x, "BoxValue == itself");
    same!(a.as_ref() == a.as_ref(), x == x, "BoxValue::as_ref == itself");
    {
        // Shared references to the same place.
        let p = &a;
        same!(p.as_ref() != (*p).as_ref(), x != x, "references to one value !=");
        same!(Some(p) == Some(&a), x == x, "BoxValue == itself within a container");
    }
    same!(a.as_ref() == b.as_ref(), e, "BoxValue::as_ref ==");
    same!(a.clone() == b.clone(), e, "BoxValue clones ==");
    formats!(a, x, "BoxValue");
    let (rx, ry) = (ValueRef::<V>::new(&x), ValueRef::<V>::new(&y));
    same!(rx == ry, e, "typed ValueRef ==");
    same!(rx.clone() == rx, x == x, "ValueRef == itself");
    formats!(rx, x, "typed ValueRef");
    if size_of::<T>() == size_of::<usize>() {
        let (a, b) = (SmallValue::<V>::new(x.clone()), SmallValue::<V>::new(y.clone()));
        same!(a == b, e, "SmallValue ==");
        same!(b == a, y == x, "SmallValue == reversed");
        same!(a == a, x == x, "SmallValue == itself");
        same!(a.as_ref() == a.as_ref(), x == x, "SmallValue::as_ref == itself");
        formats!(a, x, "SmallValue");
    }
    let (mut x2, mut y2) = (x.clone(), y.clone());
    let (mx, my) = (ValueMut::<V>::new(&mut x2), ValueMut::<V>::new(&mut y2));
    same!(mx == my, e, "typed ValueMut ==");
    formats!(mx, x, "typed ValueMut");
}

/// Hash based collections.
pub fn hashing<T: Gen + Eq + Hash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
    HashVTable: VTable<T>,
    EqVTable: VTable<T>,
{
    type V = AllVTable;
    let zst = size_of::<T>() == 0;
    let n = if zst { 0 } else { many(r) };
    let xs: Vec<T> = (0..n).map(|_| T::gen(r)).collect();
    let ys = if zst { vec![] } else { vary(r, &xs) };
    t!("hash {:?} and {:?}", xs, ys);
    if !zst {
        let (mut a, b): (VecDyn<V>, VecDyn<V>) = (xs.clone().into(), ys.clone().into());
        let cat: Vec<u8> = xs.iter().flat_map(|x| feed_of(x)).collect();
        let got = feed_of(&a);
        ensure!(got.starts_with(&cat) || got.ends_with(&cat), "hash of a vector does not consist of the hashes of its elements: {:?} instead of {:?}", got, cat);
        if xs == ys {
            same!(std_hash(&a), std_hash(&b), "hashes of equal vectors");
            count("equal_hashes");
        }
        same!(EqOnly(VecDyn::<EqVTable>::from(xs.clone())) == EqOnly(ys.clone().into()), xs == ys, "VecDyn<EqVTable> ==");
        same!(feed_of(&VecDyn::<HashVTable>::from(xs.clone())), got, "hash of VecDyn<HashVTable>");
        for i in 0..n {
            same!(feed_of(&a.get(i)), feed_of(&xs[i]), "hash of a ValueRef");
            same!(feed_of(&a.get_mut(i)), feed_of(&xs[i]), "hash of a ValueMut");
        }
        // Vectors and references as keys.
        let mut m: HashMap<VecDyn<V>, usize> = HashMap::new();
        let mut tm: HashMap<Vec<T>, usize> = HashMap::new();
        for i in 0..r.range(1, if cfg!(miri) { 3 } else { 8 }) {
            let k: Vec<T> = (0..r.below(3)).map(|_| T::gen(r)).collect();
            same!(m.insert(k.clone().into(), i), tm.insert(k, i), "insert with a vector as key");
            same!(m.len(), tm.len(), "entries with vectors as keys");
        }
        for _ in 0..4 {
            let k: Vec<T> = (0..r.below(3)).map(|_| T::gen(r)).collect();
            same!(m.get(&VecDyn::from(k.clone())), tm.get(&k), "lookup with a vector as key");
        }
        let s: HashSet<ValueRef<V>> = b.iter().collect();
        let ts: HashSet<&T> = ys.iter().collect();
        same!(s.len(), ts.len(), "set of references");
        for x in &xs {
            same!(s.contains(&ValueRef::new(x)), ts.contains(x), "set of references: contains");
        }
    }
    // Values as keys.
    let x = T::gen(r);
    same!(feed_of(&BoxValue::<V>::new(x.clone())), feed_of(&x), "hash of a BoxValue");
    same!(feed_of(&ValueRef::<V>::new(&x)), feed_of(&x), "hash of a typed ValueRef");
    same!(feed_of(&BoxValue::<HashVTable>::new(x.clone())), feed_of(&x), "hash of a BoxValue<HashVTable>");
    let mut m: HashMap<BoxValue<V>, usize> = HashMap::new();
    let mut tm: HashMap<T, usize> = HashMap::new();
    let steps = r.range(1, if cfg!(miri) { 6 } else { 20 });
    for i in 0..steps {
        let k = T::gen(r);
        match r.below(4) {
            0 | 1 => same!(m.insert(BoxValue::new(k.clone()), i), tm.insert(k, i), "insert with a BoxValue as key"),
            2 => same!(m.get(&BoxValue::new(k.clone())), tm.get(&k), "lookup with a BoxValue as key"),
            _ => same!(m.remove(&BoxValue::new(k.clone())), tm.remove(&k), "remove with a BoxValue as key"),
        }
        same!(m.len(), tm.len(), "entries with values as keys");
    }
    for (k, v) in m {
        let k = *some!(k.downcast::<T>(), "key");
        same!(Some(&v), tm.get(&k), "entry of the map");
    }
    if size_of::<T>() == size_of::<usize>() {
        same!(feed_of(&SmallValue::<V>::new(x.clone())), feed_of(&x), "hash of a SmallValue");
        let mut m: HashMap<SmallValue<V>, usize> = HashMap::new();
        let mut tm: HashMap<T, usize> = HashMap::new();
        for i in 0..steps {
            let k = T::gen(r);
            same!(m.insert(SmallValue::new(k.clone()), i), tm.insert(k, i), "insert with a SmallValue as key");
        }
        same!(m.len(), tm.len(), "entries with small values as keys");
    }
}
#[derive(PartialEq, Eq)]
struct EqOnly(VecDyn<EqVTable>);
impl From<Vec<u8>> for EqOnly {
    fn from(_: Vec<u8>) -> Self {
        unreachable!()
    }
}

/// Values of several types as keys of one collection.
pub fn mixed(r: &mut Rng) {
    type V = AllVTable;
    let mut m: HashMap<BoxValue<V>, usize> = HashMap::new();
    let mut tm: Vec<(TypeId, String, usize)> = vec![];
    fn put<T: Gen + Eq + Hash>(r: &mut Rng, m: &mut HashMap<BoxValue<V>, usize>, tm: &mut Vec<(TypeId, String, usize)>, i: usize)
    where
        V: VTable<T>,
    {
        let k = T::gen(r);
        let key = (TypeId::of::<T>(), format!("{:?}", k));
        let old = tm.iter_mut().find(|e| e.0 == key.0 && e.1 == key.1);
        let want = match old {
            Some(e) => Some(std::mem::replace(&mut e.2, i)),
            None => {
                tm.push((key.0, key.1, i));
                None
            }
        };
        same!(m.insert(BoxValue::new(k), i), want, "insert with keys of several types");
    }
    for i in 0..r.range(2, if cfg!(miri) { 10 } else { 30 }) {
        let how = r.below(8);
        t!("put{}", how);
        match how {
            0 => put::<u8>(r, &mut m, &mut tm, i),
            1 => put::<i32>(r, &mut m, &mut tm, i),
            2 => put::<u64>(r, &mut m, &mut tm, i),
            3 => put::<String>(r, &mut m, &mut tm, i),
            4 => put::<Vec<u8>>(r, &mut m, &mut tm, i),
            5 => put::<bool>(r, &mut m, &mut tm, i),
            6 => put::<Enum>(r, &mut m, &mut tm, i),
            _ => put::<&'static str>(r, &mut m, &mut tm, i),
        }
        same!(m.len(), tm.len(), "entries with keys of several types");
    }
    // Same bytes, different types.
    ensure!(BoxValue::<V>::new(1u8) != BoxValue::new(true), "values of different types are equal");
    ensure!(BoxValue::<V>::new(1u32) != BoxValue::new(1i32), "values of different types are equal");
    ensure!(SmallValue::<V>::new(1usize) != SmallValue::new(1isize), "small values of different types are equal");
    ensure!(ValueRef::<V>::new(&1u32) != ValueRef::new(&1i32), "references of different types are equal");
    ensure!(ValueMut::<V>::new(&mut 1u32) != ValueMut::new(&mut 1i32), "mutable references of different types are equal");
    let (a, b) = (VecDyn::<V>::from(vec![1u32, 2]), VecDyn::<V>::from(vec![1i32, 2]));
    ensure!(a != b, "vectors of different types are equal");
    ensure!(a.as_slice() != b.as_slice(), "views of different types are equal");
}

/// References to copyable values.
pub fn copies<T: Gen + Copy>(r: &mut Rng)
where
    FloatVTable: VTable<T>,
{
    type V = FloatVTable;
    let xs: Vec<T> = (0..r.range(1, 5)).map(|_| T::gen(r)).collect();
    let ys = vary(r, &xs);
    t!("copy refs {:?} and {:?}", xs, ys);
    let (mut a, mut b): (VecCopy<V>, VecCopy<V>) = (xs.clone().into(), ys.clone().into());
    for (i, x) in xs.iter().enumerate() {
        for (j, y) in ys.iter().enumerate() {
            let e = x == y;
            same!(a.get_ref(i) == b.get_ref(j), e, "CopyValueRef ==");
            same!(a.get_mut(i) == b.get_mut(j), e, "CopyValueMut ==");
            same!(CopyValueRef::<V>::new(x) == CopyValueRef::new(y), e, "typed CopyValueRef ==");
            same!(ValueRef::<(DropFn, V)>::from(a.get_ref(i)) == ValueRef::from(b.get_ref(j)), e, "ValueRef from CopyValueRef ==");
            same!(ValueMut::<(DropFn, V)>::from(a.get_mut(i)) == ValueMut::from(b.get_mut(j)), e, "ValueMut from CopyValueMut ==");
        }
        formats!(a.get_ref(i), x, "CopyValueRef");
        formats!(a.get_mut(i), x, "CopyValueMut");
        formats!(ValueRef::<(DropFn, V)>::from(a.get_ref(i)), x, "ValueRef from CopyValueRef");
        for e in a.iter() {
            let _ = e.clone() == e;
        }
    }
    for (x, e) in xs.iter().zip(a.iter()) {
        formats!(e, x, "iterated CopyValueRef");
    }
    for (x, e) in xs.iter().zip(a.as_slice().iter()) {
        formats!(e, x, "iterated view CopyValueRef");
    }
}
pub fn copies_hash<T: Gen + Copy + Eq + Hash>(r: &mut Rng)
where
    AllVTable: VTable<T>,
{
    type V = AllVTable;
    let xs: Vec<T> = (0..r.range(1, 5)).map(|_| T::gen(r)).collect();
    t!("copy hash {:?}", xs);
    let mut a: VecCopy<V> = xs.clone().into();
    for (i, x) in xs.iter().enumerate() {
        same!(feed_of(&a.get_ref(i)), feed_of(x), "hash of a CopyValueRef");
        same!(feed_of(&a.get_mut(i)), feed_of(x), "hash of a CopyValueMut");
        same!(feed_of(&ValueRef::<(DropFn, V)>::from(a.get_ref(i))), feed_of(x), "hash of a ValueRef from a CopyValueRef");
        same!(feed_of(&ValueMut::<(DropFn, V)>::from(a.get_mut(i))), feed_of(x), "hash of a ValueMut from a CopyValueMut");
    }
    let s: HashSet<CopyValueRef<V>> = a.iter().collect();
    let ts: HashSet<T> = xs.iter().copied().collect();
    same!(s.len(), ts.len(), "set of copy references");
}
