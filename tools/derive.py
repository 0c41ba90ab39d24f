"""Programs with generated capability tables: declarations drawn from a seed, elements that write down every call made on them."""
import random

HELP = r'''
#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, drop_bounds)]
pub use dync::traits::{HasClone, HasDebug, HasDrop, HasEq, HasHash, HasPartialEq, HasSend, HasSync};
pub use dync::{from_dyn, into_dyn, BoxValue, Elem, Meta, Slice, SliceMut, SmallValue, VTable, VTableRef, ValueMut, ValueRef, VecDyn};
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
pub use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Ev = (&'static str, u32, u32);
thread_local! {
    static LOG: RefCell<Vec<Ev>> = RefCell::new(Vec::new());
    static LIVE: Cell<i64> = Cell::new(0);
    static BAD: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static NOW: RefCell<String> = RefCell::new(String::new());
    static CASE: Cell<u64> = Cell::new(0);
    static COUNT: Cell<(u64, u64, u64)> = Cell::new((0, 0, 0));
}
pub fn note(what: &'static str, a: u32, b: u32) {
    LOG.with(|l| l.borrow_mut().push((what, a, b)));
    let (c, e, o) = COUNT.with(|c| c.get());
    COUNT.with(|x| x.set((c, e + 1, o)));
}
pub fn live(d: i64) {
    LIVE.with(|l| l.set(l.get() + d));
}
pub fn bad(m: String) {
    BAD.with(|b| b.borrow_mut().push(m));
}
fn observed() {
    let (c, e, o) = COUNT.with(|c| c.get());
    COUNT.with(|x| x.set((c, e, o + 1)));
}
/// Calls made on elements since the last time.
pub fn take() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Exactly these calls were made, in whatever order.
pub fn calls(what: &str, mut want: Vec<Ev>) {
    observed();
    let mut got = take();
    got.sort();
    want.sort();
    if got != want {
        bad(format!("{}: the element code was called as {:?} where the typed operation calls {:?}", what, got, want));
    }
}
/// Only calls from this set were made.
pub fn among(what: &str, all: &[Ev]) {
    observed();
    let got = take();
    if let Some(x) = got.iter().find(|x| !all.contains(x)) {
        bad(format!("{}: the element code was called as {:?}, and {:?} is not among {:?}", what, got, x, all));
    }
}
pub fn same<A: PartialEq + Debug>(what: &str, got: A, want: A) {
    observed();
    if got != want {
        bad(format!("{}: {:?} instead of {:?}", what, got, want));
    }
}

/// What the monitors know of an element: its label. Clones are 1000 up, what was cloned into 2000 up from the source.
pub trait Lab: 'static + Sized {
    fn new(l: u32) -> Self;
    fn label(&self) -> u32;
    const ZST: bool = false;
    const DROPS: bool = true;
}
pub trait Plain {}
impl<T> Plain for T {}
pub trait Other<X> {}
impl<X, T> Other<X> for T {}

macro_rules! el_base {
    ($t:ident) => {
        impl $crate::Lab for $t {
            fn new(l: u32) -> Self { $crate::live(1); $t(Box::new(l), $crate::PhantomData) }
            fn label(&self) -> u32 { *self.0 }
        }
        impl Drop for $t {
            fn drop(&mut self) { $crate::live(-1); $crate::note("drop", *self.0, 0) }
        }
    };
}
macro_rules! el_clone { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> Clone for $t {
        fn clone(&self) -> Self { let l = $crate::Lab::label(self); $crate::note("clone", l, 0); <$t as $crate::Lab>::new(l + 1000) }
        fn clone_from(&mut self, o: &Self) { let (a, b) = ($crate::Lab::label(self), $crate::Lab::label(o)); $crate::note("clone_from", a, b); *self = <$t as $crate::Lab>::new(b + 2000); }
    }
} }
macro_rules! el_eq { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> PartialEq for $t {
        fn eq(&self, o: &Self) -> bool { let (a, b) = ($crate::Lab::label(self), $crate::Lab::label(o)); $crate::note("eq", a, b); a % 10 == b % 10 }
    }
} }
macro_rules! el_hash { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> std::hash::Hash for $t {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) { let a = $crate::Lab::label(self); $crate::note("hash", a, 0); h.write_u8(7); h.write_u32(a % 10) }
    }
} }
macro_rules! el_debug { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> std::fmt::Debug for $t {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            let a = $crate::Lab::label(self);
            $crate::note("fmt", a, f.alternate() as u32);
            write!(f, "<{} {:?} {:?}>", a, f.width(), f.precision())
        }
    }
} }
macro_rules! all { ($([$($g:tt)*] $t:ty),*) => { $(el_clone!([$($g)*] $t); el_eq!([$($g)*] $t); impl<$($g)*> Eq for $t {} el_hash!([$($g)*] $t); el_debug!([$($g)*] $t);)* } }
macro_rules! dropping { ($([$($g:tt)*] $t:ty),*) => { $(impl<$($g)*> Drop for $t { fn drop(&mut self) { live(-1); note("drop", self.label(), 0) } })* } }
pub struct Num(u32, u32);
pub struct Wide(u8, String, u32, [u64; 5]);
#[repr(align(64))]
pub struct Over(u32, [u8; 100]);
pub struct Zst;
/// Is destroyed without any code.
pub struct Flat(u32, u32);
pub struct Gen<T: 'static>(Vec<T>, u32, Option<T>);
pub struct Local(u32, PhantomData<*const u8>);
/// Implements nothing but this.
pub struct Poor(u32);
/// Has every base capability, and no trait declared in a program is implemented for it.
pub struct Stranger(u32);
impl Lab for Num { fn new(l: u32) -> Self { live(1); Num(l, !l) } fn label(&self) -> u32 { if self.1 != !self.0 { bad("a torn element".into()); } self.0 } }
impl Lab for Flat { fn new(l: u32) -> Self { Flat(l, !l) } fn label(&self) -> u32 { if self.1 != !self.0 { bad("a torn element".into()); } self.0 } const DROPS: bool = false; }
impl Lab for Wide { fn new(l: u32) -> Self { live(1); Wide(1, format!("{}", l), l, [l as u64; 5]) } fn label(&self) -> u32 {
    if self.0 != 1 || self.1 != format!("{}", self.2) || self.3 != [self.2 as u64; 5] { bad("a torn element".into()); }
    self.2
} }
impl Lab for Over { fn new(l: u32) -> Self { live(1); Over(l, [l as u8; 100]) } fn label(&self) -> u32 {
    if self as *const Self as usize % 64 != 0 || self.1 != [self.0 as u8; 100] { bad("a torn or misplaced element".into()); }
    self.0
} }
impl Lab for Zst { fn new(_: u32) -> Self { live(1); Zst } fn label(&self) -> u32 { 5 } const ZST: bool = true; }
impl<T: Default + 'static> Lab for Gen<T> { fn new(l: u32) -> Self { live(1); Gen(vec![T::default(), T::default()], l, None) } fn label(&self) -> u32 { if self.0.len() != 2 || self.2.is_some() { bad("a torn element".into()); } self.1 } }
impl Lab for Local { fn new(l: u32) -> Self { live(1); Local(l, PhantomData) } fn label(&self) -> u32 { self.0 } }
impl Lab for Poor { fn new(l: u32) -> Self { live(1); Poor(l) } fn label(&self) -> u32 { self.0 } }
impl Lab for Stranger { fn new(l: u32) -> Self { live(1); Stranger(l) } fn label(&self) -> u32 { self.0 } }
all!([] Num, [] Flat, [] Wide, [] Over, [] Zst, [T: Default + 'static] Gen<T>, [] Local, [] Stranger);
dropping!([] Num, [] Wide, [] Over, [] Zst, [] Local, [] Poor, [] Stranger);
impl<T: 'static> Drop for Gen<T> { fn drop(&mut self) { live(-1); note("drop", self.1, 0) } }

/// How to make erased things of one table (reached on one path) from elements.
pub struct Mk<E: 'static, U: ?Sized + HasDrop + 'static> {
    pub vec: fn(Vec<E>) -> VecDyn<U>,
    pub slice: for<'a> fn(&'a [E]) -> Slice<'a, U>,
    pub slice_mut: for<'a> fn(&'a mut [E]) -> SliceMut<'a, U>,
}
pub struct MkV<E: 'static, U: HasDrop + 'static> {
    pub bx: fn(E) -> BoxValue<U>,
    pub small: Option<fn(E) -> SmallValue<U>>,
    pub r: for<'a> fn(&'a E) -> ValueRef<'a, U>,
    pub m: for<'a> fn(&'a mut E) -> ValueMut<'a, U>,
}
macro_rules! mk {
    ($e:ty, $v:ty $(, $u:ty)*) => { (
        $crate::Mk::<$e, mk!(@last $v $(, $u)*)> { vec: |x| $crate::VecDyn::<$v>::from(x)$(.upcast::<$u>())*, slice: |x| $crate::Slice::<$v>::from(x)$(.upcast::<$u>())*, slice_mut: |x| $crate::SliceMut::<$v>::from(x)$(.upcast::<$u>())* },
        $crate::MkV::<$e, mk!(@last $v $(, $u)*)> {
            bx: |x| $crate::BoxValue::<$v>::new(x)$(.upcast::<$u>())*,
            small: if std::mem::size_of::<$e>() == 8 { Some(|x| $crate::SmallValue::<$v>::try_new(x).unwrap()$(.upcast::<$u>())*) } else { None },
            r: |x| $crate::ValueRef::<$v>::new(x)$(.upcast::<$u>())*, m: |x| $crate::ValueMut::<$v>::new(x)$(.upcast::<$u>())* },
    ) };
    (@last $v:ty) => { $v };
    (@last $v:ty, $($u:ty),+) => { mk!(@last $($u),+) };
}
pub fn some<E: Lab>(n: usize, from: u32) -> Vec<E> {
    (0..n as u32).map(|i| E::new(from + i)).collect()
}
pub fn labels<E: Lab>(v: &[E]) -> Vec<u32> {
    v.iter().map(|x| x.label()).collect()
}
/// The labels elements made by `some` and then changed by `d` have.
fn z<E: Lab>(l: u32) -> u32 { if E::ZST { 5 } else { l } }
fn drops<E: Lab>(n: usize, from: u32) -> Vec<Ev> { if E::DROPS { evs::<E>("drop", n, from) } else { vec![] } }
fn evs<E: Lab>(what: &'static str, n: usize, from: u32) -> Vec<Ev> { (0..n as u32).map(|i| (what, z::<E>(from + i), 0)).collect() }
fn lens() -> &'static [usize] { if cfg!(miri) { &[2] } else { &[3, 0, 1] } }

pub fn case(name: &str, f: impl FnOnce()) {
    static ARGS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let a = ARGS.get_or_init(|| std::env::args().skip(1).collect());
    match a.first().map(|x| x.as_str()) {
        // One in so many, the so-manieth.
        Some("--part") => {
            let i = CASE.with(|c| c.replace(c.get() + 1));
            if i % a[1].parse::<u64>().unwrap() != a[2].parse::<u64>().unwrap() {
                return;
            }
        }
        Some(x) if !name.starts_with(x) => return,
        _ => (),
    }
    eprintln!("CASE {}", name);
    NOW.with(|n| *n.borrow_mut() = name.into());
    take();
    LIVE.with(|l| l.set(0));
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Err(e) = r {
        bad(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()));
    }
    let l = LIVE.with(|l| l.get());
    if l != 0 {
        bad(format!("{} more elements were made than destroyed", l));
    }
    for b in BAD.with(|b| std::mem::take(&mut *b.borrow_mut())) {
        println!("VIOL {}: {}", name, b.replace('\n', " "));
    }
    let (c, e, o) = COUNT.with(|c| c.get());
    COUNT.with(|x| x.set((c + 1, e, o)));
}
pub fn done() {
    let (c, e, o) = COUNT.with(|c| c.get());
    println!("DONE {} {} {}", c, e, o);
}
pub fn claim(what: &str, got: bool, want: bool) {
    observed();
    if got != want {
        bad(format!("{}: {}", what, if got { "is implemented though not declared" } else { "is declared and not implemented" }));
    }
}
pub fn claimed(what: &str, got: bool) {
    claim(what, got, true)
}
macro_rules! holds {
    ($t:ty: $($b:tt)*) => { {
        struct P<T: ?Sized>($crate::PhantomData<T>);
        trait No { const YES: bool = false; }
        impl<T: ?Sized> No for P<T> {}
        impl<T: ?Sized + $($b)*> P<T> { const YES: bool = true; }
        <P<$t>>::YES
    } };
}

/// Destruction, and all that must not call element code.
pub fn plain<E: Lab, U: ?Sized + HasDrop + 'static>(mk: &Mk<E, U>) {
    for &n in lens() {
        take();
        let v = (mk.vec)(some::<E>(n, 0));
        same("length", v.len(), n);
        let _ = (v.as_slice().len(), v.iter().count(), v.element_size(), v.check_ref::<E>().is_some(), v.check_ref::<[u16; 7]>().is_some());
        same("contents", v.iter_as::<E>().map(|x| x.count()), Some(n));
        if n > 0 {
            let _ = (v.get(0).downcast::<E>().is_some(), v.get(n - 1).downcast::<[u16; 7]>().is_some());
        }
        calls("making and reading", vec![]);
        drop(v);
        calls("destruction", drops::<E>(n, 0));
        let mut v = (mk.vec)(some::<E>(n, 0));
        if n > 1 {
            v.as_mut_slice().swap(0, n - 1);
            v.rotate_left(1);
            let (mut a, b) = (E::new(8), v.push_as(E::new(9)).is_some());
            same("pushed", b, true);
            // There and back.
            v.get_mut(0).swap(&mut SliceMut::get_mut(&mut (mk.slice_mut)(std::slice::from_mut(&mut a)), 0));
            v.get_mut(0).swap(&mut SliceMut::get_mut(&mut (mk.slice_mut)(std::slice::from_mut(&mut a)), 0));
            calls("moving", vec![]);
            same("the other one", a.label(), z::<E>(8));
            drop(a);
            take();
        }
        let t = v.into_vec::<E>().unwrap();
        calls("taking out", vec![]);
        same("contents", labels(&t), { let mut t: Vec<u32> = (0..n as u32).collect(); if n > 1 { t.swap(0, n - 1); t.rotate_left(1); t.push(9); } t.into_iter().map(|x| z::<E>(x)).collect() });
        drop(t);
        let mut v = (mk.vec)(some::<E>(n, 0));
        take();
        v.clear();
        calls("clear", drops::<E>(n, 0));
        drop(v);
        calls("destruction when empty", vec![]);
        let mut t = some::<E>(n, 0);
        let _ = ((mk.slice)(&t).iter().count(), (mk.slice_mut)(&mut t).len());
        calls("views", vec![]);
    }
}
pub fn plain_values<E: Lab, U: HasDrop + 'static>(mk: &MkV<E, U>) {
    take();
    let b = (mk.bx)(E::new(3));
    let _ = (b.as_ref().downcast::<E>().is_some(), b.as_ref().downcast::<[u16; 7]>().is_some());
    calls("boxing", vec![]);
    drop(b);
    calls("destruction of a boxed value", drops::<E>(1, 3));
    same("boxed", (mk.bx)(E::new(3)).downcast::<E>().map(|x| x.label()), Some(z::<E>(3)));
    take();
    if let Some(small) = mk.small {
        let b = (small)(E::new(3));
        calls("small value", vec![]);
        drop(b);
        calls("destruction of a small value", drops::<E>(1, 3));
        same("small", (small)(E::new(3)).downcast::<E>().map(|x| x.label()), Some(z::<E>(3)));
        take();
    }
    take();
    let (mut a, mut b) = (E::new(1), E::new(2));
    (mk.m)(&mut a).swap(&mut (mk.m)(&mut b));
    calls("swap", vec![]);
    same("swapped", [a.label(), b.label()], [z::<E>(2), z::<E>(1)]);
    (mk.m)(&mut a).assign((mk.bx)(E::new(7)));
    calls("assign", drops::<E>(1, 2));
    same("assigned", a.label(), z::<E>(7));
    same("reference", (mk.r)(&a).downcast::<E>().map(|x| x.label()), Some(z::<E>(7)));
}
pub fn cloning<E: Lab, U: HasDrop + HasClone + Clone + 'static>((mk, mv): &(Mk<E, U>, MkV<E, U>)) {
    for &n in lens() {
        take();
        let v = (mk.vec)(some::<E>(n, 0));
        let w = v.clone();
        calls("clone", evs::<E>("clone", n, 0));
        same("cloned", labels(w.as_slice_as::<E>().unwrap()), (0..n as u32).map(|x| z::<E>(x + 1000)).collect());
        drop(v);
        calls("destruction of the original", drops::<E>(n, 0));
        drop(w);
        calls("destruction of the clone", drops::<E>(n, 1000));
    }
    let mut v = (mk.vec)(some::<E>(2, 0));
    let a = E::new(6);
    same("pushed", v.push_cloned((mv.r)(&a)).is_some(), true);
    calls("push_cloned", vec![("clone", z::<E>(6), 0)]);
    same("clone_from_other", v.get_mut(0).clone_from_other((mv.r)(&a)).is_ok(), true);
    let mut want = vec![("clone_from", z::<E>(0), z::<E>(6))];
    want.extend(drops::<E>(1, 0));
    calls("clone_from_other", want.clone());
    same("cloned into", labels(v.as_slice_as::<E>().unwrap()), vec![z::<E>(2006), z::<E>(1), z::<E>(1006)]);
    drop(v);
    take();
    let b = (mv.bx)(E::new(3));
    let c = b.clone();
    calls("clone of a boxed value", evs::<E>("clone", 1, 3));
    drop(b);
    calls("destruction", drops::<E>(1, 3));
    same("clone of a boxed value", c.downcast::<E>().map(|x| x.label()), Some(z::<E>(1003)));
    take();
    let c = (mv.r)(&a).clone_value();
    calls("clone_value", evs::<E>("clone", 1, 6));
    same("clone_value", c.downcast::<E>().map(|x| x.label()), Some(z::<E>(1006)));
    take();
    let mut d = E::new(4);
    let c = (mv.m)(&mut d).clone_value();
    calls("clone_value", evs::<E>("clone", 1, 4));
    drop(c);
    take();
    want = vec![("clone_from", z::<E>(4), z::<E>(6))];
    want.extend(drops::<E>(1, 4));
    same("clone_from_other", (mv.m)(&mut d).clone_from_other((mv.r)(&a)).is_ok(), true);
    calls("clone_from_other", want);
    if let Some(small) = mv.small {
        let b = (small)(E::new(3));
        let c = b.clone();
        calls("clone of a small value", evs::<E>("clone", 1, 3));
        drop(b);
        calls("destruction", drops::<E>(1, 3));
        same("clone of a small value", c.downcast::<E>().map(|x| x.label()), Some(z::<E>(1003)));
        take();
        let c = (mv.r)(&a).clone_small_value();
        calls("clone_small_value", evs::<E>("clone", 1, 6));
        drop(c);
        calls("destruction", drops::<E>(1, 1006));
    }
}
pub fn comparing<E: Lab, U: ?Sized + HasDrop + HasPartialEq + 'static>(mk: &Mk<E, U>) {
    for &n in lens() {
        take();
        // Labels 10 apart are equal.
        for k in 0..=n {
            take();
            let mut t = some::<E>(n, 10);
            if k < n {
                t[k] = E::new(19);
            }
            let l = labels(&t);
            let (v, w) = ((mk.vec)(some::<E>(n, 0)), (mk.vec)(t));
            take();
            let pairs: Vec<Ev> = (0..n).map(|i| ("eq", z::<E>(i as u32), l[i])).collect();
            same("equality", v == w, E::ZST || k == n);
            if E::ZST || k == n { calls("equality", pairs.clone()) } else { among("equality", &pairs) };
            same("equality of views", v.as_slice() == w.as_slice(), E::ZST || k == n);
            if E::ZST || k == n { calls("equality of views", pairs.clone()) } else { among("equality of views", &pairs) };
            take();
            for i in 0..n {
                same("equality of references", v.get(i) == w.get(i), E::ZST || k != i);
                calls("equality of references", vec![pairs[i]]);
            }
        }
        take();
        let (v, w) = ((mk.vec)(some::<E>(n, 0)), (mk.vec)(some::<E>(n + 1, 0)));
        take();
        same("equality of different lengths", v == w, false);
        among("equality", &(0..n as u32).map(|i| ("eq", z::<E>(i), z::<E>(i))).collect::<Vec<_>>());
    }
}
pub fn comparing_values<E: Lab, U: HasDrop + HasPartialEq + 'static>(mk: &MkV<E, U>) {
    take();
    let (a, b, c) = ((mk.bx)(E::new(1)), (mk.bx)(E::new(11)), (mk.bx)(E::new(2)));
    same("equality of values", (a == b, a == c), (true, E::ZST));
    calls("equality of values", vec![("eq", z::<E>(1), z::<E>(11)), ("eq", z::<E>(1), z::<E>(2))]);
    if let Some(small) = mk.small {
        let (a, b, c) = ((small)(E::new(1)), (small)(E::new(11)), (small)(E::new(2)));
        same("equality of small values", (a == b, a == c), (true, E::ZST));
        calls("equality of small values", vec![("eq", z::<E>(1), z::<E>(11)), ("eq", z::<E>(1), z::<E>(2))]);
    }
    take();
    let (a, b) = (E::new(1), E::new(11));
    same("equality of references", (mk.r)(&a) == (mk.r)(&b), true);
    calls("equality of references", vec![("eq", z::<E>(1), z::<E>(11))]);
}
#[derive(Default)]
struct Feed(Vec<u8>);
impl Hasher for Feed {
    fn write(&mut self, x: &[u8]) { self.0.push(x.len() as u8); self.0.extend_from_slice(x) }
    fn finish(&self) -> u64 { 0 }
}
fn own_feed<E: Lab>(l: u32) -> Vec<u8> {
    let mut f = Feed::default();
    f.write_u8(7);
    f.write_u32(z::<E>(l) % 10);
    f.0
}
fn has(f: &[u8], x: &[u8]) -> bool {
    x.is_empty() || f.windows(x.len()).any(|w| w == x)
}
pub fn hashing<E: Lab, U: ?Sized + HasDrop + HasHash + 'static>(mk: &Mk<E, U>) {
    for &n in lens() {
        take();
        let v = (mk.vec)(some::<E>(n, 0));
        let mut f = Feed::default();
        v.hash(&mut f);
        calls("hashing", evs::<E>("hash", n, 0));
        same("fed to the hasher", has(&f.0, &(0..n as u32).flat_map(|i| own_feed::<E>(i)).collect::<Vec<_>>()) || n == 0, true);
        for i in 0..n {
            let mut f = Feed::default();
            v.get(i).hash(&mut f);
            calls("hashing of a reference", evs::<E>("hash", 1, i as u32));
            same("fed to the hasher", has(&f.0, &own_feed::<E>(i as u32)), true);
        }
    }
}
pub fn hashing_values<E: Lab, U: HasDrop + HasHash + 'static>(mk: &MkV<E, U>) {
    take();
    let a = (mk.bx)(E::new(4));
    let mut f = Feed::default();
    a.hash(&mut f);
    calls("hashing of a value", evs::<E>("hash", 1, 4));
    same("fed to the hasher", has(&f.0, &own_feed::<E>(4)), true);
    drop(a);
    take();
    let a = E::new(4);
    let mut f = Feed::default();
    (mk.r)(&a).hash(&mut f);
    calls("hashing of a reference", evs::<E>("hash", 1, 4));
    same("fed to the hasher", has(&f.0, &own_feed::<E>(4)), true);
}
pub fn formatting<E: Lab, U: ?Sized + HasDrop + HasDebug + 'static>(mk: &Mk<E, U>) {
    for &n in lens() {
        take();
        let v = (mk.vec)(some::<E>(n, 0));
        let s = format!("{:?}", v);
        calls("formatting", (0..n as u32).map(|i| ("fmt", z::<E>(i), 0)).collect());
        same("formatted", s, format!("[{}]", (0..n as u32).map(|i| format!("<{} None None>", z::<E>(i))).collect::<Vec<_>>().join(", ")));
        let s = format!("{:#8.2?}", v);
        calls("formatting", (0..n as u32).map(|i| ("fmt", z::<E>(i), 1)).collect());
        same("formatted", s.matches("Some(8) Some(2)").count(), n);
        let s = format!("{:?}", v.as_slice());
        calls("formatting of a view", (0..n as u32).map(|i| ("fmt", z::<E>(i), 0)).collect());
        same("formatted", s.matches("None None").count(), n);
        for i in 0..n as u32 {
            let s = format!("{:#3?}", v.get(i as usize));
            calls("formatting of a reference", vec![("fmt", z::<E>(i), 1)]);
            same("formatted", s, format!("<{} Some(3) None>", z::<E>(i)));
        }
    }
}
pub fn formatting_values<E: Lab, U: HasDrop + HasDebug + 'static>(mk: &MkV<E, U>) {
    take();
    let a = (mk.bx)(E::new(4));
    let s = format!("{:2.1?}", a);
    calls("formatting of a value", vec![("fmt", z::<E>(4), 0)]);
    same("formatted", s, format!("<{} Some(2) Some(1)>", z::<E>(4)));
    let a = E::new(4);
    let s = format!("{:#?}", (mk.r)(&a));
    calls("formatting of a reference", vec![("fmt", z::<E>(4), 1)]);
    same("formatted", s, format!("<{} None None>", z::<E>(4)));
}
/// A dynamic table taken back as the concrete one, and as another.
pub fn back<E: Lab, D: ?Sized + HasDrop + 'static, U: HasDrop + 'static>(to: fn(Vec<E>) -> VecDyn<D>, own: fn(VecDyn<D>) -> VecDyn<U>, other: Option<&dyn Fn(VecDyn<D>)>) {
    let v = own(to(some::<E>(3, 0)));
    calls("there and back", vec![]);
    same("contents", labels(v.as_slice_as::<E>().unwrap()), [0u32, 1, 2].map(|x| z::<E>(x)).to_vec());
    drop(v);
    calls("destruction", drops::<E>(3, 0));
    if let Some(o) = other {
        let v = to(some::<E>(3, 0));
        let h = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let r = catch_unwind(AssertUnwindSafe(|| o(v)));
        std::panic::set_hook(h);
        same("taking a container of one table for one of another is refused", r.is_err(), true);
        calls("destruction", drops::<E>(3, 0));
    }
}
'''

CAPS = ['Clone', 'PartialEq', 'Eq', 'Hash', 'Debug', 'Send', 'Sync']
PATH = dict(Clone='Clone', PartialEq='PartialEq', Eq='Eq', Hash='std::hash::Hash', Debug='std::fmt::Debug', Send='Send', Sync='Sync', Drop='Drop')
# The traits of the standard library, wherever the name may be shadowed.
STD = dict(Clone='Clone', PartialEq='PartialEq', Eq='Eq', Hash='std::hash::Hash', Debug='std::fmt::Debug', Send='Send', Sync='Sync')
NAMES = ['Alpha', 'Zed', 'Mid', 'B2', 'Q', 'Cc', 'Dyn2', 'Veci', 'Ord2', 'Boxy', 'Fn1', 'M_n', 'Zz', 'Aa', 'Item', 'Attribute', 'Hashy', 'Cloned', 'Sized2', 'X1', 'Value1', 'Table', 'Drops', 'Eqs', 'Sender']
ITEMS = ['', ' fn size(&self) -> usize { 1 } ', ' const K: u32 = 3; ', ' fn two(self: Box<Self>) -> u32 { 2 } fn c() -> u8 { 0 } ', ' /// Text.\n #[inline] fn f<X>(&self, x: X) -> X { x } ']


class Trait:
    def __init__(self, name):
        self.name, self.decl, self.bases, self.vis, self.items = name, [], [], 'pub ', ''


def close(ts, flat):
    """Capabilities and bases of each, as declared."""
    by = {t.name: t for t in ts}

    def go(t):
        caps, bases = set(t.decl), set()
        for b in t.bases:
            c, bb = go(by[b])
            caps |= c
            bases |= {b} | bb
        if 'Eq' in caps:
            caps.add('PartialEq')
        return caps, bases
    for t in ts:
        t.allcaps, t.allbases = go(t)
        t.caps = t.allcaps if flat else set(t.decl)


def program(r, k, kind):
    """One module of the crate; returns its text."""
    n = 1 if kind in ('single', 'fn') else r.randint(1, 6) if kind == 'mod' else r.randint(2, 3)
    names = r.sample(NAMES, n)
    ts = []
    shape = r.choice(['any', 'any', 'chain', 'diamond', 'wide'])
    for i, nm in enumerate(names):
        t = Trait(nm)
        t.decl = [c for c in CAPS if r.random() < r.choice([.15, .4, .7])]
        if kind != 'mod' and 'Eq' in t.decl and 'PartialEq' not in t.decl:
            t.decl.append('PartialEq')
        if kind == 'mod' and 'PartialEq' in t.decl and 'Eq' in t.decl and r.random() < .4:
            t.decl.remove('PartialEq')
        if i and kind in ('mod', 'foreign'):
            prev = [x.name for x in ts]
            t.bases = {'chain': [prev[-1]], 'diamond': [prev[0]] if i < 3 else prev[1:3], 'wide': prev if i == n - 1 else [],
                       'any': r.sample(prev, min(len(prev), r.choice([0, 1, 1, 2, 3])))}[shape]
        r.shuffle(t.decl)
        t.items = r.choice(ITEMS)
        ts.append(t)
    # foreign: separate attributes, which know nothing of each other.
    close(ts, kind == 'mod')
    args = []
    crate = r.choice(['dync', 'dync', 'renamed'])
    if crate == 'renamed':
        args.append('dync_crate_name = "renamed"')
    if r.random() < .25:
        args.append('suffix = "%s"' % r.choice(['VTable', 'Table', 'X', 'Vtbl']))
    if r.random() < .1:
        args.append('build_vtable_only')
    r.shuffle(args)
    at = '(%s%s)' % (', '.join(args), ',' if args and r.random() < .3 else '') if args or r.random() < .2 else ''
    # Declaration order does not have to follow inheritance.
    order = list(ts)
    if r.random() < .5:
        r.shuffle(order)
    vis = r.choice(['pub ', 'pub ', 'pub(crate) ', 'pub(super) ' if kind == 'mod' else 'pub '])

    def decl(t):
        b = [PATH[c] for c in t.decl] + list(t.bases)
        t.drop = r.random() < .15
        if t.drop:
            b.append('Drop')
        if r.random() < .2:
            b.append("'static")
        if r.random() < .15:
            b.append('crate::Plain')
        if r.random() < .15:
            b.append('crate::Other<u32>')
        r.shuffle(b)
        doc = r.choice(['', '', '/// Text.\n', '#[allow(dead_code)] ', '#[doc(hidden)] '])
        t.unsafe_ = kind != 'fn' and r.random() < .08
        return doc, '%s%strait %s%s%s {%s}' % (vis, 'unsafe ' if t.unsafe_ else '', t.name, ': ' if b else r.choice(['', ':']), ' + '.join(b) + (' + ' if b and r.random() < .1 else ''), t.items)
    out = []
    if kind == 'mod':
        extra = r.choice(['', 'pub const WIDTH: usize = 3;\npub fn helper() -> usize { WIDTH }', 'use std::collections::HashMap;\npub struct Unrelated(pub HashMap<u32, u32>);'])
        out.append('#[dync::dync_mod%s]\npub mod d {\n%s\n%s\n}\nuse d::*;' % (at, extra, '\n'.join(''.join(decl(t)) for t in order)))
    else:
        for t in order:
            doc, d = decl(t)
            a = '#[dync::dync_trait%s]' % at
            out.append(doc + a + '\n' + d if r.random() < .7 else a + '\n' + doc + d)
    # Elements: one per trait with exactly what is declared, and the common ones.
    blanket = r.random() < .4
    body = []
    own = {}
    for t in ts:
        o = own[t.name] = 'Own' + t.name
        caps = t.allcaps
        body.append('pub struct %s(Box<u32>, crate::PhantomData<*const u8>);\nel_base!(%s);' % (o, o))
        for c, m in (('Clone', 'clone'), ('PartialEq', 'eq'), ('Hash', 'hash'), ('Debug', 'debug')):
            if c in caps:
                body.append('el_%s!([] %s);' % (m, o))
        for c in ('Eq', 'Send', 'Sync'):
            if c in caps:
                body.append('%simpl %s for %s {}' % ('unsafe ' if c != 'Eq' else '', c, o))
    common = ['Num'] + (['Flat'] if not any(t.drop for t in ts) else []) + ['Wide', 'Over', 'Zst', 'Gen<u8>', 'Gen<String>', 'Gen<Option<Box<u16>>>'] + (['Local'] if not any({'Send', 'Sync'} & t.allcaps for t in ts) else [])
    for t in ts:
        u = 'unsafe ' if t.unsafe_ else ''
        bounds = [STD[c] for c in sorted(t.allcaps)] + t.bases + (['Drop'] if t.drop else [])
        if blanket:
            body.append("%simpl<X: 'static%s> %s for X {}" % (u, ''.join(' + ' + b for b in bounds), t.name))
        else:
            for e in common:
                if e.startswith('Gen'):
                    continue
                body.append('%simpl %s for %s {}' % (u, t.name, e))
            body.append("%simpl<X: Default + Send + Sync + 'static> %s for Gen<X> {}" % (u, t.name))
            for o in ts:
                if o is t or t.name in o.allbases:
                    body.append('%simpl %s for %s {}' % (u, t.name, own[o.name]))
    run = []

    def checks(e, path, caps, label):
        if e == 'Zst':
            # Values only: vectors do not take them.
            run.append('case("%s values", || { let (_, v) = mk!(%s, %s); plain_values(&v); %s });' % (label, e, path, ' '.join(
                '%s_values(&v);' % f for c, f in (('PartialEq', 'comparing'), ('Hash', 'hashing'), ('Debug', 'formatting')) if c in caps)))
            return
        run.append('case("%s plain", || { let (m, v) = mk!(%s, %s); plain(&m); plain_values(&v); });' % (label, e, path))
        if 'Clone' in caps:
            run.append('case("%s clone", || cloning(&mk!(%s, %s)));' % (label, e, path))
        for c, f in (('PartialEq', 'comparing'), ('Hash', 'hashing'), ('Debug', 'formatting')):
            if c in caps:
                run.append('case("%s %s", || { let (m, v) = mk!(%s, %s); %s(&m); %s_values(&v); });' % (label, f, e, path, f, f))

    cap_of = {t.name: t.caps for t in ts}
    base_of = {t.name: t.allbases if kind == 'mod' else set() for t in ts}
    for t in ts:
        V = t.name + 'VTable'
        els = [own[t.name]] + r.sample(common, 2 if n < 4 else 1)
        for i, e in enumerate(els):
            lab = 'p%d/%s/%s' % (k, t.name, e)
            checks(e, V, t.caps, lab)
            bs = sorted(base_of[t.name])
            if i == 0:
                for b in bs:
                    checks(e, '%s, %sVTable' % (V, b), cap_of[b], lab + ' as ' + b)
            two = [(b, c) for b in bs for c in sorted(base_of[b])]
            for b, c in r.sample(two, min(len(two), 2 if i == 0 else 1)):
                checks(e, '%s, %sVTable, %sVTable' % (V, b, c), cap_of[c], lab + ' as %s as %s' % (b, c))
            builtin = [c for c in CAPS if c in t.caps] + ['Drop']
            for c in r.sample(builtin, min(len(builtin), 3 if i == 0 else 1)):
                checks(e, '%s, dync::traits::%sVTable' % (V, c), {c} | ({'PartialEq'} if c == 'Eq' else set()), lab + ' as ' + c)
            # Dynamic tables, of the trait itself and of a base.
            if e == 'Zst':
                continue
            for b in [t.name] + r.sample(bs, min(len(bs), 1)):
                dl = '%s as dyn %s' % (lab, b)
                m = 'let m = Mk::<%s, dyn Has%s> { vec: |x| into_dyn![VecDyn<dyn Has%s>](VecDyn::<%s>::from(x)), slice: |x| into_dyn![Slice<dyn Has%s>](Slice::<%s>::from(x)), slice_mut: |x| into_dyn![SliceMut<dyn Has%s>](SliceMut::<%s>::from(x)) };' % (e, b, b, V, b, V, b, V)
                fs = ['plain'] + [f for c, f in (('PartialEq', 'comparing'), ('Hash', 'hashing'), ('Debug', 'formatting')) if c in cap_of[b]]
                run.append('case("%s", || { %s %s });' % (dl, m, ' '.join('%s(&m);' % f for f in fs)))
                wrong = [x.name for x in ts if x.name != t.name and (x.name == b or b in base_of[x.name])]
                w = 'Some(&|v| drop(from_dyn![VecDyn<dyn Has%s as %sVTable>](v)))' % (b, r.choice(wrong)) if wrong else 'None'
                run.append('case("%s and back", || back::<%s, dyn Has%s, %s>(|x| into_dyn![VecDyn<dyn Has%s>](VecDyn::<%s>::from(x)), |v| from_dyn![VecDyn<dyn Has%s as %s>](v), %s));' % (dl, e, b, V, b, V, b, V, w))
        # Claims.
        cl = []
        for c in CAPS + ['Drop']:
            have = c in t.caps or c == 'Drop'
            exact = kind != 'foreign' or have
            f = 'claim' if exact else None
            if f:
                cl.append('claim("%s: Has%s", holds!(%s: Has%s), %s);' % (V, c, V, c, str(have).lower()))
                cl.append('claim("From<%s> for %sVTable", holds!(dync::traits::%sVTable: From<%s>), %s);' % (V, c, c, V, str(have).lower()))
                if c not in ('Drop',):
                    cl.append('claim("VecDyn<%s>: %s", holds!(VecDyn<%s>: %s), %s);' % (V, c, V, STD[c], str(have).lower()))
        for b in ts:
            have = b is t or b.name in base_of[t.name]
            if kind != 'foreign' or have:
                cl.append('claim("From<%s> for %sVTable", holds!(%sVTable: From<%s>), %s);' % (V, b.name, b.name, V, str(have).lower()))
                cl.append('claim("%s: Has%s", holds!(%s: Has%s), %s);' % (V, b.name, V, b.name, str(have).lower()))
        for e in common + [own[t.name]]:
            cl.append('claimed("%s: VTable<%s>", holds!(%s: VTable<%s>));' % (V, e, V, e))
        if not blanket:
            cl.append('claim("%s: VTable<Stranger>", holds!(%s: VTable<Stranger>), false);' % (V, V))
        if not blanket or t.allcaps - {'Send', 'Sync'}:
            cl.append('claim("%s: VTable<Poor>", holds!(%s: VTable<Poor>), false);' % (V, V))
        if {'Send', 'Sync'} & t.allcaps:
            cl.append('claim("%s: VTable<Local>", holds!(%s: VTable<Local>), false);' % (V, V))
        for o in ts:
            if o is not t and t.name not in o.allbases and not (blanket and t.allcaps <= o.allcaps):
                cl.append('claim("%s: VTable<%s>", holds!(%s: VTable<%s>), false);' % (V, own[o.name], V, own[o.name]))
        run.append('case("p%d/%s claims", || { %s });' % (k, t.name, ' '.join(cl)))
    if kind == 'fn':
        return 'pub mod p%d {\n    use crate::*;\n    pub fn run() {\n%s\n%s\n%s\n    }\n}\n' % (k, '\n'.join(out), '\n'.join(body), '\n'.join(run)), len(ts), len(run), [shape]
    return 'pub mod p%d {\n    use crate::*;\n%s\n%s\n    pub fn run() {\n%s\n    }\n}\n' % (k, '\n'.join(out), '\n'.join(body), '\n'.join(run)), len(ts), len(run), [shape]


KINDS = ['single', 'single', 'single', 'mod', 'mod', 'mod', 'mod', 'fn', 'foreign']

# Declarations and uses that must not compile, or, if they do, must not claim what the element lacks.
SHADOW = r'''
pub mod shadow_%(low)s {
    use crate::*;
    pub mod local { pub trait %(cap)s {} }
    use local::*;
    %(pre)s
    #[dync::dync_trait]
    pub trait Tr: %(path)s {}
    pub struct Lacks(u32, PhantomData<*const u8>);
    impl local::%(cap)s for Lacks {}
    impl Tr for Lacks {}
    pub fn bad() -> bool { holds!(TrVTable: VTable<Lacks>) && holds!(TrVTable: Has%(cap)s) }
}
'''
FEIGN = r'''
pub mod feign_%(low)s {
    use crate::*;
    #[dync::dync_trait]
    pub trait Tr: %(caps)s {}
    pub struct Lacks(u32, PhantomData<*const u8>);
    impl Tr for Lacks {}
    pub fn bad() -> bool { true }
}
'''
USE = r'''
pub mod use_%(n)s {
    use crate::*;
    #[dync::dync_mod]
    pub mod d {
        pub trait Base: Clone {}
        pub trait Mid: Base + std::hash::Hash {}
        pub trait Side: std::fmt::Debug {}
    }
    use d::*;
    impl Base for Num {}
    impl Mid for Num {}
    impl Base for Wide {}
    pub fn bad() -> bool { %(use)s true }
}
'''
USES = [
    'let _ = VecDyn::<BaseVTable>::from(vec![Stranger::new(0)]);', 'let _ = VecDyn::<BaseVTable>::with_type::<Stranger>();', 'let _ = VecDyn::<MidVTable>::from(vec![Wide::new(0)]);',
    'let _ = BoxValue::<MidVTable>::new(Wide::new(0));', 'let _ = SmallValue::<MidVTable>::try_new(Stranger::new(0));', 'let x = Wide::new(1); let _ = ValueRef::<MidVTable>::new(&x);',
    'let mut x = Stranger::new(1); let _ = ValueMut::<MidVTable>::new(&mut x);', 'let _ = Slice::<BaseVTable>::from(&[Stranger::new(1)][..]);', 'let _ = SliceMut::<SideVTable>::from(&mut [Num::new(1)][..]);',
    'let _ = VecDyn::<BaseVTable>::from(vec![Num::new(0)]).upcast::<MidVTable>();', 'let _ = VecDyn::<MidVTable>::from(vec![Num::new(0)]).upcast::<SideVTable>();',
    'let x = Num::new(1); let _ = ValueRef::<BaseVTable>::new(&x).upcast::<MidVTable>();', 'let mut x = Num::new(1); let _ = ValueMut::<BaseVTable>::new(&mut x).upcast::<MidVTable>();',
    'let _ = BoxValue::<BaseVTable>::new(Num::new(1)).upcast::<dync::traits::HashVTable>();', 'let _ = into_dyn![VecDyn<dyn HasMid>](VecDyn::<BaseVTable>::from(vec![Num::new(0)]));',
    'let _ = into_dyn![Slice<dyn HasSide>](Slice::<MidVTable>::from(&[Num::new(0)][..]));', 'let _ = VecDyn::<SideVTable>::with_size(2, Num::new(0));',
    'let _ = <BaseVTable as VTable<Stranger>>::build_vtable();', 'let s = String::new(); let _ = <BaseVTable as VTable<&str>>::build_vtable();',
]


def hostile():
    out, names = [], []
    for cap in CAPS + ['Clone2']:
        c = cap.rstrip('2')
        pre = ''
        if c in ('Hash', 'Debug'):
            m = dict(Hash='hash', Debug='fmt')[c]
            pre = 'mod std { pub mod %s { pub use super::super::local::%s; } }' % (m, c)
        path = PATH[c] + (' + ::std::cmp::PartialEq' if cap == 'Clone2' else ' + PartialEq' if c == 'Eq' else '')
        out.append(SHADOW % dict(low=cap.lower(), cap=c, path=path, pre=pre))
        names.append('shadow_' + cap.lower())
        out.append(FEIGN % dict(low=cap.lower(), caps=PATH[c]))
        names.append('feign_' + cap.lower())
    for n, u in enumerate(USES):
        out.append(USE % dict(n=n, use=u))
        names.append('use_%d' % n)
    # An inherited capability the element does not have.
    out.append(r'''
pub mod inherit_0 {
    use crate::*;
    #[dync::dync_mod]
    pub mod d { pub trait A: Clone {} pub trait B: A + std::fmt::Debug {} }
    pub struct Half(u32);
    impl std::fmt::Debug for Half { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x") } }
    impl d::B for Half {}
    pub fn bad() -> bool { true }
}
''')
    names.append('inherit_0')
    return out, names


def generate(seed, count, bins):
    """Texts of the binaries: [(text, [program])]."""
    r = random.Random(seed)
    progs = []
    for k in range(count):
        kind = KINDS[k % len(KINDS)]
        progs.append((k, kind) + program(r, k, kind))
    out = []
    for b in range(bins):
        mine = [p for p in progs if p[0] % bins == b]
        text = 'include!("../help.rs");\nextern crate dync as renamed;\n' + ''.join(p[2] for p in mine)
        text += 'fn main() {\n%s    done();\n}\n' % ''.join('    p%d::run();\n' % p[0] for p in mine)
        out.append((text, mine))
    return out


def check(c):
    import __main__ as ck
    import hashlib, json, os, re
    from concurrent.futures import ThreadPoolExecutor
    quick = c.tier == 'quick'
    d = os.path.join(ck.TARGET, 'derive')
    bind = os.path.join(d, 'src', 'bin')
    os.makedirs(bind, exist_ok=True)
    toml = '''[package]
name = "derived"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
dync = { path = "/repo", default-features = false, features = ["traits"] }

[profile.dev]
debug = 0
opt-level = 0
incremental = false
'''

    def put(p, t):
        p = os.path.join(d, p)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, 'w').write(t)
    put('Cargo.toml', toml)
    # An include cannot hold inner attributes.
    attrs, rest = HELP.strip().split('\n', 1)
    put('src/help.rs', rest)
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        open(lock, 'w').write(open(os.path.join(ck.HARNESS, 'Cargo.lock')).read().replace('name = "mon"', 'name = "derived"'))
    attrs += '\n#![allow(unused_variables, unused_mut, unused_must_use, private_interfaces, private_bounds, non_local_definitions)]\n'
    bins = 8
    base = c.seed
    rounds = [(base, 72)] if quick else [(base + 1000 * i, 120) for i in range(4)]
    names = {}
    wanted = {'hostile.rs'}
    for i, (s, n) in enumerate(rounds):
        for b, (text, mine) in enumerate(generate('%d' % s, n, bins)):
            nm = 'g%d_%d' % (i, b)
            names[nm] = mine
            wanted.add(nm + '.rs')
            put('src/bin/%s.rs' % nm, attrs + text)
    htexts, hnames = hostile()
    put('src/bin/hostile.rs', attrs + 'include!("../help.rs");\nextern crate dync as renamed;\n' + ''.join(htexts) + 'fn main() {}\n')
    for f in os.listdir(bind):
        if f not in wanted:
            os.remove(os.path.join(bind, f))

    def env(flav):
        e = ck.env_for(flav)
        e['CARGO_TARGET_DIR'] = os.path.join(ck.TARGET, 'derive-' + ('miri' if flav.startswith('miri') else 'dbg'))
        return e
    replay = lambda flav, bin_, case: 'cd %s && CARGO_TARGET_DIR=%s MIRIFLAGS="%s" cargo %s run --offline --quiet --bin %s -- "%s"' % (
        d, env(flav)['CARGO_TARGET_DIR'], env(flav).get('MIRIFLAGS', ''), '+nightly miri' if 'miri' in flav else '', bin_, case)

    # The library itself has to build; what it generates may not.
    w = ck.run(['cargo', 'build', '--offline', '--quiet', '-p', 'dync'], cwd=d, env=env('dbg'), timeout=600)
    if w['rc'] != 0:
        raise ck.Inconclusive('dync does not build: ' + w['err'][-1500:])

    def diagnostics(bin_):
        r = ck.run(['cargo', 'check', '--offline', '--quiet', '--message-format=json', '--bin', bin_], cwd=d, env=env('dbg'), timeout=700)
        text = open(os.path.join(bind, bin_ + '.rs')).read().split('\n')
        at, cur = [], None
        for l in text:
            m = re.match(r'pub mod ((?:p\d+)|(?:shadow|feign|use|inherit)_\w+) \{', l)
            if m:
                cur = m.group(1)
            elif l.startswith('fn main'):
                cur = None
            at.append(cur)
        per, rest = {}, []
        for l in r['out'].splitlines():
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
                continue
            m = m['message']
            name = None
            for s in sorted(m['spans'], key=lambda s: not s['is_primary']):
                while s and not name:
                    if s['file_name'].endswith(bin_ + '.rs'):
                        name = at[s['line_start'] - 1]
                    s = (s.get('expansion') or {}).get('span')
                if name:
                    break
            if name:
                per.setdefault(name, []).append(((m.get('code') or {}).get('code'), m['message']))
            elif not m['message'].startswith(('aborting due to', 'could not compile')):
                rest.append(((m.get('code') or {}).get('code'), m['message']))
        return r, per, rest

    # Native.
    counts = {}
    broken = set()
    b = ck.run(['cargo', 'build', '--offline', '--quiet', '--keep-going'] + [x for nm in names for x in ('--bin', nm)], cwd=d, env=env('dbg'), timeout=850 if quick else 3000)
    if b['timeout']:
        raise ck.Inconclusive('building the programs took too long')
    if b['rc'] != 0:
        some = False
        for nm in names:
            r, per, rest = diagnostics(nm)
            for p, es in sorted(per.items()):
                some = True
                broken.add(nm)
                c.violation('%s#0: what is generated for a valid declaration does not compile: %s' % (p, '; '.join('%s %s' % e for e in es[:3])[:600]), 'dbg', None,
                            'cd %s && CARGO_TARGET_DIR=%s cargo check --offline --bin %s 2>&1 | grep -A20 "^error"' % (d, env('dbg')['CARGO_TARGET_DIR'], nm), p + '#0', [])
        if not some:
            raise ck.Inconclusive('the programs do not build: ' + b['err'][-1500:])
    ub = re.compile(r'^error: (Undefined Behavior.*|memory leaked.*|.*[Dd]ata race.*)$', re.M)

    def execute(flav, nm, timeout):
        cmd = ['cargo'] + (['+nightly', 'miri'] if 'miri' in flav else []) + ['run', '--offline', '--quiet', '--bin', nm]
        if 'miri' in flav:
            # Slower by a factor of a thousand.
            k = 20 if quick else 4
            cmd += ['--', '--part', str(k), str((base + int(nm.split('_')[1])) % k)]
        r = ck.SEM_RUN(lambda *a: ck.run(*a[:-1], cwd=d, env=env(flav), timeout=a[-1]), cmd, timeout)
        c.runs.append(dict(bin='derive/' + nm, flavour=flav, seconds=round(r['t'], 1), verdict='ended with %s' % r['rc'], args='%d programs' % len(names[nm])))
        return flav, nm, r
    flavs = ['dbg', 'miri-tree'] + ([] if quick else ['miri-stack'])
    jobs = [(f, nm) for f in flavs for nm in names if nm not in broken]
    total = dict(cases=0, events=0, observations=0)
    perflav = {}
    with ThreadPoolExecutor(max_workers=8) as ex:
        for flav, nm, r in ex.map(lambda j: execute(j[0], j[1], 700 if quick else 3000), jobs):
            last = (re.findall(r'^CASE (.*)$', r['err'], re.M) or [None])[-1]
            for name, msg in re.findall(r'^VIOL (.*?): (.*)$', r['out'], re.M)[:6]:
                cs = name.replace(' ', '_') + '#0'
                c.violation('%s: %s; program: src/bin/%s.rs' % (cs, msg[:900], nm), 'dbg', None, replay(flav, nm, name), cs, [])
            m = re.search(r'^DONE (\d+) (\d+) (\d+)$', r['out'], re.M)
            if r['timeout']:
                c.problem('derive/%s (%s): watchdog fired in %s' % (nm, flav, last))
            elif not m or r['rc'] != 0:
                u = ub.search(r['err'])
                if not last:
                    c.problem('derive/%s (%s) ended with %s: %s' % (nm, flav, r['rc'], r['err'][-600:]))
                else:
                    cs = last.replace(' ', '_') + '#0'
                    c.violation('%s (%s): %s; program: src/bin/%s.rs' % (cs, flav, u.group(1)[:300] if u else 'ended with %s: %s' % (r['rc'], r['err'][-200:]), nm), 'dbg', None, replay(flav, nm, last), cs, [])
            if m:
                p = perflav.setdefault(flav, [0, 0, 0])
                for i in range(3):
                    p[i] += int(m.group(i + 1))
    # What must not compile.
    r, per, rest = diagnostics('hostile')
    if rest:
        raise ck.Inconclusive('hostile declarations: ' + str(rest[:3])[:1000])
    if len(per) < len(hnames):
        acc = [h for h in hnames if h not in per]
        keep = [t for t, h in zip(htexts, hnames) if h in acc]
        put('src/bin/hostile_run.rs', attrs + 'include!("../help.rs");\nextern crate dync as renamed;\n' + ''.join(keep) + 'fn main() { %s }\n' % ' '.join('if %s::bad() { println!("BAD %s"); }' % (h, h) for h in acc))
        r = ck.run(['cargo', 'run', '--offline', '--quiet', '--bin', 'hostile_run'], cwd=d, env=env('dbg'), timeout=600)
        for h in re.findall(r'^BAD (\w+)$', r['out'], re.M):
            c.violation('%s#0: a table exists for an element that does not have what it claims, or a conversion that was not declared; the program: %s' % (h, htexts[hnames.index(h)].strip()[:700]), 'dbg', None,
                        'cd %s && CARGO_TARGET_DIR=%s cargo run --offline --quiet --bin hostile_run' % (d, env('dbg')['CARGO_TARGET_DIR']), h + '#0', [])
        if r['rc'] != 0:
            # Accepted by the type checker, and not to the end.
            c.extra['hostile declarations rejected late'] = acc
    progs = [p for ms in names.values() for p in ms]
    shapes = {}
    for p in progs:
        shapes[p[1]] = shapes.get(p[1], 0) + 1
    c.results.append(('dbg', 'derive-hostile', dict(evaluations=len(hnames), distinct=len(hnames), observations=len(hnames),
                                                  events={'hostile declarations': len(hnames), 'hostile declarations rejected': len(per)}, suites={'hostile declarations': len(hnames)}, samples=[])))
    for flav, p in perflav.items():
        c.results.append((flav, 'derive', dict(
            evaluations=p[0], distinct=sum(x[4] for x in progs), observations=p[2],
            events={'calls of element code recorded': p[1]},
            suites=dict({'declarations: ' + k: v for k, v in shapes.items()}, traits=sum(x[3] for x in progs)) if flav == 'dbg' else {}, samples=[re.sub(r'\s+', ' ', x[2])[:600] for x in progs[:3]])))
