//! Writing through erased references. All the places of a case (elements of vectors, of typed slices,
//! boxed and word-sized values, plain variables; of two types) are collected as references at once,
//! an operation is applied to one or two of them, and then every place is compared with the model.
use crate::copyw::CEl;
use crate::dynw::two;
use crate::el::*;
use crate::ledger::{self, Ev};
use crate::report::*;
use crate::values::{is_of, Is};
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};

type V = AllVTable;

struct Places<T: El, F: El> {
    vt: VecDyn<V>,
    vf: VecDyn<V>,
    wt: Vec<T>,
    wf: Vec<F>,
    bs: Vec<BoxValue<V>>,
    ss: Vec<SmallValue<V>>,
    x: T,
    y: F,
    z: Box<T>,
}

impl<T: El + MaybeHash, F: El + MaybeHash> Places<T, F>
where
    V: VTable<T> + VTable<F>,
{
    fn new(r: &mut Rng) -> (Self, Vec<Is>) {
        let mut m = vec![];
        macro_rules! mk { ($X:ty, $f:expr) => {{ let x = <$X>::mk(r.key()); m.push(is_of(&x, $f)); x }} }
        let mut n = || r.below(4);
        let (a, b, c, d, e, f) = (n() + 1, n(), n(), n(), n(), n());
        let vt: Vec<T> = (0..a).map(|_| mk!(T, false)).collect();
        let vf: Vec<F> = (0..b).map(|_| mk!(F, true)).collect();
        let wt: Vec<T> = (0..c).map(|_| mk!(T, false)).collect();
        let wf: Vec<F> = (0..d).map(|_| mk!(F, true)).collect();
        let bs = (0..e).map(|i| if i % 2 == 0 { BoxValue::new(mk!(T, false)) } else { BoxValue::new(mk!(F, true)) }).collect();
        let mut ss = vec![];
        for i in 0..f {
            if i % 2 == 0 && size_of::<T>() == std::mem::size_of::<usize>() {
                ss.push(SmallValue::new(mk!(T, false)));
            }
            if i % 2 == 1 && size_of::<F>() == std::mem::size_of::<usize>() {
                ss.push(SmallValue::new(mk!(F, true)));
            }
        }
        let (x, y, z) = (mk!(T, false), mk!(F, true), Box::new(mk!(T, false)));
        (Places { vt: vt.into(), vf: vf.into(), wt, wf, bs, ss, x, y, z }, m)
    }

    /// References to all the places, in the order of the model.
    fn muts(&mut self, how: usize) -> Vec<ValueMut<'_, V>> {
        let mut o: Vec<ValueMut<'_, V>> = vec![];
        match how % 4 {
            0 => o.extend(self.vt.iter_mut()),
            1 => o.extend(self.vt.as_mut_slice().into_iter()),
            2 => {
                let n = self.vt.len();
                o.extend(self.vt.as_mut_slice().into_subslice(0..n).into_iter())
            }
            _ => o.extend(self.vt.as_mut_slice_as::<T>().unwrap().iter_mut().map(ValueMut::new)),
        }
        match how / 4 % 2 {
            0 => o.extend(self.vf.iter_mut()),
            _ => o.extend(self.vf.as_mut_slice().into_iter()),
        }
        match how / 8 % 2 {
            0 => o.extend(SliceMut::from_slice(&mut self.wt[..]).into_iter()),
            _ => o.extend(self.wt.iter_mut().map(ValueMut::new)),
        }
        o.extend(SliceMut::<V>::from(&mut self.wf[..]).into_iter());
        o.extend(self.bs.iter_mut().map(|b| b.as_mut()));
        o.extend(self.ss.iter_mut().map(|b| b.as_mut()));
        o.push(ValueMut::new(&mut self.x));
        o.push(ValueMut::new(&mut self.y));
        o.push(ValueMut::new(&mut *self.z));
        o
    }

    fn verify(&mut self, m: &[Is], what: &str) {
        let mut at = 0;
        macro_rules! one { ($x:expr, $w:expr) => {{
            let is = &m[at];
            let x = $x;
            same!(x.key(), is.key, "{}: {} (place {})", what, $w, at);
            same!(x.serial(), is.serial, "{}: identity of {} (place {})", what, $w, at);
            at += 1;
        }} }
        same!((self.vt.element_type_id(), self.vf.element_type_id()), (TypeId::of::<T>(), TypeId::of::<F>()), "{}: element types", what);
        for x in self.vt.iter_as::<T>().unwrap() {
            one!(x, "vector element");
        }
        for x in self.vf.iter_as::<F>().unwrap() {
            one!(x, "vector element");
        }
        for x in &self.wt {
            one!(x, "slice element");
        }
        for x in &self.wf {
            one!(x, "slice element");
        }
        for b in &self.bs {
            same!(b.value_type_id(), if m[at].foreign { TypeId::of::<F>() } else { TypeId::of::<T>() }, "{}: type of a boxed value", what);
            if m[at].foreign {
                one!(some!(b.as_ref().downcast::<F>(), "downcast"), "boxed value")
            } else {
                one!(some!(b.as_ref().downcast::<T>(), "downcast"), "boxed value")
            }
        }
        for b in &self.ss {
            same!(b.value_type_id(), if m[at].foreign { TypeId::of::<F>() } else { TypeId::of::<T>() }, "{}: type of a small value", what);
            if m[at].foreign {
                one!(some!(b.as_ref().downcast::<F>(), "downcast"), "small value")
            } else {
                one!(some!(b.as_ref().downcast::<T>(), "downcast"), "small value")
            }
        }
        one!(&self.x, "variable");
        one!(&self.y, "variable");
        one!(&*self.z, "boxed variable");
        same!(at, m.len(), "{}: number of places", what);
    }
}

fn id(is: &Is) -> TypeId {
    if is.foreign {
        TypeId::of::<u8>()
    } else {
        TypeId::of::<u16>()
    }
}

/// A reference derived from `x` (reborrowed, upcast, downcast and taken again, ...) is passed to `f`.
macro_rules! derived {
    ($r:expr, $x:expr, $T:ty, $F:ty, $is:expr, |$y:ident| $body:expr) => {{
        let how = $r.below(7);
        let x: &mut ValueMut<'_, V> = $x;
        let addr = x.reborrow().downcast::<$T>().map(|p| p as *const $T as usize).or(x.reborrow().downcast::<$F>().map(|p| p as *const $F as usize));
        macro_rules! here { ($z:expr) => {{
            let z = $z;
            let a = z.reborrow().downcast::<$T>().map(|p| p as *const $T as usize).or(z.reborrow().downcast::<$F>().map(|p| p as *const $F as usize));
            same!(a, addr, "place of a derived reference (kind {})", how);
            same!(z.value_type_id(), if $is.foreign { TypeId::of::<$F>() } else { TypeId::of::<$T>() }, "type of a derived reference (kind {})", how);
            same!(z.size(), if $is.foreign { size_of::<$F>() } else { size_of::<$T>() }, "size of a derived reference (kind {})", how);
            same!(z.value_alignment(), if $is.foreign { align_of::<$F>() } else { align_of::<$T>() }, "alignment of a derived reference (kind {})", how);
        }} }
        match how {
            0 => { let mut z = x.reborrow_mut(); here!(&z); let $y = &mut z; $body }
            1 => { let mut z = x.upcast_mut::<V>(); here!(&z); let $y = &mut z; $body }
            2 => { let mut a = x.reborrow_mut(); let mut b = a.reborrow_mut(); let mut z = b.reborrow_mut(); here!(&z); let $y = &mut z; $body }
            3 => { let mut z = x.reborrow_mut().upcast::<V>(); here!(&z); let $y = &mut z; $body }
            4 => {
                if $is.foreign {
                    let p = some!(x.reborrow_mut().downcast::<$F>(), "downcast of a mutable reference");
                    let mut z = ValueMut::<V>::new(p); here!(&z); let $y = &mut z; $body
                } else {
                    let p = some!(x.reborrow_mut().downcast::<$T>(), "downcast of a mutable reference");
                    let mut z = ValueMut::<V>::new(p); here!(&z); let $y = &mut z; $body
                }
            }
            5 => { let mut a = x.upcast_mut::<V>(); let mut z = a.upcast_mut::<V>(); here!(&z); let $y = &mut z; $body }
            _ => { here!(&*x); let $y = x; $body }
        }
    }};
}

pub fn refs<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng)
where
    V: VTable<T> + VTable<F>,
{
    let (mut p, mut m) = Places::<T, F>::new(r);
    p.verify(&m, "construction");
    for _ in 0..if cfg!(miri) { 8 } else { 14 } {
        let i = r.below(m.len());
        let mut j = r.below(m.len());
        if i == j {
            j = (i + 1) % m.len();
        }
        // Mostly matching types.
        for _ in 0..2 {
            if m[i].foreign != m[j].foreign {
                let k = r.below(m.len());
                if k != i {
                    j = k;
                }
            }
        }
        let op = r.below(13);
        let how = r.below(16);
        t!("op{} {} {} how{}", op, i, j, how);
        let before = ledger::counts();
        let live = ledger::live();
        let matching = m[i].foreign == m[j].foreign;
        let mut expect_live = live;
        let what;
        // Events that may differ from `before`: (kind, number).
        let mut ev: Option<Vec<(Ev, u64)>> = Some(vec![]);
        let tracked = if m[i].foreign { F::TRACKED } else { T::TRACKED };
        {
            let mut all = p.muts(how);
            same!(all.len(), m.len(), "number of references");
            match op {
                0..=2 => {
                    what = "swap";
                    let (a, b) = two(&mut all, i, j);
                    let (ia, ib) = (m[i], m[j]);
                    let q = r.flip();
                    derived!(r, a, T, F, ia, |a| derived!(r, b, T, F, ib, |b| if q { a.swap(b) } else { b.swap(a) }));
                    if matching {
                        m.swap(i, j);
                    }
                }
                3 | 4 => {
                    what = "assign";
                    let foreign = if r.chance(3, 4) { m[i].foreign } else { !m[i].foreign };
                    let k = r.key();
                    let old = m[i];
                    let is;
                    macro_rules! go { ($X:ty) => {{
                        let x = <$X>::mk(k);
                        is = is_of(&x, foreign);
                        let small = size_of::<$X>() == std::mem::size_of::<usize>() && r.flip();
                        t!("assign {} {}", <$X>::NAME, if small { "small" } else { "boxed" });
                        if small {
                            let v = SmallValue::<V>::new(x);
                            derived!(r, &mut all[i], T, F, old, |a| a.assign(v));
                        } else {
                            let v = BoxValue::<V>::new(x);
                            derived!(r, &mut all[i], T, F, old, |a| a.assign(v));
                        }
                    }} }
                    if foreign { go!(F) } else { go!(T) }
                    let gone = if foreign == old.foreign {
                        m[i] = is;
                        old
                    } else {
                        is
                    };
                    ensure!(gone.serial == 0 || !ledger::is_live(gone.serial), "assign: {} value not destroyed", if gone == old { "previous" } else { "refused" });
                    let mut e = vec![];
                    if if foreign { F::TRACKED } else { T::TRACKED } {
                        e.push((Ev::Make, 1));
                        e.push((Ev::Drop, 1));
                    }
                    ev = Some(e);
                }
                5..=8 => {
                    what = "clone_from_other";
                    let (a, b) = two(&mut all, i, j);
                    let (ia, ib) = (m[i], m[j]);
                    let src = r.below(5);
                    let res = derived!(r, a, T, F, ia, |a| match src {
                        0 => a.clone_from_other(b.reborrow()),
                        1 => a.clone_from_other(b.reborrow_mut()),
                        2 => a.clone_from_other(ValueRef::from(b.reborrow_mut())),
                        3 => a.clone_from_other(b.reborrow().upcast::<V>()),
                        _ => {
                            let z = b.reborrow();
                            a.clone_from_other(z.upcast_ref::<V>())
                        }
                    });
                    if matching {
                        ensure!(res.is_ok(), "clone_from_other refused the same type");
                        m[i].key = ib.key;
                        ev = if tracked { Some(vec![(Ev::CloneFrom, 1)]) } else { Some(vec![]) };
                    } else {
                        match res {
                            Err(Error::MismatchedTypes { expected, actual }) => {
                                let ty = |is: &Is| if is.foreign { TypeId::of::<F>() } else { TypeId::of::<T>() };
                                same!((expected, actual), (ty(&ia), ty(&ib)), "reported types of a mismatch");
                            }
                            Err(_) => fail!("clone_from_other reports something else than the mismatch"),
                            Ok(()) => fail!("clone_from_other accepted another type"),
                        }
                    }
                }
                9 => {
                    what = "typed write";
                    let k = r.key();
                    let old = m[i];
                    if old.foreign {
                        let x = F::mk(k);
                        m[i] = is_of(&x, true);
                        derived!(r, &mut all[i], T, F, old, |a| *some!(a.reborrow_mut().downcast::<F>(), "downcast") = x);
                    } else {
                        let x = T::mk(k);
                        m[i] = is_of(&x, false);
                        derived!(r, &mut all[i], T, F, old, |a| *some!(a.reborrow_mut().downcast::<T>(), "downcast") = x);
                    }
                    ev = None;
                }
                10 => {
                    what = "narrowed references";
                    let (a, b) = two(&mut all, i, j);
                    match r.below(3) {
                        0 => a.upcast_mut::<DropVTable>().swap(&mut b.upcast_mut::<DropVTable>()),
                        1 => a.reborrow_mut().upcast::<HashVTable>().swap(&mut b.upcast_mut::<HashVTable>()),
                        _ => {
                            let mut c = a.upcast_mut::<CloneVTable>();
                            let mut d = b.upcast_mut::<CloneVTable>();
                            c.swap(&mut d);
                            let ok = d.clone_from_other(c.reborrow()).is_ok();
                            same!(ok, matching, "clone_from_other through CloneVTable");
                            if ok {
                                c.swap(&mut d);
                                ev = if tracked { Some(vec![(Ev::CloneFrom, 1)]) } else { Some(vec![]) };
                                // d took c's (old d's) key; then both were exchanged.
                                m[i].key = m[j].key;
                                m.swap(i, j);
                            }
                        }
                    }
                    if matching {
                        m.swap(i, j);
                    }
                }
                11 => {
                    what = "clone from a value";
                    let old = m[i];
                    let foreign = if r.chance(3, 4) { old.foreign } else { !old.foreign };
                    let k = r.key();
                    macro_rules! go { ($X:ty) => {{
                        let x = <$X>::mk(k);
                        let key = is_of(&x, foreign).key;
                        let ok;
                        if size_of::<$X>() == std::mem::size_of::<usize>() && r.flip() {
                            let b = SmallValue::<V>::new(x);
                            ok = derived!(r, &mut all[i], T, F, old, |a| a.clone_from_other(&b)).is_ok();
                            same!(some!(b.downcast::<$X>(), "downcast of the source").key(), key, "source of a clone");
                        } else {
                            let b = BoxValue::<V>::new(x);
                            ok = derived!(r, &mut all[i], T, F, old, |a| if r.flip() { a.clone_from_other(&b) } else { a.clone_from_other(b.as_ref()) }).is_ok();
                            same!(some!(b.downcast::<$X>(), "downcast of the source").key(), key, "source of a clone");
                        }
                        same!(ok, foreign == old.foreign, "clone_from_other of a value: accepted");
                        if ok {
                            m[i].key = key;
                        }
                    }} }
                    if foreign { go!(F) } else { go!(T) }
                    ev = None;
                }
                _ => {
                    what = "boxed swap";
                    // With a value that lives only here.
                    let old = m[i];
                    let k = r.key();
                    macro_rules! go { ($X:ty) => {{
                        let x = <$X>::mk(k);
                        let is = is_of(&x, old.foreign);
                        let mut b = BoxValue::<V>::new(x);
                        derived!(r, &mut all[i], T, F, old, |a| a.swap(&mut b.as_mut()));
                        m[i] = is;
                        let y = some!(b.downcast::<$X>(), "downcast of the swapped out value");
                        same!((y.key(), y.serial()), (old.key, old.serial), "value handed out by a swap");
                    }} }
                    if old.foreign { go!(F) } else { go!(T) }
                    ev = None;
                }
            }
        }
        same!(ledger::live(), expect_live, "{}: elements alive", what);
        if let Some(ev) = ev {
            let mut b = before;
            for (e, n) in ev {
                b[e as usize] += n;
            }
            same!(ledger::counts(), b, "{}: element code run (made, cloned, cloned in place, dropped, eq, hash, fmt)", what);
        }
        p.verify(&m, what);
    }
}

// ---------------------------------------------------------------------------------------------

struct CPlaces<T: CEl, F: CEl> {
    vt: VecCopy,
    vf: VecCopy,
    wt: Vec<T>,
    wf: Vec<F>,
    x: T,
    y: F,
}
impl<T: CEl, F: CEl> CPlaces<T, F> {
    fn new(r: &mut Rng) -> (Self, Vec<(bool, u64)>) {
        let mut m = vec![];
        macro_rules! mk { ($X:ty, $f:expr) => {{ let x = <$X>::mk(r.key()); m.push(($f, x.key())); x }} }
        let mut n = || r.below(5);
        let (a, b, c, d) = (n() + 1, n(), n(), n());
        let vt: Vec<T> = (0..a).map(|_| mk!(T, false)).collect();
        let vf: Vec<F> = (0..b).map(|_| mk!(F, true)).collect();
        let wt: Vec<T> = (0..c).map(|_| mk!(T, false)).collect();
        let wf: Vec<F> = (0..d).map(|_| mk!(F, true)).collect();
        let (x, y) = (mk!(T, false), mk!(F, true));
        (CPlaces { vt: vt.into(), vf: vf.into(), wt, wf, x, y }, m)
    }
    fn muts(&mut self, how: usize) -> Vec<CopyValueMut<'_>> {
        let mut o: Vec<CopyValueMut<'_>> = vec![];
        match how % 4 {
            0 => o.extend(self.vt.iter_mut()),
            1 => o.extend(self.vt.as_mut_slice().into_iter()),
            2 => {
                let n = self.vt.len();
                o.extend(self.vt.as_mut_slice().into_subslice(0..n).into_iter())
            }
            _ => o.extend(self.vt.as_mut_slice_as::<T>().unwrap().iter_mut().map(CopyValueMut::new)),
        }
        match how / 4 % 2 {
            0 => o.extend(self.vf.iter_mut()),
            _ => o.extend(self.vf.as_mut_slice().into_iter()),
        }
        match how / 8 % 2 {
            0 => o.extend(SliceCopyMut::from_slice(&mut self.wt[..]).into_iter()),
            _ => o.extend(self.wt.iter_mut().map(CopyValueMut::new)),
        }
        o.extend(SliceCopyMut::from(&mut self.wf[..]).into_iter());
        o.push(CopyValueMut::new(&mut self.x));
        o.push(CopyValueMut::new(&mut self.y));
        o
    }
    fn verify(&mut self, m: &[(bool, u64)], what: &str) {
        let mut at = 0;
        macro_rules! one { ($x:expr, $w:expr) => {{ same!($x.key(), m[at].1, "{}: {} (place {})", what, $w, at); at += 1; }} }
        for x in some!(self.vt.iter_as::<T>(), "iter_as") {
            one!(x, "vector element")
        }
        for x in some!(self.vf.iter_as::<F>(), "iter_as") {
            one!(x, "vector element")
        }
        for x in &self.wt {
            one!(x, "slice element")
        }
        for x in &self.wf {
            one!(x, "slice element")
        }
        one!(self.x, "variable");
        one!(self.y, "variable");
        same!(at, m.len(), "{}: number of places", what);
    }
}

fn describe<T: CEl, F: CEl>(c: (TypeId, usize, usize), foreign: bool, what: &str) {
    let d = if foreign { (TypeId::of::<F>(), size_of::<F>(), align_of::<F>()) } else { (TypeId::of::<T>(), size_of::<T>(), align_of::<T>()) };
    same!(c, d, "{}: type, size and alignment", what);
}

pub fn copy_refs<T: CEl, F: CEl>(r: &mut Rng) {
    let (mut p, mut m) = CPlaces::<T, F>::new(r);
    p.verify(&m, "construction");
    for _ in 0..if cfg!(miri) { 8 } else { 14 } {
        let i = r.below(m.len());
        let mut j = r.below(m.len());
        if i == j {
            j = (i + 1) % m.len();
        }
        if m[i].0 != m[j].0 {
            let k = r.below(m.len());
            if k != i {
                j = k;
            }
        }
        let matching = m[i].0 == m[j].0;
        let (op, how) = (r.below(9), r.below(16));
        t!("op{} {} {} how{}", op, i, j, how);
        let what;
        {
            let mut all = p.muts(how);
            same!(all.len(), m.len(), "number of references");
            for (k, x) in all.iter().enumerate() {
                describe::<T, F>((x.value_type_id(), x.size(), x.value_alignment()), m[k].0, "mutable reference");
                ensure!(x.is::<T>() != m[k].0, "is::<T>");
            }
            match op {
                0 | 1 => {
                    what = "swap";
                    let (a, b) = two(&mut all, i, j);
                    match r.below(4) {
                        0 => a.swap(b),
                        1 => a.upcast::<()>().swap(b),
                        2 => a.swap(&mut b.upcast::<()>()),
                        _ => {
                            let mut c = b.upcast::<()>();
                            c.upcast::<()>().swap(&mut a.upcast::<()>())
                        }
                    }
                    if matching {
                        m.swap(i, j);
                    }
                }
                2 | 3 => {
                    what = "copy from a variable";
                    let k = r.key();
                    let foreign = if r.chance(3, 4) { m[i].0 } else { !m[i].0 };
                    let (xt, xf) = (T::mk(k), F::mk(k));
                    let src: CopyValueRef = if foreign { CopyValueRef::new(&xf) } else { CopyValueRef::new(&xt) };
                    describe::<T, F>((src.value_type_id(), src.size(), src.value_alignment()), foreign, "reference");
                    let a = all.swap_remove(i);
                    // By value: the reference is used up (or handed back).
                    match a.copy(src) {
                        Some(back) => {
                            ensure!(foreign == m[i].0, "copy accepted another type");
                            m[i].1 = if foreign { xf.key() } else { xt.key() };
                            let got = if foreign { some!(back.downcast::<F>(), "downcast").key() } else { some!(back.downcast::<T>(), "downcast").key() };
                            same!(got, m[i].1, "value of the reference handed back by copy");
                        }
                        None => ensure!(foreign != m[i].0, "copy refused the same type"),
                    }
                }
                4 | 5 => {
                    what = "copy from a place";
                    let (b, a);
                    if i > j {
                        a = all.swap_remove(i);
                        b = all.swap_remove(j);
                    } else {
                        b = all.swap_remove(j);
                        a = all.swap_remove(i);
                    }
                    let b: CopyValueRef = b.into();
                    let b = match r.below(3) {
                        0 => b,
                        1 => b.upcast::<()>(),
                        _ => b.clone(),
                    };
                    let res = a.copy(b).is_some();
                    same!(res, matching, "copy between places: accepted");
                    if matching {
                        m[i].1 = m[j].1;
                    }
                }
                6 => {
                    what = "typed write";
                    let k = r.key();
                    let mut a = all.swap_remove(i);
                    if m[i].0 {
                        ensure!(a.upcast::<()>().downcast::<T>().is_none(), "downcast to another type");
                        let x = F::mk(k);
                        m[i].1 = x.key();
                        *some!(a.downcast::<F>(), "downcast") = x;
                    } else {
                        ensure!(a.upcast::<()>().downcast::<F>().is_none(), "downcast to another type");
                        let x = T::mk(k);
                        m[i].1 = x.key();
                        *some!(a.downcast::<T>(), "downcast") = x;
                    }
                }
                7 => {
                    what = "converted references";
                    // As references of the other kind.
                    let mut rest: Vec<Option<CopyValueMut>> = all.into_iter().map(Some).collect();
                    let a: ValueMut<(DropFn, ())> = rest[i].take().unwrap().into();
                    let mut b: ValueMut<(DropFn, ())> = rest[j].take().unwrap().into();
                    let mut a = a;
                    describe::<T, F>((a.value_type_id(), a.size(), a.value_alignment()), m[i].0, "converted reference");
                    a.swap(&mut b);
                    if matching {
                        m.swap(i, j);
                    }
                    let k = r.key();
                    if m[i].0 {
                        a.assign(BoxValue::new(F::mk(k)));
                        m[i].1 = F::norm(k);
                        a.assign(BoxValue::new(T::mk(!k)));
                    } else {
                        a.assign(BoxValue::new(T::mk(k)));
                        m[i].1 = T::norm(k);
                        a.assign(BoxValue::new(F::mk(!k)));
                    }
                    let b: ValueRef<(DropFn, ())> = b.into();
                    if m[j].0 {
                        same!(some!(b.downcast::<F>(), "downcast").key(), m[j].1, "converted reference");
                    } else {
                        same!(some!(b.downcast::<T>(), "downcast").key(), m[j].1, "converted reference");
                    }
                }
                _ => {
                    what = "reading";
                    let a = all.swap_remove(i);
                    let a: CopyValueRef = a.into();
                    describe::<T, F>((a.value_type_id(), a.size(), a.value_alignment()), m[i].0, "reference");
                    let b: ValueRef<(DropFn, ())> = a.clone().into();
                    describe::<T, F>((b.value_type_id(), b.size(), b.value_alignment()), m[i].0, "converted reference");
                    if m[i].0 {
                        ensure!(a.clone().downcast::<T>().is_none(), "downcast to another type");
                        let p = some!(a.clone().downcast::<F>(), "downcast") as *const F;
                        same!(some!(a.upcast_ref::<()>().downcast::<F>(), "upcast_ref") as *const F, p, "upcast_ref");
                        same!(some!(b.downcast::<F>(), "downcast") as *const F, p, "place of a converted reference");
                        same!(some!(a.upcast::<()>().downcast::<F>(), "upcast").key(), m[i].1, "upcast");
                    } else {
                        ensure!(a.clone().downcast::<F>().is_none(), "downcast to another type");
                        let p = some!(a.clone().downcast::<T>(), "downcast") as *const T;
                        same!(some!(a.upcast_ref::<()>().downcast::<T>(), "upcast_ref") as *const T, p, "upcast_ref");
                        same!(some!(b.downcast::<T>(), "downcast") as *const T, p, "place of a converted reference");
                        same!(some!(a.upcast::<()>().downcast::<T>(), "upcast").key(), m[i].1, "upcast");
                    }
                }
            }
        }
        p.verify(&m, what);
    }
}
