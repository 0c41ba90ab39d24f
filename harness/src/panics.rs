//! Panics injected at every call of the library into element code, and refusals by panicking: what is
//! left afterwards must be sound and usable.
use crate::copyw::{keys, keys_of, normed, typed, CEl};
use crate::el::*;
use crate::ledger::{self, Ev};
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, some, t};
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::mem::size_of;

type V = AllVTable;
type Ids = Vec<(u32, u64)>;

fn ids<T: El>(s: &[T]) -> Ids {
    ledger::uncounted(|| s.iter().map(|x| (x.serial(), x.key())).collect())
}

/// What is around when the panic hits.
struct World {
    a: Option<VecDyn<V>>,
    b: Option<VecDyn<V>>,
    /// Of another element type.
    f: Option<VecDyn<V>>,
    x: Option<BoxValue<V>>,
    s: Option<SmallValue<V>>,
}

/// What may have happened to the vector `a`.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    /// Nothing.
    Keep,
    /// Further elements with key `.1`, at most as many, one less than clones if one of them panicked.
    Grow(usize, u64),
    /// Only some of its first elements are left.
    Shrink,
    /// Some elements replaced, by new ones with this key.
    Replace(u64),
    /// Any live elements.
    Any,
    Gone,
}
use Fate::*;

fn world<T: El, F: El>(r: &mut Rng) -> World
where
    V: VTable<T> + VTable<F>,
{
    let (n, m) = (r.range(1, 6), r.range(0, 5));
    let mut a: Vec<T> = Vec::with_capacity(n + *r.of(&[0, 0, 1, 8]));
    a.extend(keys(r, n).into_iter().map(T::mk));
    let (kb, kf) = (keys(r, m), keys(r, 2));
    World {
        a: Some(a.into()),
        b: Some(typed::<T>(&kb).into()),
        f: Some(typed::<F>(&kf).into()),
        x: Some(BoxValue::new(T::mk(r.key()))),
        s: SmallValue::try_new(T::mk(r.key())),
    }
}

pub const OPS: usize = 52;

/// Runs one operation. Everything it calls into may panic.
fn op<T: El + MaybeHash, F: El + MaybeHash>(how: usize, w: &mut World, r: &mut Rng) -> (Fate, Fate)
where
    V: VTable<T> + VTable<F>,
{
    let k = r.key();
    // Elements made by the harness stay outside of the injection.
    let e = T::mk(k);
    let mut o = T::mk(k ^ 1);
    let mut arr = [T::mk(k), T::mk(k), T::mk(k)];
    let (wrong, wrong2) = (F::mk(k), F::mk(k));
    let n = w.a.as_ref().map_or(0, |a| a.len());
    let i = r.below(n.max(1));
    let j = r.below(n + 1);
    let up = r.range(1, 6);
    let fate = |f: Fate| FATES.with(|x| x.set((f, Keep)));
    let fates = |f: Fate, g: Fate| FATES.with(|x| x.set((f, g)));
    fate(Keep);
    macro_rules! a { () => { w.a.as_mut().unwrap() } }
    macro_rules! b { () => { w.b.as_mut().unwrap() } }
    macro_rules! f { () => { w.f.as_mut().unwrap() } }
    macro_rules! x { () => { w.x.as_mut().unwrap() } }
    match how {
        0 => drop(a!().clone()),
        1 => {
            fates(Keep, Any);
            b!().clone_from(a!());
        }
        2 => {
            fate(Grow(1, k));
            a!().push_cloned(ValueRef::new(&e));
        }
        3 | 4 => {
            fate(Grow(up, k));
            a!().resize(n + up, e);
        }
        5 => {
            fate(Shrink);
            a!().resize(j, e);
        }
        6 => {
            fate(Shrink);
            a!().resize(0, e);
        }
        7 | 8 => {
            fate(Shrink);
            a!().clear();
        }
        9 | 10 => {
            fate(Gone);
            drop(w.a.take());
        }
        11 => {
            fate(Replace(k));
            a!().fill(e);
        }
        12 => drop(a!().clone_into_vec::<T>()),
        13 => {
            let mut to = vec![o];
            a!().append_cloned_to_vec(&mut to);
            drop(to);
        }
        14 => drop(VecDyn::<V>::from_slice(&arr)),
        15 => drop(VecDyn::<V>::with_size(up, e)),
        16 => drop(VecDyn::<V>::from(&arr[..])),
        17 => {
            let _ = a!() == b!();
            let c = a!().as_slice() == b!().as_slice();
            let d = a!().as_mut_slice() == b!().as_mut_slice();
            std::hint::black_box((c, d));
        }
        18 => {
            std::hint::black_box(rec_of(a!()));
        }
        19 => {
            std::hint::black_box(format!("{:?}", a!()));
            std::hint::black_box(format!("{:?} {:?}", b!().as_slice(), f!().as_mut_slice()));
        }
        20 => {
            fate(Gone);
            ensure!(w.a.take().unwrap().into_vec::<F>().is_none(), "into_vec accepted a look-alike");
        }
        21 => {
            fate(Gone);
            ensure!(w.a.take().unwrap().check::<F>().is_none(), "check accepted a look-alike");
        }
        22 => ensure!(a!().push_as(wrong).is_none(), "push_as accepted a look-alike"),
        23 => {
            let v = BoxValue::<V>::new(wrong);
            ensure!(a!().push(v).is_none(), "push accepted a look-alike");
        }
        24 => ensure!(a!().push_cloned(ValueRef::new(&wrong)).is_none(), "push_cloned accepted a look-alike"),
        25 => ensure!(a!().resize(up, wrong).is_none() && a!().fill(wrong2).is_none(), "accepted a look-alike"),
        26 => ensure!(a!().append(f!()).is_none(), "append accepted a look-alike"),
        27 if n > 0 => {
            fate(Replace(k));
            let _ = a!().get_mut(i).clone_from_other(ValueRef::new(&e)).is_ok();
        }
        28 if n > 0 => ensure!(a!().get_mut(i).clone_from_other(ValueRef::new(&wrong)).is_err(), "clone_from_other accepted a look-alike"),
        29 if n > 0 => {
            fate(Replace(k));
            let v = BoxValue::<V>::new(e);
            a!().get_mut(i).assign(v);
        }
        30 if n > 0 => {
            if let Some(v) = SmallValue::<V>::try_new(e) {
                fate(Replace(k));
                a!().get_mut(i).assign(v);
            }
        }
        31 if n > 0 => {
            let v = BoxValue::<V>::new(wrong);
            // Of another type: nothing is assigned.
            a!().get_mut(i).assign(v);
        }
        32 => {
            fate(Replace(k));
            let m = n.min(3);
            a!().as_mut_slice().subslice_mut(..m).clone_from_slice(&arr[..m]);
        }
        33 => drop(a!().as_slice().clone_into_vec::<T>()),
        34 => drop(a!().as_mut_slice().clone_into_vec::<T>()),
        35 => {
            let mut to = vec![o];
            a!().as_slice().append_clone_to_vec(&mut to);
            a!().as_mut_slice().append_clone_to_vec(&mut to);
        }
        36 => drop(x!().clone()),
        37 => drop(w.x.take()),
        38 => {
            let y = BoxValue::<V>::new(e);
            let _ = y == *x!();
            std::hint::black_box((format!("{:?}", y), rec_of(&y)));
        }
        39 => {
            ensure!(w.x.take().unwrap().downcast::<F>().is_none(), "downcast to a look-alike");
        }
        40 if n > 0 => {
            drop(a!().get(i).clone_value());
            drop(a!().get_mut(i).clone_value());
        }
        41 => {
            // Panics unless it fits a word.
            drop(x!().as_ref().clone_small_value());
        }
        42 => {
            drop(x!().as_mut().clone_small_value());
        }
        43 => {
            if let Some(s) = &w.s {
                drop(s.clone());
                let _ = *s == s.clone();
                std::hint::black_box((format!("{:?}", s), rec_of(s)));
            }
        }
        44 => drop(w.s.take()),
        45 => {
            if let Some(s) = w.s.take() {
                ensure!(s.downcast::<F>().is_none(), "downcast to a look-alike");
            }
        }
        46 => {
            // Back to another table than it came from.
            fate(Gone);
            let d = into_dyn![VecDyn<dyn HasDrop>](w.a.take().unwrap());
            std::hint::black_box(d.len());
            drop(d);
        }
        47 => {
            let d = w.x.take().unwrap().upcast::<DropVTable>();
            std::hint::black_box(d.size());
            drop(d);
        }
        48 => {
            fate(Gone);
            let d = w.a.take().unwrap().upcast::<DropVTable>();
            drop(d);
        }
        49 => {
            let m = ValueMut::<V>::new(&mut o);
            drop(m.clone_value());
            let _ = m == ValueMut::<V>::new(&mut arr[0]);
            std::hint::black_box((format!("{:?}", m), rec_of(&m)));
            let y = ValueRef::<V>::new(&e);
            std::hint::black_box((format!("{:?}", y), rec_of(&y), y == ValueRef::<V>::new(&arr[1])));
        }
        50 if n > 0 => {
            // Swapped with a value that then goes away.
            fate(Replace(k));
            let mut v = BoxValue::<V>::new(e);
            a!().get_mut(i).swap(&mut v.as_mut());
            drop(v);
        }
        51 => {
            // Shrinks, then grows again in one go.
            fate(Any);
            a!().resize(j, T::mk(k));
            a!().push_cloned(ValueRef::new(&e));
            a!().push_as(e);
        }
        _ => {}
    }
    FATES.with(|x| x.get())
}
thread_local! { static FATES: std::cell::Cell<(Fate, Fate)> = const { std::cell::Cell::new((Keep, Keep)) }; }

/// Elements of one vector after the fact: live ones only, and none that is held elsewhere.
fn held<T: El>(v: &mut VecDyn<V>, seen: &mut Vec<u32>, what: &str) -> Ids {
    same!((v.element_type_id(), v.element_size()), (TypeId::of::<T>(), size_of::<T>()), "{}: element (type, size) after a panic", what);
    let now = ids(some!(v.as_slice_as::<T>(), "as_slice_as"));
    same!(v.len(), now.len(), "{}: length after a panic", what);
    for (s, k) in &now {
        if T::TRACKED {
            ensure!(ledger::is_live(*s), "{}: holds a destroyed element (key {:#x}) after a panic", what, k);
            ensure!(!seen.contains(s), "{}: holds an element (key {:#x}) that is also somewhere else after a panic", what, k);
            seen.push(*s);
        }
    }
    same!(v.iter().count(), now.len(), "{}: elements iterated after a panic", what);
    for (i, x) in v.iter().enumerate() {
        same!(some!(x.downcast::<T>(), "downcast").key(), now[i].1, "{}: element after a panic", what);
    }
    now
}

/// What was allowed to happen.
fn judge(before: &Ids, now: &Ids, fate: Fate, fired: bool, what: &str) {
    let n = before.len();
    match fate {
        Keep => same!(now, before, "{}: elements (identity, key) of a vector that was not to change", what),
        Grow(m, k) => {
            ensure!(now.len() >= n, "{}: {} of {} elements left after a panic while growing", what, now.len(), n);
            same!(&now[..n], &before[..], "{}: the elements that were there before", what);
            ensure!(now.len() - n <= m, "{}: {} elements added, asked for {}", what, now.len() - n, m);
            if fired {
                // Without the one that panicked.
                let cloned = ledger::count(Ev::Clone).saturating_sub(CLONES.with(|c| c.get()));
                let failed = LAST.with(|c| c.get()) == Some(Ev::Clone);
                if failed {
                    ensure!((now.len() - n) as u64 + 1 <= cloned, "{}: {} elements added by {} clones of which one panicked", what, now.len() - n, cloned);
                }
            }
            for (_, x) in &now[n..] {
                same!(*x, k, "{}: key of an added element", what);
            }
        }
        Shrink => {
            ensure!(now.len() <= n, "{}: grew while shrinking", what);
            same!(&now[..], &before[..now.len()], "{}: the elements left after shrinking", what);
        }
        Replace(k) => {
            same!(now.len(), n, "{}: length after replacing elements", what);
            for (i, x) in now.iter().enumerate() {
                ensure!(*x == before[i] || x.1 == k, "{}: element {} is neither the old nor the new one", what, i);
            }
        }
        Any | Gone => {}
    }
}
thread_local! {
    static CLONES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static LAST: std::cell::Cell<Option<Ev>> = const { std::cell::Cell::new(None) };
}

fn usable<T: El + MaybeHash>(r: &mut Rng, v: &mut VecDyn<V>, seen: &mut Vec<u32>, what: &str)
where
    V: VTable<T>,
{
    let mut m: Vec<u64> = keys_of(some!(v.as_slice_as::<T>(), "as_slice_as"));
    for _ in 0..r.range(1, 4) {
        let k = r.key();
        match r.below(9) {
            0 => {
                some!(v.push_as(T::mk(k)), "push_as");
                m.push(T::norm(k));
            }
            1 => {
                some!(v.push(BoxValue::<V>::new(T::mk(k))), "push");
                m.push(T::norm(k));
            }
            2 => {
                let y = T::mk(k);
                some!(v.push_cloned(ValueRef::new(&y)), "push_cloned");
                m.push(T::norm(k));
            }
            3 => {
                let c = v.clone();
                ensure!(c == *v, "{}: clone of a vector after a panic differs", what);
                same!(rec_of(&c), rec_of(v), "{}: hash of a clone after a panic", what);
                same!(format!("{:?}", c), format!("{:?}", v), "{}: format of a clone after a panic", what);
            }
            4 => {
                let j = r.below(9);
                some!(v.resize(j, T::mk(k)), "resize");
                m.resize(j, T::norm(k));
            }
            5 => {
                let j = r.below(m.len() + 1);
                v.rotate_left(j);
                m.rotate_left(j);
            }
            6 => {
                v.clear();
                m.clear();
            }
            7 => {
                let w = std::mem::replace(v, VecDyn::with_type::<T>());
                *v = some!(w.into_vec::<T>(), "into_vec").into();
            }
            _ => {
                let mut w = VecDyn::with_type_from(&*v);
                some!(v.append(&mut w), "append");
                some!(w.append(v), "append");
                std::mem::swap(v, &mut w);
                w.push_as(T::mk(k));
            }
        }
        same!(keys_of(some!(v.as_slice_as::<T>(), "as_slice_as")), m.clone(), "{}: elements of a vector used after a panic", what);
    }
    let _ = seen;
}

fn audit<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng, w: &mut World, before: &[Ids; 3], fates: (Fate, Fate), fired: bool, what: &str)
where
    V: VTable<T> + VTable<F>,
{
    let mut seen = vec![];
    if let Some(a) = &mut w.a {
        let now = held::<T>(a, &mut seen, what);
        judge(&before[0], &now, fates.0, fired, what);
    }
    if let Some(b) = &mut w.b {
        let now = held::<T>(b, &mut seen, what);
        judge(&before[1], &now, fates.1, fired, what);
    }
    if let Some(f) = &mut w.f {
        let now = held::<F>(f, &mut seen, what);
        judge(&before[2], &now, Keep, fired, what);
    }
    macro_rules! val { ($v:expr) => {
        if let Some(x) = &$v {
            same!((x.value_type_id(), x.size()), (TypeId::of::<T>(), size_of::<T>()), "{}: (type, size) of a value after a panic", what);
            let y = some!(x.as_ref().downcast::<T>(), "downcast");
            y.key();
            ensure!(!T::TRACKED || !seen.contains(&y.serial()), "{}: a value is also somewhere else after a panic", what);
            seen.push(y.serial());
        }
    } }
    val!(w.x);
    val!(w.s);
    // And go on.
    if let Some(a) = &mut w.a {
        usable::<T>(r, a, &mut seen, what);
    }
    if let Some(b) = &mut w.b {
        usable::<T>(r, b, &mut seen, what);
    }
    if let Some(x) = &mut w.x {
        let c = x.clone();
        ensure!(c == *x, "{}: clone of a value after a panic differs", what);
        x.as_mut().assign(c);
    }
}

fn all<T: El, F: El>(w: &World) -> [Ids; 3] {
    [
        w.a.as_ref().map_or(vec![], |v| ids(v.as_slice_as::<T>().unwrap())),
        w.b.as_ref().map_or(vec![], |v| ids(v.as_slice_as::<T>().unwrap())),
        w.f.as_ref().map_or(vec![], |v| ids(v.as_slice_as::<F>().unwrap())),
    ]
}

/// One operation under injection of a panic in the `k`-th callback; true if there was one.
fn strike<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng, w: &mut World, how: usize, k: u64, mask: u32) -> bool
where
    V: VTable<T> + VTable<F>,
{
    let before = all::<T, F>(w);
    let kind = ledger::counts();
    CLONES.with(|c| c.set(kind[Ev::Clone as usize]));
    ledger::arm(k, mask);
    let done = may_panic(|| op::<T, F>(how, w, r));
    let after = ledger::counts();
    ledger::disarm();
    let fired = ledger::fired();
    LAST.with(|c| c.set(ledger::fired_in()));
    if fired {
        ledger::allow_leak();
        count(match ledger::fired_in() {
            Some(Ev::Clone) => "panics injected into clone",
            Some(Ev::CloneFrom) => "panics injected into clone_from",
            Some(Ev::Drop) => "panics injected into drop",
            Some(Ev::Eq) => "panics injected into eq",
            Some(Ev::Hash) => "panics injected into hash",
            Some(Ev::Fmt) => "panics injected into fmt",
            _ => "panics injected elsewhere",
        });
    }
    let _ = after;
    // Operations 41 and 42 refuse larger values by panicking.
    if done.is_none() && !fired && !(how == 41 || how == 42) {
        fail!("operation {} panicked on its own: {}", how, last_panic());
    }
    let fates = FATES.with(|x| x.get());
    let mut b = Buf::<64>::new();
    {
        use std::fmt::Write;
        let _ = write!(b, "operation {}, panic at callback {}", how, k);
    }
    audit::<T, F>(r, w, &before, fates, fired, b.as_str());
    fired
}

/// Every callback of one operation in turn.
pub fn each<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng, case: u64, nth: u64)
where
    V: VTable<T> + VTable<F>,
{
    // The interpreter is slow: every third operation, others for other types, and some callbacks.
    let how = if cfg!(miri) { (case * 3 + nth) as usize } else { case as usize } % OPS;
    let seed = r.next();
    t!("operation {} {}", how, seed);
    // Of all kinds, and of each kind.
    let mut k = if cfg!(miri) { r.range(1, 4) as u64 } else { 1 };
    let mut skip = r.clone();
    loop {
        let mut r = Rng::new(seed);
        let mut w = world::<T, F>(&mut r);
        let fired = strike::<T, F>(&mut r, &mut w, how, k, !(1 << Ev::Make as u32));
        drop(w);
        if !fired || k > 60 {
            break;
        }
        k += if cfg!(miri) { skip.range(2, 6) as u64 } else { 1 };
    }
    t!("{} callbacks", k - 1);
}

/// Operations one after the other on the same things, most of them struck.
pub fn history<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng)
where
    V: VTable<T> + VTable<F>,
{
    let mut w = world::<T, F>(r);
    for _ in 0..r.range(3, if cfg!(miri) { 5 } else { 14 }) {
        let how = r.below(OPS);
        let k = r.range(1, 7) as u64;
        if w.a.is_none() {
            w.a = Some(typed::<T>(&keys(r, 3)).into());
        }
        if w.x.is_none() {
            w.x = Some(BoxValue::new(T::mk(r.key())));
        }
        if w.s.is_none() {
            w.s = SmallValue::try_new(T::mk(r.key()));
        }
        if w.a.as_ref().unwrap().len() > 20 {
            w.a.as_mut().unwrap().clear();
        }
        let mask = *r.of(&[!1, !1, 1 << Ev::Drop as u32, 1 << Ev::Clone as u32 | 1 << Ev::CloneFrom as u32]);
        let fired = strike::<T, F>(r, &mut w, how, k, mask);
        t!("{}@{}{}", how, k, if fired { "!" } else { "" });
    }
    drop(w);
}

/// Operations that are refused by panicking.
pub fn refused<T: El + MaybeHash, F: El + MaybeHash>(r: &mut Rng, case: u64)
where
    V: VTable<T> + VTable<F>,
{
    let mut w = world::<T, F>(r);
    for step in 0..3 {
        let before = all::<T, F>(&w);
        let n = before[0].len();
        let k = r.key();
        let e = T::mk(k);
        let past = *r.of(&[n, n + 1, usize::MAX, usize::MAX / 2 + 1, (usize::MAX / size_of::<T>()).saturating_add(1)]);
        let how = if step == 0 { case as usize } else { r.next() as usize } % 26;
        t!("refused {} {}", how, past);
        let mut fates = (Keep, Keep);
        let a = w.a.as_mut().unwrap();
        let p = match how {
            0 => may_panic(|| a.get(past).size()).is_none(),
            1 => may_panic(|| a.get_mut(past).size()).is_none(),
            2 => may_panic(|| a.rotate_left(past.max(n + 1))).is_none(),
            3 => may_panic(|| a.rotate_right(past.max(n + 1))).is_none(),
            4 => may_panic(|| a.as_mut_slice().swap(0, past)).is_none(),
            5 => may_panic(|| a.as_mut_slice().swap(past, past)).is_none(),
            6 => may_panic(|| a.as_slice().split_at(past.max(n + 1)).0.len()).is_none(),
            7 => may_panic(|| a.as_mut_slice().split_at(past.max(n + 1)).0.len()).is_none(),
            8 => may_panic(|| a.as_slice().subslice(past.max(n + 1)..).len()).is_none(),
            9 => may_panic(|| a.as_mut_slice().subslice_mut(..past.max(n + 1)).len()).is_none(),
            10 => may_panic(|| a.as_slice().subslice(1..0).len()).is_none(),
            11 => may_panic(|| a.as_slice().chunks_exact(0).count()).is_none(),
            12 => may_panic(|| a.as_mut_slice().chunks_exact_mut(0).count()).is_none(),
            13 => {
                // More than there can be memory for.
                may_panic(|| a.resize(usize::MAX, e).is_some()).is_none()
            }
            14 => may_panic(|| a.resize(usize::MAX / size_of::<T>(), e).is_some()).is_none(),
            15 => may_panic(|| VecDyn::<V>::with_capacity::<T>(usize::MAX).len()).is_none(),
            16 => may_panic(|| a.as_mut_slice().rotate_left(past.max(n + 1))).is_none(),
            17 => may_panic(|| a.as_mut_slice().rotate_right(past.max(n + 1))).is_none(),
            18 => may_panic(|| a.as_mut_slice().clone_from_slice(&typed::<T>(&vec![k; n + 1])).is_some()).is_none(),
            19 => may_panic(|| a.as_mut_slice().get_mut(past).size()).is_none(),
            20 => may_panic(|| a.as_slice().get(past).size()).is_none(),
            21 => may_panic(|| a.as_slice().into_subslice(..=past).len()).is_none(),
            22 => {
                // A closure of the user panics in the middle of iterating.
                let stop = r.below(n + 1);
                fates = (Replace(k), Keep);
                let mut e = Some(e);
                may_panic(|| {
                    for (i, mut x) in a.iter_mut().enumerate() {
                        if i == stop {
                            if let Some(e) = e.take() {
                                x.assign(BoxValue::<V>::new(e));
                            }
                            panic!("stopped by the user");
                        }
                    }
                })
                .is_none() || stop >= n
            }
            23 => {
                let mut i = 0;
                may_panic(|| {
                    let v: Vec<BoxValue<V>> = a
                        .iter()
                        .map(|x| {
                            i += 1;
                            if i > n / 2 {
                                panic!("stopped by the user")
                            }
                            x.clone_value()
                        })
                        .collect();
                    v.len()
                })
                .is_none() || n == 0
            }
            24 => {
                // A word is too little for it.
                let fits = size_of::<T>() == size_of::<usize>();
                fits || may_panic(|| SmallValue::<V>::new(e).size()).is_none()
            }
            _ => {
                fates = (Any, Any);
                let b = w.b.as_mut().unwrap();
                may_panic(|| {
                    std::mem::swap(a, b);
                    a.rotate_left(usize::MAX);
                })
                .is_none()
            }
        };
        ensure!(p, "operation {} on {} elements accepted {} instead of refusing by a panic", how, n, past);
        count("refusals");
        let mut b = Buf::<64>::new();
        {
            use std::fmt::Write;
            let _ = write!(b, "refused operation {}", how);
        }
        audit::<T, F>(r, &mut w, &before, fates, false, b.as_str());
    }
}

/// Plain data: refusals and panicking iterators.
pub fn copies<T: CEl, F: CEl>(r: &mut Rng, case: u64) {
    let n = r.range(1, 7);
    let mut k = keys(r, n);
    let mut v: VecCopy = typed::<T>(&k).into();
    for step in 0..3 {
        let n = k.len();
        let x = r.key();
        let e = T::mk(x);
        let past = *r.of(&[n, n + 1, usize::MAX, usize::MAX / 2 + 1, (usize::MAX / size_of::<T>()).saturating_add(1)]);
        let how = if step == 0 { case as usize } else { r.next() as usize } % 24;
        t!("refused {} {}", how, past);
        let m = r.below(5);
        let add = typed::<T>(&vec![x; 6]);
        let f = F::mk(x);
        // Elements that may have been added, with key x.
        let mut more = 0;
        let p = match how {
            0 => {
                // The iterator of the user panics.
                more = m;
                may_panic(|| {
                    let mut i = 0;
                    v.extend(add.iter().map(|e| {
                        i += 1;
                        if i > m {
                            panic!("stopped by the user")
                        }
                        CopyValueRef::<()>::new(e)
                    }))
                })
                .is_none()
            }
            1 => {
                // An element of another type among them.
                more = m;
                may_panic(|| v.extend(add[..m].iter().map(|e| CopyValueRef::<()>::new(e)).chain(Some(CopyValueRef::new(&f))))).is_none()
            }
            2 => may_panic(|| {
                let c: VecCopy = add[..m + 1].iter().map(|e| CopyValueRef::<()>::new(e)).chain(Some(CopyValueRef::new(&f))).collect();
                c.len()
            })
            .is_none(),
            3 => may_panic(|| {
                let c: VecCopy = add.iter().map(|e| if m < 10 { panic!("stopped by the user") } else { CopyValueRef::<()>::new(e) }).collect();
                c.len()
            })
            .is_none(),
            4 => may_panic(|| v.resize(usize::MAX, e).is_some()).is_none(),
            5 => may_panic(|| v.reserve(usize::MAX)).is_none(),
            6 => may_panic(|| v.reserve(usize::MAX / size_of::<T>())).is_none(),
            7 => may_panic(|| VecCopy::<()>::with_capacity::<T>(usize::MAX).len()).is_none(),
            8 => may_panic(|| v.rotate_left(past.max(n + 1))).is_none(),
            9 => may_panic(|| v.rotate_right(past.max(n + 1))).is_none(),
            10 => may_panic(|| v.as_mut_slice().swap(0, past)).is_none(),
            11 => may_panic(|| v.as_mut_slice().swap(past, past)).is_none(),
            12 => may_panic(|| v.as_slice().split_at(past.max(n + 1)).0.len()).is_none(),
            13 => may_panic(|| v.as_mut_slice().split_at(past.max(n + 1)).0.len()).is_none(),
            14 => may_panic(|| v.as_slice().chunks_exact(0).count()).is_none(),
            15 => may_panic(|| v.as_mut_slice().chunks_exact_mut(0).count()).is_none(),
            16 => may_panic(|| v.copy_from_slice(&typed::<T>(&vec![x; n + 1])).is_some()).is_none(),
            17 => may_panic(|| v.as_mut_slice().copy_from_slice(&typed::<T>(&vec![x; n + 2])).is_some()).is_none(),
            18 => size_of::<F>() == size_of::<T>() || may_panic(|| v.push(CopyValueRef::<()>::new(&f)).is_some()).is_none(),
            19 => may_panic(|| v.get_ref(past).size()).is_none(),
            20 => may_panic(|| v.get_mut(past).size()).is_none(),
            21 => may_panic(|| v.as_slice().subslice(past.max(n + 1)..).len()).is_none(),
            22 => may_panic(|| v.as_mut_slice().subslice_mut(..past.max(n + 1)).len()).is_none(),
            _ => {
                let empty: [CopyValueRef<()>; 0] = [];
                // There is no type to take from it.
                may_panic(|| empty.iter().map(|_| CopyValueRef::<()>::new(&e)).collect::<VecCopy>().len()).is_none()
            }
        };
        ensure!(p, "operation {} on {} elements accepted {} instead of refusing by a panic", how, n, past);
        count("refusals");
        same!(v.element_type_id(), TypeId::of::<T>(), "refused operation {}: element type", how);
        let now = keys_of(some!(v.as_slice_as::<T>(), "as_slice_as"));
        ensure!(now.len() >= n && now.len() <= n + more, "refused operation {}: {} elements, were {}", how, now.len(), n);
        k.resize(now.len(), x);
        same!(now, normed::<T>(&k), "refused operation {}: elements", how);
        ensure!(v.capacity() >= v.len(), "refused operation {}: capacity {} for {} elements", how, v.capacity(), v.len());
        // Still usable.
        match r.below(6) {
            0 => {
                some!(v.push_as(e), "push_as");
                k.push(x);
            }
            1 => {
                some!(v.push(CopyValueRef::<()>::new(&e)), "push");
                k.push(x);
            }
            2 => {
                v.extend(v.clone().iter());
                k.extend_from_within(..);
            }
            3 => {
                let m = r.below(9);
                some!(v.resize(m, e), "resize");
                k.resize(m, x);
            }
            4 => {
                let mut w = v.clone();
                some!(v.append(&mut w), "append");
                k.extend_from_within(..);
            }
            _ => v = some!(v.into_vec::<T>(), "into_vec").into(),
        }
        if k.len() > 40 {
            v.clear();
            k.clear();
        }
        if k.is_empty() {
            some!(v.push_as(e), "push_as");
            k.push(x);
        }
        same!(keys_of(some!(v.as_slice_as::<T>(), "as_slice_as")), normed::<T>(&k), "elements used after a refusal");
    }
}
