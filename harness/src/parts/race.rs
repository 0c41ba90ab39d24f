//! Workloads of several threads on erased things whose table allows it. Run under race detectors.
use mon::report::*;
use mon::{ensure, t};
use dync::traits::*;
use dync::*;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
use std::sync::{mpsc, Arc, Barrier, Mutex};

#[dync_trait]
pub trait Both: Send + Sync {}
impl<T: Send + Sync> Both for T {}
#[dync_trait]
pub trait Full: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync {}
impl<T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync> Full for T {}
#[dync_trait]
pub trait Moved: Clone + PartialEq + std::fmt::Debug + Send {}
impl<T: Clone + PartialEq + std::fmt::Debug + Send> Moved for T {}

/// Order in which the threads did things. Relaxed, so that it orders nothing itself.
pub struct Order {
    next: AtomicUsize,
    who: Vec<AtomicU32>,
}
impl Order {
    fn new() -> Self {
        Order { next: AtomicUsize::new(0), who: (0..256).map(|_| AtomicU32::new(0)).collect() }
    }
    fn step(&self, thread: usize) {
        let i = self.next.fetch_add(1, Relaxed);
        if i < self.who.len() {
            self.who[i].store(thread as u32 + 1, Relaxed);
        }
    }
    fn done(&self, what: &str) {
        let n = self.next.load(Relaxed).min(self.who.len());
        let v: Vec<u32> = self.who[..n].iter().map(|x| x.load(Relaxed)).collect();
        let switches = v.windows(2).filter(|w| w[0] != w[1]).count();
        add("operations by concurrent threads", n as u64);
        add("switches between threads", switches as u64);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        t!("{}: {} operations in order {:x}", what, n, h.finish());
        if switches > 2 {
            count("runs with threads interleaved");
        }
    }
}

/// Elements.
pub trait Item: Clone + PartialEq + Eq + Hash + std::fmt::Debug + Send + Sync + 'static {
    fn mk(k: u64) -> Self;
}
impl Item for u64 {
    fn mk(k: u64) -> Self {
        k
    }
}
impl Item for [u16; 3] {
    fn mk(k: u64) -> Self {
        [k as u16, (k >> 16) as u16, 7]
    }
}
impl Item for u8 {
    fn mk(k: u64) -> Self {
        k as u8
    }
}
impl Item for String {
    fn mk(k: u64) -> Self {
        format!("{:x}", k % 1000)
    }
}
impl Item for Arc<u64> {
    fn mk(k: u64) -> Self {
        Arc::new(k)
    }
}
impl Item for Vec<Box<u32>> {
    fn mk(k: u64) -> Self {
        (0..k % 3).map(|i| Box::new(i as u32 + k as u32)).collect()
    }
}

type Res = Result<(), String>;
macro_rules! need { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

/// Runs one closure per thread, all starting together, and reports what they found.
fn together<'a>(ord: &Order, what: &str, jobs: Vec<Box<dyn FnOnce() -> Res + Send + 'a>>) {
    let gate = Barrier::new(jobs.len());
    let res: Vec<Res> = std::thread::scope(|s| {
        let g = &gate;
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|j| {
                s.spawn(move || {
                    g.wait();
                    j()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    add("threads run", res.len() as u64);
    for r in res {
        if let Err(e) = r {
            ensure!(false, "{}: {}", what, e);
        }
        observe();
    }
    ord.done(what);
}

fn rounds() -> usize {
    if cfg!(miri) { 3 } else { 12 }
}
fn threads(r: &mut Rng) -> usize {
    if cfg!(miri) { r.range(2, 4) } else { r.range(2, 6) }
}

/// A shared vector, only read.
pub fn shared<T: Item>(r: &mut Rng) {
    let n = r.range(1, 6);
    let m: Vec<T> = (0..n).map(|_| T::mk(r.key())).collect();
    let v: VecDyn<FullVTable> = m.clone().into();
    let d: VecDyn<dyn HasFull> = into_dyn![VecDyn<dyn HasFull>](VecDyn::<FullVTable>::from_vec(m.clone()));
    let ord = Order::new();
    let typed_hash = {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        h.finish()
    };
    let text = format!("{:?}", v);
    let sl = v.as_slice();
    let jobs = (0..threads(r))
        .map(|id| {
            let mut r = Rng::new(r.next());
            let (v, d, m, ord, text, sl) = (&v, &d, &m, &ord, &text, sl.clone());
            Box::new(move || {
                for _ in 0..rounds() {
                    ord.step(id);
                    let i = r.below(m.len());
                    match r.below(16) {
                        0 => need!(v.get(i).downcast::<T>() == Some(&m[i]), "get"),
                        1 => need!(v.iter().zip(m).all(|(x, y)| x.downcast::<T>() == Some(y)), "iter"),
                        2 => {
                            let c = v.clone();
                            need!(c == *v, "clone");
                            need!(c.into_vec::<T>().as_ref() == Some(m), "clone into_vec");
                        }
                        3 => {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            v.hash(&mut h);
                            need!(h.finish() == typed_hash, "hash");
                        }
                        4 => need!(format!("{:?}", v) == *text, "format"),
                        5 => need!(v.iter_as::<T>().map_or(false, |x| x.eq(m.iter())), "iter_as"),
                        6 => need!(v.clone_into_vec::<T>().as_ref() == Some(m), "clone_into_vec"),
                        7 => need!(sl.iter().count() == m.len() && sl.get(i).downcast::<T>() == Some(&m[i]), "slice"),
                        8 => {
                            let s = sl.clone();
                            need!(s.into_iter().count() == m.len(), "slice into_iter");
                        }
                        9 => {
                            let b = v.get(i).clone_value();
                            need!(b.downcast::<T>().map_or(false, |x| *x == m[i]), "clone_value");
                        }
                        10 => need!(d.get(i).downcast::<T>() == Some(&m[i]) && d.len() == m.len(), "dynamic table"),
                        11 => need!(v.as_slice().chunks_exact(1).all(|c| c.len() == 1), "chunks"),
                        12 => need!(v.get(i) == v.get(i), "eq of references"),
                        13 => {
                            let x = v.get(i).upcast::<SendVTable>();
                            need!(x.downcast::<T>() == Some(&m[i]), "upcast");
                        }
                        14 => {
                            let mut w = VecDyn::<FullVTable>::with_type_from(v);
                            need!(w.push_cloned(v.get(i)).is_some() && w.len() == 1, "push_cloned");
                            need!(w.push_cloned(sl.get(i)).is_some(), "push_cloned");
                        }
                        _ => need!(*v.as_slice_as::<T>().unwrap() == m[..] && sl.split_at(i).0.len() == i, "as_slice_as"),
                    }
                }
                Ok(())
            }) as Box<dyn FnOnce() -> Res + Send + '_>
        })
        .collect();
    together(&ord, "shared vector", jobs);
    assert!(d.len() == n);
    drop(from_dyn![VecDyn<dyn HasFull as FullVTable>](d));
}

/// Elements changed through shared references, as their type allows.
pub fn inside(r: &mut Rng) {
    let n = r.range(1, 5);
    let v: VecDyn<BothVTable> = VecDyn::from_vec((0..n).map(|_| AtomicUsize::new(0)).collect::<Vec<_>>());
    let w: VecDyn<SyncVTable> = VecDyn::from_vec((0..n).map(|_| Mutex::new(vec![0u32])).collect::<Vec<_>>());
    let b = BoxValue::<SyncVTable>::new(AtomicUsize::new(0));
    let s = SmallValue::<BothVTable>::new(AtomicUsize::new(0));
    let k = threads(r);
    let ord = Order::new();
    let jobs = (0..k)
        .map(|id| {
            let mut r = Rng::new(r.next());
            let (v, w, b, s, ord) = (&v, &w, &b, &s, &ord);
            let part = if cfg!(miri) { w.as_slice().into_subslice(..0) } else { w.as_slice() };
            Box::new(move || {
                for _ in 0..rounds() {
                    ord.step(id);
                    let i = r.below(n);
                    v.get_ref_as::<AtomicUsize>(i).unwrap().fetch_add(1, Relaxed);
                    w.as_slice_as::<Mutex<Vec<u32>>>().unwrap()[i].lock().unwrap().push(id as u32);
                    w.iter_as::<Mutex<Vec<u32>>>().unwrap().nth(i).unwrap().lock().unwrap()[0] += 1;
                    // A known finding: references to bytes do not allow for interior mutability.
                    if cfg!(miri) {
                        continue;
                    }
                    v.get(i).downcast::<AtomicUsize>().unwrap().fetch_add(1, Relaxed);
                    v.iter().nth(i).unwrap().downcast::<AtomicUsize>().unwrap().fetch_add(1, Relaxed);
                    part.get(i).downcast::<Mutex<Vec<u32>>>().unwrap().lock().unwrap().push(id as u32);
                    part.as_slice::<Mutex<Vec<u32>>>().unwrap()[i].lock().unwrap()[0] += 1;
                    b.as_ref().downcast::<AtomicUsize>().unwrap().fetch_add(1, Relaxed);
                    s.as_ref().downcast::<AtomicUsize>().unwrap().fetch_add(1, Relaxed);
                }
                Ok(())
            }) as Box<dyn FnOnce() -> Res + Send + '_>
        })
        .collect();
    together(&ord, "elements changed inside", jobs);
    let all = k * rounds();
    let (three, two, one) = if cfg!(miri) { (1, 1, 0) } else { (3, 2, 1) };
    let sum: usize = v.into_vec::<AtomicUsize>().unwrap().into_iter().map(|x| x.into_inner()).sum();
    ensure!(sum == all * three, "increments of shared elements: {} of {}", sum, all * three);
    let w: Vec<Vec<u32>> = w.into_vec::<Mutex<Vec<u32>>>().unwrap().into_iter().map(|x| x.into_inner().unwrap()).collect();
    ensure!(w.iter().map(|x| x.len() - 1).sum::<usize>() == all * two && w.iter().map(|x| x[0] as usize).sum::<usize>() == all * two, "pushes into shared elements lost");
    ensure!(b.downcast::<AtomicUsize>().unwrap().into_inner() == all * one && s.downcast::<AtomicUsize>().unwrap().into_inner() == all * one, "increments of shared values lost");
}

/// Disjoint parts of one vector changed by different threads.
pub fn parts<T: Item>(r: &mut Rng, how: u64) {
    let k = threads(r);
    let per = r.range(1, 4);
    let n = k * per;
    let mut m: Vec<T> = (0..n).map(|_| T::mk(r.key())).collect();
    let mut v: VecDyn<FullVTable> = m.clone().into();
    let mut c: VecDyn<MovedVTable> = m.clone().into();
    let ord = Order::new();
    let seeds: Vec<u64> = (0..k).map(|_| r.next()).collect();
    // What each thread does to its part.
    fn work<T: Item, V: HasDrop + HasClone + Clone + VTable<T>>(seed: u64, id: usize, ord: &Order, mut s: SliceMut<V>) -> Res {
        let mut r = Rng::new(seed);
        let n = s.len();
        for _ in 0..rounds() {
            ord.step(id);
            let (i, j, x) = (r.below(n), r.below(n), T::mk(r.key()));
            match r.below(7) {
                0 => s.get_mut(i).assign(BoxValue::<V>::new(x)),
                1 => s.swap(i, j),
                2 => s.rotate_left(i),
                3 => need!(s.get_mut(i).clone_from_other(ValueRef::new(&x)).is_ok(), "clone_from_other"),
                4 => s.as_slice::<T>().unwrap()[i] = x,
                5 => {
                    let mut b = BoxValue::<V>::new(x);
                    s.get_mut(i).swap(&mut b.as_mut());
                }
                _ => {
                    for (k, mut y) in s.iter().enumerate() {
                        if k == i {
                            *y.downcast::<T>().unwrap() = x.clone();
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn model<T: Item>(seed: u64, s: &mut [T]) {
        let mut r = Rng::new(seed);
        for _ in 0..rounds() {
            let (i, j, x) = (r.below(s.len()), r.below(s.len()), T::mk(r.key()));
            match r.below(7) {
                1 => s.swap(i, j),
                2 => s.rotate_left(i),
                _ => s[i] = x,
            }
        }
    }
    {
        let mut whole = v.as_mut_slice();
        let mut whole2 = c.as_mut_slice();
        let ord = &ord;
        let mut jobs: Vec<Box<dyn FnOnce() -> Res + Send + '_>> = vec![];
        match how % 4 {
            0 => {
                for (id, s) in whole.chunks_exact_mut(per).enumerate() {
                    let seed = seeds[id];
                    jobs.push(Box::new(move || work::<T, _>(seed, id, ord, s)));
                }
            }
            1 => {
                // Of a table that can send only.
                for (id, s) in whole2.chunks_exact_mut(per).enumerate() {
                    let seed = seeds[id];
                    jobs.push(Box::new(move || work::<T, _>(seed, id, ord, s)));
                }
            }
            2 => {
                // Two halves, the first of which is not touched by this thread again.
                let (a, b) = whole.split_at(per);
                let (s0, rest) = (seeds[0], seeds[1]);
                jobs.push(Box::new(move || work::<T, _>(s0, 0, ord, a)));
                jobs.push(Box::new(move || work::<T, _>(rest, 1, ord, b)));
            }
            _ => {
                // Single elements.
                let mut it = whole2.iter();
                for id in 0..k {
                    let xs: Vec<ValueMut<MovedVTable>> = it.by_ref().take(per).collect();
                    let seed = seeds[id];
                    jobs.push(Box::new(move || {
                        let mut r = Rng::new(seed);
                        for mut x in xs {
                            ord.step(id);
                            let y = T::mk(r.key());
                            need!(format!("{:?}", x).len() > 0, "format");
                            x.assign(BoxValue::<MovedVTable>::new(y));
                        }
                        Ok(())
                    }));
                }
            }
        }
        together(ord, "disjoint parts", jobs);
    }
    match how % 4 {
        0 | 1 => {
            for (id, s) in m.chunks_exact_mut(per).enumerate() {
                model(seeds[id], s);
            }
        }
        2 => {
            let (a, b) = m.split_at_mut(per);
            model(seeds[0], a);
            model(seeds[1], b);
        }
        _ => {
            for (id, s) in m.chunks_exact_mut(per).enumerate() {
                let mut r = Rng::new(seeds[id]);
                for x in s {
                    *x = T::mk(r.key());
                }
            }
        }
    }
    let got = if how % 4 == 1 || how % 4 == 3 { c.into_vec::<T>() } else { v.into_vec::<T>() };
    ensure!(got.as_ref() == Some(&m), "elements after concurrent changes of disjoint parts: {:?} instead of {:?}", got, m);
}

/// Values and vectors handed from thread to thread: each arrives once, unchanged.
pub fn handed<T: Item>(r: &mut Rng) {
    let k = threads(r);
    let per = rounds();
    let ord = Order::new();
    let (tx, rx) = mpsc::channel::<(u64, BoxValue<MovedVTable>, Option<SmallValue<MovedVTable>>, VecDyn<MovedVTable>)>();
    let rx = Arc::new(Mutex::new(rx));
    let seen = Arc::new(Mutex::new(vec![]));
    let mut jobs: Vec<Box<dyn FnOnce() -> Res + Send + '_>> = vec![];
    for id in 0..k {
        let (tx, ord) = (tx.clone(), &ord);
        jobs.push(Box::new(move || {
            let mut kept = vec![];
            for i in 0..per {
                ord.step(id);
                let key = (id * 1000 + i) as u64;
                let mut v = VecDyn::<MovedVTable>::from_vec(vec![T::mk(key), T::mk(key + 1)]);
                v.push_as(T::mk(key + 2));
                let s = SmallValue::try_new(T::mk(key));
                let b = BoxValue::new(T::mk(key));
                if i % 3 == 0 {
                    // Copies go, the originals stay.
                    if tx.send((key, b.clone(), s.clone(), v.clone())).is_err() {
                        return Err("nobody receives".into());
                    }
                    need!(b.clone() == b && v.clone() == v, "originals of what was handed over");
                    kept.push((b, s, v));
                } else if tx.send((key, b, s, v)).is_err() {
                    return Err("nobody receives".into());
                }
            }
            Ok(())
        }));
    }
    drop(tx);
    for id in k..k + 2 {
        let (rx, ord, seen) = (rx.clone(), &ord, seen.clone());
        jobs.push(Box::new(move || {
            loop {
                let got = rx.lock().unwrap().recv();
                let (key, mut b, s, mut v) = match got {
                    Ok(x) => x,
                    Err(_) => return Ok(()),
                };
                ord.step(id);
                let c = b.clone();
                need!(c == b && b.as_ref().downcast::<T>() == Some(&T::mk(key)), "value");
                b.as_mut().assign(c);
                need!(b.downcast::<T>().map_or(false, |x| *x == T::mk(key)), "value");
                if let Some(s) = s {
                    need!(s.downcast::<T>() == Some(T::mk(key)), "small value");
                }
                need!(v.push_as(T::mk(key + 3)).is_some(), "push");
                v.rotate_left(1);
                let w = v.into_vec::<T>();
                need!(w == Some(vec![T::mk(key + 1), T::mk(key + 2), T::mk(key + 3), T::mk(key)]), "vector");
                seen.lock().unwrap().push(key);
            }
        }));
    }
    together(&ord, "handed over", jobs);
    let mut s = seen.lock().unwrap().clone();
    s.sort_unstable();
    let want: Vec<u64> = (0..k).flat_map(|id| (0..per).map(move |i| (id * 1000 + i) as u64)).collect();
    ensure!(s == want, "values received by the consumers: {:?} instead of {:?}", s, want);
}

/// References of all kinds sent to and shared with threads.
pub fn refs<T: Item>(r: &mut Rng) {
    let (k, n) = (threads(r), r.range(1, 5));
    let m: Vec<T> = (0..n).map(|_| T::mk(r.key())).collect();
    let v: VecDyn<FullVTable> = m.clone().into();
    let b = BoxValue::<FullVTable>::new(m[0].clone());
    let small = SmallValue::<FullVTable>::try_new(m[0].clone());
    let ord = Order::new();
    let one = v.get(0);
    let text = format!("{:?}", one);
    let jobs = (0..k)
        .map(|id| {
            let mut r = Rng::new(r.next());
            let (v, m, ord, b, small, text, one) = (&v, &m, &ord, &b, &small, &text, &one);
            let mine = one.clone();
            let sent = (b.clone(), small.clone(), v.clone());
            let it = v.as_slice().into_subslice(..);
            Box::new(move || {
                let it = it.into_iter();
                for (x, y) in it.zip(m) {
                    ord.step(id);
                    need!(x.downcast::<T>() == Some(y), "iterator");
                }
                for _ in 0..rounds() {
                    ord.step(id);
                    match r.below(8) {
                        6 => need!(small.clone() == *small, "clone of a shared small value"),
                        7 => need!(sent.clone().0 == *b && sent.1.clone() == *small && sent.2.clone() == *v, "clones of what was sent"),
                        0 => need!(mine == *one && format!("{:?}", mine) == *text, "shared reference"),
                        1 => need!(one.clone_value().downcast::<T>().as_deref() == Some(&m[0]), "clone of a shared reference"),
                        2 => need!(b.clone() == *b, "clone of a shared value"),
                        3 => need!(b.as_ref() == one.clone(), "shared value"),
                        4 => {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            one.hash(&mut h);
                            b.hash(&mut h);
                        }
                        _ => {
                            let mut own = one.clone_value();
                            own.as_mut().assign(BoxValue::<FullVTable>::new(m[m.len() - 1].clone()));
                            need!(own.as_ref() == v.get(m.len() - 1), "assigned clone");
                        }
                    }
                }
                Ok(())
            }) as Box<dyn FnOnce() -> Res + Send + '_>
        })
        .collect();
    together(&ord, "shared references", jobs);
}
