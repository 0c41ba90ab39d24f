//! Random histories over type-erased vectors of arbitrary elements, against typed vectors.
use crate::el::El;
use crate::ledger;
use crate::report::*;
use crate::vt::*;
use crate::{ensure, fail, same, t};
use dync::traits::*;
use dync::*;

/// Relative weights of the groups of operations.
#[derive(Clone, Copy)]
pub struct Mix {
    pub construct: usize,
    pub add: usize,
    pub bulk: usize,
    pub access: usize,
    pub refs: usize,
    pub views: usize,
    pub values: usize,
    pub convert: usize,
    pub mismatch: usize,
    pub refuse: usize,
    pub steps: usize,
}
pub const BALANCED: Mix = Mix {
    construct: 4,
    add: 10,
    bulk: 8,
    access: 4,
    refs: 6,
    views: 6,
    values: 6,
    convert: 5,
    mismatch: 4,
    refuse: 2,
    steps: 24,
};

pub struct World<T: El, F: El, V: Vt + VTable<T> + VTable<F>> {
    pub vs: Vec<(VecDyn<V>, Vec<u64>)>,
    pub bs: Vec<(BoxValue<V>, u64)>,
    pub ss: Vec<(SmallValue<V>, u64)>,
    pub fs: Vec<(VecDyn<V>, Vec<u64>)>,
    _m: std::marker::PhantomData<(T, F)>,
}

fn pick<'a, X>(r: &mut Rng, v: &'a mut Vec<X>) -> Option<(usize, &'a mut X)> {
    if v.is_empty() {
        return None;
    }
    let i = r.below(v.len());
    Some((i, &mut v[i]))
}

pub fn key_of<T: El>(t: &T) -> u64 {
    t.key()
}

/// The vector `v` must consist of exactly the elements of the model `m`, by the access path `path`.
pub fn verify_vec<T: El, V: Vt>(v: &mut VecDyn<V>, m: &[u64], path: usize, what: &str) {
    same!(v.len(), m.len(), "{}: len()", what);
    same!(v.is_empty(), m.is_empty(), "{}: is_empty()", what);
    let want = |i: usize| T::norm(m[i]);
    match path % 9 {
        0 => {
            let Some(s) = v.as_slice_as::<T>() else { fail!("{}: as_slice_as refused", what) };
            same!(s.len(), m.len(), "{}: as_slice_as length", what);
            for (i, e) in s.iter().enumerate() {
                same!(e.key(), want(i), "{}: element {} of {} (as_slice_as)", what, i, m.len());
            }
        }
        1 => {
            let mut n = 0;
            for (i, e) in v.iter().enumerate() {
                if i >= m.len() {
                    fail!("{}: iter yields too many", what)
                }
                let Some(e) = e.downcast::<T>() else { fail!("{}: element {} has the wrong type (iter)", what, i) };
                same!(e.key(), want(i), "{}: element {} of {} (iter)", what, i, m.len());
                n += 1;
            }
            same!(n, m.len(), "{}: number of elements iterated", what);
        }
        2 => {
            for i in 0..m.len() {
                let Some(e) = v.get(i).downcast::<T>() else { fail!("{}: element {} has the wrong type (get)", what, i) };
                same!(e.key(), want(i), "{}: element {} of {} (get)", what, i, m.len());
            }
        }
        3 => {
            let Some(s) = v.iter_as::<T>() else { fail!("{}: iter_as refused", what) };
            same!(s.len(), m.len(), "{}: iter_as length", what);
            for (i, e) in s.enumerate() {
                same!(e.key(), want(i), "{}: element {} of {} (iter_as)", what, i, m.len());
            }
        }
        4 => {
            for i in 0..m.len() {
                let Some(e) = v.get_ref_as::<T>(i) else { fail!("{}: get_ref_as refused", what) };
                same!(e.key(), want(i), "{}: element {} of {} (get_ref_as)", what, i, m.len());
            }
        }
        5 => {
            let mut n = 0;
            for (i, e) in v.iter_mut().enumerate() {
                if i >= m.len() {
                    fail!("{}: iter_mut yields too many", what)
                }
                let Some(e) = e.downcast::<T>() else { fail!("{}: element {} has the wrong type (iter_mut)", what, i) };
                same!(e.key(), want(i), "{}: element {} of {} (iter_mut)", what, i, m.len());
                n += 1;
            }
            same!(n, m.len(), "{}: number of elements iterated mutably", what);
        }
        6 => {
            let s = v.as_slice();
            same!(s.len(), m.len(), "{}: view length", what);
            for i in 0..m.len() {
                let Some(e) = s.get_as::<T>(i) else { fail!("{}: view get_as refused", what) };
                same!(e.key(), want(i), "{}: element {} of {} (view)", what, i, m.len());
            }
        }
        7 => {
            let mut s = v.as_mut_slice();
            same!(s.len(), m.len(), "{}: mutable view length", what);
            let Some(s) = s.as_slice::<T>() else { fail!("{}: mutable view as_slice refused", what) };
            for i in 0..m.len() {
                same!(s[i].key(), want(i), "{}: element {} of {} (mutable view)", what, i, m.len());
            }
        }
        _ => {
            let Some(s) = v.as_mut_slice_as::<T>() else { fail!("{}: as_mut_slice_as refused", what) };
            same!(s.len(), m.len(), "{}: as_mut_slice_as length", what);
            for (i, e) in s.iter().enumerate() {
                same!(e.key(), want(i), "{}: element {} of {} (as_mut_slice_as)", what, i, m.len());
            }
        }
    }
    same!(v.element_type_id(), std::any::TypeId::of::<T>(), "{}: element type", what);
    same!(v.element_size(), std::mem::size_of::<T>(), "{}: element size", what);
}

/// Formats through a closure.
pub struct Fm<F: Fn(&mut std::fmt::Formatter) -> std::fmt::Result>(pub F);
impl<F: Fn(&mut std::fmt::Formatter) -> std::fmt::Result> std::fmt::Debug for Fm<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        (self.0)(f)
    }
}

impl<T, F, V> World<T, F, V>
where
    T: El + MaybeHash,
    F: El,
    V: Vt + VTable<T> + VTable<F> + Into<DropVTable> + Into<CloneVTable>,
    DropVTable: From<V>,
    CloneVTable: From<V>,
{
    pub fn new() -> Self {
        World { vs: vec![], bs: vec![], ss: vec![], fs: vec![], _m: Default::default() }
    }

    pub fn word() -> bool {
        std::mem::size_of::<T>() == std::mem::size_of::<usize>()
    }

    pub fn keys(r: &mut Rng, n: usize) -> Vec<u64> {
        (0..n).map(|_| r.key()).collect()
    }
    pub fn typed(k: &[u64]) -> Vec<T> {
        k.iter().map(|k| T::mk(*k)).collect()
    }

    /// A typed vector with random spare capacity.
    pub fn typed_spare(r: &mut Rng, k: &[u64]) -> Vec<T> {
        let mut v = Vec::with_capacity(k.len() + r.below(5));
        v.extend(k.iter().map(|k| T::mk(*k)));
        v
    }

    pub fn fresh(r: &mut Rng) -> (VecDyn<V>, Vec<u64>) {
        let n = r.size();
        let m = Self::keys(r, n);
        match r.below(7) {
            0 => {
                t!("with_type");
                (VecDyn::with_type::<T>(), vec![])
            }
            1 => {
                t!("with_capacity({})", n);
                (VecDyn::with_capacity::<T>(n), vec![])
            }
            2 => {
                t!("from_vec({})", n);
                (VecDyn::from_vec(Self::typed_spare(r, &m)), m)
            }
            3 => {
                t!("From<Vec>({})", n);
                (Self::typed_spare(r, &m).into(), m)
            }
            4 => {
                t!("from_slice({})", n);
                let s = Self::typed(&m);
                (VecDyn::from_slice(&s), m)
            }
            5 => {
                t!("From<&[T]>({})", n);
                let s = Self::typed(&m);
                (VecDyn::from(s.as_slice()), m)
            }
            _ => {
                t!("with_size({})", n);
                let k = r.key();
                (VecDyn::with_size::<T>(n, T::mk(k)), vec![k; n])
            }
        }
    }

    pub fn ensure_some(&mut self, r: &mut Rng) -> usize {
        if self.vs.is_empty() {
            let v = Self::fresh(r);
            self.vs.push(v);
        }
        r.below(self.vs.len())
    }

    pub fn ensure_foreign(&mut self, r: &mut Rng) -> usize {
        if self.fs.is_empty() {
            let n = r.size().min(6);
            let m: Vec<u64> = (0..n).map(|_| r.key()).collect();
            t!("foreign({})", n);
            self.fs.push((m.iter().map(|k| F::mk(*k)).collect::<Vec<F>>().into(), m));
        }
        r.below(self.fs.len())
    }

    pub fn step(&mut self, r: &mut Rng, mix: &Mix) {
        let groups = [
            mix.construct,
            mix.add,
            mix.bulk,
            mix.access,
            mix.refs,
            mix.views,
            mix.values,
            mix.convert,
            mix.mismatch,
            mix.refuse,
        ];
        let total: usize = groups.iter().sum();
        let mut x = r.below(total);
        let mut g = 0;
        while x >= groups[g] {
            x -= groups[g];
            g += 1;
        }
        match g {
            0 => self.construct(r),
            1 => self.add(r),
            2 => self.bulk(r),
            3 => self.access(r),
            4 => self.refs(r),
            5 => self.views(r),
            6 => self.values(r),
            7 => self.convert(r),
            8 => self.mismatch(r),
            _ => self.refuse(r),
        }
    }

    pub fn verify(&mut self, r: &mut Rng) {
        if T::TRACKED {
            // Conservation: exactly the elements that somebody owns are alive.
            let mut own: usize = self.vs.iter().map(|v| v.1.len()).sum::<usize>() + self.bs.len() + self.ss.len();
            if F::TRACKED {
                own += self.fs.iter().map(|v| v.1.len()).sum::<usize>();
            }
            same!(ledger::live(), own as u64, "number of elements alive and owned");
        }
        let p = r.below(9);
        for (i, (v, m)) in self.vs.iter_mut().enumerate() {
            verify_vec::<T, V>(v, m, p + i, "vector");
        }
        for (v, m) in self.fs.iter_mut() {
            verify_vec::<F, V>(v, m, p, "foreign vector");
        }
        for (b, k) in self.bs.iter() {
            let Some(e) = b.as_ref().downcast::<T>() else { fail!("boxed value: wrong type") };
            same!(e.key(), T::norm(*k), "boxed value");
        }
        for (b, k) in self.ss.iter() {
            let Some(e) = b.as_ref().downcast::<T>() else { fail!("small value: wrong type") };
            same!(e.key(), T::norm(*k), "small value");
        }
    }

    pub fn construct(&mut self, r: &mut Rng) {
        count("construct");
        if self.vs.len() < 3 {
            match r.below(4) {
                0 if !self.vs.is_empty() => {
                    let i = r.below(self.vs.len());
                    let how = r.below(6);
                    t!("with_type_from {} of v{}", how, i);
                    let v = &mut self.vs[i].0;
                    let n = v.len();
                    let new = match how {
                        0 => VecDyn::with_type_from(&*v),
                        1 => VecDyn::with_type_from(v.as_slice()),
                        2 => VecDyn::with_type_from(v.as_mut_slice()),
                        3 if n > 0 => VecDyn::with_type_from(v.get(r.below(n))),
                        4 if n > 0 => VecDyn::with_type_from(v.get_mut(r.below(n))),
                        _ => VecDyn::with_type_from(&*v),
                    };
                    self.vs.push((new, vec![]));
                }
                1 if !self.vs.is_empty() => {
                    let i = r.below(self.vs.len());
                    t!("clone v{}", i);
                    let c = (self.vs[i].0.clone(), self.vs[i].1.clone());
                    self.vs.push(c);
                }
                _ => {
                    let v = Self::fresh(r);
                    self.vs.push(v);
                }
            }
        } else {
            let i = r.below(self.vs.len());
            if r.flip() {
                t!("drop v{}", i);
                self.vs.swap_remove(i);
            } else {
                t!("replace v{}", i);
                self.vs[i] = Self::fresh(r);
            }
        }
    }

    pub fn add(&mut self, r: &mut Rng) {
        count("add");
        let i = self.ensure_some(r);
        let reps = if r.chance(1, 8) { r.range(2, 20) } else { 1 };
        for _ in 0..reps {
            let k = r.key();
            let how = r.below(10);
            t!("push{} v{}", how, i);
            let nv = self.vs.len();
            if how == 8 && nv > 1 {
                // From an element of another vector.
                let j = (i + 1) % nv;
                if self.vs[j].1.is_empty() {
                    continue;
                }
                let e = r.below(self.vs[j].1.len());
                let (a, b) = two(&mut self.vs, i, j);
                a.1.push(b.1[e]);
                if a.0.push_cloned(b.0.get(e)).is_none() {
                    fail!("push_cloned refused an element of the right type")
                }
                continue;
            }
            let (v, m) = &mut self.vs[i];
            let ok = match how {
                0 | 1 | 2 => v.push_as(T::mk(k)).is_some(),
                3 => v.push(BoxValue::<V>::new(T::mk(k))).is_some(),
                4 => v.push(BoxValue::<DropVTable>::new(T::mk(k))).is_some(),
                5 => v.push(BoxValue::<V>::new(T::mk(k)).upcast::<CloneVTable>()).is_some(),
                6 => {
                    let e = T::mk(k);
                    v.push_cloned(ValueRef::new(&e)).is_some()
                }
                7 => {
                    let b = BoxValue::<V>::new(T::mk(k));
                    v.push_cloned(b.as_ref()).is_some()
                }
                _ => {
                    if let Some((b, k2)) = self.bs.pop() {
                        if v.push(b).is_none() {
                            fail!("push refused a value of the right type")
                        }
                        m.push(k2);
                        continue;
                    }
                    v.push_as(T::mk(k)).is_some()
                }
            };
            ensure!(ok, "push (variant {}) refused an element of the right type", how);
            m.push(k);
        }
    }

    pub fn bulk(&mut self, r: &mut Rng) {
        count("bulk");
        let i = self.ensure_some(r);
        match r.below(10) {
            0 | 1 => {
                // append
                if self.vs.len() < 2 {
                    let v = Self::fresh(r);
                    self.vs.push(v);
                }
                let j = (i + 1 + r.below(self.vs.len() - 1)) % self.vs.len();
                t!("append v{} <- v{}", i, j);
                let (a, b) = two(&mut self.vs, i, j);
                ensure!(a.0.append(&mut b.0).is_some(), "append refused the right type");
                let mut bm = std::mem::take(&mut b.1);
                a.1.append(&mut bm);
                ensure!(b.0.is_empty(), "append left {} elements in the source", b.0.len());
            }
            2 | 3 => {
                let n = r.size();
                let k = r.key();
                let (v, m) = &mut self.vs[i];
                t!("resize v{} {} -> {}", i, m.len(), n);
                ensure!(v.resize(n, T::mk(k)).is_some(), "resize refused the right type");
                m.resize(n, k);
            }
            4 => {
                let k = r.key();
                let (v, m) = &mut self.vs[i];
                t!("fill v{}", i);
                ensure!(v.fill(T::mk(k)).is_some(), "fill refused the right type");
                m.fill(k);
            }
            5 => {
                let (v, m) = &mut self.vs[i];
                t!("clear v{}", i);
                v.clear();
                m.clear();
            }
            6 => {
                let (v, m) = &mut self.vs[i];
                let n = r.below(m.len() + 1);
                t!("rotate_left v{} {}", i, n);
                v.rotate_left(n);
                m.rotate_left(n);
            }
            7 => {
                let (v, m) = &mut self.vs[i];
                let n = r.below(m.len() + 1);
                t!("rotate_right v{} {}", i, n);
                v.rotate_right(n);
                m.rotate_right(n);
            }
            8 => {
                let (v, m) = &mut self.vs[i];
                t!("append_cloned_to_vec v{}", i);
                let np = if r.flip() { r.below(3) } else { r.size() };
                let pre = Self::keys(r, np);
                let mut out = Self::typed(&pre);
                ensure!(v.append_cloned_to_vec(&mut out).is_some(), "append_cloned_to_vec refused the right type");
                let want: Vec<u64> = pre.iter().chain(m.iter()).map(|k| T::norm(*k)).collect();
                same!(out.iter().map(|e| e.key()).collect::<Vec<_>>(), want, "append_cloned_to_vec");
            }
            _ => {
                let (v, m) = &mut self.vs[i];
                t!("clone_into_vec v{}", i);
                let Some(out) = v.clone_into_vec::<T>() else { fail!("clone_into_vec refused the right type") };
                let want: Vec<u64> = m.iter().map(|k| T::norm(*k)).collect();
                same!(out.iter().map(|e| e.key()).collect::<Vec<_>>(), want, "clone_into_vec");
            }
        }
    }

    pub fn access(&mut self, r: &mut Rng) {
        count("access");
        let i = self.ensure_some(r);
        let (v, m) = &mut self.vs[i];
        if m.is_empty() {
            return;
        }
        let e = r.below(m.len());
        let k = r.key();
        let how = r.below(6);
        t!("write{} v{}[{}]", how, i, e);
        match how {
            0 => *v.get_mut_as::<T>(e).unwrap_or_else(|| fail!("get_mut_as refused")) = T::mk(k),
            1 => *v.iter_mut_as::<T>().unwrap_or_else(|| fail!("iter_mut_as refused")).nth(e).unwrap() = T::mk(k),
            2 => v.as_mut_slice_as::<T>().unwrap_or_else(|| fail!("as_mut_slice_as refused"))[e] = T::mk(k),
            3 => *v.get_mut(e).downcast::<T>().unwrap_or_else(|| fail!("downcast refused")) = T::mk(k),
            4 => {
                for (x, el) in v.iter_mut().enumerate() {
                    let k2 = k.wrapping_add(x as u64 * 0x1234567);
                    *el.downcast::<T>().unwrap_or_else(|| fail!("downcast refused")) = T::mk(k2);
                    m[x] = k2;
                }
                return;
            }
            _ => {
                let Some(c) = v.check_mut::<T>() else { fail!("check_mut refused the right type") };
                unsafe { *c.get_unchecked_mut::<T>(e) = T::mk(k) };
                same!(unsafe { c.get_unchecked_ref::<T>(e) }.key(), T::norm(k), "get_unchecked_ref");
            }
        }
        m[e] = k;
    }

    pub fn refs(&mut self, r: &mut Rng) {
        count("refs");
        let i = self.ensure_some(r);
        let how = r.below(10);
        {
            let (_, m) = &self.vs[i];
            if m.is_empty() {
                return;
            }
        }
        let e = r.below(self.vs[i].1.len());
        t!("ref{} v{}[{}]", how, i, e);
        match how {
            0 => {
                let k = r.key();
                let (v, m) = &mut self.vs[i];
                v.get_mut(e).assign(BoxValue::<V>::new(T::mk(k)));
                m[e] = k;
            }
            1 if Self::word() => {
                let k = r.key();
                let (v, m) = &mut self.vs[i];
                v.get_mut(e).assign(SmallValue::<V>::new(T::mk(k)));
                m[e] = k;
            }
            2 => {
                let k = r.key();
                let (v, m) = &mut self.vs[i];
                let mut b = BoxValue::<V>::new(T::mk(k));
                v.get_mut(e).swap(&mut b.as_mut());
                self.bs.push((b, m[e]));
                m[e] = k;
            }
            3 if self.vs.len() > 1 => {
                let j = (i + 1) % self.vs.len();
                if self.vs[j].1.is_empty() {
                    return;
                }
                let f = r.below(self.vs[j].1.len());
                let (a, b) = two(&mut self.vs, i, j);
                a.0.get_mut(e).swap(&mut b.0.get_mut(f));
                std::mem::swap(&mut a.1[e], &mut b.1[f]);
            }
            4 => {
                // Two references of one vector, held at the same time.
                let (v, m) = &mut self.vs[i];
                let f = r.below(m.len());
                if e == f {
                    return;
                }
                let mut refs: Vec<Option<ValueMut<V>>> = v.iter_mut().map(Some).collect();
                let mut a = refs[e].take().unwrap();
                let mut b = refs[f].take().unwrap();
                a.swap(&mut b);
                m.swap(e, f);
            }
            5 => {
                let k = r.key();
                let (v, m) = &mut self.vs[i];
                let x = T::mk(k);
                ensure!(v.get_mut(e).clone_from_other(ValueRef::new(&x)).is_ok(), "clone_from_other refused the right type");
                m[e] = k;
            }
            6 => {
                let (v, m) = &mut self.vs[i];
                let b = if r.flip() { v.get(e).clone_value() } else { v.get_mut(e).clone_value() };
                self.bs.push((b, m[e]));
            }
            7 if Self::word() => {
                let (v, m) = &mut self.vs[i];
                let b = if r.flip() { v.get(e).clone_small_value() } else { v.get_mut(e).clone_small_value() };
                self.ss.push((b, m[e]));
            }
            8 => {
                // Reborrowed and upcast references refer to the same place.
                let k = r.key();
                let (v, m) = &mut self.vs[i];
                let addr = v.get_ref_as::<T>(e).unwrap() as *const T;
                let mut rf = v.get_mut(e);
                same!(rf.reborrow().downcast::<T>().unwrap() as *const T, addr, "reborrow");
                same!(rf.reborrow_mut().upcast::<CloneVTable>().downcast::<T>().unwrap() as *mut T as *const T, addr, "upcast");
                same!(rf.upcast_mut::<DropVTable>().downcast::<T>().unwrap() as *mut T as *const T, addr, "upcast_mut");
                *rf.reborrow_mut().downcast::<T>().unwrap() = T::mk(k);
                m[e] = k;
                let rf: ValueRef<V> = rf.into();
                same!(rf.upcast_ref::<DropVTable>().downcast::<T>().unwrap().key(), T::norm(k), "upcast_ref");
                same!(rf.upcast::<CloneVTable>().downcast::<T>().unwrap().key(), T::norm(k), "upcast");
            }
            _ => {
                let (v, m) = &mut self.vs[i];
                let rf = v.get(e);
                same!(rf.size(), std::mem::size_of::<T>(), "reference size");
                same!(rf.value_alignment(), std::mem::align_of::<T>(), "reference alignment");
                same!(rf.value_type_id(), std::any::TypeId::of::<T>(), "reference type");
                ensure!(rf.is::<T>(), "reference is::<T>()");
                same!(format!("{:?}", rf), format!("{:?}", T::mk(m[e])), "Debug of a reference");
                let f = r.below(m.len());
                let x = T::mk(m[e]);
                let y = T::mk(m[f]);
                same!(v.get(e) == v.get(f), x == y, "equality of references {} and {}", e, f);
                if let Some(h) = V::hash_ref(&v.get(e)) {
                    same!(Some(h), x.typed_hash(), "hash of a reference");
                }
            }
        }
    }

    pub fn views(&mut self, r: &mut Rng) {
        count("views");
        let i = self.ensure_some(r);
        let (v, m) = &mut self.vs[i];
        let n = m.len();
        let a = r.below(n + 1);
        let b = r.range(a, n);
        let how = r.below(12);
        t!("view{} v{}[{}..{}]/{}", how, i, a, b, n);
        match how {
            0 => {
                let mut s = v.as_mut_slice();
                if n > 0 {
                    let (x, y) = (r.below(n), r.below(n));
                    s.swap(x, y);
                    m.swap(x, y);
                }
            }
            1 => {
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(a..b);
                let k = r.below(b - a + 1);
                s.rotate_left(k);
                m[a..b].rotate_left(k);
            }
            2 => {
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(a..);
                let k = r.below(n - a + 1);
                s.rotate_right(k);
                m[a..].rotate_right(k);
            }
            3 => {
                let ks = Self::keys(r, b - a);
                let src = Self::typed(&ks);
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(a..b);
                ensure!(s.clone_from_slice(&src).is_some(), "clone_from_slice refused the right type");
                m[a..b].copy_from_slice(&ks);
            }
            4 => {
                let mut s = v.as_mut_slice();
                let (mut l, mut rr) = s.split_at(a);
                same!(l.len(), a, "left half");
                same!(rr.len(), n - a, "right half");
                if a > 0 && n > a {
                    let (x, y) = (r.below(a), r.below(n - a));
                    l.get_mut(x).swap(&mut rr.get_mut(y));
                    m.swap(x, a + y);
                }
            }
            5 => {
                let c = r.range(1, 4);
                let mut s = v.as_mut_slice();
                let mut cnt = 0;
                let k = r.key();
                for (ci, mut ch) in s.chunks_exact_mut(c).enumerate() {
                    same!(ch.len(), c, "chunk length");
                    *ch.get_as::<T>(0).unwrap() = T::mk(k ^ ci as u64);
                    m[ci * c] = k ^ ci as u64;
                    cnt += 1;
                }
                same!(cnt, n / c, "number of chunks of {} elements", c);
            }
            6 => {
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(..b);
                let k = r.key();
                for (x, e) in s.iter().enumerate() {
                    *e.downcast::<T>().unwrap() = T::mk(k ^ x as u64);
                    m[x] = k ^ x as u64;
                }
            }
            7 => {
                let s = v.as_slice().into_subslice(a..b);
                let out = s.clone_into_vec::<T>().unwrap_or_else(|| fail!("clone_into_vec refused"));
                same!(out.iter().map(|e| e.key()).collect::<Vec<_>>(), m[a..b].iter().map(|k| T::norm(*k)).collect::<Vec<_>>(), "view clone_into_vec");
            }
            8 => {
                let s = v.as_mut_slice().into_subslice(a..b);
                let out = s.clone_into_vec::<T>().unwrap_or_else(|| fail!("clone_into_vec refused"));
                same!(out.iter().map(|e| e.key()).collect::<Vec<_>>(), m[a..b].iter().map(|k| T::norm(*k)).collect::<Vec<_>>(), "view clone_into_vec");
            }
            9 => {
                let k = r.key();
                for (x, e) in v.as_mut_slice().into_subslice(a..).into_iter().enumerate() {
                    *e.downcast::<T>().unwrap() = T::mk(k ^ x as u64);
                    m[a + x] = k ^ x as u64;
                }
            }
            10 => {
                let s = v.as_slice();
                let s = s.subslice(a..b);
                let typed = Self::typed(&m[a..b]);
                same!(format!("{:?}", s), format!("{:?}", typed), "Debug of a view");
                let typed2 = Self::typed(&m[..b - a]);
                let s2 = v.as_slice().into_subslice(..b - a);
                same!(s == s2, typed == typed2, "equality of views");
            }
            _ => {
                let k = r.key();
                let mut s = v.as_mut_slice();
                let mut s2 = s.reborrow_mut().into_subslice(a..b);
                let sl = s2.as_slice::<T>().unwrap();
                same!(sl.len(), b - a, "typed view length");
                for (x, e) in sl.iter_mut().enumerate() {
                    *e = T::mk(k ^ x as u64);
                    m[a + x] = k ^ x as u64;
                }
            }
        }
    }

    pub fn values(&mut self, r: &mut Rng) {
        count("values");
        let how = r.below(10);
        let k = r.key();
        t!("value{}", how);
        match how {
            0 | 1 => self.bs.push((BoxValue::new(T::mk(k)), k)),
            2 if Self::word() => {
                let s = SmallValue::try_new(T::mk(k));
                match s {
                    Some(s) => self.ss.push((s, k)),
                    None => fail!("SmallValue refused a word sized value"),
                }
            }
            2 => {
                ensure!(SmallValue::<V>::try_new(T::mk(k)).is_none(), "SmallValue accepted a value of size {}", std::mem::size_of::<T>());
            }
            3 => {
                if let Some((i, _)) = pick(r, &mut self.bs) {
                    let (b, k) = self.bs.swap_remove(i);
                    let Some(x) = b.downcast::<T>() else { fail!("downcast of a boxed value refused") };
                    same!(x.key(), T::norm(k), "unboxed value");
                }
                if let Some((i, _)) = pick(r, &mut self.ss) {
                    let (b, k) = self.ss.swap_remove(i);
                    let Some(x) = b.downcast::<T>() else { fail!("downcast of a small value refused") };
                    same!(x.key(), T::norm(k), "unwrapped small value");
                }
            }
            4 => {
                if let Some((_, (b, k))) = pick(r, &mut self.bs) {
                    let c = (b.clone(), *k);
                    self.bs.push(c);
                }
                if let Some((_, (b, k))) = pick(r, &mut self.ss) {
                    let c = (b.clone(), *k);
                    self.ss.push(c);
                }
            }
            5 => {
                if let Some((_, (b, old))) = pick(r, &mut self.bs) {
                    *b.as_mut().downcast::<T>().unwrap() = T::mk(k);
                    *old = k;
                }
                if let Some((_, (b, old))) = pick(r, &mut self.ss) {
                    *b.as_mut().downcast::<T>().unwrap() = T::mk(k);
                    *old = k;
                }
            }
            6 => {
                if self.bs.len() >= 2 {
                    let n = self.bs.len();
                    let (a, b) = self.bs.split_at_mut(n - 1);
                    let (a, b) = (&mut a[0], &mut b[0]);
                    same!(a.0 == b.0, T::mk(a.1) == T::mk(b.1), "equality of boxed values");
                    if r.flip() {
                        a.0.as_mut().swap(&mut b.0.as_mut());
                        std::mem::swap(&mut a.1, &mut b.1);
                    } else {
                        ensure!(a.0.as_mut().clone_from_other(&b.0).is_ok(), "clone_from_other refused");
                        a.1 = b.1;
                    }
                }
            }
            7 => {
                if let Some((i, _)) = pick(r, &mut self.bs) {
                    let (b, k) = self.bs.swap_remove(i);
                    let u = b.upcast::<CloneVTable>();
                    let c = u.clone();
                    same!(u.as_ref().downcast::<T>().unwrap().key(), T::norm(k), "upcast boxed value");
                    same!(c.downcast::<T>().unwrap().key(), T::norm(k), "clone of an upcast boxed value");
                }
                if let Some((i, _)) = pick(r, &mut self.ss) {
                    let (b, k) = self.ss.swap_remove(i);
                    let u = b.upcast::<CloneVTable>();
                    let c = u.clone();
                    same!(c.downcast::<T>().unwrap().key(), T::norm(k), "clone of an upcast small value");
                    same!(u.downcast::<T>().unwrap().key(), T::norm(k), "upcast small value");
                }
            }
            8 => {
                if let Some((_, (b, k))) = pick(r, &mut self.bs) {
                    same!(format!("{:?}", b), format!("{:?}", T::mk(*k)), "Debug of a boxed value");
                    same!(b.size(), std::mem::size_of::<T>(), "size of a boxed value");
                    same!(b.value_alignment(), std::mem::align_of::<T>(), "alignment of a boxed value");
                    same!(b.value_type_id(), std::any::TypeId::of::<T>(), "type of a boxed value");
                }
            }
            _ => {
                if self.bs.len() > 3 {
                    self.bs.truncate(1);
                }
                if self.ss.len() > 3 {
                    self.ss.truncate(1);
                }
            }
        }
    }

    pub fn convert(&mut self, r: &mut Rng) {
        count("convert");
        let i = self.ensure_some(r);
        let (v, m) = self.vs.swap_remove(i);
        let how = r.below(9);
        t!("convert{} v{}", how, i);
        let v = match how {
            0 | 1 => {
                let out: Option<Vec<T>> = v.into_vec::<T>();
                let Some(out) = out else { fail!("into_vec refused the right type") };
                same!(out.iter().map(|e| e.key()).collect::<Vec<_>>(), m.iter().map(|k| T::norm(*k)).collect::<Vec<_>>(), "into_vec");
                VecDyn::from_vec(out)
            }
            2 => {
                let (data, vt) = v.into_raw_parts();
                unsafe { VecDyn::from_raw_parts(data, vt) }
            }
            3 => {
                let mut u = v.upcast::<CloneVTable>();
                ensure!(u.push_as(T::mk(m.len() as u64)).is_some(), "upcast vector refuses its type");
                let out = u.clone();
                drop(u);
                let Some(mut out) = out.into_vec::<T>() else { fail!("into_vec of an upcast vector refused") };
                out.pop();
                out.into()
            }
            4 => {
                let Some(v) = v.check::<T>() else { fail!("check refused the right type") };
                ensure!(v.check_ref::<T>().is_some(), "check_ref refused the right type");
                v
            }
            5 => {
                let typed = Self::typed(&m);
                same!(format!("{:?}", v), format!("{:?}", typed), "Debug of a vector");
                same!(format!("{:#?}", v), format!("{:#?}", typed), "pretty Debug of a vector");
                if let Some(h) = V::hash_vec(&v) {
                    let want: Vec<u8> = typed.iter().flat_map(|e| e.typed_hash().unwrap()).collect();
                    ensure!(h.starts_with(&want) || h.ends_with(&want), "hash of a vector: fed {:?} instead of {:?}", h, want);
                }
                v
            }
            6 => {
                for (w, wm) in self.vs.iter() {
                    same!(v == *w, Self::typed(&m) == Self::typed(wm), "equality of vectors of lengths {} and {}", m.len(), wm.len());
                }
                let mut c = v.clone();
                ensure!(c == v, "clone differs from the original");
                if !m.is_empty() && r.flip() {
                    let e = r.below(m.len());
                    let mut tm = Self::typed(&m);
                    let k = r.key();
                    tm[e] = T::mk(k);
                    *c.get_mut_as::<T>(e).unwrap() = T::mk(k);
                    same!(c == v, tm == Self::typed(&m), "equality after changing element {}", e);
                } else {
                    c.push_as(T::mk(1)).unwrap();
                    ensure!(!(c == v) && !(v == c), "a longer vector equals a shorter one");
                }
                v
            }
            7 => {
                // Into a dynamically dispatched table and back.
                let (data, vt) = v.into_raw_parts();
                let vt: Box<dyn HasDrop> = vt;
                let mut d: VecDyn<dyn HasDrop> = unsafe { VecDyn::from_raw_parts(data, vt) };
                ensure!(d.push_as(T::mk(3)).is_some(), "dyn vector refuses its type");
                same!(d.len(), m.len() + 1, "length of a dyn vector");
                let (data, vt) = d.into_raw_parts();
                let vt: Box<V> = vt.downcast::<V>().unwrap_or_else(|_| fail!("the table changed its type"));
                let mut v: VecDyn<V> = unsafe { VecDyn::from_raw_parts(data, vt) };
                v.resize(m.len(), T::mk(0)).unwrap();
                v
            }
            _ => {
                let o: Option<Vec<T>> = {
                    let c = v.clone();
                    c.into_vec()
                };
                same!(o.map(|o| o.iter().map(|e| e.key()).collect::<Vec<_>>()), Some(m.iter().map(|k| T::norm(*k)).collect::<Vec<_>>()), "Option::from");
                v
            }
        };
        self.vs.push((v, m));
    }

    pub fn mismatch(&mut self, r: &mut Rng) {
        count("mismatch");
        let i = self.ensure_some(r);
        let k = r.key();
        let how = r.below(22);
        t!("mismatch{} v{}", how, i);
        macro_rules! refused { ($e:expr, $w:expr) => { ensure!($e.is_none(), "{} accepted a foreign type", $w) } }
        match how {
            0 => refused!(self.vs[i].0.push_as(F::mk(k)), "push_as"),
            1 => refused!(self.vs[i].0.push(BoxValue::<V>::new(F::mk(k))), "push"),
            2 => {
                let x = F::mk(k);
                refused!(self.vs[i].0.push_cloned(ValueRef::new(&x)), "push_cloned")
            }
            3 => refused!(self.vs[i].0.resize(r.size(), F::mk(k)), "resize"),
            4 => refused!(self.vs[i].0.fill(F::mk(k)), "fill"),
            5 => {
                let n = self.vs[i].1.len();
                if n > 0 {
                    let e = r.below(n);
                    refused!(self.vs[i].0.get_ref_as::<F>(e), "get_ref_as");
                    refused!(self.vs[i].0.get_mut_as::<F>(e), "get_mut_as");
                    refused!(self.vs[i].0.get(e).downcast::<F>(), "reference downcast");
                    refused!(self.vs[i].0.get_mut(e).downcast::<F>(), "mutable reference downcast");
                    refused!(self.vs[i].0.as_slice().get_as::<F>(e), "view get_as");
                    refused!(self.vs[i].0.as_mut_slice().get_as::<F>(e), "mutable view get_as");
                    ensure!(!self.vs[i].0.get(e).is::<F>(), "is::<foreign>()");
                }
            }
            6 => {
                refused!(self.vs[i].0.iter_as::<F>(), "iter_as");
                refused!(self.vs[i].0.iter_mut_as::<F>(), "iter_mut_as");
            }
            7 => {
                refused!(self.vs[i].0.as_slice_as::<F>(), "as_slice_as");
                refused!(self.vs[i].0.as_mut_slice_as::<F>(), "as_mut_slice_as");
            }
            8 => {
                refused!(self.vs[i].0.check_ref::<F>(), "check_ref");
                refused!(self.vs[i].0.check_mut::<F>(), "check_mut");
            }
            9 => {
                let (v, _) = self.vs.swap_remove(i);
                refused!(v.into_vec::<F>(), "into_vec");
            }
            10 => {
                let (v, _) = self.vs.swap_remove(i);
                refused!(v.check::<F>(), "check");
            }
            11 => {
                let f = self.ensure_foreign(r);
                refused!(self.vs[i].0.append(&mut self.fs[f].0), "append");
                refused!(self.fs[f].0.append(&mut self.vs[i].0), "append");
            }
            12 => {
                let f = self.ensure_foreign(r);
                let (a, b) = (&self.vs[i], &self.fs[f]);
                if !a.1.is_empty() || !b.1.is_empty() {
                    ensure!(!(a.0 == b.0), "vectors of different types are equal");
                }
            }
            13 => {
                // References of different types: assign/swap/clone_from change nothing.
                let f = self.ensure_foreign(r);
                let (n, fn_) = (self.vs[i].1.len(), self.fs[f].1.len());
                if n > 0 && fn_ > 0 {
                    let (e, g) = (r.below(n), r.below(fn_));
                    let a = &mut self.vs[i].0;
                    let b = &mut self.fs[f].0;
                    a.get_mut(e).swap(&mut b.get_mut(g));
                    ensure!(a.get_mut(e).clone_from_other(b.get(g)).is_err(), "clone_from_other accepted a foreign type");
                    ensure!(b.get_mut(g).clone_from_other(a.get(e)).is_err(), "clone_from_other accepted a foreign type");
                    ensure!(a.get(e) != b.get(g), "references of different types are equal");
                }
            }
            14 => {
                let n = self.vs[i].1.len();
                if n > 0 {
                    let e = r.below(n);
                    self.vs[i].0.get_mut(e).assign(BoxValue::<V>::new(F::mk(k)));
                }
            }
            15 => {
                let b = BoxValue::<V>::new(F::mk(k));
                refused!(b.downcast::<T>(), "downcast of a boxed value");
            }
            16 => {
                if let Some((i, _)) = pick(r, &mut self.bs) {
                    let (b, _) = self.bs.swap_remove(i);
                    refused!(b.downcast::<F>(), "downcast of a boxed value");
                }
                if let Some((i, _)) = pick(r, &mut self.ss) {
                    let (b, _) = self.ss.swap_remove(i);
                    refused!(b.downcast::<F>(), "downcast of a small value");
                }
            }
            17 => {
                refused!(self.vs[i].0.clone_into_vec::<F>(), "clone_into_vec");
                let mut out: Vec<F> = vec![F::mk(k)];
                refused!(self.vs[i].0.append_cloned_to_vec(&mut out), "append_cloned_to_vec");
                same!(out.len(), 1, "target of a refused append_cloned_to_vec");
                same!(out[0].key(), F::norm(k), "target of a refused append_cloned_to_vec");
            }
            18 => {
                let s = self.vs[i].0.as_slice();
                refused!(s.as_slice::<F>(), "view as_slice");
                refused!(s.iter_as::<F>(), "view iter_as");
                refused!(s.check::<F>(), "view check");
                refused!(s.clone_into_vec::<F>(), "view clone_into_vec");
                ensure!(s.check::<T>().is_some(), "view check refused the right type");
            }
            19 => {
                let mut s = self.vs[i].0.as_mut_slice();
                refused!(s.as_slice::<F>(), "mutable view as_slice");
                refused!(s.iter_as::<F>(), "mutable view iter_as");
                refused!(s.check::<F>(), "mutable view check");
                let src: Vec<F> = (0..s.len()).map(|x| F::mk(x as u64)).collect();
                refused!(s.clone_from_slice(&src), "clone_from_slice");
                refused!(s.clone_into_vec::<F>(), "mutable view clone_into_vec");
            }
            20 => {
                // A boxed foreign value and a boxed value differ.
                let a = BoxValue::<V>::new(F::mk(k));
                let b = BoxValue::<V>::new(T::mk(k));
                ensure!(!(a == b), "values of different types are equal");
            }
            _ => {
                let f = self.ensure_foreign(r);
                let n = self.fs[f].1.len();
                if n > 0 {
                    let e = r.below(n);
                    refused!(self.vs[i].0.push_cloned(self.fs[f].0.get(e)), "push_cloned");
                }
            }
        }
    }

    pub fn refuse(&mut self, r: &mut Rng) {
        count("refuse");
        let i = self.ensure_some(r);
        let (v, m) = &mut self.vs[i];
        let n = m.len();
        let bad = match r.below(5) {
            0 => n,
            1 => n + 1 + r.below(8),
            2 => usize::MAX,
            3 => (usize::MAX / std::mem::size_of::<T>()).saturating_add(1),
            _ => (usize::MAX / 2 + 1) / std::mem::size_of::<T>() + r.below(3),
        };
        let how = r.below(9);
        t!("refuse{} v{} {}", how, i, bad);
        match how {
            0 => must_panic(format_args!("get({}) of {}", bad, n), || {
                v.get(bad);
            }),
            1 => must_panic(format_args!("get_mut({}) of {}", bad, n), || {
                v.get_mut(bad);
            }),
            2 => must_panic(format_args!("get_ref_as({}) of {}", bad, n), || {
                v.get_ref_as::<T>(bad);
            }),
            3 => must_panic(format_args!("get_mut_as({}) of {}", bad, n), || {
                v.get_mut_as::<T>(bad);
            }),
            4 => {
                let b = if bad == n { n + 1 } else { bad };
                must_panic(format_args!("rotate_left({}) of {}", b, n), || v.rotate_left(b))
            }
            5 => {
                let b = if bad == n { n + 1 } else { bad };
                must_panic(format_args!("rotate_right({}) of {}", b, n), || v.rotate_right(b))
            }
            6 => {
                let b = if bad == n { n + 1 } else { bad };
                must_panic(format_args!("split_at({}) of {}", b, n), || {
                    v.as_slice().split_at(b);
                })
            }
            7 => {
                let b = if bad == n { n + 1 } else { bad };
                must_panic(format_args!("subslice(..{}) of {}", b, n), || {
                    v.as_mut_slice().subslice_mut(..b);
                })
            }
            _ => must_panic(format_args!("view get({}) of {}", bad, n), || {
                v.as_slice().get(bad);
            }),
        }
    }
}

pub fn two<X>(v: &mut [X], i: usize, j: usize) -> (&mut X, &mut X) {
    assert_ne!(i, j);
    if i < j {
        let (a, b) = v.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

/// One random history.
pub fn history<T, F, V>(r: &mut Rng, mix: &Mix)
where
    T: El + MaybeHash,
    F: El,
    V: Vt + VTable<T> + VTable<F> + Into<DropVTable> + Into<CloneVTable>,
    DropVTable: From<V>,
    CloneVTable: From<V>,
{
    let mut w = World::<T, F, V>::new();
    let steps = r.range(1, mix.steps * 2);
    let wild = r.chance(1, 2);
    for _ in 0..steps {
        w.step(r, mix);
        if wild || r.chance(1, 4) {
            w.verify(r);
        }
    }
    w.verify(r);
    w.verify(r);
    t!("end");
}
