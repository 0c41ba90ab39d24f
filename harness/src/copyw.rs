//! Random histories over type-erased vectors of copyable elements, against typed vectors.
use crate::dynw::{two, Mix};
use crate::el::El;
use crate::report::*;
use crate::{ensure, fail, same, t};
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};

pub trait CEl: El + Copy {}
impl<T: El + Copy> CEl for T {}

pub struct CW<T: CEl, F: CEl, V: Clone + VTable<T> + VTable<F> + 'static> {
    pub vs: Vec<(VecCopy<V>, Vec<u64>)>,
    pub fs: Vec<(VecCopy<V>, Vec<u64>)>,
    _m: std::marker::PhantomData<(T, F)>,
}

pub fn typed<T: El>(k: &[u64]) -> Vec<T> {
    k.iter().map(|k| T::mk(*k)).collect()
}
pub fn keys(r: &mut Rng, n: usize) -> Vec<u64> {
    (0..n).map(|_| r.key()).collect()
}
pub fn normed<T: El>(m: &[u64]) -> Vec<u64> {
    m.iter().map(|k| T::norm(*k)).collect()
}
pub fn keys_of<T: El>(s: &[T]) -> Vec<u64> {
    s.iter().map(|e| e.key()).collect()
}
/// The typed slice must consist of the elements of the model.
pub fn same_elems<T: El>(s: &[T], m: &[u64], what: &str) {
    same!(s.len(), m.len(), "{}: length", what);
    for (i, e) in s.iter().enumerate() {
        same!(e.key(), T::norm(m[i]), "{}: element {} of {}", what, i, m.len());
    }
}

pub fn verify_copy<T: CEl, V: Clone + 'static>(v: &mut VecCopy<V>, m: &[u64], path: usize, what: &str) {
    same!(v.len(), m.len(), "{}: len()", what);
    same!(v.is_empty(), m.is_empty(), "{}: is_empty()", what);
    ensure!(v.capacity() >= v.len(), "{}: capacity {} below length {}", what, v.capacity(), v.len());
    same!(v.element_type_id(), TypeId::of::<T>(), "{}: element type", what);
    let n = m.len();
    macro_rules! some { ($e:expr, $w:expr) => { match $e { Some(x) => x, None => fail!("{}: {} refused the right type", what, $w) } } }
    macro_rules! each { ($it:expr, $w:expr) => {{
        let mut c = 0;
        for (i, e) in $it.enumerate() {
            if i >= n { fail!("{}: {} yields more than {} elements", what, $w, n) }
            same!(e.key(), T::norm(m[i]), "{}: element {} of {} ({})", what, i, n, $w);
            c += 1;
        }
        same!(c, n, "{}: number of elements by {}", what, $w);
    }} }
    match path % 13 {
        0 => same_elems(some!(v.as_slice_as::<T>(), "as_slice_as"), m, what),
        1 => each!(v.iter().map(|e| some!(e.downcast::<T>(), "downcast")), "iter"),
        2 => each!(v.iter_mut().map(|e| some!(e.downcast::<T>(), "downcast")), "iter_mut"),
        3 => each!((0..n).map(|i| some!(v.get_ref(i).downcast::<T>(), "downcast")), "get_ref"),
        4 => each!((0..n).map(|i| some!(v.get_as::<T>(i), "get_as")), "get_as"),
        5 => each!((0..n).map(|i| some!(v.get_ref_as::<T>(i), "get_ref_as")), "get_ref_as"),
        6 => each!(some!(v.iter_as::<T>(), "iter_as"), "iter_as"),
        7 => each!(some!(v.iter_mut_as::<T>(), "iter_mut_as"), "iter_mut_as"),
        8 => same_elems(some!(v.as_mut_slice_as::<T>(), "as_mut_slice_as"), m, what),
        9 => {
            let s = v.as_slice();
            same!(s.len(), n, "{}: view length", what);
            each!(some!(s.iter_as::<T>(), "view iter_as"), "view iter_as");
            each!((0..n).map(|i| some!(s.get_as::<T>(i), "view get_as")), "view get_as");
        }
        10 => {
            let mut s = v.as_mut_slice();
            same!(s.len(), n, "{}: mutable view length", what);
            same_elems(some!(s.as_slice::<T>(), "mutable view as_slice"), m, what)
        }
        11 => same_elems(&some!(v.copy_into_vec::<T>(), "copy_into_vec"), m, what),
        _ => {
            let c = some!(v.check_ref::<T>(), "check_ref");
            each!((0..n).map(|i| unsafe { c.get_unchecked_ref::<T>(i) }), "get_unchecked_ref")
        }
    }
}

impl<T: CEl, F: CEl, V: Clone + VTable<T> + VTable<F> + 'static> CW<T, F, V> {
    pub fn new() -> Self {
        CW { vs: vec![], fs: vec![], _m: Default::default() }
    }
    pub fn fresh(r: &mut Rng) -> (VecCopy<V>, Vec<u64>) {
        let n = r.size();
        let m = keys(r, n);
        match r.below(8) {
            0 => {
                t!("with_type");
                (VecCopy::with_type::<T>(), vec![])
            }
            1 => {
                t!("with_capacity({})", n);
                (VecCopy::with_capacity::<T>(n), vec![])
            }
            2 => {
                t!("from_vec({})", n);
                let mut s = Vec::with_capacity(n + r.below(5));
                s.extend(m.iter().map(|k| T::mk(*k)));
                (VecCopy::from_vec(s), m)
            }
            3 => {
                t!("From<Vec>({})", n);
                (typed::<T>(&m).into(), m)
            }
            4 => {
                t!("from_slice({})", n);
                (VecCopy::from_slice(&typed::<T>(&m)), m)
            }
            5 => {
                t!("From<&[T]>({})", n);
                (VecCopy::from(typed::<T>(&m).as_slice()), m)
            }
            6 if n > 0 => {
                t!("collect({})", n);
                let s = typed::<T>(&m);
                (hinted(r, s.iter()).map(|e| CopyValueRef::<V>::new(e)).collect(), m)
            }
            _ => {
                t!("with_size({})", n);
                let k = r.key();
                (VecCopy::with_size::<T>(n, T::mk(k)), vec![k; n])
            }
        }
    }
    fn some(&mut self, r: &mut Rng) -> usize {
        if self.vs.is_empty() {
            let v = Self::fresh(r);
            self.vs.push(v);
        }
        r.below(self.vs.len())
    }
    fn foreign(&mut self, r: &mut Rng) -> usize {
        if self.fs.is_empty() {
            let n = r.below(6);
            let m = keys(r, n);
            t!("foreign({})", n);
            self.fs.push((typed::<F>(&m).into(), m));
        }
        0
    }
    pub fn verify(&mut self, r: &mut Rng) {
        let p = r.below(13);
        for (i, (v, m)) in self.vs.iter_mut().enumerate() {
            verify_copy::<T, V>(v, m, p + i, "vector");
        }
        for (v, m) in self.fs.iter_mut() {
            verify_copy::<F, V>(v, m, p, "foreign vector");
        }
    }
    pub fn step(&mut self, r: &mut Rng, mix: &Mix) {
        let groups = [mix.construct, mix.add, mix.bulk, mix.access, mix.refs, mix.views, mix.convert, mix.mismatch, mix.refuse];
        let mut x = r.below(groups.iter().sum());
        let mut g = 0;
        while x >= groups[g] {
            x -= groups[g];
            g += 1;
        }
        match g {
            0 => self.construct(r),
            1 => self.add(r),
            2 => self.bulk(r),
            3 | 4 => self.access(r),
            5 => self.views(r),
            6 => self.convert(r),
            7 => self.mismatch(r),
            _ => self.refuse(r),
        }
    }
    fn construct(&mut self, r: &mut Rng) {
        count("construct");
        if self.vs.len() >= 3 {
            let i = r.below(self.vs.len());
            t!("drop v{}", i);
            self.vs.swap_remove(i);
            return;
        }
        let i = self.some(r);
        match r.below(4) {
            0 => {
                let how = r.below(5);
                t!("with_type_from {} of v{}", how, i);
                let n = self.vs[i].1.len();
                let v = &mut self.vs[i].0;
                let new = match how {
                    0 => VecCopy::with_type_from(&*v),
                    1 => VecCopy::with_type_from(v.as_slice()),
                    2 => VecCopy::with_type_from(v.as_mut_slice()),
                    3 if n > 0 => VecCopy::with_type_from(v.get_ref(r.below(n))),
                    _ => {
                        let s = typed::<T>(&[1, 2]);
                        VecCopy::with_type_from(SliceCopy::<V>::from_slice(&s))
                    }
                };
                self.vs.push((new, vec![]));
            }
            1 => {
                t!("clone v{}", i);
                let c = self.vs[i].clone();
                self.vs.push(c);
            }
            2 => {
                let n = self.vs[i].1.len();
                if n > 0 {
                    t!("collect v{}", i);
                    let skip = r.below(n);
                    let c: VecCopy<V> = match r.below(3) {
                        0 => self.vs[i].0.iter().skip(skip).collect(),
                        1 => self.vs[i].0.as_slice().subslice(skip..).iter().collect(),
                        _ => {
                            let v = &self.vs[i].0;
                            hinted(r, skip..n).map(|j| v.get_ref(j)).collect()
                        }
                    };
                    let m = self.vs[i].1[skip..].to_vec();
                    self.vs.push((c, m));
                }
            }
            _ => {
                let v = Self::fresh(r);
                self.vs.push(v);
            }
        }
    }
    fn add(&mut self, r: &mut Rng) {
        count("add");
        let i = self.some(r);
        let reps = if r.chance(1, 8) { r.range(2, 20) } else { 1 };
        for _ in 0..reps {
            let how = r.below(7);
            let k = r.key();
            t!("push{} v{}", how, i);
            let nv = self.vs.len();
            if how == 5 && nv > 1 {
                let j = (i + 1) % nv;
                if self.vs[j].1.is_empty() {
                    continue;
                }
                let e = r.below(self.vs[j].1.len());
                let (a, b) = two(&mut self.vs, i, j);
                if r.flip() {
                    ensure!(a.0.push(b.0.get_ref(e)).is_some(), "push refused the right type");
                } else {
                    ensure!(a.0.push(CopyValueRef::from(b.0.get_mut(e))).is_some(), "push refused the right type");
                }
                a.1.push(b.1[e]);
                continue;
            }
            if how == 6 && nv > 1 {
                let j = (i + 1) % nv;
                let (a, b) = two(&mut self.vs, i, j);
                if r.flip() {
                    a.0.extend(b.0.iter());
                } else {
                    a.0.extend(hinted(r, 0..b.1.len()).map(|j| b.0.get_ref(j)));
                }
                let mut bm = b.1.clone();
                a.1.append(&mut bm);
                continue;
            }
            let (v, m) = &mut self.vs[i];
            match how {
                3 => {
                    let e = T::mk(k);
                    ensure!(v.push(CopyValueRef::<V>::new(&e)).is_some(), "push refused the right type");
                }
                4 => {
                    // A reference with another table.
                    let e = T::mk(k);
                    ensure!(v.push(CopyValueRef::<()>::new(&e)).is_some(), "push refused the right type");
                }
                5 => {
                    let mut n = r.size();
                    if !cfg!(miri) && r.below(4000) == 0 {
                        n = r.range(2000, 70_000);
                    }
                    let ks = keys(r, n);
                    let s = typed::<T>(&ks);
                    if r.flip() {
                        v.extend(SliceCopy::<V>::from_slice(&s).iter());
                    } else {
                        v.extend(hinted(r, s.iter()).map(|e| CopyValueRef::<V>::new(e)));
                    }
                    m.extend(ks);
                    continue;
                }
                _ => {
                    ensure!(v.push_as(T::mk(k)).is_some(), "push_as refused the right type");
                }
            }
            m.push(k);
        }
    }
    fn bulk(&mut self, r: &mut Rng) {
        count("bulk");
        let i = self.some(r);
        let how = r.below(10);
        if how < 2 {
            if self.vs.len() < 2 {
                let v = Self::fresh(r);
                self.vs.push(v);
            }
            let j = (i + 1 + r.below(self.vs.len() - 1)) % self.vs.len();
            t!("append v{} <- v{}", i, j);
            let (a, b) = two(&mut self.vs, i, j);
            ensure!(a.0.append(&mut b.0).is_some(), "append refused the right type");
            let mut bm = std::mem::take(&mut b.1);
            a.1.append(&mut bm);
            ensure!(b.0.is_empty(), "append left {} elements in the source", b.0.len());
            return;
        }
        let k = r.key();
        let (v, m) = &mut self.vs[i];
        match how {
            2 | 3 => {
                let n = r.size();
                t!("resize v{} {} -> {}", i, m.len(), n);
                ensure!(v.resize(n, T::mk(k)).is_some(), "resize refused the right type");
                m.resize(n, k);
            }
            4 => {
                t!("fill v{}", i);
                ensure!(v.fill(T::mk(k)).is_some(), "fill refused the right type");
                m.fill(k);
            }
            5 => {
                t!("clear v{}", i);
                v.clear();
                m.clear();
            }
            6 => {
                let n = r.below(m.len() + 1);
                t!("rotate_left v{} {}", i, n);
                v.rotate_left(n);
                m.rotate_left(n);
            }
            7 => {
                let n = r.below(m.len() + 1);
                t!("rotate_right v{} {}", i, n);
                v.rotate_right(n);
                m.rotate_right(n);
            }
            8 => {
                let n = r.size() * 3;
                t!("reserve v{} {}", i, n);
                v.reserve(n);
                ensure!(v.capacity() >= m.len() + n, "reserve({}) gave capacity {} for {} elements", n, v.capacity(), m.len());
            }
            _ => {
                t!("copy_from_slice v{}", i);
                let ks = keys(r, m.len());
                let s = typed::<T>(&ks);
                ensure!(v.copy_from_slice(&s).is_some(), "copy_from_slice refused the right type");
                *m = ks;
            }
        }
    }
    fn access(&mut self, r: &mut Rng) {
        count("access");
        let i = self.some(r);
        let nv = self.vs.len();
        let n = self.vs[i].1.len();
        if n == 0 {
            return;
        }
        let e = r.below(n);
        let k = r.key();
        let how = r.below(12);
        t!("write{} v{}[{}]", how, i, e);
        if how == 8 && nv > 1 {
            let j = (i + 1) % nv;
            if self.vs[j].1.is_empty() {
                return;
            }
            let f = r.below(self.vs[j].1.len());
            let (a, b) = two(&mut self.vs, i, j);
            a.0.get_mut(e).swap(&mut b.0.get_mut(f));
            std::mem::swap(&mut a.1[e], &mut b.1[f]);
            return;
        }
        let (v, m) = &mut self.vs[i];
        match how {
            0 => *v.get_mut_as::<T>(e).unwrap_or_else(|| fail!("get_mut_as refused")) = T::mk(k),
            1 => *v.iter_mut_as::<T>().unwrap_or_else(|| fail!("iter_mut_as refused")).nth(e).unwrap() = T::mk(k),
            2 => v.as_mut_slice_as::<T>().unwrap_or_else(|| fail!("as_mut_slice_as refused"))[e] = T::mk(k),
            3 => *v.get_mut(e).downcast::<T>().unwrap_or_else(|| fail!("downcast refused")) = T::mk(k),
            4 => {
                let x = T::mk(k);
                ensure!(v.get_mut(e).copy(CopyValueRef::new(&x)).is_some(), "copy refused the right type");
            }
            5 => {
                for (x, el) in v.iter_mut().enumerate() {
                    let k2 = k.wrapping_add(x as u64 * 0x1234567);
                    *el.downcast::<T>().unwrap_or_else(|| fail!("downcast refused")) = T::mk(k2);
                    m[x] = k2;
                }
                return;
            }
            6 => {
                let f = r.below(n);
                if e == f {
                    return;
                }
                let mut refs: Vec<Option<CopyValueMut<V>>> = v.iter_mut().map(Some).collect();
                let mut a = refs[e].take().unwrap();
                let mut b = refs[f].take().unwrap();
                a.swap(&mut b);
                m.swap(e, f);
                return;
            }
            7 => {
                let mut x = T::mk(k);
                v.get_mut(e).swap(&mut CopyValueMut::new(&mut x));
                same!(x.key(), T::norm(m[e]), "swapped out");
            }
            9 => {
                let Some(c) = v.check_mut::<T>() else { fail!("check_mut refused the right type") };
                unsafe { *c.get_unchecked_mut::<T>(e) = T::mk(k) };
            }
            10 => {
                let mut g = v.get_mut(e);
                same!(g.size(), size_of::<T>(), "reference size");
                same!(g.value_alignment(), align_of::<T>(), "reference alignment");
                same!(g.value_type_id(), TypeId::of::<T>(), "reference type");
                ensure!(g.is::<T>(), "is()");
                struct Up;
                impl<V> From<V> for UpT<V> {
                    fn from(v: V) -> Self {
                        UpT(v)
                    }
                }
                struct UpT<V>(V);
                *g.upcast::<UpT<V>>().downcast::<T>().unwrap_or_else(|| fail!("downcast refused")) = T::mk(k);
            }
            _ => {
                let g = v.get_ref(e);
                same!(g.size(), size_of::<T>(), "reference size");
                same!(g.value_alignment(), align_of::<T>(), "reference alignment");
                same!(g.value_type_id(), TypeId::of::<T>(), "reference type");
                let h = g.clone();
                same!(h.downcast::<T>().unwrap_or_else(|| fail!("downcast refused")).key(), T::norm(m[e]), "cloned reference");
                same!(g.downcast::<T>().unwrap_or_else(|| fail!("downcast refused")).key(), T::norm(m[e]), "reference");
                return;
            }
        }
        m[e] = k;
    }
    fn views(&mut self, r: &mut Rng) {
        count("views");
        let i = self.some(r);
        let (v, m) = &mut self.vs[i];
        let n = m.len();
        let a = r.below(n + 1);
        let b = r.range(a, n);
        let k = r.key();
        let how = r.below(13);
        t!("view{} v{}[{}..{}]/{}", how, i, a, b, n);
        match how {
            0 if n > 0 => {
                let (x, y) = (r.below(n), r.below(n));
                v.as_mut_slice().swap(x, y);
                m.swap(x, y);
            }
            1 => {
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(a..b);
                let k = r.below(b - a + 1);
                s.rotate_left(k);
                m[a..b].rotate_left(k);
            }
            2 => {
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(a..);
                let k = r.below(n - a + 1);
                s.rotate_right(k);
                m[a..].rotate_right(k);
            }
            3 => {
                let ks = keys(r, b - a);
                let src = typed::<T>(&ks);
                let mut s = v.as_mut_slice().into_subslice(a..b);
                ensure!(s.copy_from_slice(&src).is_some(), "copy_from_slice refused the right type");
                m[a..b].copy_from_slice(&ks);
            }
            4 => {
                let mut s = v.as_mut_slice();
                let (mut l, mut rr) = s.split_at(a);
                same!(l.len(), a, "left half");
                same!(rr.len(), n - a, "right half");
                if a > 0 && n > a {
                    let (x, y) = (r.below(a), r.below(n - a));
                    l.get_mut(x).swap(&mut rr.get_mut(y));
                    m.swap(x, a + y);
                }
            }
            5 => {
                let c = r.range(1, 4);
                let mut cnt = 0;
                for (ci, mut ch) in v.as_mut_slice().chunks_exact_mut(c).enumerate() {
                    same!(ch.len(), c, "chunk length");
                    *ch.get_as::<T>(c - 1).unwrap() = T::mk(k ^ ci as u64);
                    m[ci * c + c - 1] = k ^ ci as u64;
                    cnt += 1;
                }
                same!(cnt, n / c, "number of chunks of {} elements", c);
            }
            6 => {
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(..b);
                for (x, e) in s.iter().enumerate() {
                    *e.downcast::<T>().unwrap() = T::mk(k ^ x as u64);
                    m[x] = k ^ x as u64;
                }
            }
            7 => same_elems(&v.as_slice().into_subslice(a..b).copy_into_vec::<T>().unwrap_or_else(|| fail!("copy_into_vec refused")), &m[a..b], "view copy_into_vec"),
            8 => same_elems(&v.as_mut_slice().into_subslice(a..b).copy_into_vec::<T>().unwrap_or_else(|| fail!("copy_into_vec refused")), &m[a..b], "view copy_into_vec"),
            9 => {
                for (x, e) in v.as_mut_slice().into_subslice(a..).into_iter().enumerate() {
                    *e.downcast::<T>().unwrap() = T::mk(k ^ x as u64);
                    m[a + x] = k ^ x as u64;
                }
            }
            10 => {
                let s = v.as_slice();
                let s = s.subslice(a..b);
                let np = if r.flip() { r.below(3) } else { r.size() };
                let pre = keys(r, np);
                let mut out = typed::<T>(&pre);
                ensure!(s.append_copy_to_vec(&mut out).is_some(), "append_copy_to_vec refused");
                same_elems(&out, &[&pre[..], &m[a..b]].concat(), "view append_copy_to_vec");
            }
            11 => {
                let mut s = v.as_mut_slice();
                let mut s2 = s.reborrow_mut().into_subslice(a..b);
                for (x, e) in s2.iter_as::<T>().unwrap_or_else(|| fail!("iter_as refused")).enumerate() {
                    *e = T::mk(k ^ x as u64);
                    m[a + x] = k ^ x as u64;
                }
            }
            _ => {
                let mut s = v.as_mut_slice();
                if n > 0 {
                    let e = r.below(n);
                    *s.get_mut(e).downcast::<T>().unwrap_or_else(|| fail!("downcast refused")) = T::mk(k);
                    m[e] = k;
                    same!(s.get(e).downcast::<T>().unwrap().key(), T::norm(k), "get");
                    same!(s.reborrow().get_as::<T>(e).unwrap().key(), T::norm(k), "reborrow get_as");
                }
            }
        }
    }
    fn convert(&mut self, r: &mut Rng) {
        count("convert");
        let i = self.some(r);
        let (v, m) = self.vs.swap_remove(i);
        let how = r.below(6);
        t!("convert{} v{}", how, i);
        let v = match how {
            0 | 1 => {
                let Some(out) = v.into_vec::<T>() else { fail!("into_vec refused the right type") };
                same_elems(&out, &m, "into_vec");
                VecCopy::from_vec(out)
            }
            2 => {
                let (data, vt) = v.into_raw_parts();
                for (i, b) in data.byte_chunks().enumerate() {
                    same!(b.len(), size_of::<T>(), "byte chunk {}", i);
                    same!(unsafe { &*(b.as_ptr() as *const T) }.key(), T::norm(m[i]), "byte chunk {}", i);
                    same!(data.get_bytes(i).as_ptr(), b.as_ptr(), "get_bytes({})", i);
                }
                same!(data.byte_chunks().count(), m.len(), "number of byte chunks");
                unsafe { VecCopy::from_raw_parts(data, vt) }
            }
            3 => {
                let Some(v) = v.check::<T>() else { fail!("check refused the right type") };
                v
            }
            4 => {
                let np = if r.flip() { r.below(3) } else { r.size() };
                let pre = keys(r, np);
                let mut out = typed::<T>(&pre);
                ensure!(v.append_copy_to_vec(&mut out).is_some(), "append_copy_to_vec refused");
                same_elems(&out, &[&pre[..], &m[..]].concat(), "append_copy_to_vec");
                v
            }
            _ => {
                let o: Option<Vec<T>> = v.clone().into();
                same_elems(&o.unwrap_or_else(|| fail!("Option::from refused")), &m, "Option::from");
                v
            }
        };
        self.vs.push((v, m));
    }
    fn mismatch(&mut self, r: &mut Rng) {
        count("mismatch");
        let i = self.some(r);
        let f = self.foreign(r);
        let k = r.key();
        let how = r.below(20);
        t!("mismatch{} v{}", how, i);
        macro_rules! refused { ($e:expr, $w:expr) => { ensure!($e.is_none(), "{} accepted a foreign type", $w) } }
        let same_size = size_of::<T>() == size_of::<F>();
        let n = self.vs[i].1.len();
        let v = &mut self.vs[i].0;
        let fv = &mut self.fs[f];
        match how {
            0 => refused!(v.push_as(F::mk(k)), "push_as"),
            1 => {
                // Reported as a mismatch, or (documented) by a panic if the sizes differ.
                let x = F::mk(k);
                if let Some(r) = may_panic(|| v.push(CopyValueRef::<V>::new(&x)).is_some()) {
                    ensure!(!r, "push accepted a foreign type");
                } else {
                    ensure!(!same_size, "push panicked: {}", last_panic());
                }
            }
            2 => refused!(v.resize(r.size(), F::mk(k)), "resize"),
            3 => refused!(v.fill(F::mk(k)), "fill"),
            4 if n > 0 => {
                let e = r.below(n);
                refused!(v.get_ref_as::<F>(e), "get_ref_as");
                refused!(v.get_as::<F>(e), "get_as");
                refused!(v.get_mut_as::<F>(e), "get_mut_as");
                refused!(v.get_ref(e).downcast::<F>(), "downcast");
                refused!(v.get_mut(e).downcast::<F>(), "downcast");
                refused!(v.as_slice().get_as::<F>(e), "view get_as");
                refused!(v.as_mut_slice().get_as::<F>(e), "mutable view get_as");
                ensure!(!v.get_ref(e).is::<F>(), "is::<foreign>()");
                ensure!(!v.get_mut(e).is::<F>(), "is::<foreign>()");
            }
            5 => {
                refused!(v.iter_as::<F>(), "iter_as");
                refused!(v.iter_mut_as::<F>(), "iter_mut_as");
            }
            6 => {
                refused!(v.as_slice_as::<F>(), "as_slice_as");
                refused!(v.as_mut_slice_as::<F>(), "as_mut_slice_as");
            }
            7 => {
                refused!(v.check_ref::<F>(), "check_ref");
                refused!(v.check_mut::<F>(), "check_mut");
                refused!(v.clone().check::<F>(), "check");
            }
            8 => {
                let (v, _) = self.vs.swap_remove(i);
                refused!(v.into_vec::<F>(), "into_vec");
            }
            9 => {
                let o: Option<Vec<F>> = v.clone().into();
                refused!(o, "Option::from");
            }
            10 => {
                refused!(v.append(&mut fv.0), "append");
                refused!(fv.0.append(v), "append");
            }
            11 => {
                let src = typed::<F>(&keys(r, n));
                refused!(v.copy_from_slice(&src), "copy_from_slice");
                refused!(v.as_mut_slice().copy_from_slice(&src), "view copy_from_slice");
            }
            12 if n > 0 && !fv.1.is_empty() => {
                let e = r.below(n);
                let g = r.below(fv.1.len());
                v.get_mut(e).swap(&mut fv.0.get_mut(g));
                refused!(v.get_mut(e).copy(fv.0.get_ref(g)), "copy");
                refused!(fv.0.get_mut(g).copy(v.get_ref(e)), "copy");
            }
            13 => {
                refused!(v.copy_into_vec::<F>(), "copy_into_vec");
                let mut out = vec![F::mk(k)];
                refused!(v.append_copy_to_vec(&mut out), "append_copy_to_vec");
                same_elems(&out, &[k], "target of a refused append_copy_to_vec");
            }
            14 => {
                let s = v.as_slice();
                refused!(s.as_slice::<F>(), "view as_slice");
                refused!(s.iter_as::<F>(), "view iter_as");
                refused!(s.check::<F>(), "view check");
                refused!(s.copy_into_vec::<F>(), "view copy_into_vec");
                ensure!(s.check::<T>().is_some(), "view check refused the right type");
            }
            15 => {
                let mut s = v.as_mut_slice();
                refused!(s.as_slice::<F>(), "mutable view as_slice");
                refused!(s.iter_as::<F>(), "mutable view iter_as");
                refused!(s.check::<F>(), "mutable view check");
                ensure!(s.check::<T>().is_some(), "mutable view check refused the right type");
                refused!(s.copy_into_vec::<F>(), "mutable view copy_into_vec");
            }
            16 if !fv.1.is_empty() => {
                // Refused by a panic, with the elements before the mismatch (none) added.
                must_panic(format_args!("extend with foreign elements"), || v.extend(fv.0.iter()));
            }
            _ => {
                if !fv.1.is_empty() && same_size {
                    refused!(v.push(fv.0.get_ref(0)), "push");
                }
            }
        }
    }
    fn refuse(&mut self, r: &mut Rng) {
        count("refuse");
        let i = self.some(r);
        let (v, m) = &mut self.vs[i];
        let n = m.len();
        let es = size_of::<T>();
        let bad = match r.below(5) {
            0 => n,
            1 => n + 1 + r.below(8),
            2 => usize::MAX,
            3 => (usize::MAX / es).saturating_add(1),
            _ => (usize::MAX / 2 + 1) / es + r.below(3),
        };
        let past = bad.max(n + 1);
        let how = r.below(13);
        t!("refuse{} v{} {}", how, i, bad);
        match how {
            0 => must_panic(format_args!("get_ref({}) of {}", bad, n), || drop(v.get_ref(bad))),
            1 => must_panic(format_args!("get_mut({}) of {}", bad, n), || drop(v.get_mut(bad))),
            2 => must_panic(format_args!("get_ref_as({}) of {}", bad, n), || v.get_ref_as::<T>(bad).is_some()),
            3 => must_panic(format_args!("get_mut_as({}) of {}", bad, n), || v.get_mut_as::<T>(bad).is_some()),
            4 => must_panic(format_args!("get_as({}) of {}", bad, n), || v.get_as::<T>(bad).is_some()),
            5 => must_panic(format_args!("rotate_left({}) of {}", past, n), || v.rotate_left(past)),
            6 => must_panic(format_args!("rotate_right({}) of {}", past, n), || v.rotate_right(past)),
            7 => must_panic(format_args!("split_at({}) of {}", past, n), || v.as_slice().split_at(past).0.len()),
            8 => must_panic(format_args!("subslice(..{}) of {}", past, n), || v.as_mut_slice().subslice_mut(..past).len()),
            9 => must_panic(format_args!("view get({}) of {}", bad, n), || drop(v.as_slice().get(bad))),
            10 => must_panic(format_args!("view get_mut({}) of {}", bad, n), || drop(v.as_mut_slice().get_mut(bad))),
            11 => {
                let src = typed::<T>(&keys(r, n + 1 + r.clone().below(3)));
                must_panic(format_args!("view copy_from_slice of another length"), || v.as_mut_slice().copy_from_slice(&src).is_some());
            }
            _ => {
                if n > 0 {
                    let src = typed::<T>(&keys(r, n - 1));
                    must_panic(format_args!("view copy_from_slice of another length"), || v.as_mut_slice().copy_from_slice(&src).is_some());
                }
            }
        }
    }
}

pub fn copy_history<T: CEl, F: CEl, V: Clone + VTable<T> + VTable<F> + 'static>(r: &mut Rng, mix: &Mix) {
    let mut w = CW::<T, F, V>::new();
    let steps = r.range(1, mix.steps * 2);
    let wild = r.flip();
    for _ in 0..steps {
        w.step(r, mix);
        if wild || r.chance(1, 4) {
            w.verify(r);
        }
    }
    w.verify(r);
    w.verify(r);
    t!("end");
}
