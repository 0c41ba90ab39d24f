//! Directed ownership checks: every place that takes, refuses, hands back or destroys a value.
use crate::el::El;
use crate::ledger;
use crate::report::*;
use crate::vt::*;
use crate::{ensure, same, t};
use dync::traits::*;
use dync::*;

fn mk<T: El>(n: usize) -> Vec<T> {
    (0..n as u64).map(|i| T::mk(i * 7 + 1)).collect()
}

/// Live tracked elements, and a check of how many are expected.
pub fn live(n: usize, what: &str) {
    same!(ledger::live(), n as u64, "elements alive after {}", what);
}

/// All the ways a value can go; `T` and `F` tracked, of different types.
pub fn directed<T: El, F: El, V>(r: &mut Rng, case: u64)
where
    V: Vt + VTable<T> + VTable<F> + Into<DropVTable> + Into<CloneVTable>,
    DropVTable: From<V>,
    CloneVTable: From<V>,
{
    assert!(T::TRACKED && F::TRACKED);
    let n = (case % 5) as usize;
    let spare = r.below(3);
    let vec = |n: usize| -> VecDyn<V> {
        let mut v = Vec::with_capacity(n + spare);
        v.extend(mk::<T>(n));
        v.into()
    };
    let how = case / 5;
    t!("own{} n={}", how, n);
    let none = |b: bool, w: &str| ensure!(b, "{}: accepted a foreign type", w);
    let word = std::mem::size_of::<T>() == std::mem::size_of::<usize>();
    match how % OWN_CASES {
        0 => {
            let v = vec(n);
            live(n, "from_vec");
            drop(v);
            live(0, "drop of a vector");
        }
        1 => {
            let mut v = vec(n);
            v.clear();
            live(0, "clear");
            v.push_as(T::mk(1)).unwrap();
            live(1, "push after clear");
        }
        2 => {
            let v = vec(n);
            none(v.into_vec::<F>().is_none(), "into_vec");
            live(0, "a refused into_vec");
        }
        3 => {
            let v = vec(n);
            none(v.check::<F>().is_none(), "check");
            live(0, "a refused check");
        }
        4 => {
            let mut v = vec(n);
            none(v.push_as(F::mk(1)).is_none(), "push_as");
            live(n, "a refused push_as");
        }
        5 => {
            let mut v = vec(n);
            none(v.push(BoxValue::<V>::new(F::mk(1))).is_none(), "push");
            live(n, "a refused push");
        }
        6 => {
            let mut v = vec(n);
            none(v.resize(n + 3, F::mk(1)).is_none(), "resize");
            none(v.fill(F::mk(1)).is_none(), "fill");
            live(n, "refused resize and fill");
        }
        7 => {
            let mut v = vec(n);
            for m in [n + 3, n, 1, 0, 2] {
                v.resize(m, T::mk(2)).unwrap();
                live(m, "resize");
            }
        }
        8 => {
            let mut v = vec(n);
            v.fill(T::mk(9)).unwrap();
            live(n, "fill");
        }
        9 => {
            let mut a = vec(n);
            let mut b = vec(n + 1);
            a.append(&mut b).unwrap();
            live(2 * n + 1, "append");
            drop(b);
            live(2 * n + 1, "dropping the emptied source");
            drop(a);
            live(0, "dropping the target");
        }
        10 => {
            let mut a = vec(n);
            let mut b: VecDyn<V> = mk::<F>(2).into();
            none(a.append(&mut b).is_none(), "append");
            live(n + 2, "a refused append");
        }
        11 => {
            let a = vec(n);
            let c = a.clone();
            live(2 * n, "clone");
            drop(a);
            live(n, "dropping the original");
            drop(c);
            live(0, "dropping the clone");
        }
        12 => {
            let a = vec(n);
            let out: Vec<T> = a.into_vec().unwrap();
            live(n, "into_vec");
            drop(out);
            live(0, "dropping the typed vector");
        }
        13 => {
            let b = BoxValue::<V>::new(T::mk(3));
            let c = b.clone();
            live(2, "clone of a boxed value");
            drop(b);
            live(1, "dropping a boxed value");
            let x: Box<T> = c.downcast().unwrap();
            live(1, "downcast of a boxed value");
            drop(x);
            live(0, "dropping the box");
        }
        14 => {
            let b = BoxValue::<V>::new(T::mk(3));
            none(b.downcast::<F>().is_none(), "downcast");
            live(0, "a refused downcast of a boxed value");
        }
        15 if word => {
            let b = SmallValue::<V>::new(T::mk(3));
            let c = b.clone();
            live(2, "clone of a small value");
            none(b.downcast::<F>().is_none(), "downcast");
            live(1, "a refused downcast of a small value");
            let x: T = c.downcast().unwrap();
            live(1, "downcast of a small value");
            drop(x);
            live(0, "dropping the value");
        }
        15 => {
            ensure!(SmallValue::<V>::try_new(T::mk(3)).is_none(), "SmallValue accepted a value of size {}", std::mem::size_of::<T>());
            live(0, "a refused small value");
            must_panic(format_args!("SmallValue::new of size {}", std::mem::size_of::<T>()), || SmallValue::<V>::new(T::mk(3)));
            live(0, "a refused small value");
        }
        16 => {
            let mut v = vec(n + 1);
            v.get_mut(0).assign(BoxValue::<V>::new(T::mk(5)));
            live(n + 1, "assign");
            v.get_mut(0).assign(BoxValue::<V>::new(F::mk(5)));
            live(n + 1, "a refused assign");
            if word {
                v.get_mut(0).assign(SmallValue::<V>::new(T::mk(5)));
                live(n + 1, "assign of a small value");
            }
            if std::mem::size_of::<F>() == std::mem::size_of::<usize>() {
                v.get_mut(0).assign(SmallValue::<V>::new(F::mk(5)));
                live(n + 1, "a refused assign of a small value");
            }
        }
        17 => {
            let mut v = vec(n + 1);
            let mut b = BoxValue::<V>::new(T::mk(5));
            let c = ledger::counts();
            v.get_mut(n).swap(&mut b.as_mut());
            same!(ledger::counts(), c, "element code run by swap");
            live(n + 2, "swap");
            drop(v);
            live(1, "dropping the vector after a swap");
            same!(b.as_ref().downcast::<T>().unwrap().key(), T::norm(n as u64 * 7 + 1), "value swapped out");
        }
        18 => {
            let mut v = vec(n + 1);
            let b = BoxValue::<V>::new(T::mk(5));
            v.get_mut(0).clone_from_other(&b).unwrap();
            live(n + 2, "clone_from_other");
            let f = BoxValue::<V>::new(F::mk(5));
            ensure!(v.get_mut(0).clone_from_other(&f).is_err(), "clone_from_other accepted a foreign type");
            live(n + 3, "a refused clone_from_other");
        }
        19 => {
            let v = vec(n);
            let (data, vt) = v.into_raw_parts();
            live(n, "into_raw_parts");
            let v: VecDyn<V> = unsafe { VecDyn::from_raw_parts(data, vt) };
            live(n, "from_raw_parts");
            drop(v);
            live(0, "dropping the reassembled vector");
        }
        20 => {
            let w = vec(n).upcast::<DropVTable>();
            live(n, "upcast");
            let v = vec(n).upcast::<CloneVTable>().clone();
            live(2 * n, "clone and upcast");
            drop(v);
            live(n, "dropping one of them");
            drop(w);
            live(0, "dropping the other");
        }
        21 => {
            let b = BoxValue::<V>::new(T::mk(3)).upcast::<CloneVTable>();
            let mut v = vec(n);
            live(n + 1, "upcast of a value");
            v.push(b).unwrap();
            live(n + 1, "push of an upcast value");
            drop(v);
            live(0, "dropping the vector");
        }
        22 => {
            let mut v = vec(n);
            let b = BoxValue::<V>::new(T::mk(3));
            v.push_cloned(b.as_ref()).unwrap();
            live(n + 2, "push_cloned");
            let f = BoxValue::<V>::new(F::mk(3));
            none(v.push_cloned(f.as_ref()).is_none(), "push_cloned");
            live(n + 3, "a refused push_cloned");
        }
        23 => {
            let src = mk::<T>(n);
            let v: VecDyn<V> = VecDyn::from_slice(&src);
            live(2 * n, "from_slice");
            let w: VecDyn<V> = VecDyn::with_size::<T>(n, T::mk(0));
            live(3 * n, "with_size");
            drop((v, w));
            live(n, "dropping them");
        }
        24 => {
            let v = vec(n);
            let mut out = mk::<T>(1);
            v.append_cloned_to_vec(&mut out).unwrap();
            live(2 * n + 1, "append_cloned_to_vec");
            let mut out2 = mk::<F>(1);
            none(v.append_cloned_to_vec(&mut out2).is_none(), "append_cloned_to_vec");
            none(v.clone_into_vec::<F>().is_none(), "clone_into_vec");
            live(2 * n + 2, "refused conversions");
        }
        25 => {
            let mut v = vec(n + 2);
            let src = mk::<T>(n + 1);
            {
                let mut s = v.as_mut_slice();
                let mut s = s.subslice_mut(1..);
                s.clone_from_slice(&src).unwrap();
            }
            live(2 * n + 3, "clone_from_slice");
            must_panic(format_args!("clone_from_slice of another length"), || v.as_mut_slice().clone_from_slice(&src).is_some());
            live(2 * n + 3, "a refused clone_from_slice");
        }
        26 => {
            // Views never own.
            let mut a = mk::<T>(n + 1);
            let c = ledger::counts();
            {
                let s = Slice::<V>::from_slice(&a);
                let _ = s.reborrow().into_subslice(..n);
                let _: Vec<_> = s.iter().collect();
                let _: Vec<_> = s.chunks_exact(2).collect();
                let _ = s.split_at(n);
                let _ = s.upcast::<DropVTable>();
            }
            {
                let mut s = SliceMut::<V>::from_slice(&mut a);
                s.rotate_left(n / 2);
                s.swap(0, n);
                let _: Vec<_> = s.iter().collect();
                let _: Vec<_> = s.chunks_exact_mut(2).collect();
                let (l, rr) = s.split_at(n);
                drop((l, rr));
                let _ = s.upcast::<DropVTable>();
            }
            {
                let mut x = a.remove(0);
                let _ = ValueRef::<V>::new(&x);
                let m = ValueMut::<V>::new(&mut x);
                let _ = m.upcast::<DropVTable>();
                a.push(x);
            }
            same!(ledger::counts(), c, "element code run by views");
            live(n + 1, "using views");
        }
        27 => {
            // Values in a typed collection.
            let mut v: Vec<BoxValue<V>> = (0..n as u64).map(|i| BoxValue::new(T::mk(i))).collect();
            v.extend((0..2).map(|i| BoxValue::new(F::mk(i))));
            v.reverse();
            v.truncate(1);
            live(1, "truncating boxed values");
        }
        28 => {
            // Into a dynamically dispatched table and back.
            let v = into_dyn![VecDyn<dyn HasDrop>](vec(n));
            live(n, "into_dyn");
            let mut v: VecDyn<V> = from_dyn![VecDyn<dyn HasDrop as V>](v);
            live(n, "from_dyn");
            v.push_as(T::mk(1)).unwrap();
            live(n + 1, "push after from_dyn");
        }
        29 => {
            let v = into_dyn![VecDyn<dyn HasDrop>](vec(n));
            drop(v);
            live(0, "dropping a dyn vector");
        }
        30 => {
            let v = into_dyn![VecDyn<dyn HasDrop>](vec(n));
            none(v.into_vec::<F>().is_none(), "into_vec");
            live(0, "a refused into_vec of a dyn vector");
        }
        31 => {
            let mut v = into_dyn![VecDyn<dyn HasDrop>](vec(n));
            v.push_as(T::mk(1)).unwrap();
            v.clear();
            live(0, "clearing a dyn vector");
        }
        32 => {
            let o: Option<Vec<F>> = vec(n).into();
            none(o.is_none(), "Option::from");
            live(0, "a refused Option::from");
            let o: Option<Vec<T>> = vec(n).into();
            live(n, "Option::from");
            drop(o);
            live(0, "dropping it");
        }
        33 => {
            let v = vec(n + 1);
            let b = v.get(0).clone_value();
            live(n + 2, "clone_value");
            drop(v);
            live(1, "dropping the vector");
            drop(b);
            if word {
                let mut v = vec(n + 1);
                let a = v.get(0).clone_small_value();
                let b = v.get_mut(n).clone_small_value();
                live(n + 3, "clone_small_value");
                drop(a);
                live(n + 2, "dropping a small value");
            }
        }
        34 => {
            let b = BoxValue::<V>::new(T::mk(3));
            let (bytes, ty, align, vt) = b.into_raw_parts();
            live(1, "into_raw_parts of a boxed value");
            // The parts are the caller's to free.
            unsafe { drop(Box::from_raw(Box::into_raw(bytes) as *mut T)) };
            live(0, "freeing the parts");
            same!(ty, std::any::TypeId::of::<T>(), "type of the parts");
            same!(align, std::mem::align_of::<T>(), "alignment of the parts");
            drop(vt);
        }
        35 => {
            let mut v = vec(n);
            for i in 0..40u64 {
                v.push_as(T::mk(i)).unwrap();
            }
            live(n + 40, "growth");
            v.resize(3, T::mk(0)).unwrap();
            live(3, "shrinking");
        }
        36 => {
            // Construction from descriptions owns nothing.
            let v = vec(n + 1);
            let w: VecDyn<V> = VecDyn::with_type_from(v.get(0));
            let x: VecDyn<V> = VecDyn::with_type_from(v.as_slice());
            live(n + 1, "with_type_from");
            drop(v);
            let mut w = w;
            w.push_as(T::mk(1)).unwrap();
            drop(x);
            live(1, "using a vector made from a description");
        }
        37 => {
            // Asked for another table than the one inside: refused, with everything gone.
            let d = into_dyn![VecDyn<dyn HasDrop>](vec(n));
            must_panic(format_args!("from_dyn to another table"), move || from_dyn![VecDyn<dyn HasDrop as HVTable>](d));
            live(0, "a refused from_dyn");
        }
        _ => {
            // Replacing elements through typed access.
            let mut v = vec(n + 1);
            *v.get_mut_as::<T>(n).unwrap() = T::mk(1);
            *v.get_mut(0).downcast::<T>().unwrap() = T::mk(1);
            v.as_mut_slice_as::<T>().unwrap().reverse();
            live(n + 1, "typed replacement");
        }
    }
}
pub const OWN_CASES: u64 = 39;
