//! Programs known to break soundness (known-findings.txt): each runs on its own under Miri.
use dync::traits::*;
use dync::*;
use mon::Ctx;
use std::cell::RefCell;
use std::rc::Rc;

#[dync_trait]
pub trait Ref: Clone + PartialEq + std::fmt::Debug {}
impl<T: Clone + PartialEq + std::fmt::Debug> Ref for T {}

/// An own table that is turned into one that promises more.
#[dync_trait]
pub trait My {}
impl<T> My for T {}
impl From<MyVTable> for SendVTable {
    fn from(v: MyVTable) -> SendVTable {
        SendVTable(*v.drop_fn())
    }
}

/// An own table with the destructor of another type.
pub struct Wrong(DropFn);
impl VTable<[usize; 3]> for Wrong {
    fn build_vtable() -> Self {
        Wrong(<DropVTable as VTable<String>>::build_vtable().0)
    }
}
impl HasDrop for Wrong {
    fn drop_fn(&self) -> &DropFn {
        &self.0
    }
}

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(0);
    c.suite("known/copy_vector_like_dyn", 1, |_, _| {
        let v = VecDyn::<CloneVTable>::from_vec(vec![String::from("x")]);
        let mut c: VecCopy<CloneVTable> = VecCopy::with_type_from(&v);
        c.push_as(String::from("hello"));
        let d = c.clone();
        drop(c.into_vec::<String>());
        drop(d.into_vec::<String>());
    });
    c.suite("known/copy_vector_like_view", 1, |_, _| {
        let v = VecDyn::<CloneVTable>::from_vec(vec![String::from("x")]);
        let mut c: VecCopy<CloneVTable> = VecCopy::with_type_from(v.as_slice());
        c.push_as(String::from("hello"));
        let d = c.clone();
        drop(c.into_vec::<String>());
        drop(d.into_vec::<String>());
    });
    c.suite("known/copy_vector_like_value", 1, |_, _| {
        let s = String::from("x");
        let mut c: VecCopy<CloneVTable> = VecCopy::with_type_from(ValueRef::new(&s));
        c.push_as(String::from("hello"));
        let d = c.clone();
        drop(c.into_vec::<String>());
        drop(d.into_vec::<String>());
    });
    c.suite("known/mixed_description", 1, |_, _| {
        let a = VecDyn::<DropVTable>::from_vec(vec![String::from("x")]);
        let b = VecDyn::<DropVTable>::from_vec(vec![[1u64; 3]]);
        let (ma, mb) = (Meta::from(&a), Meta::from(&b));
        let mut v: VecDyn<DropVTable> = VecDyn::with_type_from(Meta { elem: mb.elem, vtable: ma.vtable });
        v.push_as([7u64; 3]);
    });
    c.suite("known/box_parts", 1, |_, _| {
        let b = BoxValue::<DropVTable>::new(5u64);
        let (bytes, ..) = b.into_raw_parts();
        drop(bytes);
    });
    // Elements with interior mutability behind references to their bytes.
    macro_rules! inner { ($($n:ident: |$v:ident, $x:ident| $e:expr;)*) => {$(
        c.suite(concat!("known/inner_", stringify!($n)), 1, |_, _| {
            let $v = VecDyn::<CloneVTable>::from_vec(vec![RefCell::new(1u64), RefCell::new(2)]);
            let $x = BoxValue::<RefVTable>::new(RefCell::new(1u64));
            $e;
            drop(($v, $x));
        });
    )*} }
    inner! {
        value_ref: |v, _x| *v.get(1).downcast::<RefCell<u64>>().unwrap().borrow_mut() += 1;
        iter: |v, _x| for y in v.iter() { *y.downcast::<RefCell<u64>>().unwrap().borrow_mut() += 1; };
        slice: |v, _x| *v.as_slice().get(1).downcast::<RefCell<u64>>().unwrap().borrow_mut() += 1;
        slice_as: |v, _x| *v.as_slice().as_slice::<RefCell<u64>>().unwrap()[1].borrow_mut() += 1;
        boxed: |_v, x| *x.as_ref().downcast::<RefCell<u64>>().unwrap().borrow_mut() += 1;
        typed: |_v, _x| { let y = RefCell::new(1u64); *ValueRef::<DropVTable>::new(&y).downcast::<RefCell<u64>>().unwrap().borrow_mut() += 1; };
        clone: |v, _x| drop(v.clone());
        eq: |_v, x| assert!(x == x);
        debug: |_v, x| assert!(format!("{:?}", x).len() > 0);
    }
    // Tables of the user's own, made without any unsafe code.
    c.suite("known/user_from", 1, |_, _| {
        let v = VecDyn::<MyVTable>::from_vec(vec![Rc::new(1u32); 2]);
        let w: VecDyn<SendVTable> = v.upcast();
        std::thread::scope(|s| {
            s.spawn(move || drop(w.get_ref_as::<Rc<u32>>(0).unwrap().clone()));
        });
        let v = VecDyn::<MyVTable>::from_vec(vec![Rc::new(1u32); 2]);
        let mine = v.get_ref_as::<Rc<u32>>(0).unwrap().clone();
        let w: VecDyn<SendVTable> = v.upcast();
        let t = std::thread::spawn(move || drop(w.get_ref_as::<Rc<u32>>(0).unwrap().clone()));
        drop(mine.clone());
        t.join().unwrap();
    });
    c.suite("known/user_table", 1, |_, _| {
        let v = VecDyn::<Wrong>::from_vec(vec![[8usize; 3]]);
        drop(v);
    });
    c.finish();
}
