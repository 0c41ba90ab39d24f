//! Claims known to be wrong (known-findings.txt).
use dync::*;
use mon::{ensure, Ctx};
use std::cell::Cell;
use std::marker::PhantomData;

macro_rules! is {
    ($t:ty: $($b:tt)+) => {{
        struct P<X: ?Sized>(PhantomData<X>);
        trait No { const IS: bool = false; }
        impl<X: ?Sized> No for P<X> {}
        #[allow(dead_code)]
        impl<X: ?Sized + $($b)+> P<X> { const IS: bool = true; }
        <P<$t>>::IS
    }}
}

struct Of<'a, T>(&'a T);
trait NotSend { fn sends(&self) -> bool { false } }
impl<'a, 'b, T> NotSend for &'b Of<'a, T> {}
trait IsSend { fn sends(&self) -> bool { true } }
impl<'a, T: Send> IsSend for Of<'a, T> {}

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(0);
    let x: &'static Cell<u8> = Box::leak(Box::new(Cell::new(1u8)));
    // All of these hold references to a cell.
    c.suite("known/copy_view_sends", 1, |_, _| {
        ensure!(!is!(SliceCopy<'static, ()>: Send) || !is!((): VTable<&'static Cell<u8>>), "SliceCopy of &Cell claims to be Send");
    });
    c.suite("known/copy_view_shared", 1, |_, _| {
        ensure!(!is!(SliceCopy<'static, ()>: Sync) || !is!((): VTable<&'static Cell<u8>>), "SliceCopy of &Cell claims to be Sync");
    });
    c.suite("known/copy_view_mut_sends", 1, |_, _| {
        ensure!(!is!(SliceCopyMut<'static, ()>: Send) || !is!((): VTable<&'static Cell<u8>>), "SliceCopyMut of &Cell claims to be Send");
    });
    c.suite("known/copy_view_mut_shared", 1, |_, _| {
        ensure!(!is!(SliceCopyMut<'static, ()>: Sync) || !is!((): VTable<&'static Cell<u8>>), "SliceCopyMut of &Cell claims to be Sync");
    });
    c.suite("known/copy_chunks_send", 1, |_, _| {
        let v = VecCopy::<()>::from_vec(vec![x; 2]);
        let s = v.as_slice();
        let it = s.chunks_exact(1);
        ensure!(!(&Of(&it)).sends(), "the iterator of SliceCopy::chunks_exact over &Cell claims to be Send");
    });
    c.finish();
}
