//! Which erased types claim to be Send, Sync, Clone, Eq, ... with which tables.
use dync::traits::*;
use dync::*;
use mon::gen_tables::*;
use mon::report::count;
use mon::{ensure, generated_tables, t, Ctx};
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

/// Whether a type implements a trait, as a value.
macro_rules! is {
    ($t:ty: $($b:tt)+) => {{
        struct P<X: ?Sized>(PhantomData<X>);
        trait No { const IS: bool = false; }
        impl<X: ?Sized> No for P<X> {}
        #[allow(dead_code)]
        impl<X: ?Sized + $($b)+> P<X> { const IS: bool = true; }
        mon::report::observe();
        <P<$t>>::IS
    }}
}

/// The same for the type of a value (iterators have no name).
struct Of<'a, T>(&'a T);
trait NotSend { fn sends(&self) -> bool { false } }
impl<'a, 'b, T> NotSend for &'b Of<'a, T> {}
trait IsSend { fn sends(&self) -> bool { true } }
impl<'a, T: Send> IsSend for Of<'a, T> {}
trait NotSync { fn syncs(&self) -> bool { false } }
impl<'a, 'b, T> NotSync for &'b Of<'a, T> {}
trait IsSync { fn syncs(&self) -> bool { true } }
impl<'a, T: Sync> IsSync for Of<'a, T> {}
trait NotClone { fn clones(&self) -> bool { false } }
impl<'a, 'b, T> NotClone for &'b Of<'a, T> {}
trait IsClone { fn clones(&self) -> bool { true } }
impl<'a, T: Clone> IsClone for Of<'a, T> {}

/// What a type may claim, and what it has to offer, given the capabilities of the table.
struct Rule {
    cap: &'static str,
    claims: bool,
    may: bool,
    must: bool,
}

fn judge(ty: &str, table: &str, caps: &str, rules: &[Rule]) {
    for r in rules {
        t!("{} {} {}", ty, table, r.cap);
        count("claims examined");
        if r.claims {
            count("claims made");
            ensure!(r.may, "{} with table {} (capabilities \"{}\") claims to be {}", ty, table, caps, r.cap);
        } else {
            ensure!(!r.must, "{} with table {} (capabilities \"{}\") is not {}", ty, table, caps, r.cap);
        }
    }
}

/// All claims of the type under a table; `$own`: can be cloned as a whole with clonable elements;
/// `$shared`: a shared view, which needs nothing from the elements to be copied.
macro_rules! rules {
    ($t:ty, $c:expr, $kind:expr, $known:expr, $sized:expr) => {{
        let c: &str = $c;
        let (s, y, cl, p, e, h, d) = (c.contains('S'), c.contains('Y'), c.contains('C'), c.contains('P'), c.contains('E'), c.contains('H'), c.contains('D'));
        // Owned and exclusive things move elements to the other thread, shared views share them.
        let (send, sync) = if $kind == SHARED { (y, y) } else { (s, y) };
        // `$known`: claims that are listed as findings are examined elsewhere.
        let must = $kind != PLAIN && !$known;
        let (full, some) = ($kind != VIEW && $kind != PLAIN && !$known, $kind != PLAIN && !$known);
        let clone_may = match $kind { OWNED => cl, EXCL | VIEW => false, _ => true };
        let clone_must = match $kind { OWNED => cl && $sized, _ => false };
        vec![
            Rule { cap: "Send", claims: is!($t: Send), may: send || $known, must: send && must },
            Rule { cap: "Sync", claims: is!($t: Sync), may: sync || $known, must: sync && must },
            Rule { cap: "Clone", claims: is!($t: Clone), may: clone_may, must: clone_must },
            Rule { cap: "Copy", claims: is!($t: Copy), may: false, must: false },
            Rule { cap: "PartialEq", claims: is!($t: PartialEq), may: p, must: p && some },
            Rule { cap: "Eq", claims: is!($t: Eq), may: e, must: e && full },
            Rule { cap: "Hash", claims: is!($t: std::hash::Hash), may: h, must: h && full },
            Rule { cap: "Debug", claims: is!($t: std::fmt::Debug), may: d, must: d && some },
        ]
    }};
}
/// Owned, exclusive reference, exclusive view, shared, shared view or plain (a vector of `Copy` things, never sent).
const OWNED: u8 = 0;
const EXCL: u8 = 1;
const VIEW: u8 = 2;
const SHARED: u8 = 3;
const PLAIN: u8 = 4;

macro_rules! table {
    ($v:ty, $name:expr, $caps:expr, $sized:expr) => {
        |i: u64| match i {
            0 => judge("VecDyn", $name, $caps, &rules!(VecDyn<$v>, $caps, OWNED, false, $sized)),
            1 => judge("BoxValue", $name, $caps, &rules!(BoxValue<$v>, $caps, OWNED, false, $sized)),
            2 => judge("SmallValue", $name, $caps, &rules!(SmallValue<$v>, $caps, OWNED, false, $sized)),
            3 => {
                let mut r = rules!(Slice<'static, $v>, $caps, SHARED, false, $sized);
                // Slices have no total equality and no hash so far.
                for x in &mut r {
                    x.must &= x.cap != "Eq" && x.cap != "Hash";
                }
                judge("Slice", $name, $caps, &r)
            }
            4 => judge("SliceMut", $name, $caps, &rules!(SliceMut<'static, $v>, $caps, VIEW, false, $sized)),
            5 => judge("ValueRef", $name, $caps, &rules!(ValueRef<'static, $v>, $caps, SHARED, false, $sized)),
            6 => judge("ValueMut", $name, $caps, &rules!(ValueMut<'static, $v>, $caps, EXCL, false, $sized)),
            7 => judge("CopyValueRef", $name, $caps, &rules!(CopyValueRef<'static, $v>, $caps, SHARED, false, $sized)),
            8 => judge("CopyValueMut", $name, $caps, &rules!(CopyValueMut<'static, $v>, $caps, EXCL, false, $sized)),
            9 => judge("SliceCopy", $name, $caps, &rules!(SliceCopy<'static, $v>, $caps, SHARED, true, $sized)),
            10 => judge("SliceCopyMut", $name, $caps, &rules!(SliceCopyMut<'static, $v>, $caps, VIEW, true, $sized)),
            _ => {
                let mut r = rules!(VecCopy<$v>, $caps, PLAIN, false, $sized);
                // Elements are `Copy`.
                for x in &mut r {
                    x.may |= x.cap == "Clone";
                }
                judge("VecCopy", $name, $caps, &r)
            }
        }
    };
}
const KINDS: u64 = 12;

macro_rules! iterator {
    ($x:expr, $what:expr, $table:expr, $caps:expr, $shared:expr) => { match $x { it => {
        let (send, sync, clone) = ((&Of(&it)).sends(), (&Of(&it)).syncs(), (&Of(&it)).clones());
        mon::report::observe();
        let (s, y) = ($caps.contains('S'), $caps.contains('Y'));
        judge($what, $table, $caps, &[
            Rule { cap: "Send", claims: send, may: if $shared { y } else { s }, must: false },
            Rule { cap: "Sync", claims: sync, may: y, must: false },
            Rule { cap: "Clone", claims: clone, may: $shared, must: false },
        ]);
    } } };
}

macro_rules! iterators {
    ($v:ty, $name:expr, $caps:expr) => {
        |i: u64| {
            let mut v = VecDyn::<$v>::from_vec(vec![1u32, 2, 3, 4]);
            match i {
                0 => iterator!(v.iter(), "the iterator VecDyn::iter", $name, $caps, true),
                1 => iterator!(v.iter_mut(), "the iterator VecDyn::iter_mut", $name, $caps, false),
                2 => iterator!(v.as_slice().iter(), "the iterator Slice::iter", $name, $caps, true),
                3 => iterator!(v.as_slice().into_iter(), "the iterator Slice::into_iter", $name, $caps, true),
                4 => iterator!(v.as_slice().chunks_exact(2), "the iterator Slice::chunks_exact", $name, $caps, true),
                5 => iterator!(v.as_mut_slice().iter(), "the iterator SliceMut::iter", $name, $caps, false),
                6 => iterator!(v.as_mut_slice().into_iter(), "the iterator SliceMut::into_iter", $name, $caps, false),
                7 => iterator!(v.as_mut_slice().chunks_exact(2), "the iterator SliceMut::chunks_exact", $name, $caps, true),
                8 => iterator!(v.as_mut_slice().chunks_exact_mut(2), "the iterator SliceMut::chunks_exact_mut", $name, $caps, false),
                9 => iterator!(v.as_slice().split_at(2), "what Slice::split_at returns", $name, $caps, true),
                10 => iterator!(v.as_mut_slice().split_at(2), "what SliceMut::split_at returns", $name, $caps, false),
                11 => iterator!(v.get(1), "what VecDyn::get returns", $name, $caps, true),
                12 => iterator!(v.get_mut(1), "what VecDyn::get_mut returns", $name, $caps, false),
                13 => iterator!(v.as_slice().get(1), "what Slice::get returns", $name, $caps, true),
                14 => iterator!(v.as_mut_slice().get_mut(1), "what SliceMut::get_mut returns", $name, $caps, false),
                15 => iterator!(v.as_slice().subslice(1..), "what Slice::subslice returns", $name, $caps, true),
                16 => iterator!(v.as_slice().into_subslice(1..), "what Slice::into_subslice returns", $name, $caps, true),
                17 => iterator!(v.as_mut_slice().subslice(1..), "what SliceMut::subslice returns", $name, $caps, true),
                18 => iterator!(v.as_mut_slice().subslice_mut(1..), "what SliceMut::subslice_mut returns", $name, $caps, false),
                19 => iterator!(BoxValue::<$v>::new(1u32).as_ref(), "what BoxValue::as_ref returns", $name, $caps, true),
                _ => iterator!(BoxValue::<$v>::new(1u32).as_mut(), "what BoxValue::as_mut returns", $name, $caps, false),
            }
        }
    };
}
const ITERATORS: u64 = 21;

/// Neither sent nor shared; shared only; and nothing at all.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Ptr(*mut u8);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Shared(*mut u8);
unsafe impl Sync for Shared {}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Sent(*mut u8);
unsafe impl Send for Sent {}
struct Nothing(*mut u8);
struct OnlyClone(*mut u8);
impl Clone for OnlyClone {
    fn clone(&self) -> Self {
        OnlyClone(self.0)
    }
}
#[derive(PartialEq)]
struct OnlyEq(f32);

/// Builtin table, its capabilities.
macro_rules! builtin_tables { ($m:ident) => { $m! {
    DropVTable, (), ""; CloneVTable, (), "C"; PartialEqVTable, (), "P"; EqVTable, (), "PE"; HashVTable, (), "H"; DebugVTable, (), "D";
    SendVTable, (), "S"; SyncVTable, (), "Y";
} } }

/// Elements and what they are capable of.
macro_rules! elements { ($m:ident! $($a:tt)*) => { $m! { $($a)* ;
    u32, "CPEHDSY"; String, "CPEHDSY"; f32, "CPDSY"; Vec<f64>, "CPDSY"; Cell<u32>, "CPEDS"; Rc<u8>, "CPEHD"; Arc<u8>, "CPEHDSY"; Ptr, "CPEHD"; Shared, "CPEHDY"; Sent, "CPEHDS";
    Nothing, ""; OnlyClone, "C"; OnlyEq, "PSY"; std::sync::Mutex<u8>, "DSY"; std::sync::MutexGuard<'static, u8>, "DY"; Arc<Cell<u8>>, "CPED"; Rc<Nothing>, "C"; &'static Cell<u8>, "CPED"; &'static u8, "CPEHDSY";
    fn(u8) -> u8, "CPEHDSY"; std::cell::RefCell<Vec<u8>>, "CPEDS"; Box<OnlyEq>, "PSY"; std::sync::atomic::AtomicU8, "DSY"; std::sync::mpsc::Receiver<u8>, "DS";
} } }

macro_rules! builds {
    ($v:ty, $name:expr, $caps:expr; $($t:ty, $c:expr;)*) => {{
        let mut n = 0;
        $(
            let (has, ought) = (is!($v: VTable<$t>), $caps.chars().all(|x| $c.contains(x)));
            t!("{} {}", $name, stringify!($t));
            count("pairs of table and element type examined");
            ensure!(!has || ought, "{} (capabilities \"{}\") can be built for {} (which has \"{}\")", $name, $caps, stringify!($t), $c);
            ensure!(has || !ought, "{} (capabilities \"{}\") can not be built for {} (which has \"{}\")", $name, $caps, stringify!($t), $c);
            n += has as u64;
        )*
        mon::report::add("tables that can be built", n);
    }};
}

macro_rules! to_builtin {
    ($v:ty, $name:expr, $caps:expr) => {
        for (to, needs, has) in [
            ("DropVTable", "", is!($v: Into<DropVTable>)),
            ("CloneVTable", "C", is!($v: Into<CloneVTable>)),
            ("PartialEqVTable", "P", is!($v: Into<PartialEqVTable>)),
            ("EqVTable", "PE", is!($v: Into<EqVTable>)),
            ("HashVTable", "H", is!($v: Into<HashVTable>)),
            ("DebugVTable", "D", is!($v: Into<DebugVTable>)),
            ("SendVTable", "S", is!($v: Into<SendVTable>)),
            ("SyncVTable", "Y", is!($v: Into<SyncVTable>)),
        ] {
            t!("{} into {}", $name, to);
            count("conversions of tables examined");
            ensure!(!has || needs.chars().all(|x| $caps.contains(x)), "{} (capabilities \"{}\") can be turned into {}", $name, $caps, to);
        }
    };
}
macro_rules! between {
    ($name:expr, $caps:expr, $v:ty; $($t:ty, $c:expr;)*) => {$(
        t!("{} into {}", $name, stringify!($t));
        count("conversions of tables examined");
        ensure!(!is!($v: Into<$t>) || $c.chars().all(|x| $caps.contains(x)), "{} (capabilities \"{}\") can be turned into {} (\"{}\")", $name, $caps, stringify!($t), $c);
    )*};
}
macro_rules! markers {
    ($v:ty, $name:expr, $caps:expr) => {
        for (what, key, has) in [
            ("HasSend", 'S', is!($v: HasSend)),
            ("HasSync", 'Y', is!($v: HasSync)),
            ("HasClone", 'C', is!($v: HasClone)),
            ("HasPartialEq", 'P', is!($v: HasPartialEq)),
            ("HasEq", 'E', is!($v: HasEq)),
            ("HasHash", 'H', is!($v: HasHash)),
            ("HasDebug", 'D', is!($v: HasDebug)),
        ] {
            t!("{} {}", $name, what);
            count("markers examined");
            ensure!(has == $caps.contains(key), "{} (capabilities \"{}\"): {} is {}", $name, $caps, what, has);
        }
        ensure!(is!($v: HasDrop), "{} has no destructor", $name);
    };
}

/// Inherited capabilities.
#[dync_mod]
mod family {
    pub trait A: Clone {}
    impl<X: Clone> A for X {}
    pub trait B: A + Send {}
    impl<X: A + Send> B for X {}
    pub trait C: A + Sync {}
    impl<X: A + Sync> C for X {}
    pub trait D: B + C + std::fmt::Debug {}
    impl<X: B + C + std::fmt::Debug> D for X {}
    pub trait E: PartialEq + Eq {}
    impl<X: PartialEq + Eq> E for X {}
    pub trait F: E + D {}
    impl<X: E + D> F for X {}
    pub trait G: A + E {}
    impl<X: A + E> G for X {}
    pub trait N {}
    impl<X> N for X {}
    pub trait M: N + std::hash::Hash {}
    impl<X: N + std::hash::Hash> M for X {}
}
use family::*;
macro_rules! family_tables { ($m:ident) => { $m! {
    AVTable, HasA, "C"; BVTable, HasB, "CS"; CVTable, HasC, "CY"; DVTable, HasD, "CSYD"; EVTable, HasE, "PE"; FVTable, HasF, "PECSYD"; GVTable, HasG, "PEC"; NVTable, HasN, ""; MVTable, HasM, "H";
} } }

/// Traits of the user's own that are called like those of the standard library.
mod shadow {
    use dync::traits::*;
    use dync::*;
    pub mod send {
        use super::*;
        pub trait Send {}
        impl<X> Send for X {}
        #[dync_trait]
        pub trait Tr: Send {}
        impl<X> Tr for X {}
    }
    pub mod sync {
        use super::*;
        pub trait Sync {}
        impl<X> Sync for X {}
        #[dync_trait]
        pub trait Tr: Sync {}
        impl<X> Tr for X {}
    }
    pub mod eq {
        use super::*;
        pub trait Eq {}
        impl<X> Eq for X {}
        #[dync_trait]
        pub trait Tr: PartialEq + Eq {}
        impl<X: PartialEq> Tr for X {}
    }
}

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    macro_rules! all { ($($v:ident, $h:ty, $caps:expr;)*) => {$(
        c.suite(concat!("claims/", stringify!($v)), KINDS, |_, i| table!($v, stringify!($v), $caps, true)(i));
        c.suite(concat!("markers/", stringify!($v)), 1, |_, _| { markers!($v, stringify!($v), $caps); to_builtin!($v, stringify!($v), $caps); });
        c.suite(concat!("builds/", stringify!($v)), 1, |_, _| elements! { builds! $v, stringify!($v), $caps });
    )*} }
    macro_rules! dynamic { ($($v:ident, $h:ident, $caps:expr;)*) => {$(
        c.suite(concat!("claims/dyn/", stringify!($h)), KINDS, |_, i| table!(dyn $h, stringify!(dyn $h), $caps, false)(i));
    )*} }
    macro_rules! iterated { ($($v:ident, $h:ty, $caps:expr;)*) => {$(
        c.suite(concat!("iterators/", stringify!($v)), ITERATORS, |_, i| iterators!($v, stringify!($v), $caps)(i));
    )*} }
    macro_rules! own { ($($v:ident, $h:ty, $caps:expr;)*) => {$(
        c.suite(concat!("own/", stringify!($v)), 1, |_, _| { between!(stringify!($v), $caps, $v; AVTable, "C"; BVTable, "CS"; CVTable, "CY"; DVTable, "CSYD"; EVTable, "PE"; FVTable, "PECSYD"; GVTable, "PEC"; NVTable, ""; MVTable, "H";); });
    )*} }
    builtin_tables!(all);
    builtin_tables!(iterated);
    builtin_tables!(own);
    generated_tables!(all);
    generated_tables!(iterated);
    generated_tables!(dynamic);
    family_tables!(all);
    family_tables!(iterated);
    family_tables!(dynamic);
    family_tables!(own);
    c.suite("claims/dyn/HasDrop", KINDS, |_, i| table!(dyn HasDrop, "dyn HasDrop", "", false)(i));
    c.suite("claims/pair", KINDS, |_, i| {
        // The pair passes on what its second part can do with elements, sending and sharing excepted.
        macro_rules! pair { ($v:ty, $caps:expr) => { table!((DropFn, $v), concat!("(DropFn, ", stringify!($v), ")"), $caps, true)(i) } }
        pair!((), "");
        pair!(CloneVTable, "C");
        pair!(PartialEqVTable, "P");
        pair!(EqVTable, "PE");
        pair!(HashVTable, "H");
        pair!(DebugVTable, "D");
        pair!(G_CPEHDVTable, "CPEHD");
    });
    c.suite("claims/unit", KINDS, |_, i| {
        macro_rules! unit { ($($k:expr, $n:expr, $t:ty, $kind:expr, $known:expr;)*) => {$(if i == $k {
            let mut r = rules!($t, "", $kind, $known, true);
            for x in &mut r { x.may |= $k == 11 && x.cap == "Clone"; }
            judge($n, "()", "", &r);
        })*} }
        unit! { 7, "CopyValueRef", CopyValueRef<'static, ()>, SHARED, false; 8, "CopyValueMut", CopyValueMut<'static, ()>, EXCL, false; 9, "SliceCopy", SliceCopy<'static, ()>, SHARED, true;
            10, "SliceCopyMut", SliceCopyMut<'static, ()>, VIEW, true; 11, "VecCopy", VecCopy<()>, PLAIN, false; }
    });
    c.suite("shadowed", 3, |_, i| match i {
        0 => ensure!(!(is!(shadow::send::TrVTable: HasSend) && is!(shadow::send::TrVTable: VTable<Rc<u8>>)), "a table built for Rc claims that its elements can be sent"),
        1 => ensure!(!(is!(shadow::sync::TrVTable: HasSync) && is!(shadow::sync::TrVTable: VTable<Cell<u8>>)), "a table built for Cell claims that its elements can be shared"),
        _ => ensure!(!(is!(shadow::eq::TrVTable: HasEq) && is!(shadow::eq::TrVTable: VTable<f32>)), "a table built for f32 claims total equality"),
    });
    c.finish();
}
