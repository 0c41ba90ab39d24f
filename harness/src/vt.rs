//! Capability tables used by the workloads, and uniform access to optional capabilities.
use dync::traits::*;
use dync::*;

#[dync_trait]
pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
impl<T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug> All for T {}

#[dync_trait]
pub trait Float: Clone + PartialEq + std::fmt::Debug {}
impl<T: Clone + PartialEq + std::fmt::Debug> Float for T {}

/// Records everything that is fed to a hasher.
#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct Rec(pub Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
pub fn rec_of<T: std::hash::Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}

/// Elements that can be stored with table `V`, with optional hashing.
pub trait Vt:
    HasDrop + HasClone + HasPartialEq + HasDebug + Clone + Sized + 'static
{
    fn hash_vec(_: &VecDyn<Self>) -> Option<Vec<u8>> {
        None
    }
    fn hash_ref(_: &ValueRef<Self>) -> Option<Vec<u8>> {
        None
    }
}
impl Vt for AllVTable {
    fn hash_vec(v: &VecDyn<Self>) -> Option<Vec<u8>> {
        Some(rec_of(v))
    }
    fn hash_ref(v: &ValueRef<Self>) -> Option<Vec<u8>> {
        Some(rec_of(v))
    }
}
impl Vt for FloatVTable {}

/// Hash of a typed element, where it has one.
pub trait MaybeHash {
    fn typed_hash(&self) -> Option<Vec<u8>>;
}
macro_rules! hashes { ($($t:ty),*) => { $(impl MaybeHash for $t { fn typed_hash(&self) -> Option<Vec<u8>> { Some(rec_of(self)) } })* } }
macro_rules! nohash { ($($t:ty),*) => { $(impl MaybeHash for $t { fn typed_hash(&self) -> Option<Vec<u8>> { None } })* } }
use crate::el::*;
hashes!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, bool, char, [u8; 3], [u8; 5], [u8; 17], [u8; 300], [u16; 3], [u32; 3], [u64; 3], [i64; 3], [u64; 9], [u32; 100], [u8; 8], [u16; 4], [u32; 2], Pad, Pad2, (u32, u8), Option<u16>, &'static u64, A16, A32, A64, A64x3, A128, A256x2, A512, A1024, A4096, A8192, A2048, A8x, A16x, A128x, A16k, A32k, A128k, A1M, String, Vec<u16>, Box<u64>, Option<Box<u32>>, std::rc::Rc<(u64, u64)>, Tr4, Tr8, Tr8b, TrW, Tr12, Tr24, Tr64, TrA16, TrA64, TrA512, TrBig, Tr3, Gn4, Gn8, Gn16, Gn32, (), ZA, ZTr);
nohash!(f32, f64);

/// A family of tables built on each other.
#[dync_mod]
pub mod hier {
    pub trait P: PartialEq {}
    impl<T: PartialEq> P for T {}
    pub trait PC: P + Clone {}
    impl<T: P + Clone> PC for T {}
    pub trait PCD: PC + std::fmt::Debug {}
    impl<T: PC + std::fmt::Debug> PCD for T {}
    pub trait H: PCD + Eq + std::hash::Hash {}
    impl<T: PCD + Eq + std::hash::Hash> H for T {}
}
pub use hier::*;
