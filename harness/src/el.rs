//! Element types: every size/alignment/ownership shape the containers have to cope with.
//!
//! Elements are identified by a key: `T::mk(k).key() == T::norm(k)`. `key()` checks all the bytes
//! of the element for consistency, so torn or misplaced elements are noticed.
use crate::fail;
use crate::ledger;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

pub trait El: Sized + 'static + Clone + PartialEq + Debug {
    const NAME: &'static str;
    const TRACKED: bool = false;
    fn mk(k: u64) -> Self;
    fn key(&self) -> u64;
    fn norm(k: u64) -> u64 {
        k
    }
    /// The serial number of a tracked element.
    fn serial(&self) -> u32 {
        0
    }
    /// How many clones lie between the first element of its line and this one (elements without
    /// destructor whose clone is more than a copy of the bytes).
    fn generation(&self) -> Option<u32> {
        None
    }
}

pub fn mix(k: u64, i: u64) -> u64 {
    let mut z = k ^ i.wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 27)
}

macro_rules! int {
    ($($t:ty : $n:expr),*) => {$(
        impl El for $t {
            const NAME: &'static str = $n;
            fn mk(k: u64) -> Self { k as $t }
            fn key(&self) -> u64 { *self as u64 & Self::norm(!0) }
            fn norm(k: u64) -> u64 { if std::mem::size_of::<$t>() >= 8 { k } else { k & ((1u64 << (8 * std::mem::size_of::<$t>() % 64)) - 1) } }
        }
    )*}
}
int!(u8: "u8", i8: "i8", u16: "u16", i16: "i16", u32: "u32", i32: "i32", u64: "u64", i64: "i64", usize: "usize", isize: "isize");

impl El for u128 {
    const NAME: &'static str = "u128";
    fn mk(k: u64) -> Self {
        (mix(k, 7) as u128) << 64 | k as u128
    }
    fn key(&self) -> u64 {
        let k = *self as u64;
        if *self != Self::mk(k) {
            fail!("torn u128 {:#x}", self)
        }
        k
    }
}
impl El for bool {
    const NAME: &'static str = "bool";
    fn mk(k: u64) -> Self {
        k & 1 == 1
    }
    fn key(&self) -> u64 {
        // Through the byte, so that a broken bool is noticed.
        let b = unsafe { *(self as *const bool as *const u8) };
        if b > 1 {
            fail!("bool with byte {}", b)
        }
        b as u64
    }
    fn norm(k: u64) -> u64 {
        k & 1
    }
}
impl El for char {
    const NAME: &'static str = "char";
    fn mk(k: u64) -> Self {
        char::from_u32((k % 0xD800) as u32).unwrap()
    }
    fn key(&self) -> u64 {
        *self as u64
    }
    fn norm(k: u64) -> u64 {
        k % 0xD800
    }
}
impl El for f64 {
    const NAME: &'static str = "f64";
    fn mk(k: u64) -> Self {
        (k >> 12) as f64
    }
    fn key(&self) -> u64 {
        *self as u64
    }
    fn norm(k: u64) -> u64 {
        k >> 12
    }
}
impl El for f32 {
    const NAME: &'static str = "f32";
    fn mk(k: u64) -> Self {
        (k >> 41) as f32
    }
    fn key(&self) -> u64 {
        *self as u64
    }
    fn norm(k: u64) -> u64 {
        k >> 41
    }
}

macro_rules! arr {
    ($($t:ty, $n:expr => $name:expr);*) => {$(
        impl El for [$t; $n] {
            const NAME: &'static str = $name;
            fn mk(k: u64) -> Self {
                let k = Self::norm(k);
                std::array::from_fn(|i| if i == 0 { k as $t } else { mix(k, i as u64) as $t })
            }
            fn key(&self) -> u64 {
                let k = self[0] as u64 & Self::norm(!0);
                for i in 1..$n { if self[i] != mix(k, i as u64) as $t { fail!("torn element {} at word {}: {:x?}", Self::NAME, i, &self[..$n.min(8)]) } }
                k
            }
            fn norm(k: u64) -> u64 { <$t as El>::norm(k) }
        }
    )*}
}
arr!(u8, 3 => "[u8;3]"; u8, 17 => "[u8;17]"; u8, 5 => "[u8;5]"; u8, 300 => "[u8;300]"; u16, 3 => "[u16;3]"; u32, 3 => "[u32;3]"; u64, 3 => "[u64;3]"; i64, 3 => "[i64;3]"; u64, 9 => "[u64;9]"; u32, 100 => "[u32;100]"; u8, 8 => "[u8;8]"; u16, 4 => "[u16;4]"; u32, 2 => "[u32;2]");

/// Padding after a small field.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(C)]
pub struct Pad(pub u8, pub u32);
impl El for Pad {
    const NAME: &'static str = "Pad(u8,u32)";
    fn mk(k: u64) -> Self {
        let k = Self::norm(k);
        Pad(mix(k, 1) as u8, k as u32)
    }
    fn key(&self) -> u64 {
        if self.0 != mix(self.1 as u64, 1) as u8 {
            fail!("torn element {:?}", self)
        }
        self.1 as u64
    }
    fn norm(k: u64) -> u64 {
        k & 0xffff_ffff
    }
}
/// Padding in the middle and at the end.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(C)]
pub struct Pad2(pub u8, pub u64, pub u16);
impl El for Pad2 {
    const NAME: &'static str = "Pad2(u8,u64,u16)";
    fn mk(k: u64) -> Self {
        Pad2(mix(k, 1) as u8, k, mix(k, 2) as u16)
    }
    fn key(&self) -> u64 {
        if *self != Self::mk(self.1) {
            fail!("torn element {:?}", self)
        }
        self.1
    }
}
impl El for (u32, u8) {
    const NAME: &'static str = "(u32,u8)";
    fn mk(k: u64) -> Self {
        let k = Self::norm(k);
        (k as u32, mix(k, 3) as u8)
    }
    fn key(&self) -> u64 {
        if self.1 != mix(self.0 as u64, 3) as u8 {
            fail!("torn element {:?}", self)
        }
        self.0 as u64
    }
    fn norm(k: u64) -> u64 {
        k & 0xffff_ffff
    }
}
impl El for Option<u16> {
    const NAME: &'static str = "Option<u16>";
    fn mk(k: u64) -> Self {
        if k % 5 == 0 {
            None
        } else {
            Some((k >> 3) as u16)
        }
    }
    fn key(&self) -> u64 {
        match self {
            None => 0,
            Some(x) => *x as u64 + 1,
        }
    }
    fn norm(k: u64) -> u64 {
        if k % 5 == 0 {
            0
        } else {
            ((k >> 3) & 0xffff) + 1
        }
    }
}
static WORDS: [u64; 64] = {
    let mut w = [0; 64];
    let mut i = 0;
    while i < 64 {
        w[i] = i as u64;
        i += 1;
    }
    w
};
/// A pointer: provenance has to survive.
impl El for &'static u64 {
    const NAME: &'static str = "&'static u64";
    fn mk(k: u64) -> Self {
        &WORDS[(k % 64) as usize]
    }
    fn key(&self) -> u64 {
        **self
    }
    fn norm(k: u64) -> u64 {
        k % 64
    }
}

macro_rules! aligned {
    ($($name:ident($al:literal, $words:literal) $s:expr;)*) => {$(
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
        #[repr(C, align($al))]
        pub struct $name(pub [u64; $words]);
        impl El for $name {
            const NAME: &'static str = $s;
            fn mk(k: u64) -> Self { $name(std::array::from_fn(|i| if i == 0 { k } else { mix(k, i as u64) })) }
            fn key(&self) -> u64 {
                let a = self as *const Self as usize;
                if a % $al != 0 { fail!("element of type {} at misaligned address {:#x}", $s, a) }
                let k = self.0[0];
                for i in 1..$words { if self.0[i] != mix(k, i as u64) { fail!("torn element {} at word {}", $s, i) } }
                k
            }
        }
    )*}
}
aligned! {
    A16(16, 1) "align16/16";
    A32(32, 5) "align32/64";
    A64(64, 1) "align64/64";
    A64x3(64, 20) "align64/192";
    A128(128, 3) "align128/128";
    A256x2(256, 40) "align256/512";
    A512(512, 2) "align512/512";
    A1024(1024, 2) "align1024/1024";
    A4096(4096, 3) "align4096/4096";
    A8192(8192, 2) "align8192/8192";
    A2048(2048, 400) "align2048/4096";
    A8x(8, 7) "align8/56";
    A16x(16, 6) "align16/48";
    A128x(128, 40) "align128/384";
    A16k(16384, 2) "align16384/16384";
    A32k(32768, 5000) "align32768/65536";
    A128k(131072, 2) "align131072/131072";
    A1M(1048576, 3) "align1048576/1048576";
}

// Owning elements.

impl El for String {
    const NAME: &'static str = "String";
    fn mk(k: u64) -> Self {
        format!("{:x}", k)
    }
    fn key(&self) -> u64 {
        match u64::from_str_radix(self, 16) {
            Ok(k) => k,
            Err(_) => fail!("broken string element of length {}", self.len()),
        }
    }
}
impl El for Vec<u16> {
    const NAME: &'static str = "Vec<u16>";
    fn mk(k: u64) -> Self {
        (0..4).map(|i| (k >> (16 * i)) as u16).collect()
    }
    fn key(&self) -> u64 {
        if self.len() != 4 {
            fail!("broken Vec element of length {}", self.len())
        }
        self.iter().rev().fold(0, |a, x| a << 16 | *x as u64)
    }
}
impl El for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    fn mk(k: u64) -> Self {
        Box::new(k)
    }
    fn key(&self) -> u64 {
        **self
    }
}
impl El for Option<Box<u32>> {
    const NAME: &'static str = "Option<Box<u32>>";
    fn mk(k: u64) -> Self {
        if k % 3 == 0 {
            None
        } else {
            Some(Box::new((k >> 2) as u32))
        }
    }
    fn key(&self) -> u64 {
        match self {
            None => 0,
            Some(x) => **x as u64 + 1,
        }
    }
    fn norm(k: u64) -> u64 {
        if k % 3 == 0 {
            0
        } else {
            ((k >> 2) & 0xffff_ffff) + 1
        }
    }
}
impl El for Rc<(u64, u64)> {
    const NAME: &'static str = "Rc";
    fn mk(k: u64) -> Self {
        Rc::new((k, !k))
    }
    fn key(&self) -> u64 {
        if self.0 != !self.1 {
            fail!("broken Rc element")
        }
        self.0
    }
}

macro_rules! tracked {
    ($($name:ident { $al:literal, $pad:literal } $s:expr;)*) => {$(
        /// Tracked element: serial number, key check, filler.
        #[repr(C, align($al))]
        pub struct $name { id: u32, fill: [u8; $pad] }
        impl $name {
            fn with(id: u32) -> Self {
                if cfg!(miri) {
                    let mut fill = [0u8; $pad];
                    for i in (0..$pad).step_by(37) { fill[i] = mix(id as u64, i as u64) as u8; }
                    return $name { id, fill };
                }
                $name { id, fill: std::array::from_fn(|i| mix(id as u64, i as u64) as u8) }
            }
            fn intact(&self, what: &str) -> u32 {
                let a = self as *const Self as usize;
                if a % std::mem::align_of::<Self>() != 0 { fail!("{}: element of type {} at misaligned address {:#x}", what, $s, a) }
                for i in (0..$pad).step_by(if cfg!(miri) { 37 } else { 1 }) {
                    if self.fill[i] != mix(self.id as u64, i as u64) as u8 { fail!("{}: torn element of type {} (serial {:#x}, byte {})", what, $s, self.id, i) }
                }
                self.id
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self { Self::with(ledger::clone(self.intact("clone"))) }
            fn clone_from(&mut self, src: &Self) { ledger::clone_from(self.intact("clone_from"), src.intact("clone_from")) }
        }
        impl Drop for $name {
            fn drop(&mut self) { ledger::drop(self.intact("drop")) }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool { ledger::eq(self.intact("eq"), o.intact("eq")) }
        }
        impl Eq for $name {}
        impl Hash for $name {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) { ledger::hash(self.intact("hash")).hash(h) }
        }
        impl Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                let k = ledger::fmt(self.intact("fmt"));
                f.debug_tuple(stringify!($name)).field(&k).finish()
            }
        }
        impl El for $name {
            const NAME: &'static str = $s;
            const TRACKED: bool = true;
            fn mk(k: u64) -> Self { Self::with(ledger::make(k)) }
            fn key(&self) -> u64 { ledger::key(self.intact("access"), "access") }
            fn serial(&self) -> u32 { self.id }
        }
    )*}
}
tracked! {
    Tr4 { 4, 0 } "tracked 4/4";
    Tr8 { 8, 4 } "tracked 8/8";
    Tr8b { 8, 0 } "tracked 8/8 padded";
    TrW { 4, 4 } "tracked 8/4";
    Tr12 { 4, 8 } "tracked 12/4";
    Tr24 { 8, 18 } "tracked 24/8 padded";
    Tr64 { 4, 60 } "tracked 64/4";
    TrA16 { 16, 3 } "tracked 16/16";
    TrA64 { 64, 70 } "tracked 128/64";
    TrA512 { 512, 1 } "tracked 512/512";
    TrBig { 8, 1000 } "tracked 1008/8";
}

/// Size 3, alignment 1, tracked.
pub struct Tr3([u8; 3]);
impl Tr3 {
    fn with(id: u32) -> Self {
        let b = id.to_le_bytes();
        Tr3([b[0], b[1], b[2]])
    }
    fn id(&self) -> u32 {
        u32::from_le_bytes([self.0[0], self.0[1], self.0[2], 0])
    }
}
impl Clone for Tr3 {
    fn clone(&self) -> Self {
        Self::with(ledger::clone(self.id()))
    }
    fn clone_from(&mut self, src: &Self) {
        ledger::clone_from(self.id(), src.id())
    }
}
impl Drop for Tr3 {
    fn drop(&mut self) {
        ledger::drop(self.id())
    }
}
impl PartialEq for Tr3 {
    fn eq(&self, o: &Self) -> bool {
        ledger::eq(self.id(), o.id())
    }
}
impl Eq for Tr3 {}
impl Hash for Tr3 {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        ledger::hash(self.id()).hash(h)
    }
}
impl Debug for Tr3 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let k = ledger::fmt(self.id());
        f.debug_tuple("Tr3").field(&k).finish()
    }
}
impl El for Tr3 {
    const NAME: &'static str = "tracked 3/1";
    const TRACKED: bool = true;
    fn mk(k: u64) -> Self {
        Self::with(ledger::make(k))
    }
    fn key(&self) -> u64 {
        ledger::key(self.id(), "access")
    }
    fn serial(&self) -> u32 {
        self.id()
    }
}

impl El for () {
    const NAME: &'static str = "()";
    fn mk(_: u64) -> Self {}
    fn key(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
/// Zero-sized, over-aligned.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(align(64))]
pub struct ZA;
impl El for ZA {
    const NAME: &'static str = "ZST align64";
    fn mk(_: u64) -> Self {
        ZA
    }
    fn key(&self) -> u64 {
        let a = self as *const Self as usize;
        if a % 64 != 0 {
            fail!("element of type ZA at misaligned address {:#x}", a)
        }
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}
/// Zero-sized, with clone and destructor counted.
pub struct ZTr;
thread_local! { static ZLIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
pub fn ztr_live() -> i64 {
    ZLIVE.with(|z| z.get())
}
impl ZTr {
    fn make() -> Self {
        ZLIVE.with(|z| z.set(z.get() + 1));
        ZTr
    }
}
impl Clone for ZTr {
    fn clone(&self) -> Self {
        Self::make()
    }
}
impl Drop for ZTr {
    fn drop(&mut self) {
        ZLIVE.with(|z| z.set(z.get() - 1));
        if ztr_live() < 0 {
            fail!("zero-sized element destroyed twice")
        }
    }
}
impl PartialEq for ZTr {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for ZTr {}
impl Hash for ZTr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        77u8.hash(h)
    }
}
impl Debug for ZTr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("ZTr")
    }
}
impl El for ZTr {
    const NAME: &'static str = "tracked ZST";
    fn mk(_: u64) -> Self {
        Self::make()
    }
    fn key(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}

macro_rules! generations {
    ($($name:ident($k:ty, $t:ty, $n:expr) $al:literal $s:expr;)*) => {$(
        /// No destructor, but clones differ from copies; equal elements differ in their bytes.
        #[repr(C, align($al))]
        pub struct $name { key: $k, tag: $t, fill: [u8; $n] }
        thread_local! { static $name: std::cell::Cell<$t> = const { std::cell::Cell::new(0) }; }
        impl Clone for $name {
            fn clone(&self) -> Self {
                $name { key: self.key, tag: self.tag + 1, fill: self.fill }
            }
            fn clone_from(&mut self, src: &Self) {
                *self = src.clone();
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool { self.key == o.key }
        }
        impl Eq for $name {}
        impl Hash for $name {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (self.key as u64 ^ 0x5555).hash(h) }
        }
        impl Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.debug_tuple(stringify!($name)).field(&self.key).finish()
            }
        }
        impl El for $name {
            const NAME: &'static str = $s;
            fn mk(k: u64) -> Self {
                // Every element starts at another multiple of 64.
                let t = $name.with(|c| { c.set(c.get().wrapping_add(64) & 0x3fff); c.get() });
                $name { key: k as $k, tag: t, fill: std::array::from_fn(|i| mix(k as $k as u64, i as u64) as u8) }
            }
            fn key(&self) -> u64 {
                for i in 0..$n { if self.fill[i] != mix(self.key as u64, i as u64) as u8 { fail!("torn element {} at byte {}", $s, i) } }
                self.key as u64
            }
            fn norm(k: u64) -> u64 { k as $k as u64 }
            fn generation(&self) -> Option<u32> { Some(self.tag as u32) }
        }
    )*}
}
generations! {
    Gn4(u16, u16, 0) 2 "own clone 4/2";
    Gn8(u32, u32, 0) 4 "own clone 8/4";
    Gn16(u64, u32, 4) 8 "own clone 16/8";
    Gn32(u64, u32, 3) 32 "own clone 32/32";
}
