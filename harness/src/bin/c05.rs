//! Everything at once, for the sanitizers: what counts here is undefined behaviour, not results.
use mon::copyw::*;
use mon::el::*;
use mon::vt::*;
use mon::Ctx;
use mon::{align, bounds, cap, clones, cmp, dynw, iters, meta, own, pairs, panics, refs, tables, values, view};
use std::rc::Rc;

#[path = "../parts/race.rs"]
#[allow(dead_code)]
mod race;

fn main() {
    let mut c = Ctx::new();
    c.nontrivial(1);
    let miri = cfg!(miri);
    macro_rules! each { ($p:literal, $n:expr, $m:expr, |$r:ident, $i:ident| $b:expr; $t:ident: $($ty:ty),*) => {$(
        let n = c.n($n, $m);
        c.suite(concat!($p, "/", stringify!($ty)), n, |$r, $i| { type $t = $ty; $b });
    )*} }
    each! { "vec", 300, 2, |r, _i| dynw::history::<T, u64, AllVTable>(r, &dynw::BALANCED); T: Tr4, Tr24, TrA64, Tr3, String, Rc<(u64, u64)>, Pad, [u8; 3] }
    each! { "copy", 300, 2, |r, _i| copy_history::<T, i64, ()>(r, &dynw::BALANCED); T: u8, Pad, Pad2, &'static u64, A64, [u16; 3], u128, Option<u16> }
    each! { "own", own::OWN_CASES * 4, own::OWN_CASES / 2, |r, i| own::directed::<T, Tr8, AllVTable>(r, i * 5 + i % 5); T: Tr24, TrA16, Tr3 }
    each! { "pair", 64, 6, |r, i| pairs::pair::<T, u64, AllVTable>(r, i * 7 + 3); T: i64, Tr8, Box<u64>, &'static u64, [u32; 2] }
    each! { "pairc", 64, 4, |r, i| pairs::pair_copy::<T, u64>(r, i * 3 + 1); T: &'static u64, i64, [u8; 8] }
    each! { "bounds", 64, 3, |r, i| bounds::bounds_dyn::<T, AllVTable>(r, i * 11 + if miri { 5 } else { 0 }); T: Tr8, String, [u8; 3] }
    each! { "boundsc", 80, 3, |r, i| bounds::bounds_copy::<T, ()>(r, i * 11 + if miri { 5 } else { 0 }); T: u8, Pad, &'static u64 }
    each! { "view", 400, 3, |r, _i| view::views_dyn::<T, AllVTable>(r); T: Tr12, String, Pad2, TrA64 }
    each! { "viewc", 400, 3, |r, _i| view::views_copy::<T, ()>(r); T: Pad, &'static u64, [u8; 17], u128 }
    each! { "iter", 400, 4, |r, _i| iters::iter_dyn::<T, AllVTable>(r); T: Tr12, String, Pad2, Option<u16> }
    each! { "iterc", 400, 4, |r, _i| iters::iter_copy::<T, ()>(r); T: Pad, &'static u64, [u8; 17], A64 }
    each! { "cmp", 60, 1, |r, _i| cmp::compare::<T, AllVTable>(r); T: String, Pad, Option<Box<u8>>, (u8, u64) }
    each! { "hash", 100, 1, |r, _i| cmp::hashing::<T>(r); T: String, Pad, Option<Box<u8>>, (u8, u64) }
    each! { "cmpc", 60, 1, |r, _i| cmp::copies::<T>(r); T: Pad, &'static str, [f32; 3] }
    each! { "values", 300, 2, |r, _i| values::history::<T, Tr8>(r); T: Gn8, Pad, &'static u64, Tr24, Rc<(u64, u64)>, String, (), ZTr, TrA512, Option<Box<u32>>, [u16; 4], u16 }
    each! { "refs", 200, 2, |r, _i| refs::refs::<T, u64>(r); T: Gn16, Pad, &'static u64, Tr24, Rc<(u64, u64)>, TrA64, Tr3 }
    each! { "refsc", 200, 2, |r, _i| refs::copy_refs::<T, u64>(r); T: Pad, &'static u64, A64, [u8; 3], Option<u16> }
    each! { "clones", 300, 4, |r, _i| clones::clones::<T>(r); T: Tr24, String, Rc<(u64, u64)>, Pad2, Gn16 }
    each! { "clonesc", 300, 3, |r, _i| clones::copies::<T>(r); T: Pad, &'static u64, [u8; 3] }
    each! { "tables", 100, 2, |r, _i| tables::vectors::<T>(r); T: Tr24, String, Pad2 }
    each! { "tablesv", 100, 2, |r, _i| tables::views::<T>(r); T: Tr24, Option<Box<u32>> }
    each! { "tablesx", 100, 2, |r, _i| tables::values::<T>(r); T: Tr24, Gn8, ZTr }
    each! { "tablesc", 100, 2, |r, _i| tables::copies::<T>(r); T: Pad, &'static u64 }
    each! { "round", 100, 2, |r, _i| cap::round::<T>(r); T: Tr24, String, Pad2, A64 }
    each! { "room", 100, 2, |r, _i| cap::room::<T>(r); T: Tr3, Rc<(u64, u64)> }
    each! { "roomc", 100, 2, |r, _i| { cap::room_copy::<T>(r); cap::round_copy::<T>(r) }; T: Pad, &'static u64, [u8; 17] }
    each! { "meta", 100, 2, |r, _i| { meta::stays::<T, u64>(r); meta::made::<T, u64, AllVTable>(r, "all") }; T: Tr24, Pad2 }
    each! { "metac", 100, 2, |r, _i| { meta::stays_copy::<T, u64>(r); meta::made_copy::<T, u64, ()>(r, "()") }; T: Pad, &'static u64, A512 }
    each! { "align", 60, 1, |r, _i| align::elements::<T>(r); T: A16, A1024, A4096, TrA512 }
    each! { "alignx", 60, 1, |r, _i| align::values::<T>(r); T: A16, A1024, TrA64 }
    each! { "struck", panics::OPS as u64 * 2, 10, |r, i| panics::each::<T, u64>(r, i, (std::mem::size_of::<T>() % 3) as u64); T: Tr8, Tr24, TrA64 }
    each! { "strikes", 300, 2, |r, _i| panics::history::<T, u64>(r); T: Tr8, Tr12, TrA16 }
    let n = c.n(20, 1);
    c.suite("inside", n, |r, _| race::inside(r));
    c.finish();
}
