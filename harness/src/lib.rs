#![allow(static_mut_refs, dead_code)]
#[macro_use]
pub mod report;
pub mod alloc;
pub mod el;
pub mod ledger;
pub mod vt;
pub mod copyw;
pub mod dynw;
pub mod own;
pub mod pairs;
#[macro_use]
pub mod view;
pub mod bounds;
pub mod iters;
pub mod cmp;
pub mod values;
pub mod refs;
pub mod clones;
pub mod tables;
pub mod cap;
pub mod align;
pub mod big;
pub mod huge;
pub mod meta;
pub mod panics;
pub mod gen_tables;
pub use report::{Ctx, Rng};
