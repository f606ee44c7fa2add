//! Solver-checked harnesses for rust-ser-write.
//!
//! Every `h_*` function states properties of the real crates over symbolic
//! inputs (`sym::*`).  The same functions run natively in `hnat`, fed with
//! concrete inputs, which is how counterexamples are replayed.
#![no_std]
#![allow(dead_code, unused_imports, unused_doc_comments, clippy::all)]

#[cfg(feature = "alloc")]
extern crate alloc;
#[cfg(feature = "std")]
extern crate std;

#[macro_use]
pub mod sym;
#[macro_use]
pub mod util;
pub mod node;
pub mod refenc;
pub mod refdec;
pub mod probe;
pub mod big;
pub mod types;
pub mod jref;

macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn all() -> &'static [(&'static str, extern "C-unwind" fn())] {
            $(#[cfg(feature = $f)] return $m::LIST;)*
            #[allow(unreachable_code)]
            &[]
        }
    };
}
modules! {
    "c01" c01, "c02" c02, "c03" c03, "c04" c04,
    "j01" j01, "j02" j02, "j03" j03, "j04" j04, "j05" j05, "j06" j06, "j07" j07, "j08" j08,
    "j09" j09, "j10" j10, "j11" j11, "j12" j12, "j13" j13, "j14" j14, "j15" j15,
    "m01" m01, "m02" m02, "m03" m03, "m04" m04, "m05" m05, "m06" m06, "m07" m07, "m08" m08,
    "m09" m09, "m10" m10, "m11" m11, "m12" m12,
}
