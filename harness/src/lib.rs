//! Harnesses that state the properties of eastl-rs over symbolic states and inputs.
#![cfg_attr(feature = "nightly", feature(generic_const_exprs))]
#![cfg_attr(feature = "nightly", allow(incomplete_features))]
#![allow(clippy::all)]
#![allow(static_mut_refs)]
extern crate alloc;
#[macro_use]
pub mod sym;
pub mod env;
pub mod el;
pub mod mhash;
pub mod mdeque;
pub mod mlist;
pub mod mvec;
pub mod mstr;
pub mod mtree;
pub mod mvmap;
pub mod ways;

macro_rules! modules {
    ($($(#[$a:meta])* $m:ident),* $(,)?) => {
        $( $(#[$a])* pub mod $m; )*
        #[cfg(not(kani))]
        #[allow(unused_mut)]
        pub fn tables() -> Vec<(&'static str, &'static [(&'static str, fn())])> {
            let mut v: Vec<(&'static str, &'static [(&'static str, fn())])> = vec![];
            $( $(#[$a])* v.push((stringify!($m), $m::TABLE)); )*
            v
        }
    };
}
modules! { c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c24, c25, #[cfg(feature = "nightly")] c21, #[cfg(feature = "tree")] c07t, #[cfg(feature = "tree")] c25t }
