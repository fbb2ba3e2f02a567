//! Harnesses for /repo's `tagged_box`, shared by every engine (see nd.rs).
#![recursion_limit = "2048"]
#![allow(semicolon_in_expressions_from_macros, dead_code, static_mut_refs, non_camel_case_types, clippy::all)]
#![cfg_attr(any(feature = "c08", feature = "c15", feature = "c16", feature = "c18", feature = "c27"), feature(formatting_options))]

#[macro_use]
pub mod nd;
#[cfg(feature = "replay")]
pub mod native;
pub mod spec;
pub mod types;
#[macro_use]
pub mod shapes;

macro_rules! groups {
    (all: $($f:literal $m:ident),* ; not_kani: $($g:literal $n:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        $( #[cfg(all(feature = $g, not(kani)))] pub mod $n; )*
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, extern "C-unwind" fn())> = Vec::new();
            $( #[cfg(feature = $f)] v.extend_from_slice($m::LIST); )*
            $( #[cfg(feature = $g)] v.extend_from_slice($n::LIST); )*
            #[cfg(feature = "c14")]
            for l in c14::MORE { v.extend_from_slice(l); }
            v
        }
    };
}

groups! {
    all:
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08,
    "c09" c09, "c09" c09_arity, "c09" c09_grid, "c10" c10, "c10" c10_crowd, "c11" c11, "c12" c12, "c12" c12_arity, "c13" c13, "c14" c14,
    "c15" c15, "c16" c16, "c17" c17, "c20" c20, "c21" c21, "c23" c23, "c23" c23_shapes;
    not_kani:
    "c01" c01_ir, "c02" c02_ir, "c06" c06_ir, "c07" c07_ir, "c17" c17_ir, "c18" c18_ir, "c18" c18_fmt_ir, "c19" c19_ir,
    "c20" c20_ir, "c22" c22_ir, "c26" c26, "c27" c27,
}
