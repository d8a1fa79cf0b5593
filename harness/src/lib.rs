//! Obligations on the code of /repo: see DESIGN.md.
#![allow(static_mut_refs)]
#![allow(dead_code)]
#[cfg(any(feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c15", feature = "c16", feature = "c17", feature = "c22", feature = "c24", feature = "c25", feature = "c27"))]
pub mod ctx;
#[cfg(any(feature = "c18", feature = "c19", feature = "c20"))]
pub mod curves;
#[cfg(any(feature = "c18", feature = "c19", feature = "c20"))]
pub mod fnum;
pub mod mock;
#[cfg(any(feature = "c11", feature = "c12", feature = "c13", feature = "c14"))]
pub mod prof;
pub mod sym;

macro_rules! properties {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        /// Every obligation of the selected properties.
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(feature = $f)] v.extend($m::list());)*
            #[cfg(feature = "c04")]
            v.extend(c04::more());
            v
        }
    };
}
properties!(
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27, "c28" c28
);
