//! Harnesses: each function builds symbolic inputs, runs the real public API of /repo on them and
//! asserts one property.  Lengths, layouts and regions are chosen by `split` (one job each) or
//! `choose` (forked paths); digits and characters stay symbolic.
pub mod sym;
mod data;
mod store;
mod number;
mod text;
mod db;
pub use data::init;

macro_rules! all { ($($m:ident: $($f:ident)*;)*) => { pub const ALL: &[(&str, fn())] = &[$($((stringify!($f), $m::$f as fn())),*),*]; } }
all! {
    number: c02 c02n c02e c02s c03 c03h c03b c04 c04h c05 c05x c05b c06 c06x c06h c07 c07t c08 c08all c08s c08w c09 c09h c15 c22 c22x c24 c05w c25 c25b c25n c26 c26x c26b c27 c27l c01z;
    text: c01 c01l c01p c01n c01h c01i c10 c10s c10c c11 c11s c11t c12 c12w c12h c13 c13h c14 c16 c16c c16h c17 c17h c21 c21p;
    db: c18 c18d c18l c18n c18e c18b c18x c18m c19 c20 c20f c20u c23;
}
