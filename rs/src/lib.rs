#![allow(unused, static_mut_refs)]
pub mod nd;
pub mod spec;
pub mod vm;
#[cfg(not(kani))]
pub mod bind;
macro_rules! props {
    ($($m:ident $p:literal $feat:literal),* $(,)?) => {
        $( #[cfg(feature = $feat)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn tables() -> Vec<(&'static str, &'static [(&'static str, fn())])> {
            let mut t: Vec<(&'static str, &'static [(&'static str, fn())])> = Vec::new();
            $( #[cfg(feature = $feat)] t.push(($p, $m::TABLE)); )*
            t
        }
        #[cfg(not(kani))]
        pub fn closed_tables() -> Vec<(&'static str, &'static [(&'static str, fn())])> {
            let mut t: Vec<(&'static str, &'static [(&'static str, fn())])> = Vec::new();
            $( #[cfg(feature = $feat)] t.push(($p, $m::CLOSED)); )*
            t
        }
    };
}
/// closed terms: evaluated, not proved
#[macro_export]
macro_rules! closed {
    ($( $(#[$m:meta])* fn $name:ident () $body:block )*) => {
        $( #[cfg(not(kani))] pub fn $name() { $body } )*
        #[cfg(not(kani))]
        pub const CLOSED: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
props! { c01 "C01" "c01", c02 "C02" "c02", c03 "C03" "c03", c04 "C04" "c04", c05 "C05" "c05", c06 "C06" "c06", c07 "C07" "c07", c08 "C08" "c08", c09 "C09" "c09", c14 "C14" "c14", c15 "C15" "c15", c10 "C10" "c10", c11 "C11" "c11", c13 "C13" "c13", c21 "C21" "c21", c16 "C16" "c16", c20 "C20" "c20", c18 "C18" "c18", c23 "C23" "c23", c19 "C19" "c19" }
