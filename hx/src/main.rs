//! Obligations over the xten0 crate (assembler, object files, JIT linker).
#![allow(dead_code, unused_imports, non_snake_case)]
macro_rules! props { ($($f:literal => $($m:ident)*, $e:ident;)*) => {
    $( props!(@mods $f; $($m)*); )*
    #[cfg(not(kani))]
    fn main() {
        #[allow(unused_mut)]
        let mut es: Vec<kit::Entry> = vec![];
        $( #[cfg(feature = $f)] es.extend($e::entries()); )*
        std::process::exit(kit::main_with(&es));
    }
}; (@mods $f:literal; $($m:ident)*) => { $( #[cfg(feature = $f)] pub mod $m; )* } }
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c05"))]
pub mod dec;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03", feature = "c05"))]
pub mod regs;
#[cfg(all(feature = "c05", not(feature = "c03")))]
pub mod c03;
props! {
    "c01" => c01, c01;
    "c02" => c02_forms, c02_forms;
    "c03" => c03, c03;
    "c04" => c04, c04;
    "c05" => c05, c05;
}
#[cfg(kani)]
fn main() {}
