//! Obligations over the llrl0 crate (compiler front end, lowering, native backend) and the C runtime.
#![allow(dead_code, unused_imports, non_snake_case, unused_macros)]
macro_rules! props { ($($f:literal => $($m:ident)*, $e:ident;)*) => {
    $( props!(@mods $f; $($m)*); )*
    #[cfg(not(kani))]
    fn main() {
        #[allow(unused_mut)]
        let mut es: Vec<kit::Entry> = vec![];
        $( #[cfg(feature = $f)] es.extend($e::entries()); )*
        std::process::exit(kit::main_with(&es));
    }
}; (@mods $f:literal; $($m:ident)*) => { $( #[cfg(feature = $f)] pub mod $m; )* } }
props! {
    "c06" => c06, c06;
    "c07" => c06 c07, c07;
    "c09" => c06 irgen c09, c09;
    "c10" => c06 irgen c10 c10k, c10k;
    "c11" => c11, c11;
    "c12" => c11 c12, c12;
    "c13" => c13, c13;
    "c14" => front c14, c14;
    "c15" => c06 irgen c09 front surf sgen c15, c15;
    "c16" => c06 irgen c09 front surf sgen c15 c16, c16;
    "c22" => c22 c22k, c22k;
}
#[cfg(kani)]
fn main() {}
