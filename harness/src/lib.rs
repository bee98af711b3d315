#[macro_use]
pub mod sx;
#[macro_use]
pub mod ix;
pub mod huge;

macro_rules! modules {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn tables() -> sx::Table {
            #[allow(unused_mut)]
            let mut v: sx::Table = Vec::new();
            $(#[cfg(feature = $f)] $m::table(&mut v);)*
            v
        }
    };
}
modules!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26);
