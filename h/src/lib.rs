#![cfg_attr(not(feature = "std"), allow(unused))]
pub mod src;
#[macro_use]
pub mod mac;
#[macro_use]
pub mod table;
#[macro_use]
pub mod kinds;
#[macro_use]
pub mod fam;
pub mod edit;
pub mod spec;
pub mod text;
#[cfg(not(kani))]
pub mod shapes;
#[cfg(not(kani))]
pub mod sysexops;
pub mod val;
#[cfg(not(kani))]
pub mod big;
#[cfg(not(kani))]
pub mod known;

#[cfg(not(kani))]
pub type Harness = fn(&mut src::Native);

macro_rules! props {
    ($($f:literal $m:ident)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn list() -> Vec<(&'static str, Harness)> {
            let mut v: Vec<(&'static str, Harness)> = Vec::new();
            $( #[cfg(feature = $f)] v.extend_from_slice($m::LIST); )*
            $( #[cfg(feature = $f)] v.extend_from_slice($m::NLIST); )*
            #[cfg(feature = "c05")]
            {
                v.extend_from_slice(c05::pk::LIST);
                v.extend_from_slice(c05::multi::LIST);
                v.extend_from_slice(c05::texts::LIST);
                v.extend_from_slice(c05::names::LIST);
            }
            #[cfg(feature = "c07")]
            v.extend_from_slice(c07::multi::LIST);
            #[cfg(feature = "c09")]
            {
                v.extend_from_slice(c09::agg::LIST);
                v.extend_from_slice(c09::more::LIST);
            }
            #[cfg(feature = "c12")]
            v.extend_from_slice(c12::sizes::LIST);
            #[cfg(feature = "c14")]
            for l in [c14::set_0::LIST, c14::set_12::LIST, c14::set_13::LIST, c14::set_25::LIST] {
                v.extend_from_slice(l);
            }
            #[cfg(feature = "c16")]
            {
                v.extend_from_slice(c16::texts::LIST);
                v.extend_from_slice(c16::sysex::LIST);
                v.extend_from_slice(c16::packets::LIST);
            }
            #[cfg(feature = "c18")]
            {
                v.extend_from_slice(c18::text::LIST);
                v.extend_from_slice(c18::more::LIST);
            }
            v
        }
    };
}
props! { "c01" c01 "c02" c02 "c03" c03 "c04" c04 "c05" c05 "c06" c06 "c07" c07 "c08" c08 "c09" c09 "c10" c10 "c11" c11 "c12" c12 "c13" c13 "c14" c14 "c15" c15 "c16" c16 "c17" c17 "c18" c18 }
