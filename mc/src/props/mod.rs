use crate::engine::{Opts, Phase, Tier};
macro_rules! props {
    ($($id:literal => $m:ident),* $(,)?) => {
        $(pub mod $m;)*
        pub const IDS: &[&str] = &[$($id),*];
        pub fn get(id: &str, tier: Tier) -> Option<(Vec<Phase>, Opts)> {
            let (mut ph, o) = match id { $($id => $m::phases(tier),)* _ => return None };
            ph.extend(crate::realcheck::phases(id));
            Some((ph, o))
        }
    };
}
#[cfg(not(feature = "nostd"))]
props! {
    "C01" => c01,
    "C02" => c02,
    "C03" => c03,
    "C04" => c04,
    "C05" => c05,
    "C06" => c06,
    "C07" => c07,
    "C08" => c08,
    "C09" => c09,
    "C10" => c10,
    "C11" => c11,
    "C12" => c12,
    "C13" => c13,
    "C14" => c14,
    "C15" => c15,
    "C16" => c16,
    "C17" => c17,
    "C18" => c18,
    "C21" => c21,
    "C22" => c22,
}
// those that C18 repeats with the build of the library without the standard library
#[cfg(feature = "nostd")]
props! {
    "C01" => c01,
    "C02" => c02,
    "C03" => c03,
    "C04" => c04,
    "C06" => c06,
    "C07" => c07,
    "C08" => c08,
    "C09" => c09,
    "C10" => c10,
    "C11" => c11,
    "C12" => c12,
    "C16" => c16,
    "C21" => c21,
}
