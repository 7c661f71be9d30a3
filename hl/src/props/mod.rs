macro_rules! props {
    ($($m:ident $f:literal $($bare:literal)?),* $(,)?) => {
        // the second feature leaves out what needs access to private functions
        $(#[cfg(any(feature = $f $(, feature = $bare)?))] pub mod $m;)*
        pub const ALL: &[&[crate::vf::Ob]] = &[$(#[cfg(any(feature = $f $(, feature = $bare)?))] $m::REG),*];
    };
}
props! {
    p01 "p01",
    p02 "p02", p03 "p03", p04 "p04", p05 "p05", p06 "p06", p07 "p07",
    p08 "p08", p09 "p09", p10 "p10", p11 "p11", p12 "p12", p13 "p13" "p13b", p14 "p14", p15 "p15",
    p16 "p16" "p16b", p17 "p17", p18 "p18", p19 "p19", p20 "p20" "p20b", p21 "p21", p22 "p22", p23 "p23", p24 "p24", p25 "p25",
}
