#![allow(dead_code, unused_imports)]
extern crate self as hun_law;

#[cfg(all(not(kani), any(feature = "p13", feature = "p13b")))]
#[path = "/repo/src/bin/hun_law/fixup_editor.rs"]
pub mod fixup_editor;
#[path = "/repo/src/fixups.rs"]
pub mod fixups;
#[path = "/repo/src/identifier/mod.rs"]
pub mod identifier;
#[cfg(all(not(kani), feature = "p24"))]
#[path = "/repo/src/mk_downloader.rs"]
pub mod mk_downloader;
#[path = "/repo/src/output/mod.rs"]
pub mod output;
pub mod parser {
    #[path = "/repo/src/parser/mk_act_section.rs"]
    pub mod mk_act_section;
    #[cfg(all(not(kani), any(feature = "p23", feature = "p24")))]
    #[path = "/repo/src/parser/pdf/mod.rs"]
    pub mod pdf;
    #[cfg(not(all(not(kani), any(feature = "p23", feature = "p24"))))]
    pub mod pdf {
        #[derive(Debug, serde::Serialize)]
        pub struct PageOfLines {
            pub lines: Vec<crate::util::indentedline::IndentedLine>,
        }
    }
    #[path = "/repo/src/parser/structure/mod.rs"]
    pub mod structure;
    #[cfg(all(not(kani), feature = "p18"))]
    #[path = "/repo/src/parser/semantic_info/mod.rs"]
    pub mod semantic_info;
    include!(concat!(env!("OUT_DIR"), "/extra_parser_mods.rs"));
}
#[cfg(all(kani, feature = "p23"))]
pub mod pdf_parts {
    #[path = "/repo/src/parser/pdf/util.rs"]
    pub mod util;
}
#[path = "/repo/src/reference/mod.rs"]
pub mod reference;
#[path = "/repo/src/semantic_info.rs"]
pub mod semantic_info;
#[path = "/repo/src/structure.rs"]
pub mod structure;
#[path = "/repo/src/util/mod.rs"]
pub mod util;
// whatever other modules there are (none on the tree this was written for)
include!(concat!(env!("OUT_DIR"), "/extra_mods.rs"));

// The verification side: none of this is code under verification.
#[macro_use]
pub mod vf;
#[cfg(bare)]
pub mod bare;
#[cfg(all(not(kani), any(feature = "p13", feature = "p13b", feature = "p24")))]
pub mod disk;
pub mod gen;
#[cfg(not(kani))]
pub mod gen_act;
#[cfg(all(not(kani), feature = "p23"))]
pub mod gen_pdf;
#[cfg(not(kani))]
pub mod gen_raw;
#[cfg(all(not(kani), feature = "p18"))]
pub mod gen_phrase;
#[cfg(not(kani))]
pub mod lines;
#[cfg(all(not(kani), feature = "p24"))]
pub mod net;
pub mod props;
pub mod spec;
