include!("../build_common.rs");
