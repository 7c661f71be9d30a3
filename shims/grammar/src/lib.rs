include!(concat!(env!("OUT_DIR"), "/mounted.rs"));
