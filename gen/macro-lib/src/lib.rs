include!(concat!(env!("OUT_DIR"), "/lib.rs"));
