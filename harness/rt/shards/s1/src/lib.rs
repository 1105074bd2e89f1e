#![allow(warnings)]
//! Generated code of shard 1 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s1.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s1_glue.rs"));
