#![allow(warnings)]
//! Generated code of shard 2 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s2.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s2_glue.rs"));
