#![allow(warnings)]
//! Generated code of shard 0 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s0.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s0_glue.rs"));
