#![allow(warnings)]
//! Generated code of shard 7 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s7.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s7_glue.rs"));
