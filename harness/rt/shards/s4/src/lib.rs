#![allow(warnings)]
//! Generated code of shard 4 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s4.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s4_glue.rs"));
