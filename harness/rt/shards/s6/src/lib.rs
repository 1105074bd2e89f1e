#![allow(warnings)]
//! Generated code of shard 6 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s6.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s6_glue.rs"));
