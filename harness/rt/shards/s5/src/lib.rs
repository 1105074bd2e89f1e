#![allow(warnings)]
//! Generated code of shard 5 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s5.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s5_glue.rs"));
