#![allow(warnings)]
//! Generated code of shard 3 and its glue (written by the `gen` binary before this is built).
pub mod gen {
    include!(concat!(env!("MABO_GEN"), "/mabo/s3.rs"));
}
include!(concat!(env!("MABO_GEN"), "/mabo/s3_glue.rs"));
