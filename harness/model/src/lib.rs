//! Independent reference model of mabo: schema model, wire-format codec, bounded universes and
//! the reporting used by every check. Has no dependency on the code under test.
pub mod codec;
pub mod report;
pub mod ty;
pub mod universe;
pub mod val;
