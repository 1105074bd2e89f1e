//! Only there to build the runtime library that generated code is compiled against.
